"""C15: results do not depend on how many attributes, predicates, subscriptions or nested formulas there are."""
import random
import re
from .lib import *

BIG = (4096, 0)
KIND = ["bool", "int", "str", "ilist", "float", "ienum", "slist"]


def leaf(n, ty, k):
    if ty == "bool":
        return ("bool", n)
    if ty == "int":
        return ("cmp", "<", n, k)
    if ty == "str":
        return ("eq", "=", n, "s")
    if ty == "ilist":
        return ("list", "one of", n, [k])
    if ty == "float":
        return ("cmp", ">", n, F(k))
    if ty == "ienum":
        return ("eq", "=", n, k)
    return ("in", "in", "s", V(n))


def val_(ty, k, yes):
    return {"bool": yes, "int": k - 1 if yes else k, "str": "s" if yes else "t", "ilist": [k] if yes else [k + 1], "float": F(k + 1 if yes else k), "ienum": k if yes else k + 1, "slist": ["s"] if yes else []}[ty]


def attributes(t, n, cap, mixed, req):
    """n attributes, one predicate on each (and on pairs at the ends of every 64), every index given alone or missing alone"""
    ty = [KIND[i % len(KIND)] if mixed else "bool" for i in range(n)]
    doms = [dom("a%d" % i, ty[i], not (req and i % 5 == 0)) for i in range(n)]
    edge = sorted({i for i in list(range(0, n, 64)) + list(range(63, n, 64)) + list(range(62, n, 64)) + [n - 1, n - 2, 0, 1, n // 2, 31, 32, 33] if 0 <= i < n})
    L = lambda i: leaf("a%d" % i, ty[i], i)
    ex = [L(i) for i in range(n)] + [("not", L(i)) for i in edge]
    for z, i in enumerate(edge):
        j = edge[(z * 3 + 1) % len(edge)]
        ex += [("and", L(i), L(j)), ("or", L(i), L(j)), ("not", ("and", L(i), L(j))), ("and", L(i), ("not", L(j))), ("or", ("not", L(j)), L(i))]
    if not req:
        ex += [("null", o, "a%d" % i) for i in edge for o in ("is null", "is not null")]
    w = World(doms, [(i + 1, e) for i, e in enumerate(ex)], *cap)
    if not setup(t, w):
        return
    full = {"a%d" % i: val_(ty[i], i, True) for i in range(n)}
    need = {"a%d" % i: val_(ty[i], i, False) for i in range(n) if req and i % 5 == 0}
    evs = [full, {a: val_(ty[i], i, False) for i, a in enumerate(full)}, dict(need)]
    probe = edge if n > 40 else range(n)
    for i in probe:
        a = "a%d" % i
        evs.append(dict(need, **{a: full[a]}))
        if a not in need:
            evs.append({k: v for k, v in full.items() if k != a})
    events(t, w, evs)


def subs(t, n, cap, share):
    """n subscriptions, distinct or sharing predicates"""
    doms = [dom("x", "int", True, 0, n), dom("b", "bool")]
    ex = [("cmp", "<", "x", i if not share else i % share) if i % 3 else ("and", ("eq", "=", "x", i if not share else i % share), ("bool", "b")) for i in range(n)]
    w = World(doms, [(n * 7 + i, e) for i, e in enumerate(ex)], *cap)
    if not setup(t, w):
        return
    events(t, w, [{"x": v, "b": b} for v, b in ((0, True), (n // 2, True), (n - 1, False), (n, True), (1, True), (63, True), (64, True), (65, False))] + [{"b": True}])


def crowd(t, n, cap):
    """so many subscriptions in one node, matching or not, that every growing array grows often"""
    doms = [dom("b", "bool", False), dom("x", "int")]
    ex = [("lit", True), ("bool", "b"), ("not", ("bool", "b"))]
    w = World(doms, [(i + 1, ex[0 if i % 97 else 1 + i % 2]) for i in range(n)], *cap)
    if not setup(t, w):
        return
    events(t, w, [{"b": True}, {"b": False, "x": 1}])
    x = t.guard("exists", t.a.exists, {"b": True})
    t.check(x is NOFAULT or bool(x), "exists says there is no match")


def grown(t, steps, cap, mixed, how):
    """attributes declared in several instalments, with insertions and searches in between: what was made before an attribute
    was declared says nothing about it"""
    a = t.a
    a.make(*cap)
    n, doms, w, ids, made, old = 0, [], None, 0, [], None
    ty = lambda i: KIND[i % len(KIND)] if mixed else ("bool", "int")[i % 2]
    L = lambda i: leaf("a%d" % i, ty(i), i)
    w = World(doms, [], *cap)
    for step, m in enumerate(steps):
        lo = n
        for i in range(n, m):
            d = dom("a%d" % i, ty(i), not (step and i % 9 == 4), *((0, m) if ty(i) in ("int", "ilist") else ()))
            doms.append(d)
            a.domain(*d)
        n = m
        for x in made:
            r = t.guard("betree_insert_sub of '%s', made before %d more attributes were declared" % (show(x[1]), n - lo), a.insert_sub, x[3])
            if r is NOFAULT:
                return
            w.subs.append((x[0], x[1], None))
        made = []
        edge = sorted({i for i in (0, 1, 62, 63, 64, 65, 126, 127, 128, 129, lo - 1, lo, lo + 1, n - 2, n - 1) if 0 <= i < n})
        ex = []
        for z, i in enumerate(edge):
            j = edge[(z * 3 + 1 + step) % len(edge)]
            ex += [L(i), ("not", L(i)), ("and", L(i), L(j)), ("or", L(j), ("not", L(i)))] + ([("null", "is null", "a%d" % i)] if doms[i][2] else [])
        for e in ex:
            ids += 1
            t.begin()
            if how == "make" and ids % 3 == 0:
                r = t.guard("betree_make_sub '%s' with %d attributes declared" % (show(e), n), a.make_sub, ids, e)
                if r is NOFAULT:
                    return
                made.append((ids, e, None, r))
                continue
            r = t.guard("insert '%s' with %d attributes declared, %s before" % (show(e), n, steps[:step]), a.insert, ids, e)
            if r is NOFAULT:
                return
            t.check(r, "insert of the valid '%s' is refused" % show(e))
            w.subs.append((ids, e, None))
        full = {"a%d" % i: val_(ty(i), i, True) for i in range(n)}
        need = {"a%d" % i: val_(ty(i), i, False) for i in range(n) if not doms[i][2]}
        evs = [full, {"a%d" % i: val_(ty(i), i, False) for i in range(n)}, dict(need)]
        for i in edge:
            k = "a%d" % i
            evs.append(dict(need, **{k: full[k]}))
            if k not in need:
                evs.append({q: v for q, v in full.items() if q != k})
        events(t, w, evs)
        if old:
            ev, oev = old
            if not need.keys() - ev.keys():
                d = t.guard("betree_search_with_event of an event made before %d attributes were declared" % (n - lo), a.search_with, oev)
                if d is NOFAULT:
                    return
                t.check(d is not None and sorted(d["ids"]) == expected(w, ev), lambda: "an event made before %d attributes were declared: %s" % (n - lo, diff(w, ev, expected(w, ev), d and sorted(d["ids"]))))
            a.call("betree_free_event", oev)
        ev = {q: v for i, (q, v) in enumerate(full.items()) if i % 2 or q in need}
        old = (ev, a.event(doms, ev))
    a.call("betree_free_event", old[1])
    for x in made:
        t.guard("betree_insert_sub", a.insert_sub, x[3])
    t.guard("betree_free", a.free)


def nest(t, depth, ops, side, cap):
    """a formula of the given depth"""
    doms = [dom("x", "int", True), dom("b", "bool"), dom("c", "bool")]
    L = [("bool", "b"), ("bool", "c"), ("cmp", "<", "x", 3), ("not", ("cmp", ">", "x", 7)), ("null", "is null", "x")]
    e = ("bool", "b")
    for k in range(depth):
        x = L[k % 5]
        o = ops[k % len(ops)]
        e = ("not", e) if o == "not" else (o, e, x) if side == "left" or side == "both" and k % 2 else (o, x, e)
    w = World(doms, [(1, e), (2, ("not", e))], *cap)
    if setup(t, w):
        events(t, w, [{k: v for k, v in dict(b=b, c=c, x=x).items() if v is not None} for b in (True, False, None) for c in (True, False, None) for x in (2, 5, 9, None)])


def lists(t, n, cap):
    """long literal and event lists"""
    doms = [dom("l", "ilist"), dom("s", "slist"), dom("x", "int"), dom("u", "str")]
    I = [A(1, 3 * k) for k in range(n)]
    S = ["w%03d" % k for k in range(n)]
    ex = [("list", o, "l", I) for o in ("one of", "none of", "all of")] + [("list", o, "s", S) for o in ("one of", "none of", "all of")] + [("in", o, V("x"), I) for o in ("in", "not in")] + [("in", o, V("u"), S) for o in ("in", "not in")] + \
         [("list", "all of", "l", [I[0], I[-1]]), ("list", "all of", "s", [S[0], S[-1]]), ("in", "in", I[-1], V("l")), ("in", "in", S[-1], V("s")), ("in", "in", I[n // 2], V("l"))]
    w = World(doms, [(i + 1, e) for i, e in enumerate(ex)], *cap)
    if not setup(t, w):
        return
    evs = []
    for k in sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n))):
        evs += [{"l": [I[k]], "s": [S[k]], "x": I[k], "u": S[k]}, {"l": I[:k] + I[k + 1:], "s": S[k + 1:] + S[:k], "x": I[k] + 1, "u": S[k] + "x"}, {"l": [I[k] + 1, I[k] - 1], "s": [S[k] + "z"], "x": I[k] - 1, "u": S[k][:-1]}]
    evs += [{"l": I, "s": S}, {"l": I[::-1] + I, "s": S[::-1] + S}, {}]
    events(t, w, evs)


def strings(t, n):
    """long strings"""
    doms = [dom("s", "str"), dom("l", "slist")]
    a = "ab" * (n // 2) + "c"
    ex = [("eq", "=", "s", a), ("eq", "<>", "s", a), ("in", "in", V("s"), [a, a + "x"]), ("str", "contains", "s", a[1:-1] or "b"), ("str", "starts_with", "s", a[:-1] or "a"), ("str", "ends_with", "s", a[1:] or "c"), ("in", "in", a, V("l"))]
    w = World(doms, [(i + 1, e) for i, e in enumerate(ex)])
    if setup(t, w):
        events(t, w, [{"s": s, "l": [s]} for s in (a, a[:-1], a + "x", a[1:], "", "x" + a)])


def counters(ck):
    """a counter narrower than 32 bits wraps: what the code increments, or stores from a 16 bit sum, is wide enough for any number of things"""
    n, bad, fn, sums, small = 0, [], None, {}, set()
    for l in ck.text.split("\n"):
        if l.startswith("define "):
            m = re.search(r"@([\w.]+)\(", l)
            fn = None if re.match(r"(xx|zz|yy)", m[1]) else m[1]
            sums, small = {}, set()
            continue
        if fn is None:
            continue
        m = re.match(r"  (%[\w.]+) = (?:urem|srem|and|lshr|ashr) ", l)
        if m:
            small.add(m[1])
        m = re.match(r"  (%[\w.]+) = (add|sub|mul|trunc) (?:nuw |nsw )*(i\d+) (\S+?),? (\S+)(?: (i\d+))?", l)
        if not m:
            continue
        n += 1
        if m[2] != "trunc":
            sums[m[1]] = m[3]
            w = m[3] if m[3] == "i16" or m[3] == "i8" and m[5].rstrip(",") in ("1", "-1") else None
        else:
            # (a remainder or some bits of a wide value may be narrow)
            w = m[6] if m[6] == "i16" and (m[3] == "i64" or m[4] in sums) or m[6] == "i8" and m[3] == "i64" and m[4] not in small else None
        if w:
            d = re.search(r"!dbg !(\d+)", l)
            ln = d and re.search(r"^!%s = !DILocation\(line: (\d+)" % d[1], ck.text, re.M)
            bad.append("%s (%s%s) counts in %s bits" % (fn, ck.eng.m.func_src(fn)[1] or "?", ":%s" % ln[1] if ln else "", w[1:]))
    return n, bad, "sums and narrowings of integers outside the generated scanners and parsers"


def build(ck):
    ck.rule("no counter narrower than 32 bits", counters)
    ck.partition = ("Sizes on both sides of every width the code uses (words of 64 bits in the bitmaps, powers of two of the maps, one byte and more of ids): attributes, subscriptions, shared predicates, depth of formulas, "
                    "elements of lists, length of strings; each index is the only one given, or the only one missing.")
    q = ck.quick
    if q:
        ck.task("257 attributes", attributes, 257, BIG, False, False)
    for n in sorted((1, 2, 31, 32, 33, 63, 64, 65, 66, 96, 127, 128, 129, 130) + (() if q else (191, 192, 193, 255, 256, 257, 320)), reverse=True):
        for k, cap in enumerate([BIG, (3, 0), (1, 0)]):
            if q and n > 66 and (n + k) % 3:
                continue
            ck.task("%d attributes" % n, attributes, n, cap, False, k == 1)
            if not q or (n + k) % 2 and (n < 66 or k == 0):
                ck.task("%d attributes of all types" % n, attributes, n, cap, True, k == 0)
    for n in (1, 4, 63, 64, 65, 128, 129, 200) + (() if q else (257, 400)):
        for cap in (BIG, (3, 0), (1, 0)):
            for share in (0, 7, 70):
                if q and (n > 130 and share != 70 or share > n):
                    continue
                ck.task("%d subscriptions" % n, subs, n, cap, share)
    for n in (300, 700, 1400, 2700) + (() if q else (5200, 10300)):
        ck.task("%d candidates" % n, crowd, n, (1 << 16, 0))
    for k, steps in enumerate(((1, 2), (5, 70), (63, 64), (63, 65), (64, 66, 130), (62, 63, 64, 65), (127, 129), (0, 64, 128)) + (() if q else ((20, 200), (1, 63, 127, 191), (128, 256, 257)))):
        for j, cap in enumerate((BIG, (3, 0), (1, 0))):
            for how in ("insert", "make"):
                if not q or (j + k + (how == "make")) % 2 or k == 1:
                    ck.task("attributes declared in %d steps" % len(steps), grown, steps, cap, (j + k) % 2 == 0, how)
    for d in (1, 2, 3, 10, 33, 64, 65):
        for ops in (("and",), ("or",), ("not",), ("and", "or"), ("and", "not", "or"), ("or", "or", "not", "and")):
            for side in ("left", "right", "both"):
                if d > 40 and side == "both" and q:
                    continue
                ck.task("depth %d" % d, nest, d, ops, side, [BIG, (1, 0)][d % 2])
    for n in (1, 2, 3, 5, 8, 17, 33, 65) + (() if q else (129, 200)):
        ck.task("lists of %d" % n, lists, n, BIG)
    for n in (1, 2, 3, 15, 16, 17, 63, 64, 65, 255, 256, 257, 1000):
        ck.task("strings of %d" % n, strings, n)
