"""Partitions directed by the constants of the analysed program (sa/marks.py): sizes and values on both sides of every one.

Where the behaviour of the code changes with a size or a value, it compares, masks, shifts or narrows with a constant; the
constants are read from the IR of the tree under analysis, so a change that introduces a new limit brings its own classes."""
import random
from .lib import *

BIG = (4096, 0)
US = 1000000
B32 = (1 << 32) - 1


def clusters(ck, lo=-(1 << 62), hi=1 << 62):
    """the constants, and their negations"""
    out = set()
    for v in ck.marks.ints | {int(f) for f in ck.marks.floats if f == int(f)}:
        for s in (v, -v):
            if lo + 3 < s < hi - 3:
                out.add(s)
    return sorted(out)


def words(ck):
    """strings of the program's constants, and strings around its characters"""
    out = [s for s in sorted(ck.marks.strs) if "%" not in s]
    for c in sorted(ck.marks.chars):
        c = chr(c)
        out += [c, "a" + c, c + "b", "a%sb" % c, c + c]
    return list(dict.fromkeys(out))


def world(t, doms, exprs, evs, cap=BIG):
    match_world(t, World(doms, [(i + 1,) + (e if isinstance(e, tuple) and e and isinstance(e[0], tuple) else (e, None)) for i, e in enumerate(exprs)], *cap), evs)


def names(t, n):
    """attributes whose names agree in the first n letters, or the last n, or are n letters of one another"""
    b = "".join(chr(97 + (i * 5) % 23) for i in range(n))
    N = list(dict.fromkeys([b + "_a", b + "_b", b, b + "_", "a_" + b, "b_" + b] + ([b[:-1]] if n > 1 else [])))
    doms = [dom(m, ("int", "str")[i % 3 == 2]) for i, m in enumerate(N)]
    ex = [("cmp", "<", d[0], 5) if d[1] == "int" else ("eq", "=", d[0], "v") for d in doms]
    val = lambda d, k: (4, 6)[k] if d[1] == "int" else "vw"[k]
    world(t, doms, ex, [{d[0]: val(d, (i + k) % 2) for i, d in enumerate(doms)} for k in (0, 1)] + [{d[0]: val(d, 0)} for d in doms])


def limits(op, n, c, mk=lambda v: v):
    return [("cmp", o, n, mk(c)) for o in ("<", "<=", ">", ">=")] + [("eq", o, n, mk(c)) for o in ("=", "<>")]


def parts(t, n, cap):
    """n attributes, every one a part of the index with subscriptions of its own"""
    doms = [dom("a%d" % i, "int", i % 3 > 0, 0, 7) for i in range(n)]
    ex = [("cmp", ("<", ">=")[k], "a%d" % i, 4) for i in range(n) for k in (0, 1)] + [("eq", "=", "a%d" % i, 3) for i in range(n)]
    req = {d[0]: 1 for d in doms if not d[2]}
    edge = sorted({0, 1, n // 2, n - 2, n - 1, 30, 31, 32, 63, 64} & set(range(n)))
    world(t, doms, ex, [{d[0]: 3 for d in doms}, {d[0]: 5 for d in doms}, req] + [dict(req, **{"a%d" % i: v}) for i in edge for v in (3, 6)], cap)


# ------------------------------------------------------------------------------------------------ values
def C01(ck):
    for q in chunks(clusters(ck), 2):
        for ty, mk in (("int", lambda v: v), ("float", F), ("ienum", None)):
            ex, evs = [], []
            for c in q:
                for v in (c - 1, c, c + 1):
                    ex += limits(0, "x", v, mk) if mk else [("eq", o, "x", v) for o in ("=", "<>")]
                for v in (c - 2, c - 1, c, c + 1, c + 2):
                    evs.append({"x": F(v) if ty == "float" else v})
                if ty == "float" and abs(c) < 1 << 40:
                    ex += limits(0, "x", c + 0.5, F)
                    evs += [{"x": F(c + 0.5)}, {"x": F(c - 0.25)}]
            ck.task("%s values around %r" % (ty, q), world, [dom("x", ty)], ex + [("not", e) for e in ex[::2]], evs)
    for f in sorted(v for v in ck.marks.floats if v == 0 or abs(v) > 1e-9):        # equality of floats is within DBL_EPSILON
        vs = [f, f + 1, f - 1, f * 2, -f, f + 1e-3, f / 2, f * (1 + 1e-9)]
        ck.task("float values around %r" % f, world, [dom("x", "float")], [e for v in vs for e in limits(0, "x", v, F)], [{"x": F(v)} for v in vs])
    for q in chunks(words(ck), 10):
        ck.task("strings of the program", world, [dom("x", "str")], [(k, o, "x", s) for s in q for k, o in (("eq", "="), ("eq", "<>"), ("req", "="))], [{"x": s} for s in q] + [{"x": s + " "} for s in q[:3]] + [{"x": s[:-1]} for s in q] + [{}])


def C02(ck):
    from .c15 import lists
    for q in chunks(clusters(ck), 2):
        ex, evs = [], []
        for c in q:
            for l in ([c], [c - 1, c + 1], [c, c + 1], [c - 1, c, c + 1]):
                ex += [("in", o, V("x"), l) for o in ("in", "not in")] + [("list", o, "l", l) for o in ("one of", "none of", "all of")]
            ex += [("in", o, c + d, V("l")) for o in ("in", "not in") for d in (-1, 0, 1)]
            evs += [{"x": c + d, "l": [c + d]} for d in (-2, -1, 0, 1, 2)] + [{"l": [c - 1, c + 1]}, {"l": [c, c + 1]}, {"l": [c + 1, c, c - 1]}]
        ck.task("members around %r" % (q,), world, [dom("x", "int"), dom("l", "ilist")], ex, evs)
    for q in chunks(words(ck), 10):
        ex = [("in", o, V("x"), [s, "zz"]) for s in q for o in ("in", "not in")] + [("in", "in", s, V("l")) for s in q] + [("list", o, "l", [s, t_]) for s, t_ in zip(q, q[1:]) for o in ("one of", "all of", "none of")]
        ck.task("strings of the program as members", world, [dom("x", "str"), dom("l", "slist")], ex, [{"x": s, "l": [s]} for s in q] + [{"x": "q", "l": q}, {"l": ["zz"]}, {}])
    for n in ck.marks.sizes(2, 400):
        ck.task("lists of %d" % n, lists, n, BIG)

    def aligned(t, ty, n, at):
        """a long list, and events that share exactly one member with it, at chosen places, alone or among as many others"""
        mem = (lambda i: 2 * i) if ty == "ilist" else (lambda i: "v%d" % i)
        gap = (lambda i: 2 * i + 1) if ty == "ilist" else (lambda i: "g%d" % i)
        D = [dom("l", ty)]
        L = [mem(i) for i in range(n)]
        lo, hi = [gap(i) for i in range(-n - 1, 0)], [gap(i) for i in range(n, 2 * n + 1)]
        subs = [("list", "one of", "l", lo)] * (ty == "slist") + [("list", o, "l", L) for o in ("one of", "none of")] + [("list", "all of", "l", L[:1])]
        G = [gap(i) for i in range(n)]
        if ty == "slist":
            subs.append(("list", "one of", "l", G + hi))
        evs = []
        for k in at:
            evs += [{"l": [mem(k)]}, {"l": [mem(k)] + G}, {"l": [mem(k)] + G[:k]}, {"l": G[k:] + [mem(k)]}]
        for k in at[::2]:
            evs += [{"l": [mem(k)] + hi}, {"l": lo + [mem(k)]}, {"l": [mem(k)] + hi[:n // 2]}, {"l": lo[n // 2:] + [mem(k)]}]
        world(t, D, subs, evs + [{"l": G}])
        t.a.reset()
        # the long list in the event
        world(t, D, ([("list", "one of", "l", G)] if ty == "slist" else []) + [e for k in at for e in (("list", "all of", "l", [mem(k)]), ("list", "all of", "l", [mem(k), mem(n - 1)]), ("list", "none of", "l", [mem(k), gap(k)]), ("in", "in", mem(k), V("l")), ("in", "in", gap(k), V("l")))] + [("list", "all of", "l", L)],
              [{"l": L}] + [{"l": L[:k] + L[k + 1:]} for k in at[::3]])
    S = [c for c in ck.marks.sizes(2, 400) if c + 1 in ck.marks.ints or c - 1 in ck.marks.ints or c in ck.marks.ints]
    for n in sorted({c + d for c in S for d in (0, 2)} | {2 * c + 3 for c in ck.marks.sizes(2, 200)})[::3]:
        if n > 300 and ck.quick:
            continue
        at = sorted({0, n // 2, n - 1} | {c + d for c in ck.marks.ints if 0 < c < n for d in (-1, 0)} & set(range(n)))
        for ty in ("ilist", "slist"):
            ck.task("single members of lists of %d (%s)" % (n, ty), aligned, ty, n, at if len(at) < 26 else at[::2])


def C03(ck):
    from .c03 import subs_of, run, CONST
    zz = dom("zz", "bool")
    d = [dom("sg", "seg"), dom("now", "int"), zz]
    df = [dom("frequency_caps", "freq"), dom("now", "int"), zz]
    cl = [c for c in clusters(ck) if abs(c) < 1 << 40]
    for q in chunks(cl, 3):
        ex, evs = [], []
        for c in q:
            ex += [("seg", o, "sg", c + k, 20) for o in ("segment_within", "segment_before") for k in (0, 1)]
            evs += [{"sg": Seg([(c + k, ts * US)]), "now": 100, "zz": False} for k in (-1, 0, 1) for ts in (95, 10)]
        ck.task("segment ids around %r" % (q,), world, d, ex, evs)
        ex, evs = [], []
        for c in q:
            ex += [("seg", o, "sg", 7, c) for o in ("segment_within", "segment_before")]
            for now in (c, 50):
                evs += [{"sg": Seg([(7, (now - c) * US + k)]), "now": now, "zz": False} for k in (-US, -1, 0, 1, US)] + [{"sg": Seg([(7, c * US + k)]), "now": now, "zz": False} for k in (-1, 0, 1)] + [{"sg": Seg([(7, c + k)]), "now": now, "zz": False} for k in (-1, 0, 1)]
            if c >= 0:
                evs += [{"sg": Seg([(1000 + k, 0) for k in range(min(c, 300))] + [(7, 45 * US)]), "now": 50, "zz": False}]
        ck.task("segment times around %r" % (q,), world, d, ex, evs)
        ex, evs = [], []
        for c in q:
            if c < 0:
                continue
            con = dict(CONST, flight_id=min(c, (1 << 31) - 1))
            ex += [(("freq", "flight", "ns", 5, c), CONST), (("freq", "flight", "ns", min(c, (1 << 31) - 1), 20), CONST), (("freq", "flight", "ns", 5, 20), con)]
            for now in (c, 100):
                evs += [{"frequency_caps": Caps([("flight", 4, "ns", v, (now - c) * US + k)]), "now": now, "zz": False} for k in (-1, 0, 1) for v in (4, 9)]
            evs += [{"frequency_caps": Caps([("flight", i, "ns", v, 95 * US)]), "now": 100, "zz": False} for i in {4, con["flight_id"], max(0, con["flight_id"] - 1)} for v in {max(0, min(c + k, B32)) for k in (-1, 0, 1)} | {9}]
            evs += [{"frequency_caps": Caps([("flight", 10 + k, "ns", 9, 95 * US) for k in range(min(c, 200))] + [("flight", 4, "ns", 9, 95 * US)]), "now": 100, "zz": False}]
        if ex:
            ck.task("caps around %r" % (q,), world, df, ex, evs)
    W = words(ck)
    for q in chunks(W, 6):
        ps = [p for s in q for p in (s, s[1:], s[:-1]) if p]
        ck.task("patterns of the program's strings", world, [dom("s", "str")], [("str", o, "s", p) for p in ps for o in ("contains", "starts_with", "ends_with")], [{"s": x} for s in q for x in (s, "x" + s, s + "x", "x%sx" % s, s[:-1], s[1:])])
        ck.task("namespaces of the program's strings", world, df, [(("freq", "flight", s, 5, 0), CONST) for s in q], [{"frequency_caps": Caps([("flight", 4, s, 9, 95 * US)]), "now": 100} for s in q + ["zz"]])
    for q in chunks(ck.marks.sizes(2, 1100), 4):
        ex, evs = [], []
        for n in q:
            b = "".join(chr(97 + (i * 7) % 23) for i in range(n))
            ex += [("str", o, "s", p) for o in ("contains", "starts_with", "ends_with") for p in (b, b[:-1] + "y", "y" + b[1:], b[:n // 2] + "y" + b[n // 2 + 1:])]
            evs += [{"s": x} for x in (b, b + "z", "z" + b, "z" + b + "z", b[:-1], b[1:], "y" + b[1:], b[:-1] + "y", b[:n // 2] + "y" + b[n // 2 + 1:])]
        ck.task("patterns of %r" % (q,), world, [dom("s", "str")], ex, evs)


def C04(ck):
    from .c15 import nest
    for n in ck.marks.sizes(2, 150):
        ck.task("depth %d" % n, nest, n, [("and", "or"), ("or", "not", "and"), ("and",), ("or",)][n % 4], ["left", "right", "both"][n % 3], [BIG, (1, 0)][n % 2])


def C05(ck):
    from .c05 import world as w5
    for q in chunks(clusters(ck), 2):
        P, E = [], []
        for c in q:
            vs = (c - 1, c, c + 1)
            for v in vs:
                P += [("cmp", "<", "i", v), ("eq", "=", "i", v), ("eq", "=", "e", v), ("in", "in", V("i"), [v]), ("in", "in", v, V("l")), ("list", "one of", "l", [v, c + 9]), ("cmp", ">=", "f", F(v)), ("seg", "segment_within", "sg", v, 20), ("in", "not in", V("i"), [c - 5, v])]
                if 0 <= v < 1 << 31:
                    P += [("freq", "flight", "x", v, 20), ("freq", "flight", "x", 5, v)]
            for v in (c - 2,) + vs + (c + 2,):
                E.append({"i": v, "e": v, "l": [v], "f": F(v), "sg": Seg([(v, 95 * US)]), "now": 100, "frequency_caps": Caps([("flight", 4, "x", max(0, min(v, B32)), 95 * US)])})
        ck.task("predicates that differ around %r" % (q,), w5, P, 2, q[0], E)
    for q in chunks(words(ck), 8):
        P = [e for s in q for e in (("eq", "=", "s", s), ("in", "in", V("s"), [s, "zz"]), ("in", "in", s, V("sl")), ("str", "contains", "s", s), ("list", "one of", "sl", [s, "zz"]), ("freq", "flight", s, 5, 20))]
        ck.task("strings of the program", w5, P, 2, 1, [{"s": s, "sl": [s], "now": 100, "frequency_caps": Caps([("flight", 4, s, 9, 95 * US)])} for s in q + ["zz"]])
    from .c05 import shared
    for n in ck.marks.sizes(2, 1100):
        ck.task("%d shared predicates" % n, shared, n, 2)


def C06(ck):
    from .c06 import one_attr
    for n in ck.marks.sizes(1, 300):
        if n < 140 or not ck.quick:
            ck.task("parts for %d attributes" % n, parts, n, [(1, 0), (3, 0), (2, 4)][n % 3 if n < 50 else 0])
    for k, c in enumerate(clusters(ck)):
        pos = [c + d for d in range(-2, 3)]
        preds = [e for p in pos for e in limits(0, "x", p)] + [("in", o, V("x"), l) for o in ("in", "not in") for l in ([c], [c - 1, c + 1])]
        ck.task("integers around %d" % c, one_attr, "int", k % 2 == 0, c - 2, c + 2, preds, [{"x": c + d} for d in range(-4, 5)], (1, 0), k)
        ls = [[p] for p in pos] + [pos[:2], pos[-2:]]
        ck.task("integer lists around %d" % c, one_attr, "ilist", k % 2 == 1, c - 2, c + 2, [("list", o, "x", l) for o in ("one of", "none of", "all of") for l in ls], [{"x": l} for l in [[], [c - 4], [c + 4], pos] + ls], (1, 0), k)
        if abs(c) < 1 << 40:
            ck.task("floats around %d" % c, one_attr, "float", k % 2 == 0, c - 2, c + 2, [e for p in pos for e in limits(0, "x", p + 0.5 * (k % 2), F)], [{"x": F(c + d / 2)} for d in range(-7, 8)], (1, 0), k)
        # so many values in the domain
        for lo in ((0, -c // 2) if c > 4 else ()):
            hi = lo + c - 1
            pos = sorted({lo, lo + 1, lo + c // 2, lo + c // 2 + 1, hi - 1, hi})
            preds = [e for p in pos for e in limits(0, "x", p)]
            for d in (-1, 0, 1):
                ck.task("a domain of %d values" % (c + d), one_attr, "int", d == 0, lo, hi + d, preds, [{"x": p + z} for p in pos for z in (0, 1)] + [{"x": lo - 1}, {"x": hi + d}, {"x": hi + d + 1}], (1, 0), k)
                if d == 0:
                    ck.task("lists in a domain of %d values" % c, one_attr, "ilist", lo == 0, lo, hi, [("list", o, "x", l) for o in ("one of", "none of", "all of") for l in [[p] for p in pos] + [pos[:2], pos[-2:]]], [{"x": l} for l in [[], pos, [lo - 1], [hi + 1]] + [[p] for p in pos]], (1, 0), k)
                    if c < 1 << 40:
                        ck.task("floats in a domain of %d values" % c, one_attr, "float", lo == 0, lo, hi, [e for p in pos for e in limits(0, "x", p, F)], [{"x": F(p + z)} for p in pos for z in (-0.5, 0, 0.5)], (1, 0), k)
        if 1 < c < (140 if ck.quick else 400):
            # capacity of a node, smallest size of a part, capacity of an attribute
            for n in (c - 1, c, c + 1):
                ex = [("cmp", ("<", ">=")[i % 2], "x", i % 16) if i % 3 else ("eq", "=", "x", i % 16) for i in range(n + c + 2)]
                if n:
                    ck.task("%d subscriptions in nodes of %d" % (len(ex), n), world, [dom("x", "int", True, 0, 15)], ex, [{"x": v} for v in (0, 5, 15, 16)] + [{}], (n, 0))
                ck.task("parts of at least %d" % n, world, [dom("x", "int", True, 0, 15), dom("b", "bool")], ex, [{"x": v, "b": True} for v in (0, 5, 15, 16)] + [{}], (3, n))
            from .c13 import many
            for n in (c - 1, c, c + 1):
                if n and n < 130:
                    ck.task("%d strings" % n, many, ("str", "slist")[n % 2], ["v%d" % z for z in range(n)], (1, 0), (None, n, n + 1)[n % 3], n, False)


def C07(ck):
    from .c07 import history
    for n in ck.marks.sizes(1, 300):
        if n < 140 or not ck.quick:
            ck.task("parts for %d attributes" % n, parts, n, (1, 0))
    cl = clusters(ck)
    doms = [dom("x", "int", True, 0, 15), dom("b", "bool")]
    for k, q in enumerate(chunks(cl, 4)):
        ids = [c + d for c in q for d in (-1, 0, 1)]
        ex = [("cmp", ("<", ">=")[i % 2], "x", (i * 5) % 16) if i % 4 else ("lit", True) for i in range(len(ids))]
        ck.task("ids around %r" % (q,), history, doms, ex, [{"x": v} for v in (0, 7, 15)] + [{"b": True}], [(1, 0), (3, 0)][k % 2], ids, 3)
    from .c15 import crowd, subs
    for n in ck.marks.sizes(2, 1100):
        if n < 300:
            ck.task("%d subscriptions" % n, subs, n, (3, 0), 0 if n < 70 else 70)
        ck.task("%d candidates" % n, crowd, n, (1 << 16, 0))


def C08(ck):
    from .c08 import run
    for k, c in enumerate(clusters(ck)):
        for ty, mk in (("int", lambda v: v), ("float", F)):
            if ty == "float" and abs(c) > 1 << 40:
                continue
            if ck.quick and (k + (ty == "float")) % 2:
                continue
            lv = [e for p in (c - 2, c, c + 2) for e in limits(0, "x", p, mk)]
            R = random.Random(k)
            fm = lv + [("not", e) for e in lv] + [(R.choice(("and", "or")), R.choice(lv), R.choice(lv)) for _ in range(30)] + [("not", (R.choice(("and", "or")), R.choice(lv), R.choice(lv))) for _ in range(20)] + [(o, e, ("bool", "y")) for e in lv for o in ("and", "or")]
            ck.task("formulas around %d" % c, run, [dom("x", ty, k % 3 > 0, c - 3, c + 3), dom("y", "bool", True)], fm, [{"x": mk(c + d), "y": d % 2 == 0} for d in range(-4, 5)], (1, 0))


def C10(ck):
    from .c10 import oneof, late, counts
    for q in chunks(ck.marks.sizes(1, 300), 5):
        ck.task("one of %r" % (q,), oneof, q, BIG)
    for k, q in enumerate(chunks(ck.marks.sizes(18, 140), 4)):
        ck.task("failing candidates %r" % (q,), late, k % 5, q, BIG)
    for n in ck.marks.sizes(1, 300)[::3]:
        ck.task("counters %d" % n, counts, n, n % 2 == 0)
    doms = [dom("x", "int", True, 0, 15), dom("b", "bool")]
    from .c10 import agree
    for c in clusters(ck):
        if abs(c) > 16:
            ck.task("agreement around %d" % c, agree, [dom("x", "int"), dom("b", "bool")], [(e, None) for v in (c - 1, c, c + 1) for e in limits(0, "x", v)], [{"x": c + d} for d in (-2, -1, 0, 1, 2)], [(3, 0), BIG][c % 2])

    def ids(t, vals):
        """one subscription matches, and its id is one of the program's numbers"""
        base = t.e.snapshot()
        for v in vals:
            t.e.restore(base)
            w = World(doms, [(v, ("cmp", "<", "x", 5)), (v + 7, ("cmp", ">", "x", 500))], *BIG)
            if not setup(t, w):
                return
            for ev in ({"x": 3}, {"x": 5}):
                t.begin()
                d = t.guard("search", t.a.search, ev)
                x = t.guard("exists", t.a.exists, ev)
                if d is NOFAULT or x is NOFAULT:
                    return
                ex = expected(w, ev)
                t.check(d is not None and d["ids"] == ex and d["matched"] == len(ex), lambda: "subscription %d alone, event %s: the search reports %r" % (v, showev(ev), d and d["ids"]))
                t.check(bool(x) == bool(ex), lambda: "subscription %d alone, event %s: exists says %r" % (v, showev(ev), bool(x)))
    for q in chunks([c + d for c in clusters(ck, 0) for d in (0, 1) if c + d > 14], 8):
        ck.task("ids around %r" % (q,), ids, q)


def C11(ck):
    """what is accepted does not depend on the size of the literals"""
    def go(t, doms, exprs):
        declare(t, doms)
        for i, e in enumerate(exprs):
            t.begin()
            r = t.guard("insert %s" % show(e), t.a.insert, i + 1, e)
            if r is NOFAULT:
                return
            t.check(bool(r), lambda: "insert of the valid expression '%s' is refused" % show(e))

    def undeclared(t, b):
        declare(t, [dom(b + "a", "int"), dom("y", "bool")] + [dom("z%d" % i, "int") for i in range(len(b) % 150)])
        for i, m in enumerate([b, b + "b", b + "aa", b[:-1], b + "a", "a" + b, b + "a", "z%d" % (len(b) % 150)]):
            t.begin()
            ok = m == b + "a"
            r = t.guard("insert %s < 3" % m, t.a.insert, i + 1, ("or", ("bool", "y"), ("cmp", "<", m, 3)) if i % 2 else ("cmp", "<", m, 3))
            if r is NOFAULT:
                return
            t.check(bool(r) == ok, lambda: "an expression with the %s attribute %s is %s" % ("declared" if ok else "undeclared", m, "accepted" if r else "refused"))
            if bool(r) != ok:
                return
    D = [dom("x", "int"), dom("f", "float"), dom("e", "ienum"), dom("l", "ilist"), dom("s", "str"), dom("sl", "slist"), dom("sg", "seg"), dom("now", "int"), dom("frequency_caps", "freq")]
    for q in chunks(clusters(ck), 4):
        ck.task("literals around %r" % (q,), go, D, [e for c in q for v in (c - 1, c, c + 1) for e in limits(0, "x", v) + limits(0, "f", v) + limits(0, "f", v, F) + [("eq", "=", "e", v), ("in", "in", V("x"), [v, v + 1]), ("list", "all of", "l", [v]), ("in", "not in", v, V("l")), ("seg", "segment_within", "sg", v, 3)]])
    for q in chunks(words(ck), 8):
        ck.task("strings of the program", go, D, [e for v in q for e in (("eq", "=", "s", v), ("in", "in", V("s"), [v]), ("in", "in", v, V("sl")), ("list", "none of", "sl", [v, "a"]), ("str", "contains", "s", v))])
    for n in ck.marks.sizes(2, 600)[::2]:
        b = "".join(chr(97 + (i * 5) % 23) for i in range(n))
        ck.task("undeclared names of %d letters" % n, undeclared, b)
    for n in ck.marks.sizes(1, 600)[::2]:
        ck.task("lists of %d" % n, go, D, [("in", "in", V("x"), list(range(n))), ("list", "all of", "sl", ["v%d" % i for i in range(n)]), ("eq", "=", "s", "ab" * (n // 2) + "c")])


def C12(ck):
    from .c12 import probe, repeats

    def go(t, doms, subs, evs):
        w = World(doms, [(i + 1, e) for i, e in enumerate(subs)])
        if setup(t, w):
            for ev, ok in evs:
                probe(t, w, ev, ok, "constants")
    D = [dom("x", "int"), dom("f", "float"), dom("e", "ienum"), dom("l", "ilist"), dom("s", "str"), dom("sl", "slist"), dom("sg", "seg"), dom("now", "int")]
    for q in chunks(clusters(ck), 3):
        subs, evs = [], []
        for c in q:
            subs += [("eq", "=", "x", c), ("cmp", "<", "f", c), ("eq", "=", "e", c), ("list", "one of", "l", [c]), ("seg", "segment_within", "sg", c, 20)]
            for v in (c - 1, c, c + 1):
                evs += [({"x": v, "f": v, "e": v, "l": [v, 3], "sg": Seg([(v, 95 * US)]), "now": 100}, True), ({"f": F(v), "l": [3, v, v]}, True), ({"s": v}, False), ({"x": F(v + 0.5)}, False), ({"l": v}, False)]
        ck.task("events around %r" % (q,), go, D, subs, evs)
    for q in chunks(words(ck), 8):
        ck.task("strings of the program in events", go, D, [e for s in q for e in (("eq", "=", "s", s), ("in", "in", s, V("sl")))], [({"s": s, "sl": [s]}, True) for s in q] + [({"x": s}, False) for s in q] + [({"sl": q}, True)])
    from .c15 import attributes
    for n in ck.marks.sizes(1, 300)[::2]:
        if n < 140:
            ck.task("%d attributes" % n, attributes, n, BIG, True, n % 4 < 2)

    def missing(t, n, some):
        """which of n attributes are required"""
        req = [i for i in range(n) if not (some and i % 3)]
        doms = [dom("a%d" % i, ("int", "bool")[i % 2], i not in req) for i in range(n)]
        full = {"a%d" % i: (3, True)[i % 2] for i in range(n)}
        w = World(doms, [(1, ("lit", True)), (2, ("eq", "=", "a0", 3))], *BIG)
        if not setup(t, w):
            return
        probe(t, w, full, True, "%d attributes" % n)
        probe(t, w, {"a%d" % i: full["a%d" % i] for i in req}, True, "the required of %d attributes" % n)
        for k in range(n) if n < 20 else sorted({0, 1, 2, n // 2, n - 3, n - 2, n - 1} | {c + d for c in ck.marks.ints for d in (-1, 0, 1)} & set(range(n))):
            probe(t, w, {a: v for a, v in full.items() if a != "a%d" % k}, k not in req, "attribute %d of %d missing" % (k, n))
            probe(t, w, {a: None if a == "a%d" % k else v for a, v in full.items()}, k not in req, "attribute %d of %d null" % (k, n))
    for n in ck.marks.sizes(1, 300)[::2]:
        if n < 140 or not ck.quick:
            ck.task("the required of %d attributes" % n, missing, n, n % 4 < 2)

    def lens(t, ns):
        for n in ns:
            b = "ab" * (n // 2) + "c" * (n % 2)
            w = World([dom("s", "str"), dom("sl", "slist"), dom("l", "ilist"), dom("b", "bool")], [(1, ("eq", "=", "s", b)), (2, ("in", "in", b, V("sl"))), (3, ("list", "all of", "l", [0, n - 1])), (4, ("bool", "b"))])
            if not setup(t, w):
                return
            for ev in ({"s": b, "sl": [b, "q"], "l": list(range(n)), "b": True}, {"s": b[:-1], "sl": [b + "x"], "l": list(range(n))[::-1]}, {"b": True, "sl": ["w%d" % i for i in range(n)] + [b], "l": list(range(1, n))}):
                probe(t, w, ev, True, "sizes of %d" % n)
            t.a.reset()
    for q in chunks(ck.marks.sizes(2, 600), 3):
        ck.task("events with sizes of %r" % (q,), lens, q)
    for n in ck.marks.sizes(1, 600):
        ck.task("names of %d letters" % n, names, n)


def C13(ck):
    from .c13 import many, chain, BIG as B
    for k, q in enumerate(chunks(clusters(ck), 6)):
        vals = sorted({c + d for c in q for d in (-1, 0, 1)})
        ck.task("enum values around %r" % (q,), many, "ienum", vals, [B, (1, 0)][k % 2], [None, len(vals)][k % 2], k, False)
    W = words(ck)
    for k, q in enumerate(chunks(W, 16)):
        for ty in ("str", "slist"):
            ck.task("strings of the program", many, ty, q, [B, (1, 0)][k % 2], [None, len(q)][k % 2], k, True)
    S = ck.marks.sizes(1, 1100)

    for n in ck.marks.sizes(1, 300):
        ck.task("%d strings with one hash" % n, many, ("str", "slist")[n % 2], chain(n), B, [None, n][n // 2 % 2], n, False)
        if n < 40:
            ck.task("%d strings with hashes alike" % n, many, ("str", "slist")[n % 2], chain(n, 6), B, None, n, False)

    def several(t, n):
        """n attributes with values of their own, the same texts meaning something else in each"""
        kinds = ("str", "ienum", "slist")
        doms = [dom("a%d" % i, kinds[i % 3], True, None, 2 if i % 2 else None) for i in range(n)]
        ex, evs = [], []
        for r in (0, 1):
            for i in range(n):
                v = (i + r) % 5
                ex.append(("eq", "=", "a%d" % i, "s%d" % v) if i % 3 == 0 else ("eq", "=", "a%d" % i, v) if i % 3 == 1 else ("in", "in", "s%d" % v, V("a%d" % i)))
        for z in range(5):
            evs.append({"a%d" % i: ("s%d" % ((i * z + z) % 5) if i % 3 == 0 else (i * z + z) % 5 if i % 3 == 1 else ["s%d" % ((i * z + z) % 5)]) for i in range(n)})
        world(t, doms, ex, evs)
    for n in ck.marks.sizes(1, 300):
        ck.task("values of %d attributes" % n, several, n)
    for n in S:
        if n > 130 and ck.quick and n % 2:
            continue
        ty = ("str", "ienum", "slist")[n % 3]
        ck.task("%d values of %s" % (n, ty), many, ty, list(range(5, 5 + n)) if ty == "ienum" else ["v%d" % z for z in range(n)], B, [n, n + 1, None][n % 3], n, False)
    for q in chunks(ck.marks.sizes(2, 1100), 4):
        vals = []
        for n in q:
            b = "".join(chr(97 + (i * 7) % 23) for i in range(n))
            vals += [b, b[:-1] + "y", "y" + b[1:], b[:n // 2] + "y" + b[n // 2 + 1:]]
        vals = list(dict.fromkeys(vals))
        ck.task("strings of %r letters" % (q,), many, ("str", "slist")[q[0] % 2], vals, B, None, 3, False)

    def full(t, ty, n):
        """exactly the declared number of values fits"""
        doms = [dom("x", ty, True, None, n)]
        declare(t, doms)
        mk = (lambda i: 3 * i - 7) if ty == "ienum" else (lambda i: "v%d" % i)
        lf = lambda i: ("in", "in", mk(i), V("x")) if ty == "slist" else ("eq", "=", "x", mk(i))
        for i in list(range(n)) + [n, 0, n + 1, n - 1]:
            t.begin()
            r = t.guard("insert", t.a.insert, i + 1, lf(i))
            if r is NOFAULT:
                return
            t.check(bool(r) == (i < n), lambda: "attribute x of %s with capacity %d: value number %d is %s" % (ty, n, i + 1, "accepted" if r else "refused"))
            if bool(r) != (i < n):
                return
    for n in S:
        ck.task("capacity %d" % n, full, ("str", "ienum", "slist")[n // 2 % 3], n)


def C14(ck):
    from .c14 import life
    for k, q in enumerate(chunks(clusters(ck, 0), 8)):
        ids = [c + d for c in q for d in (-1, 0, 1)]
        ck.task("ids around %r" % (q,), life, [dom("x", "int", True, 0, 15), dom("b", "bool")], [(i, ("cmp", ("<", ">=")[j % 2], "x", (j * 5) % 16)) for j, i in enumerate(ids)], [{"x": 3}, {"b": True}], [BIG, (1, 0)][k % 2])
    D = [dom("x", "int"), dom("s", "str"), dom("l", "ilist"), dom("sl", "slist"), dom("sg", "seg"), dom("frequency_caps", "freq"), dom("now", "int")]
    for n in ck.marks.sizes(1, 300):
        b = "ab" * (n // 2) + "c"
        subs = [(1, ("in", "in", V("x"), list(range(n)))), (2, ("list", "all of", "sl", ["v%d" % i for i in range(n)])), (3, ("eq", "=", "s", b)), (4, ("in", "in", b, V("sl")))] + [(5 + k, ("cmp", "<", "x", k)) for k in range(min(n, 80))]
        evs = [{"x": 1, "s": b, "l": list(range(n)), "sl": ["v%d" % i for i in range(n)], "sg": Seg([(i, i * US) for i in range(min(n, 80))]), "frequency_caps": Caps([("flight", i, "ns", 1, 1) for i in range(min(n, 80))]), "now": 100}, {"l": [1], "x": n}]
        ck.task("sizes of %d" % n, life, D, subs, evs, [BIG, (1, 0)][n % 2])


def C15(ck):
    from .c15 import attributes, subs, crowd, nest, lists, strings
    S = ck.marks.sizes
    for n in S(1, 600):
        if n > 140 and ck.quick and (n % 2 or n > 300):
            continue
        ck.task("%d attributes" % n, attributes, n, BIG, False, n % 2 == 0)
    for n in S(1, 300):
        for cap in (BIG, (1, 0)) if n < 80 else (BIG,):
            ck.task("%d subscriptions" % n, subs, n, cap, 0 if n < 140 else 70)
    for n in S(2, 3000):
        ck.task("%d candidates" % n, crowd, n, (1 << 16, 0))
    for n in S(1, 300):
        ck.task("depth %d" % n, nest, n, [("and", "or"), ("or", "not", "and"), ("not",), ("and",), ("or",)][n % 5], ["left", "right"][n % 2], [BIG, (1, 0)][n % 2])
    for n in S(1, 600):
        ck.task("lists of %d" % n, lists, n, BIG)
    for n in S(1, 5500):
        ck.task("strings of %d" % n, strings, n)
    for n in S(1, 5500):
        ck.task("names of %d letters" % n, names, n)


def C16(ck):
    from .c16 import history

    def several(t, n, how):
        """n attributes learnt from one formula each, or from one for all"""
        kinds = ("int", "str", "ienum", "float", "slist", "ilist")
        doms = [dom("a%d" % i, kinds[i % 6], True) for i in range(n)]
        leaf = lambda i, v: [("cmp", "<", "a%d" % i, 5 + v), ("eq", "=", "a%d" % i, "s%d" % v), ("eq", "=", "a%d" % i, v), ("cmp", ">", "a%d" % i, F(2 + v)), ("in", "in", "s%d" % v, V("a%d" % i)), ("list", "one of", "a%d" % i, [v, v + 2])][i % 6]
        val = lambda i, v: [4 + v, "s%d" % v, v, F(2.5 + v), ["s%d" % v], [v + 2]][i % 6]
        declare(t, doms, 1, 0)
        es = [leaf(i, v) for i in range(n) for v in (0, 1)]
        for e in es if how else [("or", a, b) for a, b in zip(es[::2], es[1::2])]:
            t.begin()
            r = t.guard("change_boundaries %s" % show(e), t.a.change_boundaries, e)
            t.check(r is NOFAULT or bool(r), lambda: "change_boundaries refuses '%s'" % show(e))
            if r is NOFAULT or not r:
                return
        w = World(doms, [(i + 1, e) for i, e in enumerate(es)], 1, 0)
        for i, e, c in w.subs:
            t.begin()
            r = t.guard("insert %s" % show(e), t.a.insert, i, e)
            if r is NOFAULT:
                return
            t.check(bool(r), lambda: "insert of '%s' is refused after learning it" % show(e))
            if not r:
                return
        ks = sorted({0, 1, n // 2, n - 2, n - 1} & set(range(n)))
        events(t, w, [{"a%d" % i: val(i, v) for i in range(n)} for v in (0, 1, 2)] + [{"a%d" % k: val(k, v)} for k in ks for v in (0, 1, 9)])
    for n in ck.marks.sizes(1, 140):
        ck.task("%d attributes learnt" % n, several, n, n % 2)
    for k, c in enumerate(clusters(ck)):
        if abs(c) <= 10 and ck.quick and k % 2:
            continue
        for ty in ("int", "ilist", "float"):
            if ty == "float" and abs(c) > 1 << 40:
                continue
            mk = F if ty == "float" else (lambda v: v)
            R = random.Random("%s %d" % (ty, c))
            if ty == "ilist":
                es = [("list", o, "x", [c + d]) for o in ("one of", "none of", "all of") for d in (-1, 0, 1)]
                evs = [{"x": l} for l in ([], [c - 2], [c - 1], [c], [c + 1], [c + 2], [c - 1, c + 1])]
            else:
                es = [e for d in (-1, 0, 1) for e in limits(0, "x", c + d, mk)]
                evs = [{"x": mk(c + d)} for d in (-3, -2, -1, 0, 1, 2, 3)]
            fm = R.sample(es, 8)
            op = "bounds" if k % 3 else "sub"
            ck.task("%s learnt around %d" % (ty, c), history, ty, "open", True, [(op, e) for e in fm[:R.choice((1, 2, 5))]] + ([("link", None)] * 5 if k % 3 == 0 else []) + [("insert", e) for e in fm], evs + [{}], [(1, 0), (3, 0)][k % 2])
            for n in (c - 1, c, c + 1) if c > 4 else ():
                # boundaries that far apart
                es = [("cmp", "<", "x", mk(5)), ("cmp", ">", "x", mk(5 + n)), ("cmp", "<=", "x", mk(5 + n // 2)), ("eq", "=", "x", mk(5 + n)), ("eq", "=", "x", mk(4 + n))] if ty != "ilist" else [("list", o, "x", [v]) for o in ("one of", "none of") for v in (5, 5 + n, 5 + n // 2)]
                vs = [4, 5, 6, 5 + n // 2, 4 + n, 5 + n, 6 + n]
                ck.task("%s learnt %d apart" % (ty, n), history, ty, "open", True, [("bounds", e) for e in es] + [("insert", e) for e in es * 2], [{"x": [v] if ty == "ilist" else mk(v)} for v in vs], (1, 0))
    for n in ck.marks.sizes(1, 140):
        for ty in ("str", "ienum", "slist"):
            if ck.quick and (n + len(ty)) % 2:
                continue
            mk = (lambda i: 3 * i - 7) if ty == "ienum" else (lambda i: "v%d" % i)
            lf = lambda i: (("in", "in", mk(i), V("x")) if i % 2 else ("list", "none of", "x", [mk(i)])) if ty == "slist" else ("eq", "=<>"[:1] if i % 2 else "<>", "x", mk(i))
            es = [lf(i) for i in range(n)]
            ck.task("%d values of %s learnt" % (n, ty), history, ty, "open", True, [("bounds", e) for e in es] + [("insert", e) for e in es], [{"x": [mk(i)] if ty == "slist" else mk(i)} for i in sorted({0, n // 2, n - 1, n})] + [{}], [(1, 0), (3, 0)][n % 2])


def C17(ck):
    from .c17 import texts
    D = [dom("x", "int"), dom("f", "float"), dom("e", "ienum"), dom("l", "ilist"), dom("s", "str"), dom("sl", "slist"), dom("sg", "seg"), dom("now", "int")]
    for q in chunks(clusters(ck), 3):
        cs, evs = [], []
        for c in q:
            for v in (c - 1, c, c + 1):
                cs += [("x = %d" % v, ("eq", "=", "x", v)), ("x<%d" % v, ("cmp", "<", "x", v)), ("%d >= x" % v, ("rcmp", ">=", "x", v)), ("l one of (%d, 3)" % v, ("list", "one of", "l", [3, v])), ("x in (%d,%d)" % (v, v + 1), ("in", "in", V("x"), [v, v + 1])), ("not f > %d.5" % v, ("not", ("cmp", ">", "f", F(v + (0.5 if v >= 0 else -0.5))))) if abs(v) < 1 << 40 and v else ("e = %d" % v, ("eq", "=", "e", v))]
                evs.append({"x": v, "f": v, "e": v, "l": [v]})
        ck.task("numbers around %r" % (q,), texts, cs, D, evs + [{"x": 3}])
    for q in chunks(words(ck), 6):
        cs = [x for s in q for x in (('s = "%s"' % s, ("eq", "=", "s", s)), ("s = '%s'" % s, ("eq", "=", "s", s)) if "'" not in s else ('"%s" in sl' % s, ("in", "in", s, V("sl"))), ('sl one of ("%s","a")' % s, ("list", "one of", "sl", [s, "a"])), ('contains(s, "%s")' % s, ("str", "contains", "s", s)))]
        ck.task("strings of the program", texts, cs, D, [{"s": s, "sl": [s]} for s in q] + [{"s": "zz"}])
    for q in chunks(ck.marks.sizes(1, 1100), 3):
        cs, evs, N = [], [], []
        for n in q:
            nm = ("ab_%d" % n + "x" * n)[:max(n, 5)]
            b = "q" + "ab" * (n // 2)
            N.append(dom(nm, "int"))
            cs += [("%s > 3" % nm, ("cmp", ">", nm, 3)), ("not  %s\t= 4" % nm, ("not", ("eq", "=", nm, 4))), ('s = "%s"' % b, ("eq", "=", "s", b)), ("x = 4" + " " * n, ("eq", "=", "x", 4)), (" " * n + "x = 5", ("eq", "=", "x", 5)), ("x in (%s)" % ",".join(str(2 * z) for z in range(n)), ("in", "in", V("x"), [2 * z for z in range(n)]))]
            if n < 150:
                cs += [("(" * n + "x = 4" + ")" * n, ("eq", "=", "x", 4)), (" and ".join(["x = 4"] * n), ("eq", "=", "x", 4)), ("(" * n + "x = 4" + ")" * (n - 1), None)]
            evs += [{nm: 4, "s": b, "x": 4}, {nm: 3, "x": 2 * n - 2}, {"x": 2 * n, "s": b[:-1]}]
        ck.task("lengths of %r" % (q,), texts, cs, D + N, evs)
    for n in ck.marks.sizes(1, 1100)[::2]:
        ck.task("names of %d letters" % n, names, n)


def C18(ck):
    from .c18 import pairs, copies
    for q in chunks(clusters(ck), 3):
        P = []
        for c in q:
            for v in (c, c + 1):
                P += [("cmp", "<", "i", v), ("eq", "=", "i", v), ("eq", "=", "e", v), ("in", "in", V("i"), [v]), ("in", "in", v, V("l")), ("list", "one of", "l", [v]), ("seg", "segment_within", "sg", v, 20), ("seg", "segment_before", None, 1, v)]
                if 0 <= v < 1 << 31:
                    P += [("freq", "flight", "x", v, 20), ("freq", "flight", "x", 5, v)]
        s = [(p, dict(advertiser_id=1, campaign_id=2, campaign_group_id=3, flight_id=4, product_id=5) if p[0] == "freq" else None) for p in P]
        ck.task("pairs around %r" % (q,), pairs, s, BIG)
        ck.task("copies around %r" % (q,), copies, s, [{"i": q[0], "e": q[0], "l": [q[0]], "now": 100}], BIG, 0)
    for q in chunks(ck.marks.sizes(1, 600), 3):
        P = []
        for n in q:
            b = "".join(chr(97 + (i * 7) % 23) for i in range(n))
            l = list(range(0, 3 * n, 3))
            sl = ["v%d" % i for i in range(n)]
            P += [("eq", "=", "s", b), ("eq", "=", "s", b[:-1] + "y"), ("str", "contains", "s", b), ("str", "contains", "s", "y" + b[1:]), ("in", "in", V("i"), l), ("in", "in", V("i"), l[:-1] + [3 * n + 1]), ("list", "all of", "sl", sl), ("list", "all of", "sl", sl[:-1] + ["y"]), ("list", "none of", "l", l), ("list", "none of", "l", [l[0] - 1] + l[1:])]
        s = [(p, None) for p in P]
        ck.task("pairs with sizes of %r" % (q,), pairs, s, BIG)
        ck.task("copies with sizes of %r" % (q,), copies, s, [{"i": 3, "l": [3], "sl": ["v1"], "s": "abc"}], BIG, 1)


def C19(ck):
    from .c19 import go, freq, key, ev
    ids = [v for c in clusters(ck, 0, 1 << 31) for v in (c - 1, c, c + 1) if 0 <= v < 1 << 31]
    for k, q in enumerate(chunks(sorted(set(ids)), 6)):
        ty = ("flight", "campaign:ip", "advertiser", "product", "campaign_group:ip")[k % 5]
        ck.task("constants around %r" % (q,), go, [(freq(ty), {key(ty): i}) for i in q], [ev([(ty, i, "n", 9, 990 * US)]) for i in q] + [ev([])])
    for n in ck.marks.sizes(1, 300):
        ck.task("%d constants" % n, go, [(freq("flight"), dict({"k%d" % i: i for i in range(n - 1)}, flight_id=4)), (freq("flight"), {"k%d" % i: i for i in range(n)}), (freq("campaign"), dict([("campaign_id", 2)] + [("k%d" % i, i) for i in range(n - 1)]))], [ev([("flight", 4, "n", 9, 990 * US)]), ev([("campaign", 2, "n", 9, 990 * US)])])


def C21(ck):
    from .c21 import split
    for k, q in enumerate(chunks(clusters(ck), 3)):
        P = [(e, None) for c in q for v in (c - 1, c) for e in (("cmp", "<", "i", v), ("eq", "=", "i", v), ("eq", "=", "e", v), ("in", "in", V("i"), [v]), ("list", "one of", "l", [v]), ("cmp", ">", "f", F(v)))]
        ck.task("made around %r" % (q,), split, P, [{"i": c + d, "e": c + d, "l": [c + d], "f": F(c + d)} for c in q for d in (-2, -1, 0, 1)], [(3, 0), (1, 0), BIG][k % 3], ["fifo", "lifo", "random"][k % 3], k)

    def crowd(t, n, cap):
        declare(t, [dom("x", "int", True, 0, 15)], *cap)
        w = World([dom("x", "int", True, 0, 15)], [(i + 1, ("cmp", ("<", ">=")[i % 2], "x", i % 16)) for i in range(n)], *cap)
        m = []
        for i, e, c in w.subs:
            r = t.guard("betree_make_sub '%s'" % show(e), t.a.make_sub, i, e)
            if r is NOFAULT or not r:
                t.check(False, "betree_make_sub of the valid '%s' is refused" % show(e))
                return
            m.append(r)
        for p in m[::-1]:
            if t.guard("betree_insert_sub", t.a.insert_sub, p) is NOFAULT:
                return
        events(t, w, [{"x": v} for v in (0, 7, 15)] + [{}])
    for n in ck.marks.sizes(1, 300)[::2]:
        ck.task("%d made, then linked" % n, crowd, n, [(3, 0), BIG][n % 4 // 2])


def C22(ck):
    from .c22 import same
    D = [dom("x", "int"), dom("f", "float"), dom("e", "ienum"), dom("l", "ilist"), dom("s", "str"), dom("sl", "slist"), dom("sg", "seg"), dom("now", "int")]
    for k, q in enumerate(chunks(clusters(ck), 3)):
        subs, evs = [], []
        for c in q:
            subs += [("eq", "=", "x", c), ("cmp", "<", "f", c), ("eq", "=", "e", c), ("list", "one of", "l", [c]), ("in", "not in", c, V("l")), ("seg", "segment_within", "sg", c, 20)]
            evs += [{"x": v, "f": F(v), "e": v, "l": [v, c], "sg": Seg([(v, 95 * US)]), "now": 100} for v in (c - 1, c, c + 1)]
        ck.task("text and calls around %r" % (q,), same, D, [(e, None) for e in subs], evs, [(3, 0), BIG][k % 2])
    for q in chunks(words(ck), 8):
        ck.task("strings of the program", same, D, [(e, None) for s in q for e in (("eq", "=", "s", s), ("in", "in", s, V("sl")))], [{"s": s, "sl": [s]} for s in q] + [{"sl": q}], BIG)
    for n in ck.marks.sizes(1, 300):
        b = "ab" * (n // 2) + "c"
        subs = [("eq", "=", "s", b), ("in", "in", b, V("sl")), ("list", "all of", "l", list(range(n))), ("in", "in", n // 2, V("l")), ("list", "one of", "sl", ["v0", "v%d" % (n - 1)]), ("seg", "segment_within", "sg", n, 20)]
        evs = [{"s": b, "sl": ["v%d" % i for i in range(n)], "l": list(range(n))[::-1], "sg": Seg([(i, 95 * US) for i in range(min(n, 100) + 1)]), "now": 100}, {"sl": ["v%d" % i for i in range(n)][::-1] + [b], "l": list(range(n - 1)) * 2}, {"s": b[:-1]}]
        ck.task("text and calls, sizes of %d" % n, same, D, [(e, None) for e in subs], evs, BIG)
    for c in sorted(ck.marks.sizes(2, 140)):
        doms = [dom("a%d" % i, ("bool", "int", "str")[i % 3]) for i in range(c)]
        val = lambda i: (True, 3, "s")[i % 3]
        subs = [(("bool", "a%d" % i), ("cmp", "<", "a%d" % i, 5), ("eq", "=", "a%d" % i, "s"))[i % 3] for i in range(c)]
        ck.task("%d attributes by calls" % c, same, doms, [(e, None) for e in subs], [{"a%d" % i: val(i) for i in range(c)}, {"a%d" % (c - 1): val(c - 1)}, {"a0": True, "a%d" % (c // 2): val(c // 2)}], BIG)


def C23(ck):
    from .c23 import prune, shorts, alone, permuted, few, report, GIVEN, KINDS

    def many(t, n):
        """n shared predicates, each asked twice"""
        doms = [dom("x", "int", False), dom("y", "int")]
        ex = [("cmp", "<", "x", 2 * i) for i in range(n)]
        w = World(doms, [(i + 1, e) for i, e in enumerate(ex + ex[::-1])], 1 << 16, 0)
        if not setup(t, w):
            return
        for v in (n, -1):
            d = report(t, w, {"x": v}, 2 * n, "%d shared predicates" % n)
            if d is None:
                return
            t.check(d["memoized"] == n and d["evaluated"] == 2 * n and d["shorted"] == 0, lambda: "%d subscriptions, every predicate in two of them: %d memoized, %d evaluated, %d short-circuited" % (2 * n, d["memoized"], d["evaluated"], d["shorted"]))
    for n in ck.marks.sizes(1, 1100):
        if n < 300 or n % 2 or not ck.quick:
            ck.task("%d shared predicates" % n, many, n)
    for k, n in enumerate(ck.marks.sizes(1, 200)):
        ck.task("short-circuits after %d attributes" % n, alone, list(GIVEN)[k % len(GIVEN)], n)
        if not ck.quick or k % 3 == 0:
            ck.task("short-circuits among others after %d attributes" % n, shorts, list(GIVEN)[k // 3 % len(GIVEN)], n, BIG)
    for k, n in enumerate(ck.marks.sizes(2, 140)):
        if n < 60 or k % 2:
            ck.task("lists of %d in any order" % n, permuted, n)
    for k, n in enumerate(ck.marks.sizes(40, 400)):
        for j, ty in enumerate(KINDS):
            if (j + k) % 3 == 0 or not ck.quick:
                ck.task("%s pinned, %d subscriptions" % (ty, n), prune, ty, n, [(1, 0), (3, 0)][k % 2], False, 0, 1, k, "mix", False)
    for k, c in enumerate(clusters(ck, -(1 << 61), 1 << 61)):
        if abs(c) < 1 << 40:
            ck.task("pinned around %d" % c, prune, ("int", "ilist", "float")[k % 3], 64, [(1, 0), (3, 0)][k % 2], k % 2 == 0, c - 32, 1, k, "mix", False)


def extra(ck):
    f = globals().get(ck.pid)
    if f:
        f(ck)
