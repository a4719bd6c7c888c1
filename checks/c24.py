"""C24: declarations read from text are those of the calls; an emptied tree is a new one with the same declarations."""
import random, sys
from .lib import *
from .c05 import DOMS, CON, near, has_freq, evs as E5
from .c23 import pin, mk, GIVEN, opt

BIG = (4096, 0)
WORD = dict(int="integer", float="float", bool="boolean", freq="frequency", seg="segments", str="string", ienum="integer enum", ilist="integer list", slist="string list")


def both(d):
    """as a call: a bound left out is the end of the type"""
    n, ty, u, lo, hi = d[:5]
    if lo is not None and hi is None:
        hi = I64MAX if ty == "int" else sys.float_info.max
    return n, ty, u, lo, hi


def line(d, nl=""):
    n, ty, undef, lo, hi = d[:5]
    if len(d) > 5:
        # the number written with zeros in front
        lo, hi = [x if x is None or x < 0 else "%04d" % x for x in (lo, hi)]
    f = [n, WORD[ty], "true" if undef else "false"]
    if ty in ("str", "slist", "ienum"):
        f += [str(hi)] if hi is not None else []
    elif lo is not None:
        f += [str(lo)] + ([str(hi)] if hi is not None else [])
    return "|".join(f) + nl


def value(ty, i):
    return dict(int=i, float=F(i), bool=i % 2 == 0, str="s%d" % i, ienum=i, ilist=[i], slist=["s%d" % i], seg=Seg([(i, 95 * 10 ** 6)]), freq=Caps([("flight", 4, "x", i, 95 * 10 ** 6)]))[ty]


def subsof(n, ty, k, off):
    """subscriptions on one attribute: the counters of their searches show its place in the index and its bounds"""
    if ty == "bool":
        return [[("bool", n), ("not", ("bool", n))][i % 2] for i in range(6)]
    if ty == "seg":
        return [("seg", "segment_within", n, i, 20) for i in range(3)]
    if ty == "freq":
        return [("freq", "flight", "x", i + 1, 20) for i in range(3)]
    return [pin(ty, n, mk(ty, i, off))[0] for i in range(k)]


def picture(p):
    """the memory reachable from p, whatever the addresses: [(object, offset, size, value)], zeros left out"""
    seen, todo, out = {p.o.id: 0}, [p.o], []
    for o in todo:
        me = seen[o.id]
        for off in sorted(o.data):
            n, v = o.data[off]
            if v.__class__ is P:
                if v.o.id not in seen:
                    seen[v.o.id] = len(seen)
                    todo.append(v.o)
                v = ("p", seen[v.o.id], v.off)
            elif v.__class__ is int or v.__class__ is float:
                if v == 0:
                    continue
            else:
                v = repr(v)
            out.append((me, o.site, off, n, v))
    return out


def run(t, how, doms, subs, evs, cap, nl):
    """one history; -> everything observable of it"""
    a = t.a
    out = []
    a.make(*cap)
    for i, d in enumerate(doms):
        if how == "text":
            a.call("add_variable_from_string", a.t, a.s(line(d, nl if i % 2 else "")))
        else:
            a.domain(*both(d))
    out.append(("declarations", "", [x[:1] + x[2:] for x in picture(a.t)]))
    e = a.call("betree_make_event", a.t)
    for i, d in enumerate(doms):
        q = a.call("betree_get_variable_definition", a.t, i)
        if q.__class__ is not tuple:
            raise Limit("definition returned as %r" % (q,))
        out.append(("definition", i, (t.e.cstr(q[0]), q[1])))
    a.call("betree_free_event", e)
    for i, s in enumerate(subs):
        out.append(("insert", show(s), bool(a.insert(i + 1, s, CON if has_freq(s) else None))))
    for ev in evs:
        d = a.search(ev)
        out.append(("search", showev(ev), d and (sorted(d["ids"]), d["evaluated"], d["shorted"], d["memoized"])))
        out.append(("exists", showev(ev), bool(a.exists(ev))))
    a.free()
    return out


def same(t, doms, subs, evs, cap, nl):
    base = t.e.snapshot()
    t.begin()
    t.a.own_constants = True
    t.e.sites = True
    o1 = t.guard("declared by calls: %s" % "; ".join(line(d) for d in doms), run, t, "calls", doms, subs, evs, cap, nl)
    if o1 is NOFAULT:
        return
    t.e.restore(base)
    t.begin()
    m = t.e.objs[-1].id + 1 if t.e.objs else 0
    o2 = t.guard("declared by text: %s" % "; ".join(line(d) for d in doms), run, t, "text", doms, subs, evs, cap, nl)
    if o2 is NOFAULT:
        return
    l = [o for o in t.a.leaks(m)]
    t.check(not l, lambda: "declared by text %s: %d objects are never released, e.g. allocated in %s" % ("; ".join(line(d) for d in doms), len(l), l[0].name))
    t.n += len(o1)
    for x, y in zip(o1, o2):
        if x[0] == "declarations":
            k = sum(1 for _ in x[2])
            df = [(u, v) for u, v in zip(x[2], y[2]) if u != v] or ([(k, len(y[2]))] if k != len(y[2]) else [])
            t.check(not df, lambda: "'%s' declares something else than the call: by call the tree holds %r, by text %r (object, offset, size, value)" % (("', '".join(line(d) for d in doms),) + df[0]))
            if df:
                return
            continue
        t.check(x == y, lambda: "'%s' declares something else than the call: %s gives %r, by calls %r" % ("', '".join(line(d) for d in doms), x[:2], y[2:], x[2:]))
        if x != y:
            return
    w = World([both(d) for d in doms], [(i + 1, s, CON if has_freq(s) else None) for i, s in enumerate(subs)], *cap)
    ok = [x[2] for x in o2 if x[0] == "insert"]
    w.subs = [s for s, k in zip(w.subs, ok) if k]
    for x, ev in zip([x for x in o2 if x[0] == "search"], evs):
        if x[2] is not None:
            t.check(x[2][0] == expected(w, ev), lambda: diff(w, ev, expected(w, ev), x[2][0]))


# ------------------------------------------------------------------------------------------------ empty_tree
def build_in(t, subs, how, twins):
    a = t.a
    res, made = [], []
    for i, e in enumerate(subs):
        con = CON if has_freq(e) else None
        if how == "insert":
            res.append(bool(a.insert(i + 1, e, con)))
        else:
            made.append(a.make_sub(i + 1, e, con))
            res.append(bool(made[-1]))
    for m in made:
        if m:
            a.insert_sub(m)
    return res


def look(t, doms, evs):
    a = t.a
    out = []
    for ev in evs:
        d = a.search(ev)
        e = a.event(doms, {n: v for n, v in ev.items()})
        d2 = a.search_with(e)
        a.call("betree_free_event", e)
        out.append((showev(ev), d and (sorted(d["ids"]), d["evaluated"], d["shorted"], d["memoized"]), bool(a.exists(ev)), d2 and sorted(d2["ids"])))
    return out


def emptied(t, doms, first, second, evs, cap, times, how):
    """a tree filled, emptied and filled again, beside a new one"""
    strings = [1 for d in doms if d[1] in ("str", "slist", "freq")]
    base = t.e.snapshot()
    t.begin()
    t.a.own_constants = True
    t.e.sites = True
    sh = "%s, filled with %d subscriptions, emptied%s and filled with %d" % ("; ".join(line(d) for d in doms[:4]), len(first), " %d times" % times if times > 1 else "", len(second))

    def new():
        declare(t, doms, *cap)
        r = build_in(t, second, how, None)
        return r, look(t, doms, evs)

    def old():
        declare(t, doms, *cap)
        e0 = t.a.event(doms, {n: v for n, v in evs[0].items()})
        none = []
        for k in range(times):
            build_in(t, first, how if k % 2 else "insert", None)
            if k % 2 == 0:
                t.a.search(evs[k % len(evs)])
            t.a.call("empty_tree", t.a.t)
            none.append(look(t, doms, evs))
        r = build_in(t, second, how, None)
        o = look(t, doms, evs)
        d = t.a.search_with(e0)
        t.a.call("betree_free_event", e0)
        t.a.call("empty_tree", t.a.t)
        t.a.call("empty_tree", t.a.t)
        last = look(t, doms, evs)
        t.a.free()
        return r, o, none + [last], d and sorted(d["ids"])
    n = t.guard("a new tree", new)
    if n is NOFAULT:
        return
    t.e.restore(base)
    t.begin()
    m = t.e.objs[-1].id + 1 if t.e.objs else 0
    o = t.guard(sh, old)
    if o is NOFAULT:
        return
    l = t.a.leaks(m)
    t.check(not l, lambda: "%s: %d objects are never released, e.g. allocated in %s" % (sh, len(l), l[0].name))
    t.check(o[0] == n[0], lambda: "%s: accepts %r, a new tree %r" % (sh, o[0], n[0]))
    for x, y in zip(n[1], o[1]):
        if strings and x[1] and y[1]:
            # the numbers of strings stay with the tree, and with them the order of its operands: matches only
            x, y = [(v[0], v[1][0]) + v[2:] for v in (x, y)]
        t.check(x == y, lambda: "%s: event %s gives %r, in a new tree %r" % (sh, x[0], y[1:], x[1:]))
    for z in o[2]:
        for y, x in zip(z, n[1]):
            t.check((y[1] is None) == (x[1] is None) and (y[1] is None or y[1] == ([], 0, 0, 0)) and not y[2] and not y[3], lambda: "%s: when empty, event %s gives %r" % (sh, y[0], y[1:]))
    w = World(doms, [(i + 1, s, CON if has_freq(s) else None) for i, s in enumerate(second)], *cap)
    for (e, d, x, d2), ev in zip(o[1], evs):
        if d is not None and all(o[0]):
            t.check(d[0] == expected(w, ev), lambda: sh + ": " + diff(w, ev, expected(w, ev), d[0]))
    t.check(o[3] == (n[1][0][1] and n[1][0][1][0]), lambda: "%s: an event made before reports %r" % (sh, o[3]))


def build(ck):
    ck.partition = ("Two histories side by side, compared in everything the interface shows (definitions, acceptance, matches, counters of the report, objects left behind): attributes declared by lines of text beside the calls - every type, required or not, "
                    "with and without bounds of every sign and size, newline or not, alone and among others; and trees filled, searched, emptied (once, repeatedly, when already empty) and filled again beside new trees.")
    B = dict(int=[(None, None), (0, 31), (-20, 11), (100, 131), (-(1 << 62), -(1 << 62) + 31), ((1 << 62), (1 << 62) + 31), (I64MIN, I64MAX), (0, I64MAX), (I64MIN, 0), (-5, -5), (1, 7), (8, 17, 0), (5, None), (-3, None)],
             ilist=[(None, None), (0, 31), (-20, 11), (100, 131), (-(1 << 62), -(1 << 62) + 31), ((1 << 62), (1 << 62) + 31), (I64MIN, I64MAX), (-5, -5), (3, 7), (8, 17, 0)],
             float=[(None, None), (0, 31), (-20, 11), (100, 131), (-0.5, 30.5), (-20.25, 11.75), (-1e9, 1e9), (2.5, 2.5), (5, None), (-2.5, None), (1e-3, 0.75), (16777217, 33554433)],
             str=[(None, v) for v in (None, 0, 1, 2, 12, 32, 999, 1001, (1 << 31) + 1, (1 << 32) + 2)] + [(None, 10, 0)], bool=[(None, None)], seg=[(None, None)], freq=[(None, None)])
    B["ienum"] = B["slist"] = B["str"]
    k = 0
    for ty in WORD:
        for lo, hi, *zero in B[ty]:
            for undef in (True, False):
                for nl in ("", "\n"):
                    k += 1
                    nm = "frequency_caps" if ty == "freq" else ("x", "Name_1", "a" * 120, "with_2")[k % 4 if ty == "int" else 0]
                    d = (nm, ty, undef, lo, hi, *zero)
                    off = 0 if lo is None or ty in ("str", "ienum", "slist") or abs(lo) > 1 << 62 else int(lo)
                    subs = subsof(nm, ty, 14, off)
                    vals = {0: off, 1: off + 1, 2: off + 7, 3: off + 13, 4: off + 40, 5: off - 3}
                    evs = [{nm: value(ty, v), "now": 100, "z": 1} for v in vals.values() if ty not in ("freq", "seg", "str", "slist") or v >= 0] + [{"now": 100}, {nm: None, "now": 100}]
                    ck.task("%s declared by text" % ty, same, [d, ("now", "int", True, None, None), ("z", "int", True, 0, 9)][::1 if k % 3 else -1], subs, evs, [(1, 0), BIG, (3, 0)][k % 3], nl)
    R = random.Random(9)
    for k in range(6 if ck.quick else 40):
        doms = []
        for i in range(R.choice((2, 4, 9, 30))):
            ty = R.choice([w for w in WORD if w != "freq"])
            lo, hi = R.choice(B[ty])[:2]
            doms.append(("a%d" % i, ty, R.random() < .6, lo, hi))
        subs, ev = [], {}
        for n, ty, u, lo, hi in doms:
            off = 0 if lo is None or ty in ("str", "ienum", "slist") or abs(lo) > 1 << 62 else int(lo)
            subs += subsof(n, ty, 3, off)
            ev[n] = value(ty, off + 1)
        evs = [ev, {n: v for n, v in ev.items() if not [1 for d in doms if d[0] == n and d[2]]}] + [{n: v for n, v in ev.items() if n != d[0]} for d in doms[:4]]
        ck.task("several declared by text", same, doms, subs, evs, [(1, 0), BIG, (3, 0)][k % 3], ["", "\n"][k % 2])
    # emptied trees
    P = near()
    E = E5()
    k = 0
    for cap in (BIG, (1, 0), (3, 0), (2, 4)):
        for times in (1, 2, 3):
            for how in ("insert", "sub"):
                k += 1
                s1 = R.sample(P, 12)
                s2 = R.sample(P, 12)
                s2 += s2[:4] + s1[:4]
                # the strings of the new ones are known to a new tree in the same order
                ck.task("emptied", emptied, list(DOMS), s1, s2, R.sample(E, 4 if ck.quick else 10), cap, times, how)
                doms = [dom("i", "int", True, 0, 31), dom("e", "ienum", True), dom("l", "ilist", True, 0, 31), dom("f", "float", False, 0, 31), dom("b", "bool"), dom("q", "int", False)]
                mkx = lambda m: [[("cmp", ("<", ">=")[i % 2], "i", (i * 5) % 32), pin("ilist", "l", i % 32)[0], ("eq", "=", "f", F(i % 32)), ("and", ("eq", "=", "i", i % 32), ("bool", "b")), ("cmp", "<", "q", i), ("eq", "=", "e", i % 9), ("or", ("not", ("bool", "b")), ("cmp", ">", "q", 3))][(i + k) % 7] for i in range(m)]
                a, b = mkx((5, 40, 80)[k % 3]), mkx((30, 60, 3)[k % 3])
                evs = [{"i": v, "l": [v], "f": F(v), "b": v % 2 == 0, "q": v, "e": v % 9} for v in (0, 7, 31, 40)] + [{"f": F(3), "q": 2}, {"i": 3}]
                ck.task("emptied, in parts", emptied, doms, a, b, evs, cap, times, how)
    ck.task("emptied before anything", emptied, list(DOMS), [], R.sample(P, 8), R.sample(E, 3), BIG, 1, "insert")
    ck.task("emptied and left", emptied, list(DOMS), R.sample(P, 8), [], R.sample(E, 3), (1, 0), 2, "insert")
