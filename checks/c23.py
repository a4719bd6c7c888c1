"""C23: a search leaves out what the index, the short-circuits and memoization can decide without it."""
import random
from .lib import *
from .c05 import DOMS, CON, near, has_freq

BIG = (4096, 0)
KINDS = ("int", "float", "str", "ienum", "ilist", "slist")


def mk(ty, i, off=0, step=1):
    return "s%d" % i if ty in ("str", "slist") else F(off + i * step) if ty == "float" else off + i * step


def pin(ty, x, v):
    """expressions that hold for one value only"""
    if ty in ("ilist", "slist"):
        return [("in", "in", v, V(x)), ("list", "one of", x, [v]), ("list", "all of", x, [v]), ("not", ("in", "not in", v, V(x))), ("not", ("list", "none of", x, [v]))]
    ne = [("not", ("eq", "<>", x, v)), ("not", ("not", ("eq", "=", x, v)))]
    if ty in ("str", "ienum"):
        return [("eq", "=", x, v)] + ([("in", "in", V(x), [v]), ("not", ("in", "not in", V(x), [v]))] if ty == "str" else []) + ne
    r = [("and", ("cmp", ">=", x, v), ("cmp", "<=", x, v)), ("not", ("or", ("cmp", "<", x, v), ("cmp", ">", x, v)))]
    if ty == "float":
        return [("eq", "=", x, v)] + r + ne
    return [("eq", "=", x, v), ("in", "in", V(x), [v])] + r + ne + [("not", ("in", "not in", V(x), [v]))]


def few(n, cap, attrs=1):
    """generous: the nodes on both sides of a boundary, and some; the number of subscriptions does not enter"""
    return 3 * attrs * (cap + 2)


def report(t, w, ev, limit, what, ids=True):
    t.begin()
    d = t.guard("search %s" % showev(ev), t.a.search, ev)
    if d is NOFAULT:
        return None
    n = len(w.subs)
    if d is None:
        t.check(False, "event %s: the search fails on a valid event" % showev(ev))
        return None
    if ids:
        ex = expected(w, ev)
        t.check(sorted(d["ids"]) == ex, lambda: diff(w, ev, ex, sorted(d["ids"])))
    t.check(d["evaluated"] <= limit + d["matched"], lambda: "%s: event %s matches %d of %d subscriptions and the search evaluates %d (at most %d expected)" % (what, showev(ev), d["matched"], n, d["evaluated"], limit))
    return d


def decl(ty, x, n, undef, off=0, step=1):
    return dom(x, ty, undef, off, off + (n - 1) * step) if ty in ("int", "float", "ilist") else dom(x, ty, undef, None, n)


def prune(t, ty, n, cap, undef, off, step, form, order, extra=False):
    """n subscriptions that each want another value of a bounded attribute"""
    vals = [mk(ty, i, off, step) for i in range(n)]
    P = [pin(ty, "x", v) for v in vals]
    ex = [p[form % len(p)] for p in P]
    doms = [decl(ty, "x", n, undef, off, step), dom("r", "bool", False), dom("o", "int", True)]
    if extra:
        ex = [("and", e, [("bool", "r"), ("cmp", "<", "o", 50), ("not", ("bool", "r"))][i % 3]) if i % 2 else ("and", [("bool", "r"), ("cmp", ">", "o", 5)][i // 2 % 2], e) for i, e in enumerate(ex)]
    if order == "down":
        ex = ex[::-1]
    elif order:
        random.Random(n).shuffle(ex)
    w = World(doms, [(i + 1, e) for i, e in enumerate(ex)], *cap)
    if ty in ("str", "slist", "ienum"):
        # values are numbered as they come: in the order of the domain
        pass
    if not setup(t, w):
        return
    lst = ty in ("ilist", "slist")
    for k in sorted({0, 1, 2, n // 3, n // 2 - 1, n // 2, n // 2 + 1, n - 2, n - 1}):
        ev = {"x": [vals[k]] if lst else vals[k], "r": True, "o": 9}
        d = report(t, w, ev, few(n, cap[0]), "%s attribute, %d subscriptions for a value each, capacity %d" % (ty, n, cap[0]))
        if d is None:
            return
    out = mk(ty, n + 3, off, step)
    report(t, w, {"x": [out] if lst else out, "r": True, "o": 9}, few(n, cap[0]), "%s attribute, a value outside" % ty)


def grid(t, n, cap, ty2):
    """two pinned attributes: only what both leave"""
    doms = [decl("int", "x", n, False), decl(ty2, "y", n, False), dom("r", "bool", False)]
    subs = [("and", ("eq", "=", "x", i), pin(ty2, "y", mk(ty2, j))[0]) for i in range(n) for j in range(n)]
    w = World(doms, [(i + 1, e) for i, e in enumerate(subs)], *cap)
    if not setup(t, w):
        return
    for i, j in ((0, 0), (1, n - 1), (n - 1, n - 1), (n // 2, n // 3)):
        v = mk(ty2, j)
        report(t, w, {"x": i, "y": [v] if ty2 in ("ilist", "slist") else v, "r": True}, few(n * n, cap[0], 2), "%d x %d subscriptions on two attributes, capacity %d" % (n, n, cap[0]))


def halves(t, n, cap, ty):
    """a value below the limits of half of the subscriptions: the other half's parts are left out"""
    doms = [decl(ty, "x", 2 * n, False)]
    mkv = lambda i: mk(ty, i)
    lst = ty == "ilist"
    lo = [("and", ("cmp", ">=", "x", mkv(i % (n // 2))), ("cmp", "<", "x", mkv(i % (n // 2) + 3))) if not lst else ("list", "one of", "x", [i % (n // 2), i % (n // 2) + 2]) for i in range(n)]
    hi = [("and", ("cmp", ">", "x", mkv(n + n // 2 + i % (n // 4))), ("cmp", "<=", "x", mkv(n + n // 2 + i % (n // 4) + 3))) if not lst else ("list", "one of", "x", [n + n // 2 + i % (n // 4), n + n // 2 + i % (n // 4) + 2]) for i in range(n)]
    ex = [e for p in zip(lo, hi) for e in p]
    w = World(doms, [(i + 1, e) for i, e in enumerate(ex)], *cap)
    if not setup(t, w):
        return
    for v in (0, n // 4, n // 2 - 1, n + n // 2, 2 * n - 1, 2 * n - 5):
        report(t, w, {"x": [v] if lst else mkv(v)}, n + few(n, cap[0]), "%s attribute, half of %d subscriptions far below and half far above" % (ty, 2 * n))


def wide(t, ty, n, m, cap, order):
    """subscriptions no part can hold stay above, and do not keep the others from their parts"""
    doms = [decl(ty, "x", n, False), dom("r", "int", False)]
    vals = [mk(ty, i) for i in range(n)]
    lst = ty in ("ilist", "slist")
    P = [pin(ty, "x", v)[0] for v in vals]
    W = [[("cmp", "<", "r", 5), ("lit", True), ("list", "none of", "x", [vals[0]]) if lst else ("eq", "<>", "x", vals[0]), ("or", P[0], P[-1])][i % 4] for i in range(m)]
    ex = {"first": W + P, "last": P + W, "mix": [e for k in range(n) for e in [P[k]] + (W[k * m // n:(k + 1) * m // n])]}[order]
    w = World(doms, [(i + 1, e) for i, e in enumerate(ex)], *cap)
    if not setup(t, w):
        return
    for k in (0, 1, n // 2, n // 2 + 1, n - 1):
        report(t, w, {"x": [vals[k]] if lst else vals[k], "r": 9}, m + few(n, cap[0]), "%s attribute, %d subscriptions for a value each and %d for all" % (ty, n, m))


def learnt(t, ty, n, cap, how, form=0, conj=False):
    """an unbounded attribute whose boundaries are learnt before the subscriptions come"""
    vals = [mk(ty, i, -7, 2) for i in range(n)]
    ex = [pin(ty, "x", v)[form] for v in vals]
    if conj:
        # never the attribute alone
        ex = [("and", e, [("bool", "r"), ("cmp", "<", "o", 50), ("not", ("bool", "z"))][i % 3]) if i % 2 else ("and", [("bool", "r"), ("cmp", ">", "o", 5)][i // 2 % 2], e) for i, e in enumerate(ex)]
    doms = [dom("x", ty, False), dom("r", "bool", False), dom("o", "int"), dom("z", "bool", False)]
    declare(t, doms, *cap)
    w = World(doms, [(i + 1, e) for i, e in enumerate(ex)], *cap)
    made = []
    for i, e, c in w.subs:
        t.begin()
        r = t.guard("learning %s" % show(e), t.a.change_boundaries, e) if how == "bounds" else t.guard("making %s" % show(e), t.a.make_sub, i, e)
        if r is NOFAULT:
            return
        t.check(bool(r), lambda: "'%s' is refused" % show(e))
        if not r:
            return
        made.append(r)
    for k, (i, e, c) in enumerate(w.subs):
        r = t.guard("inserting %s" % show(e), t.a.insert, i, e) if how == "bounds" else t.guard("linking %s" % show(e), t.a.insert_sub, made[k])
        if r is NOFAULT:
            return
        t.check(bool(r), lambda: "insert of '%s' is refused" % show(e))
    lst = ty in ("ilist", "slist")
    for k in (0, 1, n // 2, n - 1):
        report(t, w, {"x": [vals[k]] if lst else vals[k], "r": True, "o": 9, "z": False}, few(n, cap[0]), "%s attribute with %s boundaries, %d subscriptions for a value each" % (ty, "learnt" if how == "bounds" else "learnt (make_sub)", n))


# ------------------------------------------------------------------------------------------------ short circuits
def opt(x):
    """predicates of every kind on the optional attribute: false when it is undefined"""
    d = dict(int=[("cmp", "<", x, 5), ("eq", "<>", x, 3), ("in", "not in", V(x), [1, 2]), ("in", "in", V(x), [1])], bool=[("bool", x)], float=[("cmp", ">=", x, F(1.5)), ("eq", "=", x, F(2))],
                str=[("eq", "=", x, "a"), ("in", "not in", V(x), ["a", "b"]), ("str", "contains", x, "a")], ienum=[("eq", "<>", x, 3)], ilist=[("list", o, x, [1, 2]) for o in ("one of", "none of", "all of")] + [("in", "not in", 1, V(x))],
                slist=[("list", "none of", x, ["a"]), ("in", "in", "a", V(x)), ("null", "is empty", x)], seg=[("seg", "segment_within", x, 1, 20), ("seg", "segment_before", x, 1, 20)])
    for l in d.values():
        l.append(("null", "is not null", x))
        l.append(("not", ("null", "is null", x)))
    return d


GIVEN = dict(int=9, bool=True, float=F(7), str="q", ienum=8, ilist=[4], slist=["q"], seg=Seg([(2, 1000000)]))


def shorts(t, ty, pad, cap):
    """what an undefined attribute decides alone is neither evaluated nor wrong; what it does not decide is evaluated"""
    x = "a%d" % (pad + 1)
    doms = [dom("r", "int", False), dom("now", "int", False)] + [dom("a%d" % (i + 1), ("int", "bool")[i % 2]) for i in range(pad)] + [dom(x, ty)] + [dom("z", "bool")]
    Q = [("cmp", "<", "r", 100), ("cmp", ">", "r", 100), ("bool", "z"), ("or", ("bool", "z"), ("cmp", "<", "r", 50))]
    subs, decided = [], []
    o = opt(x)[ty]
    for z, p in enumerate(o):
        forms = [(p, True), (("not", p), True)]
        for q in Q:
            forms += [(("and", p, q), True), (("and", q, p), True), (("or", ("not", p), q), True), (("or", q, ("not", p)), True), (("and", q, ("and", p, Q[0])), True), (("not", ("and", q, p)), True), (("or", ("not", p), ("or", q, Q[0])), True)]
            if q not in (Q[2], Q[3]):
                forms += [(("or", p, q), False), (("and", ("not", p), q), False)]
        p2 = o[(z + 1) % len(o)]
        forms += [(("or", p, p2), True), (("and", ("not", p), ("not", p2)), True), (("or", p2, ("and", Q[0], p)), True), (("and", ("or", ("not", p), Q[1]), ("not", p2)), True), (("or", ("or", p, p2), Q[0]), False), (("and", ("and", ("not", p), ("not", p2)), Q[1]), False)]
        forms += [(q, False) for q in Q[:2]]
        for f, yes in forms:
            subs.append((len(subs) + 20, f))
            decided.append(yes)
    w = World(doms, subs, *cap)
    if not setup(t, w):
        return
    base = {"r": 7, "now": 100, "z": True}
    full = dict(base, **{x: GIVEN[ty]}, **{"a%d" % (i + 1): (1, True)[i % 2] for i in range(pad)})
    n = len(subs)
    for ev, und in ((base, True), (dict(base, z=False, r=200), True), (dict(base, **{x: None}), True), (full, False), (dict(full, z=False, r=200), False), (dict(base, **{x: GIVEN[ty]}), False)):
        t.begin()
        d = t.guard("search %s" % showev(ev), t.a.search, ev)
        if d is NOFAULT:
            return
        if d is None:
            t.check(False, "event %s: the search fails on a valid event" % showev(ev))
            return
        ex = expected(w, ev)
        t.check(sorted(d["ids"]) == ex, lambda: diff(w, ev, ex, sorted(d["ids"])))
        want = sum(decided) if und else 0
        if cap[0] > n:
            t.check(d["evaluated"] == n, lambda: "%d subscriptions that no part of the index separates, event %s: %d evaluated" % (n, showev(ev), d["evaluated"]))
            t.check(d["shorted"] == want, lambda: "%s attribute %s, event %s: %d of %d subscriptions are short-circuited, %d of them %s [%s]" % (ty, x, showev(ev), d["shorted"], n, want, "are decided by it being undefined" if und else "could be, as nothing they use is undefined", w.show()[:500]))


def specials(t, pad, order):
    """predicates on several attributes: each of them decides when it is undefined"""
    US = 1000000
    doms = [dom("r", "int", False), dom("frequency_caps", "freq"), dom("now", "int"), dom("segments_with_timestamp", "seg"), dom("sg", "seg"), dom("latitude", "float"), dom("longitude", "float")]
    doms = doms[:1] + [dom("a%d" % i, "int") for i in range(pad)] + (doms[1:] if order else doms[:0:-1])
    q = ("cmp", "<", "r", 100)
    PR = [(("freq", ty, "ns", 5, 20), ("frequency_caps", "now")) for ty in ("flight", "campaign", "product")] + [(("freq", "flight", "ns", 5, 0), ("frequency_caps", "now"))] + \
         [(("seg", o, n, 1, 20), (n or "segments_with_timestamp", "now")) for o in ("segment_within", "segment_before") for n in (None, "sg")] + [(("geo", F(10.0), F(20.0), F(100.0)), ("latitude", "longitude"))]
    subs = []
    for p, at in PR:
        for f, yes in ((p, True), (("not", p), True), (("and", p, q), True), (("and", q, p), True), (("or", ("not", p), q), True), (("or", q, ("not", p)), True), (("or", p, q), False), (("and", ("not", p), q), False)):
            subs.append((f, at if yes else ()))
    w = World(doms, [(i + 1, f, CON if has_freq(f) else None) for i, (f, at) in enumerate(subs)], *BIG)
    if not setup(t, w):
        return
    full = {"r": 7, "frequency_caps": Caps([("flight", 4, "ns", 9, 95 * US)]), "now": 100, "segments_with_timestamp": Seg([(1, 95 * US)]), "sg": Seg([(1, 10 * US)]), "latitude": F(10.5), "longitude": F(20.5)}
    full.update({"a%d" % i: 1 for i in range(pad)})
    names = [n for n in full if n[0] != "a" and n != "r"]
    for gone in [()] + [(n,) for n in names] + [("now", "latitude"), ("frequency_caps", "sg"), ("latitude", "longitude"), tuple(names)]:
        ev = {n: v for n, v in full.items() if n not in gone}
        d = report(t, w, ev, len(subs), "special predicates", False)
        if d is None:
            return
        want = sum(1 for f, at in subs if set(at) & set(gone))
        t.check(d["shorted"] == want and d["evaluated"] == len(subs), lambda: "special predicates, %s undefined: %d of %d subscriptions are short-circuited, %d are decided by that" % (" and ".join(gone) or "nothing", d["shorted"], len(subs), want))


def alone(t, ty, pad):
    """the same, one subscription at a time"""
    x = "a%d" % (pad + 1)
    doms = [dom("r", "int", False), dom("now", "int", False)] + [dom("a%d" % (i + 1), "int") for i in range(pad)] + [dom(x, ty)]
    base = t.e.snapshot()
    q = ("cmp", "<", "r", 100)
    for p in opt(x)[ty]:
        for f in (p, ("not", p), ("and", p, q), ("and", q, p), ("or", ("not", p), q), ("or", q, ("not", p)), ("and", q, ("and", q, p)), ("not", ("not", p))):
            t.e.restore(base)
            w = World(doms, [(1, f)], *BIG)
            if not setup(t, w):
                return
            for ev, sh in (({"r": 7, "now": 100}, 1), ({"r": 700, "now": 100}, 1), ({"r": 7, "now": 100, x: GIVEN[ty]}, 0)):
                d = report(t, w, ev, 1, "one subscription")
                if d is None:
                    return
                t.check(d["shorted"] == sh and d["evaluated"] == 1, lambda: "'%s', event %s: evaluated %d, short-circuited %d, expected 1 and %d" % (show(f), showev(ev), d["evaluated"], d["shorted"], sh))


# ------------------------------------------------------------------------------------------------ memoization
FULL = {"i": 1, "j": 2, "f": F(1), "g": F(2), "s": "a", "u": "ab", "e": 1, "k": 0, "l": [1, 2], "m": [0], "sl": ["a"], "sm": ["b"], "b": True, "d": False, "sg": Seg([(1, 95 * 10 ** 6)]), "segments_with_timestamp": Seg([(1, 95 * 10 ** 6)]), "now": 100, "frequency_caps": Caps([("flight", 4, "x", 9, 95 * 10 ** 6)])}


def full_event(doms):
    ok = dict(int=1, float=F(1), str="a", ienum=1, ilist=[1, 2], slist=["a"], bool=True, seg=Seg([(1, 95 * 10 ** 6)]), freq=Caps([("flight", 4, "x", 9, 95 * 10 ** 6)]))
    return {d[0]: FULL.get(d[0], ok[d[1]]) for d in doms}


def shared(t, preds, n, form, cap):
    """n subscriptions share a predicate: it is evaluated once in a search"""
    base = t.e.snapshot()
    doms = list(DOMS) + [dom("zz%d" % i, "int", False) for i in range(2)]
    fe = dict(full_event(DOMS), zz0=5, zz1=5)
    for p in preds:
        t.e.restore(base)
        con = CON if has_freq(p) else None
        own = lambda i: ("cmp", "<", "zz0", 1000 + i)
        tv = ref(p, fe, con or {})
        if form == "same":
            subs = [p] * n
        elif form == "and":        # p stays to be asked whatever the order: the own part is true
            subs = [("and", p, own(i)) if i % 2 else ("and", own(i), p) for i in range(n)]
        elif form == "or":
            subs = [("or", p, ("not", own(i))) if i % 2 else ("or", ("not", own(i)), p) for i in range(n)]
        elif form == "not":
            subs = [("not", p) for i in range(n)]
        else:
            subs = [("and", ("or", p, ("cmp", ">", "zz1", 70)), own(i)) for i in range(n)]
        w = World(doms, [(i + 1, e, con) for i, e in enumerate(subs)], *cap)
        if not setup(t, w):
            return
        t.begin()
        d = t.guard("search %s" % showev(fe), t.a.search, fe)
        if d is NOFAULT:
            return
        if d is None:
            t.check(False, "event %s: the search fails on a valid event" % showev(fe))
            return
        t.check(sorted(d["ids"]) == expected(w, fe), lambda: diff(w, fe, expected(w, fe), sorted(d["ids"])))
        if cap[0] > n:
            # every further time it is asked is answered from memory: by the predicate itself, or by a larger shared expression
            t.check(d["memoized"] == n - 1, lambda: "%d subscriptions share '%s' (as '%s'): %d of the %d further evaluations are memoized" % (n, show(p), show(subs[0]), d["memoized"], n - 1))
        r2 = t.guard("search again", t.a.search, fe)
        if r2 is not NOFAULT:
            t.check(r2 is not None and r2["memoized"] == d["memoized"] and r2["evaluated"] == d["evaluated"] and r2["shorted"] == d["shorted"], lambda: "the same search again: the counters are %r, they were %r" % (r2, d))


def permuted(t, n):
    """the order of the members of a literal list does not matter to sharing"""
    base = t.e.snapshot()
    doms = [dom("i", "int"), dom("l", "ilist"), dom("s", "str"), dom("sl", "slist")]
    R = random.Random(n)
    I, S = [3 * k - 4 for k in range(n)], ["m%d" % k for k in range(n)]
    fe = {"i": 5, "l": [1, 2], "s": "m1", "sl": ["m0", "q"]}
    for mkp, l in [(lambda q, o=o: ("list", o, "l", q), I) for o in ("one of", "none of", "all of")] + [(lambda q, o=o: ("list", o, "sl", q), S) for o in ("one of", "none of", "all of")] + [(lambda q, o=o: ("in", o, V("i"), q), I) for o in ("in", "not in")] + [(lambda q, o=o: ("in", o, V("s"), q), S) for o in ("in", "not in")]:
        t.e.restore(base)
        ls = [list(l), l[::-1]] + [R.sample(l, n) for _ in range(3)]
        w = World(doms, [(i + 1, mkp(q)) for i, q in enumerate(ls)], *BIG)
        if not setup(t, w):
            return
        t.begin()
        d = t.guard("search", t.a.search, fe)
        if d is NOFAULT:
            return
        t.check(d is not None and sorted(d["ids"]) == expected(w, fe) and d["memoized"] == len(ls) - 1, lambda: "the same list written in %d orders ('%s'): %r memoized, expected %d" % (len(ls), show(mkp(ls[1])), d and d["memoized"], len(ls) - 1))


def distinct(t, preds, cap):
    """nothing is memoized when nothing is shared"""
    doms = list(DOMS)
    fe = full_event(DOMS)
    w = World(doms, [(i + 1, p, CON if has_freq(p) else None) for i, p in enumerate(preds)], *cap)
    if not setup(t, w):
        return
    t.begin()
    d = t.guard("search", t.a.search, fe)
    if d is NOFAULT:
        return
    t.check(d is not None and d["memoized"] == 0, lambda: "%d different predicates: %r memoized" % (len(preds), d and d["memoized"]))


# ------------------------------------------------------------------------------------------------ the simplest first
DEAR = [("in", "in", V("i"), [1, 5]), ("in", "in", 1, V("l")), ("list", "one of", "l", [1, 9]), ("list", "all of", "l", [1, 2]), ("list", "none of", "sl", ["q"]), ("str", "contains", "s", "a"), ("str", "starts_with", "s", "a"), ("seg", "segment_within", "sg", 1, 20), ("in", "in", V("s"), ["a", "b"]), ("in", "in", "a", V("sl"))]


def first(t, dear, op, side, cheap, nest):
    """an operand that is simple to evaluate spares the other, on whichever side it is written"""
    doms = [dom("i", "int", False), dom("l", "ilist", False), dom("s", "str", False), dom("sl", "slist", False), dom("sg", "seg", False), dom("now", "int", False), dom("q", "int", False), dom("h", "float", False), dom("c", "str", False)]
    fe = {"i": 1, "l": [1, 2], "s": "a", "sl": ["a"], "sg": Seg([(1, 95 * 10 ** 6)]), "now": 100, "q": 5, "h": F(5), "c": "v0"}
    n = 5

    def own(i):
        yes = op == "or"
        if cheap == "cmp":
            return ("cmp", "<" if yes else ">", "q", 100 + i)
        if cheap == "eq":
            return ("eq", "<>" if yes else "=", "c", "w%d" % i)
        if cheap == "not":
            return ("not", ("cmp", ">" if yes else "<", "h", F(100 + i)))
        return ("or" if yes else "and", ("cmp", "<" if yes else ">", "q", 100 + i), ("cmp", "<" if yes else ">", "h", F(100 + i)))
    e = dear if nest == 0 else (("not", ("not", dear)) if nest == 1 else (("or", "and")[op == "or"], dear, DEAR[(DEAR.index(dear) + 3) % len(DEAR)]))
    if op == "or":
        e = ("not", e)             # false: the operand alone does not decide
    tv = ref(e, fe)
    subs = [(op, e, own(i)) if side == "left" else (op, own(i), e) for i in range(n)]
    w = World(doms, [(i + 1, s) for i, s in enumerate(subs)], *BIG)
    if not setup(t, w):
        return
    d = report(t, w, fe, n, "simplest first")
    if d is None:
        return
    t.check(d["memoized"] == 0, lambda: "'%s': the simple operand decides, and yet the other is asked (%d of %d further evaluations of '%s' are memoized)" % (show(subs[0]), d["memoized"], n - 1, show(e)))


def build(ck):
    ck.partition = ("Counters of the report, as the code computes them: n subscriptions pinned to distinct values of a bounded attribute of every kind the index splits (declared or learnt boundaries, offsets, gaps, orders, capacities, optional or not, "
                    "alone or in conjunctions, two attributes) evaluate a few per level; every predicate kind on an undefined optional attribute, negated and under connectives, alone and among others, at positions around the words of the bit sets; "
                    "every predicate kind shared by n subscriptions, in lists written in any order; costly and simple operands in both orders.")
    caps = [(1, 0), (3, 0), (2, 4)]
    k = 0
    for ty in KINDS:
        for n in (64, 128) if ck.quick else (32, 64, 100, 128, 256):
            for order in ("up", "down", "mix"):
                for form in range(len(pin(ty, "x", mk(ty, 0)))):
                    k += 1
                    off, step = [(0, 1), (-40, 1), (1000, 1), (0, 3), (-(10 ** 9), 2)][k % 5]
                    for cap in (caps if not ck.quick else [caps[k % 3]]):
                        ck.task("%s pinned, %d subscriptions" % (ty, n), prune, ty, n, cap, k % 2 == 0, off, step, form, order, False)
                        if order == "mix":
                            ck.task("%s pinned in conjunctions, %d subscriptions" % (ty, n), prune, ty, n, cap, k % 2 == 0, off, step, form, order, True)
        for i, order in enumerate(("up", "mix")):
            k += 1
            ck.task("%s pinned, 400 subscriptions" % ty, prune, ty, 400, caps[k % 3], i == 0, -7, 1 + k % 2, k, order, False)
    for ty in KINDS:
        for cap in caps:
            ck.task("int and %s" % ty, grid, 8 if ck.quick else 12, cap, ty)
    for j, ty in enumerate(KINDS):
        for i, order in enumerate(("first", "last", "mix")):
            ck.task("%s pinned, and wide (%s)" % (ty, order), wide, ty, 64, (1, 6, 16)[(i + j) % 3], caps[(i + 2 * j) % 3], order)
    for ty in ("int", "float", "ilist"):
        for cap in caps:
            ck.task("halves of %s" % ty, halves, 40, cap, ty)
    for ty in KINDS:
        for how in ("bounds", "sub"):
            for n in (64,) if ck.quick else (64, 128):
                for form in range(len(pin(ty, "x", mk(ty, 0)))):
                    for conj in (False, True):
                        ck.task("%s learnt" % ty, learnt, ty, n, caps[(len(ty) + form + conj) % 2], how, form, conj)
    pads = (0, 1, 28, 29, 30, 31, 58, 59, 60, 61, 62, 63, 64, 65) if ck.quick else tuple(range(0, 70)) + (120, 124, 125, 126, 127, 128, 129, 190)
    for j, ty in enumerate(GIVEN):
        for i, pad in enumerate(pads):
            if ck.quick and i > 1 and (i + j) % 4:
                continue
            ck.task("short-circuits of %s (%d before)" % (ty, pad), shorts, ty, pad, BIG)
            if pad in (0, 1, 60, 61, 63, 64) or not ck.quick:
                ck.task("short-circuits of %s alone" % ty, alone, ty, pad)
        ck.task("short-circuits of %s in parts" % ty, shorts, ty, 1, (3, 0))
    for pad in (0, 57, 60, 62, 63) if ck.quick else range(0, 66):
        for order in (0, 1):
            ck.task("short-circuits of special predicates", specials, pad, order)
    P = [p for p in near()]
    R = random.Random(5)
    R.shuffle(P)
    if ck.quick:
        # a representative of every kind and operator, and more at random
        seen, Q = set(), []
        for p in P:
            kd = (p[0], p[1] if p[0] != "freq" else "", p[2].__class__.__name__ if p[0] == "in" else "")
            if kd not in seen or R.random() < .15:
                seen.add(kd)
                Q.append(p)
        P = Q
    for form in ("same", "and", "or", "not", "deep"):
        for q in chunks(P, 12):
            ck.task("shared (%s)" % form, shared, q, 4, form, BIG)
    for n in (2, 3, 9, 40, 65, 130):
        ck.task("shared by %d" % n, shared, P[:3] + [("cmp", "<", "i", 3)], n, ["same", "and", "or"][n % 3], BIG)
    for n in (2, 3, 7, 20):
        ck.task("lists of %d in any order" % n, permuted, n)
    for q in chunks(P, 40):
        ck.task("nothing shared", distinct, [p for i, p in enumerate(q) if p not in q[:i]], BIG)
    k = 0
    for dear in DEAR:
        for op in ("and", "or"):
            for side in ("left", "right"):
                for cheap in ("cmp", "eq", "not", "two"):
                    for nest in (0, 1, 2):
                        k += 1
                        if ck.quick and k % 2 and nest:
                            continue
                        ck.task("simplest first", first, dear, op, side, cheap, nest)
    ck.assumptions.append("'a few' is 3 x (capacity of a node + 2) per attribute beyond those that match, however many subscriptions there are: several times what the unchanged code needs")
