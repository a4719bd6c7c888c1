"""C06: the index (partitioning, clustering, boundaries) never changes which subscriptions match."""
import random
from .lib import *

CAPS = [(1, 0), (3, 0), (2, 3)]


def run(t, doms, exprs, evs, cap):
    match_world(t, World(doms, [(i + 1, e) for i, e in enumerate(exprs)], *cap), evs)


def mixed(rng, preds, n):
    """preds, plus formulas over them"""
    out = list(preds)
    for _ in range(n):
        a, b, c = (rng.choice(preds) for _ in range(3))
        k = rng.randrange(6)
        op, op2 = rng.choice(("and", "or")), rng.choice(("and", "or"))
        f = (op, a, b)
        out.append([f, ("not", f), (op, ("not", a), b), (op2, f, c), (op2, c, ("not", f)), ("not", (op2, ("not", a), f))][k])
    rng.shuffle(out)
    return out


def one_attr(t, typ, undef, lo, hi, preds, evs, cap, seed, extra=()):
    rng = random.Random(seed)
    doms = [dom("x", typ, undef, lo, hi)] + list(extra)
    run(t, doms, mixed(rng, preds, len(preds) // 2), evs, cap)


def build(ck):
    ck.partition = ("Worlds of up to a few hundred subscriptions (every comparison, equality, set and list form at every position of a bounded domain whose absolute location is abstract, plus formulas over them, "
                    "negated or not, over one or several partitionable attributes) are indexed with node capacities 1, 2, 3 and the default so that every kind of split happens; for event values at every "
                    "position of the domain, on its edges, outside it and undefined, the ids the analysed search reports must be those of a subscription-by-subscription evaluation.")
    C4 = ("<", "<=", ">", ">=")
    # ---- integers
    for undef in (True, False):
        for (lo, hi) in ((A(1, -8), A(1, 8)), (0, 16), (-5, 6), (A(-1), A(-1, 1)), (A(2), A(2)), (A(1), A(1, 2)), (A(1), A(1, 3)), (I64MIN, I64MAX), (A(-1), A(1)), (0, 998), (0, 999), (0, 1000), (A(-1), A(-1, 998))):
            w = hi - lo
            wide = not isinstance(w, int) or w > 100
            if wide and isinstance(w, int) and w < 2000:
                pos = sorted({lo, lo + 1, lo + w // 2, lo + w // 2 + 1, lo + w // 4, lo + w // 4 + 1, lo + w // 2 + w // 4, hi - 1, hi, lo + 15, lo + 16})
            elif wide:
                pos = [A(-1), A(-1, 1), 0, 1, 5, A(1), A(1, -1)]
            else:
                pos = [lo + k for k in range(w + 1)]
            outside = [pos[0] - 1, pos[0] - 2, pos[-1] + 1, pos[-1] + 3, A(7), A(-7)] if lo != I64MIN else [A(7), I64MAX]
            preds = [("cmp", op, "x", c) for op in C4 for c in pos] + [("eq", op, "x", c) for op in ("=", "<>") for c in pos]
            preds += [("in", op, V("x"), l) for op in ("in", "not in") for l in ([pos[0]], pos[:2], pos[-2:], [pos[0], pos[-1]], [pos[len(pos) // 2]])]
            preds += [("cmp", "<", "x", pos[-1] + 1), ("cmp", ">", "x", pos[0] - 1), ("eq", "=", "x", pos[-1] + 1), ("eq", "<>", "x", pos[0] - 1), ("in", "in", V("x"), [pos[0] - 1, pos[0]])] if lo != I64MIN else []
            preds += [("null", "is null", "x"), ("null", "is not null", "x")]
            evs = [{"x": v} for v in pos + outside] + ([{}] if undef else [])
            for ci, cap in enumerate(CAPS):
                if wide and ci == 2 or ck.quick and ci == 2 and not undef or ck.quick and (lo, hi) in ((0, 998), (0, 999)) and ci:
                    continue
                ck.task("integers %r..%r cap %d" % (lo, hi, cap[0]), one_attr, "int", undef, lo, hi, preds, evs, cap, ci)
    # ---- floats
    for undef in (True, False):
        for lo, hi in ((A(1, -6), A(1, 6)), (0, 10), (0, 1), (0, 2), (0, 3), (0, 1.5), (0, 0.5), (-1, 1), (-2.5, 4.25), (None, None)):
            a, b = (A(-1), A(1)) if lo is None else (lo, hi)
            pos = []
            v = a
            while v <= b and len(pos) < 30:
                pos.append(v)
                v = v + (0.5 if lo is not None else 1)
            pos += [b, a + (0.25 if lo is not None else 2)]
            preds = [("cmp", op, "x", F(c)) for op in C4 for c in pos[::1 if len(pos) < 12 else 2]] + [("eq", op, "x", F(c)) for op in ("=", "<>") for c in pos]
            preds += [("cmp", "<", "x", F(b + 0.25)), ("cmp", ">", "x", F(a - 0.25)), ("null", "is null", "x"), ("null", "is not null", "x")]
            evs = [{"x": F(v)} for v in pos + [a - 0.5, a - 3, b + 0.5, b + 2, A(7), A(-7)]] + [{"x": F(p + 0.125)} for p in pos[::3]] + ([{}] if undef else [])
            for ci, cap in enumerate(CAPS[:2]):
                if ck.quick and (lo is None and not (ci == 0 and undef) or (lo, hi) in ((0, 10), (-1, 1)) and ci):
                    continue
                ck.task("floats %r..%r cap %d" % (lo, hi, cap[0]), one_attr, "float", undef, lo, hi, preds, evs, cap, ci)
    # ---- strings
    words = ["w%d" % i for i in range(14)]
    for undef in (True, False):
        for hi in (None, 14, 15, 40, 16):
            preds = [("eq", op, "x", s) for op in ("=", "<>") for s in words]
            preds += [("in", op, V("x"), l) for op in ("in", "not in") for l in ([words[0]], words[:3], words[5:9], [words[0], words[13]], words[12:], words)]
            preds += [("str", op, "x", p) for op in ("contains", "starts_with", "ends_with") for p in ("w1", "1", "w", "q")]
            preds += [("null", "is null", "x"), ("null", "is not null", "x")]
            evs = [{"x": s} for s in words + ["unknown", "w", "w99", ""]] + ([{}] if undef else [])
            for ci, cap in enumerate(CAPS):
                ck.task("strings capacity %r cap %d" % (hi, cap[0]), one_attr, "str", undef, None, hi, preds, evs, cap, ci)
                if ci < 2:
                    ev2 = [{"x": l} for l in ([], ["w0"], ["w1", "w13"], ["w5", "w2", "w5"], words, ["unknown"], ["unknown", "w3"], words[7:], words[:2])] + ([{}] if undef else [])
                    pl = [("in", op, s, V("x")) for op in ("in", "not in") for s in words]
                    pl += [("list", op, "x", l) for op in ("one of", "none of", "all of") for l in ([words[0]], words[:3], words[5:9], [words[0], words[13]], words[12:], words)]
                    pl += [("null", "is empty", "x"), ("null", "is null", "x"), ("null", "is not null", "x")]
                    ck.task("string lists capacity %r cap %d" % (hi, cap[0]), one_attr, "slist", undef, None, hi, pl, ev2, cap, ci)
    # ---- enums
    for undef in (True, False):
        for hi in (None, 12, 13, 30):
            vs = [0, 5, 7, A(1), A(1, 1), A(-1), 1 << 32, 3, 9, -4, 11]
            preds = [("eq", op, "x", s) for op in ("=", "<>") for s in vs] + [("null", "is null", "x"), ("null", "is not null", "x")]
            evs = [{"x": s} for s in vs + [1000, A(3), 1]] + ([{}] if undef else [])
            for ci, cap in enumerate(CAPS[:2]):
                ck.task("integer enums capacity %r cap %d" % (hi, cap[0]), one_attr, "ienum", undef, None, hi, preds, evs, cap, ci)
    # ---- integer lists
    for undef in (True, False):
        for (lo, hi) in ((A(1, -6), A(1, 6)), (0, 9), (-3, 3), (None, None), (A(1), A(1, 1))):
            if lo is None:
                pos = [A(-1), -1, 0, 1, A(1), A(1, 1)]
            else:
                pos = [lo + k for k in range(hi - lo + 1)]
            m = len(pos) // 2
            ls = [[p] for p in pos] + [pos[:2], pos[-2:], [pos[0], pos[-1]], pos[m:m + 2], pos, pos[:m], pos[m:]]
            preds = [("list", op, "x", l) for op in ("one of", "none of", "all of") for l in ls]
            preds += [("in", op, p, V("x")) for op in ("in", "not in") for p in pos]
            preds += [("null", "is empty", "x"), ("null", "is null", "x"), ("null", "is not null", "x")]
            evs = [{"x": l} for l in [[]] + [[p] for p in pos] + [pos[:2], pos[-2:], [pos[-1], pos[0]], pos, pos[m:], [pos[0] - 1], [pos[-1] + 1], [pos[0] - 1, pos[-1] + 1], [A(7)], [A(-7), pos[0]],
                                           [pos[-1], A(7)], [pos[m], pos[m]]]] + ([{}] if undef else [])
            for ci, cap in enumerate(CAPS[:2]):
                ck.task("integer lists %r..%r cap %d" % (lo, hi, cap[0]), one_attr, "ilist", undef, lo, hi, preds, evs, cap, ci)
    # ---- booleans
    for undef in (True, False):
        preds = [("bool", "x"), ("not", ("bool", "x")), ("null", "is null", "x"), ("null", "is not null", "x"), ("lit", True), ("lit", False)] * 3
        for ci, cap in enumerate(CAPS):
            ck.task("booleans cap %d" % cap[0], one_attr, "bool", undef, None, None, preds, [{"x": True}, {"x": False}] + ([{}] if undef else []), cap, ci)
    # ---- domains nearly as wide as the type
    for lo, hi in ((I64MIN + 1, I64MAX - 1), (I64MIN + 2, I64MAX - 3), (I64MIN + 1, I64MIN + 5), (I64MAX - 5, I64MAX - 1), (-(1 << 62) - 9, (1 << 62) + 8), (I64MIN + 1, 5), (-5, I64MAX - 1), (I64MIN, 5), (-5, I64MAX), (0, I64MAX), (I64MIN, -1), (-4, 4), (I64MAX - 2, I64MAX), (I64MIN, I64MIN + 2)):
        pos = sorted({lo, lo + 1, lo + 2, lo + (hi - lo) // 2, lo + (hi - lo) // 2 + 1, -1, 0, 1, hi - 2, hi - 1, hi})
        pos = [p for p in pos if lo <= p <= hi]
        lit = sorted({p for p in pos if p != I64MIN} | {I64MIN + 1, I64MAX})
        preds = [("cmp", op, "x", c) for op in C4 for c in lit] + [("eq", op, "x", c) for op in ("=", "<>") for c in lit] + [("not", ("cmp", op, "x", c)) for op in C4 for c in (lit[0], lit[-1])]
        lp = [("list", op, "x", [c]) for op in ("one of", "none of", "all of") for c in lit] + [("list", "one of", "x", lit), ("list", "all of", "x", lit[:1] + lit[-1:])]
        for cap in ((1, 0), (3, 0)):
            ck.task("integers %d..%d" % (lo, hi), one_attr, "int", cap[0] == 1, lo, hi, preds, [{"x": v} for v in pos + [I64MIN, I64MAX]], cap, 3)
            ck.task("integer lists %d..%d" % (lo, hi), one_attr, "ilist", cap[0] == 1, lo, hi, lp, [{"x": [v]} for v in pos + [I64MIN, I64MAX]] + [{"x": []}, {"x": pos}], cap, 3)
    # ---- the configured values are used in full
    for cap in (255, 256, 257, 512, 1 << 16, (1 << 16) + 1, 1 << 32, (1 << 32) + 2, 1 << 60):
        ck.task("capacity %d" % cap, capacity, cap)
    # ---- several attributes
    for k in range(16 if ck.quick else 96):
        ck.task("several attributes, world %d" % k, several, k)


def capacity(t, cap):
    """subscriptions that fit in one node are all evaluated: no split happened"""
    doms = [dom("x", "int", False, 0, 15)]
    w = World(doms, [(k + 1, ("eq", "=", "x", k)) for k in range(16)], cap, 0)
    if not setup(t, w):
        return
    for v in (0, 7, 15, 99):
        t.begin()
        d = t.guard("search", t.a.search, {"x": v})
        if d is NOFAULT:
            return
        t.check(d is not None and sorted(d["ids"]) == expected(w, {"x": v}) and d["evaluated"] == 16, lambda: "node capacity %d: a search over 16 subscriptions evaluates %s of them, the tree was split before a node was full" % (cap, d and d["evaluated"]))


def several(t, seed):
    rng = random.Random(1000 + seed)
    kinds = []
    und = lambda: rng.random() < 0.6
    lo = rng.choice([A(1, -4), 0, -4, A(-1, -4)])
    wi = rng.choice([2, 4, 8])
    doms = [dom("i", "int", und(), lo, lo + wi), dom("j", "int", und(), 0, rng.choice([3, 8, 2000])), dom("f", "float", und(), 0, rng.choice([1, 2, 5])), dom("b", "bool", und()), dom("c", "bool", und()),
            dom("s", "str", und(), None, rng.choice([None, 8, 9])), dom("e", "ienum", und(), None, rng.choice([None, 6])), dom("l", "ilist", und(), 0, rng.choice([4, 9])), dom("m", "slist", und(), None, rng.choice([None, 9])),
            dom("sg", "seg", True), dom("now", "int", True), dom("q", "int", und())]
    rng.shuffle(doms)
    W = ["p", "q", "r", "s"]

    def leaf():
        k = rng.randrange(13)
        if k < 3:
            return ("cmp", rng.choice(("<", "<=", ">", ">=")), "i", lo + rng.randrange(wi + 1))
        if k == 3:
            return ("eq", rng.choice(("=", "<>")), "j", rng.randrange(4))
        if k == 4:
            return ("cmp", rng.choice(("<", "<=", ">", ">=")), "f", F(rng.choice((0, 0.5, 1, 1.5, 2))))
        if k == 5:
            return ("bool", rng.choice("bc"))
        if k == 6:
            return ("eq", rng.choice(("=", "<>")), "s", rng.choice(W))
        if k == 7:
            return ("eq", rng.choice(("=", "<>")), "e", rng.choice((1, 5, A(1))))
        if k == 8:
            return ("list", rng.choice(("one of", "none of", "all of")), "l", sorted(rng.sample(range(5), rng.randrange(1, 4))))
        if k == 9:
            return ("in", rng.choice(("in", "not in")), rng.choice(W), V("m"))
        if k == 10:
            return ("in", rng.choice(("in", "not in")), V("i"), [lo + z for z in sorted(rng.sample(range(wi + 1), 2))])
        if k == 11:
            return ("null", rng.choice(("is null", "is not null")), rng.choice("ijbsq"))
        return rng.choice([("seg", "segment_within", "sg", 1, 20), ("eq", "=", "q", A(1)), ("null", "is empty", "l")])

    def form(d):
        if d == 0 or rng.random() < 0.25:
            return leaf()
        k = rng.randrange(5)
        if k == 0:
            return ("not", form(d - 1))
        return (rng.choice(("and", "or")), form(d - 1), form(d - 1))
    exprs = [form(rng.choice((0, 1, 2, 3))) for _ in range(90)]
    n = sum(exprs.count(e) for e in exprs)
    evs = []
    req = {d[0] for d in doms if not d[2]}
    for _ in range(24):
        e = dict(i=lo + rng.choice(range(-2, wi + 3)), j=rng.choice((0, 1, 2, 3, 9)), f=F(rng.choice((0, 0.5, 0.75, 1, 2, 3, -1))), b=rng.random() < 0.5, c=rng.random() < 0.5, s=rng.choice(W + ["zz"]),
                 e=rng.choice((1, 5, A(1), 8)), l=[rng.randrange(-1, 11) for _ in range(rng.randrange(4))], m=rng.sample(W + ["zz"], rng.randrange(4)), sg=Seg([(1, rng.choice((70, 95)) * 1000000)]), now=100, q=rng.choice((A(1), 3)))
        for k in list(e):
            if k not in req and rng.random() < 0.25:
                del e[k]
        evs.append(e)
    run(t, doms, exprs, evs, rng.choice([(1, 0), (2, 0), (3, 0), (3, 5), (1, 2), (5, 1)]))
