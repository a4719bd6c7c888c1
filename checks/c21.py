"""C21: making a subscription and linking it later is the same as inserting it at once."""
import random
from .lib import *
from .c05 import DOMS as D5, CON, CON2, near, has_freq, evs as E5

# a declared capacity: making a subscription teaches an attribute without one its values, and closes it to new ones
DOMS = [d[:4] + (500,) if d[1] in ("str", "slist", "ienum") else d for d in D5]


def split(t, subs, evs, cap, order, seed):
    """make all, link in another order; or make and link interleaved with plain insertions"""
    declare(t, DOMS, *cap)
    w = World(DOMS, [(i + 1,) + s for i, s in enumerate(subs)], *cap)
    rng = random.Random(seed)
    made = []
    todo = list(w.subs)
    linked = []

    def link():
        k = rng.randrange(len(made)) if order != "fifo" else 0
        if order == "lifo":
            k = len(made) - 1
        s, p = made.pop(k)
        r = t.guard("betree_insert_sub of '%s'" % show(s[1]), t.a.insert_sub, p)
        if r is NOFAULT:
            return False
        t.check(bool(r), lambda: "betree_insert_sub of '%s' is refused" % show(s[1]))
        linked.append(s)
        return True
    for s in todo:
        t.begin()
        i, e, c = s
        if order == "mixed" and rng.random() < .3:
            r = t.guard("insert '%s'" % show(e), t.a.insert, i, e, c)
            if r is NOFAULT:
                return
            t.check(bool(r), lambda: "insert of '%s' is refused" % show(e))
            linked.append(s)
        else:
            r = t.guard("betree_make_sub '%s'" % show(e), t.a.make_sub, i, e, c)
            if r is NOFAULT:
                return
            t.check(bool(r), lambda: "betree_make_sub of the valid '%s' is refused" % show(e))
            if r:
                made.append((s, r))
        if order in ("mixed", "fifo2") and made and rng.random() < .5 and not link():
            return
        if order == "mixed" and rng.random() < .08:
            # what is made but not linked does not match yet
            n0 = t.e.snapshot()
            ev = evs[len(linked) % len(evs)]
            w2 = World(DOMS, linked, *cap)
            events(t, w2, [ev])
            t.e.restore(n0)
    while made:
        if not link():
            return
    events(t, w, evs)


def nothing(t, good, evs):
    """a made subscription that is not linked never matches"""
    declare(t, DOMS)
    for i, (e, c) in enumerate(good):
        r = t.guard("betree_make_sub '%s'" % show(e), t.a.make_sub, i, e, c)
        if r is NOFAULT:
            return
    events(t, World(DOMS, []), evs)


def beyond(t, ty, bound, cap, order, seed):
    """values made beyond the declared capacity are told apart and found like the others, also by a tree that was split before they were known"""
    from .c13 import exprs
    rng = random.Random(seed)
    vals = [7, -3, 100, 8, 0, -40, 9, 12, 13] if ty == "ienum" else ["v%d" % i for i in range(7)] + ["", "V1"]
    doms = [dom("x", ty, True, None, bound), dom("b", "bool")]
    declare(t, doms, *cap)
    es = exprs("x", ty, vals, rng) + exprs("x", ty, vals[::-1], rng)
    if ty == "slist":
        es += [("list", "all of", "x", vals[k:k + 2]) for k in range(len(vals) - 1)]
    es = [("and", e, ("or", ("bool", "b"), ("not", ("bool", "b")))) if k % 5 == 4 else e for k, e in enumerate(es)]
    w = World(doms, [], *cap)
    vs = [[v] for v in vals] + [vals[:2], vals[3:6], ["new"], []] if ty == "slist" else vals + [-99 if ty == "ienum" else "new"]
    evs = [{"x": v, "b": k % 2 == 0} for k, v in enumerate(vs)] + [{"b": True}]
    made = []
    for k, e in enumerate(es):
        t.begin()
        p = t.guard("betree_make_sub '%s'" % show(e), t.a.make_sub, k + 1, e)
        if p is NOFAULT:
            return
        t.check(bool(p), lambda: "betree_make_sub of the valid '%s' is refused" % show(e))
        if p:
            made.append(((k + 1, e, None), p))
        while made and (order == "now" or order == "soon" and len(made) > 3 or k + 1 == len(es)):
            s, p = made.pop(rng.randrange(len(made)))
            if t.guard("betree_insert_sub of '%s'" % show(s[1]), t.a.insert_sub, p) is NOFAULT:
                return
            w.subs.append(s)
        if k % 6 == 5:
            events(t, w, evs[k % 3::3])
    for v in vals:
        e = exprs("x", ty, [v], rng)[0]
        r = t.guard("insert of '%s'" % show(e), t.a.insert, len(w.subs) + 1, e)
        if r is NOFAULT:
            return
        t.check(bool(r), lambda: "insert of '%s', whose value is known, is refused" % show(e))
        w.subs.append((len(w.subs) + 1, e, None))
    events(t, w, evs)


def refusals(t, ty, undef):
    """betree_make_sub refuses what insertion refuses for syntax, undeclared attributes, types and constants, whatever surrounds it, and nothing changes"""
    from .c11 import preds, special, CTX
    from .lib import toks
    doms = [dom("x", ty, undef), dom("kb", "bool", False), dom("frequency_caps", "freq"), dom("now", "int")]
    if ty == "freq":
        doms[0] = dom("x", "int", undef)
    declare(t, doms)
    g = ("bool", "kb")
    w = World(doms, [(1, g), (2, ("not", g))])
    for i, e, c in w.subs:
        t.guard("insert", t.a.insert, i, e)
    snap = t.e.snapshot()
    cases = [(p, c) for p in preds("x") + preds("z") + special() if p[0] != "null" for c in (None, CON)[:1 if p[0] != "freq" else 2]] + [(p, {k: v for k, v in CON.items() if k != "flight_id"}) for p in special() if p[0] == "freq"]
    for k, (p, con) in enumerate(cases):
        for cx in {0, k % len(CTX)}:
            e = CTX[cx][1](p, g)
            t.begin()
            a = t.guard("insert '%s'" % show(e), t.a.insert, 9, e, con or {})
            if a is NOFAULT:
                return
            t.e.restore(snap)
            b = t.guard("betree_make_sub '%s'" % show(e), t.a.make_sub, 9, e, con)
            if b is NOFAULT:
                return
            t.check(bool(a) == bool(b), lambda: "'%s' (x: %s) is %s by betree_make_sub but %s by insertion" % (show(e), ty, "accepted" if b else "refused", "accepted" if a else "refused"))
            if k % 7 == 0:
                events(t, w, [{"kb": True}, {"kb": False}] if undef else [], "search after betree_make_sub")
            t.e.restore(snap)
    for e in [g, ("and", g, g), ("cmp", "<", "now", 3), ("in", "in", V("now"), [1, 2]), ("not", g)]:
        tk = toks(e)
        for cut in [tk[:-1], tk + tk, tk[1:], tk + tk[-1:], tk[:1] + tk[:1] + tk[1:]]:
            if cut == tk or not cut:
                continue
            t.begin()
            a = t.guard("insert", t.a.insert, 9, None, {}, cut)
            t.e.restore(snap)
            b = t.guard("make_sub", t.a.make_sub, 9, None, None, cut)
            t.e.restore(snap)
            if a is NOFAULT or b is NOFAULT:
                return
            t.check(bool(a) == bool(b), lambda: "'%s' is %s by betree_make_sub but %s by insertion" % (cut, "accepted" if b else "refused", "accepted" if a else "refused"))


def build(ck):
    ck.partition = ("Every predicate kind and mixed formulas are made first and linked later in the same, the reverse and random orders, or interleaved with plain insertions and searches, at several node capacities; "
                    "the searches are compared with direct evaluation.")
    P, E = near(), E5()
    rng = random.Random(8)
    P = [p for p in P]
    for k in range(20 if ck.quick else 100):
        l = list(P)
        rng.shuffle(l)
        f = lambda p, z: (p, (CON2 if z % 5 == 3 else CON) if has_freq(p) else None)
        subs = [f(p, z) for z, p in enumerate(l[:60])] + [f((rng.choice(("and", "or")), ("not", a) if i % 3 else a, b), i) for i, (a, b) in enumerate(zip(l[60:90], l[110:140]))]
        ck.task("make and link", split, subs, E[k % 3::3], [(3, 0), (4096, 0), (1, 0), (2, 4)][k % 4], ["fifo", "lifo", "random", "mixed", "fifo2"][k % 5], k)
    ck.task("not linked", nothing, [(p, CON if has_freq(p) else None) for p in P[::5]], E[::4])
    for ty in ("str", "slist", "ienum"):
        for bound in (1, 2, 3, None):
            for k, cap in enumerate(((1, 0), (4096, 0), (2, 3), (3, 0))):
                for order in ("now", "soon", "end"):
                    ck.task("values beyond the declared capacity, %s" % ty, beyond, ty, bound, cap, order, k)
    for ty in ("bool", "int", "float", "str", "ilist", "slist", "seg", "freq", "ienum"):
        for u in (True, False):
            ck.task("what is refused, %s" % ty, refusals, ty, u)
