"""C16: learning the boundaries of attributes from expressions never changes what matches."""
import random
from .lib import *
from .c13 import values as values_of

CAPS = [(1, 0), (3, 0), (4096, 0), (2, 3)]
L = A(1)


def leaves(ty, R):
    if ty == "int":
        v = lambda: L + R.randrange(-2, 12)
        return [lambda: ("cmp", R.choice(("<", "<=", ">", ">=")), "x", v()), lambda: ("eq", R.choice(("=", "=", "<>")), "x", v()), lambda: ("in", R.choice(("in", "in", "not in")), V("x"), [v() for _ in range(R.randrange(1, 4))]), lambda: ("null", R.choice(("is null", "is not null")), "x")]
    if ty == "float":
        v = lambda: F(R.randrange(-4, 24) / 2)
        return [lambda: ("cmp", R.choice(("<", "<=", ">", ">=")), "x", v()), lambda: ("eq", R.choice(("=", "<>")), "x", v()), lambda: ("cmp", R.choice(("<", ">")), "x", R.randrange(9))]
    if ty == "str":
        v = lambda: "s%d" % R.randrange(8)
        return [lambda: ("eq", R.choice(("=", "=", "<>")), "x", v()), lambda: ("in", R.choice(("in", "not in")), V("x"), [v() for _ in range(R.randrange(1, 4))]), lambda: ("str", "ends_with", "x", "3")]
    if ty == "ienum":
        return [lambda: ("eq", R.choice(("=", "=", "<>")), "x", R.choice((5, 6, A(2), -1, 8)))]
    if ty == "ilist":
        v = lambda: L + R.randrange(-2, 12)
        return [lambda: ("list", R.choice(("one of", "none of", "all of")), "x", [v() for _ in range(R.randrange(1, 4))]), lambda: ("in", R.choice(("in", "not in")), v(), V("x")), lambda: ("null", "is empty", "x")]
    if ty == "slist":
        v = lambda: "s%d" % R.randrange(8)
        return [lambda: ("list", R.choice(("one of", "none of", "all of")), "x", [v() for _ in range(R.randrange(1, 4))]), lambda: ("in", R.choice(("in", "not in")), v(), V("x"))]
    return [lambda: ("bool", "x")]


ENDS = (I64MAX, I64MAX - 1, -I64MAX, -I64MAX + 1, 0)


def ends(ty):
    """expressions and values at the ends of the integers"""
    if ty == "int":
        es = [("cmp", o, "x", v) for o in ("<", "<=", ">", ">=") for v in ENDS] + [("eq", o, "x", v) for o in ("=", "<>") for v in ENDS] + [("in", "in", V("x"), [v, 3]) for v in ENDS]
        return es, [I64MIN, I64MIN + 1, I64MIN + 2, -5, 0, 7, I64MAX - 2, I64MAX - 1, I64MAX]
    es = [("list", o, "x", [v]) for o in ("one of", "none of", "all of") for v in ENDS] + [("in", "in", v, V("x")) for v in ENDS]
    return es, [[]] + [[v] for v in (I64MIN, I64MIN + 1, -5, 0, 7, I64MAX - 1, I64MAX)] + [[I64MIN, I64MAX]]


def values(ty):
    return dict(int=[L + k for k in range(-4, 15)] + [0, A(-1)], float=[F(k / 2) for k in range(-6, 28, 2)] + [F(0.25), F(7.5)], str=["s%d" % k for k in range(9)] + ["zz"], ienum=[5, 6, A(2), -1, 8, 77],
                ilist=[[], [L - 4], [L], [L + 3, L + 5], [L + 11, L - 2], [L + k for k in range(12)], [A(-1)], [L + 14]], slist=[[], ["s0"], ["s3", "s7"], ["zz"], ["s%d" % k for k in range(8)], ["s5", "q"]], bool=[True, False])[ty]


def bounds(ty, how):
    if how == "open":
        return None, None
    if ty in ("int", "ilist"):
        return (L, L + 3) if how == "narrow" else (L - 4, L + 20)
    if ty == "float":
        return (1, 3) if how == "narrow" else (-5, 20)
    return None, (8 if how != "open" else None)


def history(t, ty, how, undef, steps, evs, cap):
    """steps: ('bounds', expr) | ('insert', expr) | ('sub', expr) | ('link', which) | 'search'"""
    lo, hi = bounds(ty, how)
    doms = [dom("x", ty, undef, lo, hi), dom("b", "bool"), dom("y", "int", True)]
    declare(t, doms, *cap)
    w = World(doms, [], *cap)
    made = []
    hist = []
    seen = set()
    learnt = False
    for k, (op, e) in enumerate(steps):
        t.begin()
        learnt = learnt or op in ("bounds", "sub")
        if op == "search":
            n0 = t.e.snapshot()
            for ev in evs[k % 4::4]:
                try:
                    d = t.a.search(ev)
                except Fault as x:
                    t.fault("search %s after %s" % (showev(ev), "; ".join(hist)), x)
                    return
                ex = expected(w, ev)
                t.check(d is not None and sorted(d["ids"]) == ex, lambda: diff(w, ev, ex, d and sorted(d["ids"])) + " after " + "; ".join(hist))
            t.e.restore(n0)
            continue
        if op == "link":
            if not made:
                continue
            i, e, s = made.pop(0)
            hist.append("betree_insert_sub %d" % i)
            r = t.guard("; ".join(hist), t.a.insert_sub, s)
            w.subs.append((i, e, None))
        else:
            hist.append("%s %s" % ({"bounds": "change_boundaries", "insert": "insert", "sub": "make_sub"}[op], show(e)))
            if op == "bounds":
                r = t.guard("; ".join(hist), t.a.change_boundaries, e)
            elif op == "insert":
                r = t.guard("; ".join(hist), t.a.insert, k, e)
                if r is not NOFAULT and not r and learnt and how == "open" and ty in ("str", "ienum", "slist") and values_of(e, "x") - seen:
                    # the boundaries learnt for the values of an attribute declared without may leave no room for a new one
                    hist[-1] += " (refused)"
                    t.n += 1
                    continue
                w.subs.append((k, e, None))
            else:
                r = t.guard("; ".join(hist), t.a.make_sub, k, e)
                if r is not NOFAULT and r:
                    made.append((k, e, r))
        if r is NOFAULT:
            return
        t.check(bool(r), lambda: "refused: " + "; ".join(hist))
        if not r:
            return
        if e is not None:
            seen |= values_of(e, "x")
    for i, e, s in made:
        if t.guard("betree_insert_sub", t.a.insert_sub, s) is NOFAULT:
            return
        w.subs.append((i, e, None))
        hist.append("betree_insert_sub %d" % i)
    for ev in evs:
        t.begin()
        try:
            d = t.a.search(ev)
            x = t.a.exists(ev)
        except Fault as f:
            t.fault("search %s after %s" % (showev(ev), "; ".join(hist)), f)
            return
        except Limit as f:
            t.limit("search %s" % showev(ev), f)
            return
        ex = expected(w, ev)
        t.n += len(w.subs) - 1
        t.check(d is not None and sorted(d["ids"]) == ex and bool(x) == bool(ex), lambda: diff(w, ev, ex, d and sorted(d["ids"])) + " after " + "; ".join(hist))


def gate(t, ty, cap, seed):
    """learning refuses undeclared attributes and wrong types, and leaves the tree as it was"""
    from .c11 import preds, special, accept, CTX
    R = random.Random(seed)
    lo, hi = bounds(ty, "open")
    doms = [dom("x", ty, True), dom("b", "bool"), dom("y", "int", True)]
    d = {q[0]: (q[1], q[2]) for q in doms}
    declare(t, doms, *cap)
    g = ("bool", "b")
    bad = [e for e in preds("x") + preds("u") + special() if not accept(e, d, False)]
    R.shuffle(bad)
    lv = [f() for f in leaves(ty, R)]
    w = World(doms, [(i + 1, e) for i, e in enumerate(lv[:2])], *cap)
    for i, e, c in w.subs:
        if not t.guard("insert", t.a.insert, i, e):
            t.check(False, "insert of '%s' is refused" % show(e))
            return
    base = t.e.snapshot()
    evs = [{"x": v, "b": True} for v in values(ty)[::3]]
    for k, e in enumerate(bad):
        e = CTX[k % len(CTX)][1](e, g)
        t.begin()
        r = t.guard("change_boundaries %s" % show(e), t.a.change_boundaries, e)
        if r is NOFAULT:
            return
        t.check(not r, lambda: "betree_change_boundaries accepts '%s' (x is %s, u is not declared)" % (show(e), ty))
        if k % 9 == 0:
            events(t, w, evs)
            t.e.restore(base)


def build(ck):
    ck.partition = ("Histories that mix changing boundaries, inserting, making subscriptions and linking them later, for every type of attribute declared without bounds, with narrow ones or with wide ones, at several node "
                    "capacities; values lie below, at, between and above every boundary (at an abstract location), unknown, empty and undefined.")
    q = ck.quick
    for ti, ty in enumerate(("int", "float", "str", "ienum", "ilist", "slist", "bool")):
        for how in ("open", "narrow", "wide"):
            if how == "narrow" and ty in ("str", "ienum", "slist", "bool") or how != "open" and ty == "bool":
                continue
            for s in range(20 if q else 160):
                R = random.Random("%s %s %d" % (ty, how, s))
                lv = leaves(ty, R)

                def form():
                    e = R.choice(lv)()
                    r = R.random()
                    if r < .2:
                        e = ("not", e)
                    elif r < .45:
                        e = (R.choice(("and", "or")), e, R.choice([("bool", "b"), ("cmp", "<", "y", 3), R.choice(lv)()]))
                    elif r < .55:
                        e = ("not", (R.choice(("and", "or")), R.choice(lv)(), ("not", e)))
                    return e
                undef = s % 3 != 0
                ok = lambda e: undef or "null" not in repr(e)
                fm = [e for e in (form() for _ in range(40)) if ok(e) and not (not undef and "is n" in repr(e))]
                mode = s % 5
                if mode == 0:      # all boundaries first
                    steps = [("bounds", e) for e in fm[:12]] + [("insert", e) for e in fm[:12]]
                elif mode == 1:    # boundaries of some, then others
                    steps = [("bounds", e) for e in fm[:3]] + [("insert", e) for e in fm[:14]]
                elif mode == 2:    # boundaries after insertions
                    steps = [("insert", e) for e in fm[:7]] + [("bounds", e) for e in fm[7:10]] + [("insert", e) for e in fm[7:16]]
                elif mode == 3:    # made in one order, linked in another
                    steps = [("sub", e) for e in fm[:12]] + [("link", None)] * 12
                else:
                    steps = []
                    for e in fm[:16]:
                        steps.append((R.choice(("bounds", "insert", "insert", "sub", "sub")), e))
                        if R.random() < .5:
                            steps.append(("link", None))
                        if R.random() < .25:
                            steps.append(("search", None))
                vs = values(ty)
                evs = [{"x": v, "b": b, "y": 1} for k, v in enumerate(vs) for b in ((True, False) if k % 2 else (False,))] + ([{"b": True}, {}] if undef else [])
                if ty in ("str", "ienum", "slist") and how == "wide":
                    pass
                ck.task("%s %s" % (ty, how), history, ty, how, undef, steps, evs, CAPS[s % 4])
    for ty in ("int", "ilist"):
        es, vs = ends(ty)
        if ty == "int":
            es += [("not", e) for e in es[:20]]
        for s in range(24 if q else 200):
            R = random.Random("%s %d" % (ty, s))
            fm = R.sample(es, 12)
            learn = [e if R.random() < .7 else ("or", e, R.choice(es)) for e in fm[:R.choice((1, 1, 2, 5, 12))]]
            op = "bounds" if s % 3 else "sub"
            ck.task("%s at the ends of the type" % ty, history, ty, "open", True, [(op, e) for e in learn] + ([("link", None)] * 5 if s % 3 == 0 else []) + [("insert", e) for e in fm], [{"x": v, "b": True} for v in vs], CAPS[s % 4])
    for ti, ty in enumerate(("int", "float", "str", "ienum", "ilist", "slist", "bool")):
        ck.task("refusals %s" % ty, gate, ty, CAPS[ti % 4], ti)
