"""C10: search, exists and their event-object variants agree, and the report is consistent."""
import random
from .lib import *
from .c05 import DOMS, CON, near, has_freq, evs as E5


def agree(t, doms, subs, evs, cap):
    w = World(doms, [(i + 1,) + s for i, s in enumerate(subs)], *cap)
    if not setup(t, w):
        return
    n = len(w.subs)
    for ev in evs:
        t.begin()
        n0 = len(t.e.objs)
        try:
            d = t.a.search(ev)
            x = t.a.exists(ev)
            e1 = t.a.event(doms, ev)
            d2 = t.a.search_with(e1)
            x1 = t.a.exists_with(e1)
            d3 = t.a.search_with(e1)
            t.a.call("betree_free_event", e1)
            e1 = t.a.event(doms, ev)
            x2 = t.a.exists_with(e1)
            t.a.call("betree_free_event", e1)
        except Fault as f:
            t.fault("event %s [%s]" % (showev(ev), w.show()[:600]), f)
            return
        except Limit as f:
            t.limit("event %s" % showev(ev), f)
            return
        if d is None or d2 is None or d3 is None:
            t.check(False, "event %s: the search fails on a valid event (text %s, object %s, object again %s)" % (showev(ev), *(z is not None for z in (d, d2, d3))))
            continue
        s = sorted(d["ids"])
        t.check(bool(x) == (d["matched"] > 0), lambda: "event %s: search reports %d subscriptions but exists says %r" % (showev(ev), d["matched"], bool(x)))
        t.check(bool(x1) == (d["matched"] > 0), lambda: "event %s: search reports %d subscriptions but exists (event object) says %r" % (showev(ev), d["matched"], bool(x1)))
        t.check(bool(x2) == (d["matched"] > 0), lambda: "event %s: search reports %d subscriptions but exists (event object not searched before) says %r" % (showev(ev), d["matched"], bool(x2)))
        t.check(sorted(d2["ids"]) == s, lambda: "event %s: the event object reports %r, its text %r" % (showev(ev), sorted(d2["ids"])[:9], s[:9]))
        t.check(sorted(d3["ids"]) == s, lambda: "event %s: searching the same event object again reports %r instead of %r" % (showev(ev), sorted(d3["ids"])[:9], s[:9]))
        t.check(len(set(s)) == len(s), lambda: "event %s: an id is reported twice" % showev(ev))
        for z in (d, d2, d3):
            t.check(z["matched"] == len(z["ids"]) and z["matched"] <= z["evaluated"] <= n and z["shorted"] <= z["evaluated"],
                    lambda: "event %s: inconsistent report: matched %d, evaluated %d of %d subscriptions, shorted %d" % (showev(ev), z["matched"], z["evaluated"], n, z["shorted"]))
        t.check(s == expected(w, ev), lambda: diff(w, ev, expected(w, ev), s))
        del t.e.objs[n0:]


def counts(t, n, und):
    """one leaf node: everything is evaluated, what an undefined attribute decides is counted as shorted"""
    doms = [dom("x", "int"), dom("b", "bool")]
    ex = [("cmp", "<", "x", 5), ("not", ("cmp", "<", "x", 5)), ("bool", "b"), ("and", ("bool", "b"), ("cmp", "<", "x", 9)), ("or", ("bool", "b"), ("cmp", "<", "x", 9))]
    subs = [(i + 1, ex[i % len(ex)]) for i in range(n)]
    w = World(doms, subs, 4096, 0)
    if not setup(t, w):
        return
    for ev in ({"x": 3, "b": False}, {"x": 30, "b": True}) if not und else ({"b": True}, {"b": False}):
        t.begin()
        d = t.guard("search", t.a.search, ev)
        if d is NOFAULT:
            return
        sh = 0 if not und else sum(1 for i, e in subs if e[0] in ("cmp", "not", "and"))
        t.check(d is not None and d["evaluated"] == n and d["shorted"] == sh and sorted(d["ids"]) == expected(w, ev),
                lambda: "event %s: the report says %d evaluated, %d shorted (expected %d, %d)" % (showev(ev), d["evaluated"], d["shorted"], n, sh))


def oneof(t, ns, cap):
    """n candidates, only the k-th holds; and trees where every number of matches occurs"""
    a = t.a
    base = t.e.snapshot()
    for n in ns:
        t.e.restore(base)
        doms = [dom("x", "int", False)]
        w = World(doms, [(i + 1, ("eq", "=", "x", i)) for i in range(n)], *cap)
        if not setup(t, w):
            return
        for k in sorted({0, 1, n // 2, n - 2, n - 1, n}):
            t.begin()
            d = t.guard("search", a.search, {"x": k})
            x = t.guard("exists", a.exists, {"x": k})
            if d is NOFAULT or x is NOFAULT:
                return
            ex = expected(w, {"x": k})
            t.check(d is not None and d["ids"] == ex, lambda: "%d subscriptions x = 0..., x is %d: the search reports %r" % (n, k, d and d["ids"]))
            t.check(bool(x) == bool(ex), lambda: "%d subscriptions x = 0..., x is %d: exists says %r" % (n, k, bool(x)))


MODES = [("cmp", "<", "u", 5), ("and", ("cmp", ">", "x", 0), ("bool", "ub")), ("cmp", ">", "x", 5000), ("lit", False), ("not", ("cmp", "<", "x", 5000)), ("not", ("bool", "ub")), ("null", "is not null", "u"), ("not", ("null", "is null", "u")),
         ("or", ("bool", "ub"), ("cmp", "<", "x", -5000)), ("list", "none of", "ul", [1]), ("in", "not in", 1, V("ul"))]


def late(t, mode, ns, cap):
    """n candidates that fail, all in the same way (undefined, evaluated, shared), around one that holds at the first, a middle or the last place, or nowhere"""
    a = t.a
    base = t.e.snapshot()
    doms = [dom("x", "int", False), dom("u", "int"), dom("ub", "bool"), dom("ul", "ilist")]
    bad = MODES[mode]
    for n in ns:
        for k in (0, n // 2, n, None):
            for alike in (True, False) if n in (3, 17) else (False,):
                t.e.restore(base)
                b = bad if alike else None
                subs = [(i + 1, b or (("and", bad, ("cmp", "<", "x", 6000 + i)) if i % 2 else ("or", bad, ("cmp", ">", "x", 6000 + i)))) for i in range(n)]
                if k is not None:
                    subs.insert(k, (n + 1, ("cmp", "<=", "x", 7)))
                w = World(doms, subs, *cap)
                if not setup(t, w):
                    return
                for ev in ({"x": 7}, {"x": 8}):
                    t.begin()
                    d = t.guard("search", a.search, ev)
                    x = t.guard("exists", a.exists, ev)
                    if d is NOFAULT or x is NOFAULT:
                        return
                    ex = expected(w, ev)
                    sh = lambda: "%d subscriptions like '%s', one that holds %s, event %s" % (n, show(subs[0][1]), "nowhere" if k is None else "at place %d" % k, showev(ev))
                    t.check(d is not None and sorted(d["ids"]) == ex and d["matched"] == len(ex), lambda: "%s: the search reports %r" % (sh(), d and d["ids"]))
                    t.check(bool(x) == bool(ex), lambda: "%s: exists says %r" % (sh(), bool(x)))


def every(t, n, cap):
    doms = [dom("x", "int", False)]
    w = World(doms, [(i + 1, ("cmp", "<", "x", i)) for i in range(n)], *cap)
    if not setup(t, w):
        return
    for k in range(0, n + 1):
        t.begin()
        d = t.guard("search with %d matches" % (n - k), t.a.search, {"x": n - k - 2})
        if d is NOFAULT:
            return
        ex = expected(w, {"x": n - k - 2})
        t.check(d is not None and sorted(d["ids"]) == ex and d["matched"] == len(ex), lambda: "%d subscriptions match, the report has %r, ids %r" % (len(ex), d and d["matched"], d and d["ids"][:10]))


def few(t, n, trees, cap):
    """small trees of formulas that share their predicates, for every assignment: exists has to look past shared failures and shared successes"""
    a = t.a
    base = t.e.snapshot()
    doms = [dom("b%d" % i, "bool", False) for i in range(n)]
    for subs in trees:
        t.e.restore(base)
        w = World(doms, [(i + 1, s) for i, s in enumerate(subs)], *cap)
        if not setup(t, w):
            return
        for m in range(1 << n):
            ev = {"b%d" % i: bool(m >> i & 1) for i in range(n)}
            t.begin()
            d = t.guard("search", a.search, ev)
            x = t.guard("exists", a.exists, ev)
            if d is NOFAULT or x is NOFAULT:
                return
            ex = expected(w, ev)
            t.check(d is not None and sorted(d["ids"]) == ex, lambda: diff(w, ev, ex, d and sorted(d["ids"])))
            t.check(bool(x) == bool(ex), lambda: "event %s: exists says %r [%s]" % (showev(ev), bool(x), w.show()))


def refusals(t, ty, cap):
    """exists refuses what search refuses"""
    from .c12 import VALS, FITS
    nm = "frequency_caps" if ty == "freq" else "x"
    doms = [dom("r", "bool", True), dom(nm, ty, False), dom("now", "int")]
    w = World(doms, [(1, ("lit", True)), (2, ("bool", "r")), (3, ("not", ("bool", "r")))], *cap)
    if not setup(t, w):
        return
    for vk, v in [(None, None)] + [(k, v) for k, vs in VALS.items() for v in vs]:
        for r in (True, False, None):
            ev = {} if vk is None else {nm: v}
            if r is not None:
                ev["r"] = r
            t.begin()
            d = t.guard("search %s" % showev(ev), t.a.search, ev)
            x = t.guard("exists %s" % showev(ev), t.a.exists, ev)
            if d is NOFAULT or x is NOFAULT:
                return
            ok = vk in FITS[ty]
            t.check((d is not None) == ok and bool(x) == ok, lambda: "event %s (%s must be a %s): search %s it, exists says %r" % (showev(ev), nm, ty, "refuses" if d is None else "accepts", bool(x)))


def accumulate(t):
    """reports of different searches are independent; a fresh report starts at zero"""
    doms = [dom("b", "bool", False)]
    w = World(doms, [(1, ("bool", "b")), (2, ("not", ("bool", "b"))), (3, ("lit", True))])
    if not setup(t, w):
        return
    reps = []
    for ev in ({"b": True}, {"b": False}, {"b": True}):
        d = t.guard("search", t.a.search, ev, True)
        if d is NOFAULT or d is None:
            t.check(False, "search fails")
            return
        reps.append((ev, d))
    for ev, d in reps:
        now = t.guard("reading an earlier report", t.a.rep, d["report"])
        if now is NOFAULT:
            return
        t.check(sorted(now["ids"]) == expected(w, ev) and now["matched"] == d["matched"], lambda: "a report changed after later searches: %r" % (now,))
    t.guard("free", t.a.free)
    for ev, d in reps:
        now = t.guard("reading a report after the tree is gone", t.a.rep, d["report"])
        if now is not NOFAULT:
            t.check(sorted(now["ids"]) == expected(w, ev), "a report changed after betree_free")
            t.guard("free_report", t.a.call, "free_report", d["report"])


def build(ck):
    ck.partition = ("Trees of mixed predicate kinds and formulas at several node capacities; for each event the four entry points (text / event object, search / exists) and a second search of the same event object must agree, "
                    "with matched == ids <= evaluated <= subscriptions and shorted <= evaluated; reports outlive later searches and the tree.")
    P, E = near(), E5()
    rng = random.Random(21)
    for k in range(8 if ck.quick else 48):
        l = list(P)
        rng.shuffle(l)
        f = lambda p: (p, CON if has_freq(p) else None)
        subs = [f(p) for p in l[:50 if k % 4 else 5]] + [f((rng.choice(("and", "or")), ("not", a) if i % 3 else a, b)) for i, (a, b) in enumerate(zip(l[60:110:1 if k % 4 else 20], l[110:160:1 if k % 4 else 20]))]
        ck.task("agreement %d" % k, agree, DOMS, subs, E[k % 2::2], [(4096, 0), (3, 0), (1, 0), (2, 4)][k % 4])
    # exists must look everywhere: a single match anywhere in a deep tree
    L = A(1)
    doms = [dom("x", "int", True, L, L + 15), dom("y", "int", False, 0, 7), dom("b", "bool")]
    ex = [("eq", "=", "x", L + k) for k in range(16)] + [("and", ("eq", "=", "y", k), ("eq", "=", "x", L + k + 4)) for k in range(8)]
    for cap in ((1, 0), (3, 0), (2, 3), (4096, 0)):
        ck.task("a single match", agree, doms, [(e, None) for e in ex], [{"x": L + k, "y": (k * 3) % 8} for k in range(-1, 17)] + [{"y": 1}, {"y": 9, "b": True}], cap)
        ck.task("no subscription", agree, doms, [], [{"x": L, "y": 1}, {"y": 2}], cap)
        ck.task("no match", agree, doms, [(("lit", False), None)] * 5 + [(("cmp", ">", "x", L + 99), None)] * 4, [{"x": L, "y": 1}, {"y": 2}], cap)
    # events that define little or nothing
    kinds = ("bool", "int", "float", "str", "ilist", "slist", "seg", "freq", "ienum")
    for cap in ((4096, 0), (1, 0)):
        for n in (1, 3, 9):
            dn = [dom("frequency_caps" if k == "freq" else "x%d" % i, k) for i, k in enumerate(kinds[:n])]
            fs = [("null", "is null", d[0]) for d in dn] + [("lit", True), ("not", ("lit", False))] + [("not", ("null", "is not null", d[0])) for d in dn] + [("or", ("bool", "x0"), ("null", "is null", d[0])) for d in dn]
            for f in fs:
                ck.task("one subscription, events of little", agree, dn, [(f, None)], [{}, {"x0": None}, {"x0": True}, {"x0": False}], cap)
            ck.task("events of little", agree, dn, [(f, None) for f in fs], [{}, {"x0": None}, {"x0": True}, {"x0": False}], cap)
            ck.task("events of little", agree, dn, [(("bool", "x0"), None), (("lit", False), None)], [{}, {"x0": None}, {"x0": True}, {"x0": False}], cap)
    for n in (1, 5, 64, 200):
        ck.task("counters", counts, n, False)
        ck.task("counters", counts, n, True)
    for c in chunks(range(1, 75), 13):
        ck.task("one of %d" % c[0], oneof, c, (4096, 0))
    for m in range(len(MODES)):
        ck.task("failing candidates %d" % m, late, m, (1, 3, 17, 70) if ck.quick else (1, 2, 3, 9, 17, 33, 70, 140, 270), (4096, 0))
        ck.task("failing candidates %d" % m, late, m, (1, 3, 17), (2, 0))
    for k in range(10 if ck.quick else 80):
        n = 3 + k % 2
        B = [("bool", "b%d" % i) for i in range(n)]

        def form(d):
            z = rng.random()
            if not d or z < .3:
                p = rng.choice(B)
                return p if rng.random() < .7 else ("not", p)
            e = (rng.choice(("and", "and", "or")), form(d - 1), form(d - 1))
            return e if rng.random() < .8 else ("not", e)
        trees = []
        for _ in range(12):
            sh = form(1)
            trees.append([("and", ("and", sh, form(1)), form(1)) if rng.random() < .6 else form(2) for _ in range(rng.randrange(2, 7))])
        ck.task("every assignment", few, n, trees, ((4096, 0), (1, 0))[k % 5 == 4])
    ck.task("one of 130", oneof, [130, 200] + ([] if ck.quick else [257, 400]), (4096, 0))
    ck.task("every number of matches", every, 70, (4096, 0))
    ck.task("every number of matches", every, 135 if ck.quick else 300, (4096, 0))
    ck.task("independent reports", accumulate)
    for ty in ("bool", "int", "float", "str", "ilist", "slist", "seg", "freq", "ienum"):
        ck.task("refused events", refusals, ty, (4096, 0))
        ck.task("refused events", refusals, ty, (1, 0))
