"""C04: connectives, undefined attributes and the short-circuit."""
from .lib import *

BIGCAP = (4096, 0)


def run(t, doms, exprs, evs, cap=BIGCAP):
    match_world(t, World(doms, [(i + 1, e) for i, e in enumerate(exprs)], *cap), evs)


def nots(e):
    return [e, ("not", e)]


def forms2(ls):
    """every formula over exactly the leaves ls (1..3), each node possibly negated"""
    if len(ls) == 1:
        return nots(ls[0])
    out = []
    if len(ls) == 2:
        for a in nots(ls[0]):
            for b in nots(ls[1]):
                for op in ("and", "or"):
                    out += nots((op, a, b))
        return out
    for x in forms2(ls[:2]):
        for c in nots(ls[2]):
            for op in ("and", "or"):
                out += nots((op, x, c)) + nots((op, c, x))
    return out


LEAVES = [
    # (name, domains, leaf, defined-true event, defined-false event)
    ("int compare", [("x", "int")], ("cmp", "<", "x", 5), {"x": 4}, {"x": 5}),
    ("float compare", [("x", "float")], ("cmp", ">=", "x", F(5)), {"x": F(6)}, {"x": F(4)}),
    ("int equal", [("x", "int")], ("eq", "=", "x", 5), {"x": 5}, {"x": 6}),
    ("int differ", [("x", "int")], ("eq", "<>", "x", 5), {"x": 6}, {"x": 5}),
    ("float equal", [("x", "float")], ("eq", "=", "x", F(5)), {"x": F(5)}, {"x": F(6)}),
    ("string equal", [("x", "str")], ("eq", "=", "x", "a"), {"x": "a"}, {"x": "b"}),
    ("string differ", [("x", "str")], ("eq", "<>", "x", "a"), {"x": "b"}, {"x": "a"}),
    ("enum equal", [("x", "ienum")], ("eq", "=", "x", 5), {"x": 5}, {"x": 6}),
    ("enum differ", [("x", "ienum")], ("eq", "<>", "x", 5), {"x": 7}, {"x": 5}),
    ("in integers", [("x", "int")], ("in", "in", V("x"), [1, 2]), {"x": 2}, {"x": 3}),
    ("not in integers", [("x", "int")], ("in", "not in", V("x"), [1, 2]), {"x": 3}, {"x": 1}),
    ("in strings", [("x", "str")], ("in", "in", V("x"), ["a", "b"]), {"x": "b"}, {"x": "c"}),
    ("not in strings", [("x", "str")], ("in", "not in", V("x"), ["a", "b"]), {"x": "c"}, {"x": "a"}),
    ("member of integers", [("x", "ilist")], ("in", "in", 3, V("x")), {"x": [1, 3]}, {"x": [1, 2]}),
    ("no member of integers", [("x", "ilist")], ("in", "not in", 3, V("x")), {"x": [1, 2]}, {"x": [1, 3]}),
    ("member of strings", [("x", "slist")], ("in", "in", "a", V("x")), {"x": ["a", "b"]}, {"x": ["b"]}),
    ("no member of strings", [("x", "slist")], ("in", "not in", "a", V("x")), {"x": ["b"]}, {"x": ["b", "a"]}),
    ("one of", [("x", "ilist")], ("list", "one of", "x", [1, 2]), {"x": [2, 3]}, {"x": [3]}),
    ("none of", [("x", "ilist")], ("list", "none of", "x", [1, 2]), {"x": [3]}, {"x": [2]}),
    ("all of", [("x", "ilist")], ("list", "all of", "x", [1, 2]), {"x": [1, 2]}, {"x": [1]}),
    ("one of strings", [("x", "slist")], ("list", "one of", "x", ["a"]), {"x": ["a"]}, {"x": ["b"]}),
    ("none of strings", [("x", "slist")], ("list", "none of", "x", ["a"]), {"x": ["b"]}, {"x": ["a"]}),
    ("all of strings", [("x", "slist")], ("list", "all of", "x", ["a", "b"]), {"x": ["a", "b"]}, {"x": ["a"]}),
    ("boolean", [("x", "bool")], ("bool", "x"), {"x": True}, {"x": False}),
    ("is null", [("x", "int")], ("null", "is null", "x"), {}, {"x": 3}),
    ("is not null", [("x", "int")], ("null", "is not null", "x"), {"x": 3}, {}),
    ("is empty", [("x", "ilist")], ("null", "is empty", "x"), {"x": []}, {"x": [1]}),
    ("true", [], ("lit", True), {}, {}),
    ("false", [], ("lit", False), {}, {}),
    ("contains", [("x", "str")], ("str", "contains", "x", "b"), {"x": "abc"}, {"x": "ac"}),
    ("starts with", [("x", "str")], ("str", "starts_with", "x", "b"), {"x": "bc"}, {"x": "ab"}),
    ("ends with", [("x", "str")], ("str", "ends_with", "x", "b"), {"x": "ab"}, {"x": "ba"}),
    ("segment within", [("x", "seg"), ("now", "int")], ("seg", "segment_within", "x", 1, 20), {"x": Seg([(1, 90000000)]), "now": 100}, {"x": Seg([(1, 10000000)]), "now": 100}),
    ("segment before", [("segments_with_timestamp", "seg"), ("now", "int")], ("seg", "segment_before", None, 1, 20),
     {"segments_with_timestamp": Seg([(1, 10000000)]), "now": 100}, {"segments_with_timestamp": Seg([(1, 90000000)]), "now": 100}),
    ("frequency cap", [("frequency_caps", "freq"), ("now", "int")], ("freq", "flight", "ns", 10, 20),
     {"frequency_caps": Caps([]), "now": 100}, {"frequency_caps": Caps([("flight", 4, "ns", 20, 99000000)]), "now": 100}),
]


def geo_leaf():
    return ("geo", F(45.0), F(9.0), F(10.0))


def run_leaf(t, doms, subs, evs):
    match_world(t, World(doms, subs, *BIGCAP), evs)


def build(ck):
    ck.partition = ("Every formula with up to three leaves (all shapes, connectives and positions of 'not', repeated and distinct attributes) is analysed for every combination of true / false / "
                    "undefined leaves, and every kind of predicate is analysed inside every connective context with its attributes defined, undefined, null and required: the analysed search, with its "
                    "short-circuit, must agree with the two-valued meaning (an undefined attribute makes the predicate false, then negations apply).")
    B3 = [True, False, None]
    names = ["a", "b", "c"]
    doms = [dom(n, "bool") for n in names]
    evs3 = [{n: v for n, v in zip(names, vs) if v is not None} for vs in itertools.product(B3, repeat=3)]
    bl = lambda n: ("bool", n)
    al = []
    for tri in (["a"], ["a", "b"], ["a", "a"], ["a", "b", "c"], ["a", "b", "a"], ["a", "a", "b"], ["b", "a", "a"]):
        al += forms2([bl(n) for n in tri])
    for c in chunks(al, 60):
        ck.task("formulas over three optional booleans", run, doms, c, evs3)
    # one attribute required
    doms_r = [dom("a", "bool", False), dom("b", "bool"), dom("c", "bool", False)]
    evr = [{n: v for n, v in zip(names, vs) if v is not None} for vs in itertools.product([True, False], B3, [True, False])]
    fr = forms2([bl(n) for n in names])
    for c in chunks(fr, 128):
        ck.task("formulas with required attributes", run, doms_r, c, evr)
    # literals and null tests among the leaves
    mixed = []
    for x in (("lit", True), ("lit", False), ("null", "is null", "b"), ("null", "is not null", "b")):
        mixed += forms2([bl("a"), x]) + forms2([x, bl("a")]) + [f for f in forms2([bl("a"), x, bl("b")])][::3] + forms2([x, bl("b"), bl("a")])[1::3]
    for c in chunks(mixed, 120):
        ck.task("formulas with literals and null tests", run, doms, c, evs3)
    # deeper shapes: 4 and 5 leaves, left, right and balanced
    n5 = ["a", "b", "c", "d", "e"]
    doms5 = [dom(n, "bool") for n in n5]
    ev5 = [{n: v for n, v in zip(n5, vs) if v is not None} for vs in itertools.product(B3, repeat=5)]
    deep = []
    for ops in itertools.product(("and", "or"), repeat=4):
        for sg in range(8):
            ls = [("not", bl(n)) if (sg >> (i % 3)) & 1 else bl(n) for i, n in enumerate(n5)]
            l = ls[0]
            for i in range(4):
                l = (ops[i], l, ls[i + 1])
            r = ls[4]
            for i in range(3, -1, -1):
                r = (ops[i], ls[i], r)
            b = (ops[0], ("not", (ops[1], ls[0], ls[1])), ("not", (ops[2], ls[2], ("not", (ops[3], ls[3], ls[4])))))
            deep += [l, r, ("not", b), b]
    step = 4 if ck.quick else 1
    for k, c in enumerate(chunks(deep, 64)):
        ck.task("formulas with five leaves", run, doms5, c, ev5[k % step::step])
    # every predicate kind in every context
    for name, ds, leaf, tv, fv in LEAVES + [("geo radius", [("latitude", "float"), ("longitude", "float")], geo_leaf(), None, None)]:
        consts = dict(advertiser_id=1, campaign_id=2, campaign_group_id=3, flight_id=4, product_id=5) if leaf[0] == "freq" else None
        for req in (True, False):
            dd = [dom(n, ty, req) for n, ty in ds] + [dom(n, "bool") for n in ("a", "b")]
            ctx = [leaf, ("not", leaf), ("not", ("not", leaf))]
            for o in ("and", "or"):
                for s in (lambda x: x, lambda x: ("not", x)):
                    for s2 in (lambda x: x, lambda x: ("not", x)):
                        ctx += [s((o, s2(leaf), bl("a"))), s((o, bl("a"), s2(leaf)))]
                        for o2 in ("and", "or"):
                            ctx += [s2((o2, s((o, leaf, bl("a"))), bl("b"))), (o2, bl("b"), s((o, s2(leaf), bl("a"))))]
            base = [tv, fv] if leaf[0] != "geo" else [{"latitude": F(45.0), "longitude": F(9.0)}, {"latitude": F(-45.0), "longitude": F(9.0)}]
            if req:
                base = base + [{}] + [{k: v for k, v in tv.items() if k != d} for d in (tv or {})] if leaf[0] != "geo" else base + [{}, {"latitude": F(45.0)}, {"longitude": F(9.0)}]
                full = {n for n, ty in ds}
            else:
                base = [b for b in base if {n for n, ty in ds} <= set(b)]
                if not base:
                    continue
            evs = [dict(b, **{n: v for n, v in zip("ab", vs) if v is not None}) for b in base for vs in itertools.product(B3, repeat=2)]
            if leaf[0] == "geo":
                # decided against the oracle leaf 'g', true exactly in the first event
                ck.task("%s in every context" % name, run_geo, dd, ctx, evs, leaf)
            else:
                ck.task("%s in every context" % name, run_leaf, dd, [(i + 1, e, consts) for i, e in enumerate(ctx)], evs)
    # two predicates of different kinds, one undefined
    pairs = [(LEAVES[i], LEAVES[j]) for i in range(0, len(LEAVES), 2) for j in range(1, len(LEAVES), 5)]
    for (n1, d1, l1, t1, f1), (n2, d2, l2, t2, f2) in pairs:
        if l1[0] == "freq" or l2[0] == "freq" or "segment" in n1 or "segment" in n2:
            continue
        def ren(e):
            return tuple("y" if z == "x" else V("y") if isinstance(z, V) else z for z in e)
        l2r = ren(l2)
        dd = [dom("x", d1[0][1])] if d1 else []
        dd += [dom("y", d2[0][1])] if d2 else []
        y = lambda ev: {"y": v for v in ev.values()}
        evs = [dict(a, **b) for a in (t1, f1, {}) for b in (y(t2), y(f2), {})]
        ck.task("%s and %s" % (n1, n2), run, dd, forms2([l1, l2r]), evs)


def run_geo(t, doms, ctx, evs, leaf):
    w = World(doms, [(i + 1, e) for i, e in enumerate(ctx)], *BIGCAP)
    if not setup(t, w):
        return

    def sub(e):
        return ("bool", "g") if e == leaf else e if e[0] in ("bool", "lit") else (e[0],) + tuple(sub(x) for x in e[1:])
    for ev in evs:
        t.begin()
        d = t.guard("search %s" % showev(ev), t.a.search, ev)
        if d is NOFAULT:
            return
        g = ev.get("latitude") == F(45.0) and "longitude" in ev
        ex = sorted(i for i, e, c in w.subs if ref(sub(e), dict(ev, g=g)))
        got = None if d is None else sorted(d["ids"])
        t.check(got == ex, lambda: diff_ids(w, ev, ex, got))


def diff_ids(w, ev, ex, got):
    bad = [(i, show(e)) for i, e, c in w.subs if got is None or (i in ex) != (i in got)]
    return "event %s: wrong result for %s" % (showev(ev), "; ".join("sub %d '%s'" % b for b in bad[:3]))
