"""C01: result of every comparison / equality / boolean / null predicate."""
from .lib import *

BIGCAP = (4096, 0)
Z = ("bool", "zz")


def around(cs, step=1):
    out = []
    for c in cs:
        for d in (-step, 0, step):
            v = c + d
            if isinstance(v, int) and not isinstance(v, bool) and not I64MIN < v <= I64MAX:
                continue
            if v not in out:
                out.append(v)
    return out


def variants(e):
    """the predicate itself, negated, and behind connectives that keep the short-circuit from deciding"""
    return [e, ("not", e), ("or", e, Z), ("not", ("or", Z, e))]


def run(t, doms, exprs, evs, cap):
    subs, n = [], 0
    for e in exprs:
        for v in variants(e):
            n += 1
            subs.append((n, v))
    w = World(doms, subs, *cap)
    match_world(t, w, evs)


def build(ck):
    ck.partition = ("Each predicate form (operator, mirrored form, operand type, attribute kind) is analysed for every order relation an attribute value "
                    "can have with the literals (below, just below, equal, just above, above, undefined, explicit null, type extremes); an abstract value k*W+d stands for every "
                    "integer/double in that position, so each obligation decides a whole order class. Every predicate is analysed bare, negated and under 'or' so that the "
                    "short-circuit can not answer for it.")
    ints = [A(1), A(-1), 0, 7, -3, I64MAX, -I64MAX, 1 << 31, (1 << 32) + 7, -(1 << 31) - 1]
    doms_i = [[dom("x", "int"), dom("zz", "bool")],
              [dom("x", "int", True, A(-9), A(9)), dom("zz", "bool")],
              [dom("x", "int", False), dom("zz", "bool")]]
    evs_i = [{"x": v, "zz": False} for v in around(ints) + [A(5), A(-5)]]
    und = [{"zz": False}, {"x": None, "zz": False}, {}]
    for c in ints:
        for di, doms in enumerate(doms_i):
            ex = [(k, op, "x", c) for k in ("cmp", "rcmp") for op in ("<", "<=", ">", ">=")] + [(k, op, "x", c) for k in ("eq", "req") for op in ("=", "<>")]
            if di == 0:
                ck.task("integer predicates against %r" % (c,), run, doms, ex, evs_i + und, BIGCAP)
            else:
                near = [{"x": v, "zz": False} for v in around([c])] + [{"x": A(5), "zz": False}, {"x": A(-5), "zz": False}]
                ck.task("integer predicates against %r (%s)" % (c, "bounded" if di == 1 else "required"), run, doms, ex, near + (und if di == 1 else []), BIGCAP)
    fl = [F(A(1)), F(A(-1)), F(0), F(0.5), F(-2.25), F(1e300), F(-1e300), 3, A(2), F((1 << 53) + 2)]
    fv = []
    for c in fl:
        v = c.v if isinstance(c, F) else c
        if isinstance(v, A):
            fv += [F(v + d) for d in (-1, -0.5, 0, 0.5, 1)]
        elif abs(v) > 1e200:
            fv += [F(v), F(v * 2), F(v / 2)]
        else:
            fv += [F(v - 0.25), F(v), F(v + 0.25), F(v + 1), F(v - 1)]
    fv += [F(A(6)), F(A(-6)), 0, 3, 4, -2, -3, A(2), A(2, -1), A(2, 1)]
    evs_f = []
    for v in fv:
        if {"x": v, "zz": False} not in evs_f:
            evs_f.append({"x": v, "zz": False})
    fine = [0.0, 1.0, 1.0 + 1e-6, 1.0 + 1e-9, 1.0 + 1e-12, 0.1, 0.10000001, 0.1000000015, 16777216.0, 16777217.0, 16777218.0, 1e15, 1e15 + 1, -1.0, -0.1, -1.0 - 1e-9, float(1 << 40), float((1 << 40) + 1), 123456.789, 123456.78901]
    for c in fine:
        near = [v for v in fine if abs(v - c) < 3 or v in (0.0, 1e15)]
        ex = [(k, op, "x", F(c)) for k in ("cmp", "rcmp") for op in ("<", "<=", ">", ">=")] + [(k, op, "x", F(c)) for k in ("eq", "req") for op in ("=", "<>")]
        if c == int(c):
            ex += [("cmp", op, "x", int(c)) for op in ("<", "<=", ">", ">=")] + [("rcmp", "<", "x", int(c)), ("eq", "=", "x", int(c)), ("req", "<>", "x", int(c))]
        ck.task("close floats", run, [dom("x", "float"), dom("zz", "bool")], ex, [{"x": F(v), "zz": False} for v in near] + [{"x": int(v), "zz": False} for v in near if v == int(v)], BIGCAP)
    doms_f = [[dom("x", "float"), dom("zz", "bool")], [dom("x", "float", False, A(-9), A(9)), dom("zz", "bool")]]
    for c in fl:
        for di, doms in enumerate(doms_f):
            ex = [(k, op, "x", c) for k in ("cmp", "rcmp") for op in ("<", "<=", ">", ">=")] + [(k, op, "x", c) for k in ("eq", "req") for op in ("=", "<>")]
            ck.task("float predicates against %r" % (c,), run, doms, ex, evs_f + (und if di == 0 else []), BIGCAP)
    strs = ["a", "b", "", "A", "ab", "a b", "x" * 300, "null", "true", "1"]
    for lo in (None, 40):
        for req in (True, False):
            doms = [dom("x", "str", req, None, lo), dom("zz", "bool")]
            ex = [(k, op, "x", s) for k in ("eq", "req") for op in ("=", "<>") for s in strs]
            ck.task("string predicates%s" % (" bounded" if lo else ""), run, doms, ex, [{"x": s, "zz": False} for s in strs + ["unknown", "B", "x" * 299]] + (und if req else []), BIGCAP)
    en = [A(1), A(-1), 0, 7, I64MAX, -I64MAX, (1 << 32) + 7]
    for lo in (None, 30):
        doms = [dom("x", "ienum", True, None, lo), dom("zz", "bool")]
        ex = [(k, op, "x", s) for k in ("eq", "req") for op in ("=", "<>") for s in en]
        ck.task("integer enum predicates", run, doms, ex, [{"x": s, "zz": False} for s in around(en) + [A(4)]] + und, BIGCAP)
    doms = [dom("x", "bool"), dom("zz", "bool")]
    ck.task("boolean variable and literals", run, doms, [("bool", "x"), ("lit", True), ("lit", False)],
            [{"x": True, "zz": False}, {"x": False, "zz": False}, {"x": True, "zz": True}] + und, BIGCAP)
    doms = [dom("x", "bool", False), dom("zz", "bool")]
    ck.task("required boolean", run, doms, [("bool", "x")], [{"x": v, "zz": z} for v in (True, False) for z in (True, False, None)], BIGCAP)
    kinds = [("bool", [True, False]), ("int", [0, 1, A(1), A(-1)]), ("float", [F(0), F(A(1)), 0]), ("str", ["", "a", "null"]), ("ienum", [0, 5, A(1)]),
             ("ilist", [[], [0], [A(1), A(2)]]), ("slist", [[], [""], ["a", "b"]]), ("seg", [Seg([]), Seg([(1, 2)]), Seg([(0, 0)])]),
             ("freq", [Caps([]), Caps([("flight", 1, "ns", 0, 0)])])]
    NL = ("is null", "is not null")
    for k, vs in kinds:
        for req in (True, False):
            doms = [dom("x", k, req), dom("zz", "bool"), dom("y", k, True)]
            ops = NL + (("is empty",) if k in ("ilist", "slist", "seg", "freq") else ())
            ex = [("null", o, v) for o in ops for v in ("x", "y")]
            evs = [{"x": v, "zz": False} for v in vs] + [{"x": v, "y": u, "zz": False} for v in vs for u in vs]
            ck.task("null predicates on %s" % k, run, doms, ex, evs + ([{"zz": False}, {"x": None, "zz": False}, {"y": vs[0], "zz": False}, {}] if req else []), BIGCAP)
