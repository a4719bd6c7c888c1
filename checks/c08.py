"""C08: an expression is filed only under parts of a domain that hold every value able to satisfy it."""
import random
from .lib import *
from .c04 import forms2, nots

CAP1 = (1, 0)


def run(t, doms, exprs, evs, cap):
    match_world(t, World(doms, [(i + 1, e) for i, e in enumerate(exprs)], *cap), evs)


def build(ck):
    ck.partition = ("Every formula of up to three leaves (all shapes, connectives and negations) over leaves that constrain one attribute of every type, another attribute, or none, is indexed with node capacity 1 in a small "
                    "domain at an abstract location, so it is filed as deep as its computed interval allows; the analysed search is compared with direct evaluation for every value of the domain, beyond both ends, and undefined.")
    L = A(1)
    kinds = []
    W = 5
    vals = [L + k for k in range(-2, W + 3)]
    c = lambda op, k: ("cmp", op, "x", L + k)
    kinds.append(("int", dict(lo=L, hi=L + W), [c("<", 0), c("<", 2), c("<=", 2), c(">", 3), c(">=", 3), c(">", W), c("<=", W), ("eq", "=", "x", L + 1), ("eq", "<>", "x", L + 1), ("eq", "<>", "x", L), ("eq", "=", "x", L + W),
                                                ("in", "in", V("x"), [L + 1, L + 3]), ("in", "not in", V("x"), [L, L + 1]), ("null", "is null", "x"), ("null", "is not null", "x"), ("cmp", ">", "x", L + 9), ("cmp", "<", "x", L - 3)], vals))
    f = lambda op, k: ("cmp", op, "x", F(k))
    kinds.append(("float", dict(lo=0, hi=4), [f("<", 0), f("<", 2), f("<=", 1.5), f(">", 3), f(">=", 2.5), f(">", 4), ("eq", "=", "x", F(1)), ("eq", "=", "x", F(2.5)), ("eq", "<>", "x", F(1)), ("eq", "<>", "x", F(0)), ("null", "is null", "x")],
                  [F(v) for v in (-2, -0.5, 0, 0.5, 1, 1.25, 1.5, 2, 2.5, 3, 3.5, 4, 4.5, 9)]))
    S = ["a", "b", "c", "d", "e"]
    kinds.append(("str", dict(hi=5), [("eq", "=", "x", "a"), ("eq", "=", "x", "e"), ("eq", "<>", "x", "a"), ("eq", "<>", "x", "c"), ("in", "in", V("x"), ["b", "d"]), ("in", "not in", V("x"), ["a", "b"]), ("in", "in", V("x"), ["e"]),
                                      ("str", "contains", "x", "a"), ("str", "starts_with", "x", "d"), ("str", "ends_with", "x", "e"), ("null", "is null", "x")], S + ["zz", "da"]))
    kinds.append(("str", dict(hi=12), [("eq", "=", "x", s) for s in S[:3]] + [("eq", "<>", "x", s) for s in S[2:4]] + [("in", "in", V("x"), S[1:3]), ("in", "not in", V("x"), S[3:])], S + ["zz"]))
    kinds.append(("ienum", dict(hi=5), [("eq", "=", "x", v) for v in (7, A(2), 9)] + [("eq", "<>", "x", v) for v in (7, A(2), -1)] + [("null", "is not null", "x")], [7, A(2), 9, -1, 1000]))
    M = [L + k for k in range(W + 1)]
    kinds.append(("ilist", dict(lo=L, hi=L + W), [("list", o, "x", l) for o in ("one of", "none of", "all of") for l in ([M[0]], [M[1], M[2]], [M[0], M[-1]], [M[-1]])] +
                  [("in", o, v, V("x")) for o in ("in", "not in") for v in (M[0], M[3])] + [("null", "is empty", "x"), ("null", "is null", "x")],
                  [[], [M[0]], [M[1], M[2]], [M[0], M[-1]], [M[-1]], [M[3]], M, [L - 2], [L + 30], [L - 2, L + 30], [M[2], M[3], M[4]]]))
    kinds.append(("slist", dict(hi=5), [("list", o, "x", l) for o in ("one of", "none of", "all of") for l in (["a"], ["b", "c"], ["a", "e"])] + [("in", o, v, V("x")) for o in ("in", "not in") for v in ("a", "d")] + [("null", "is empty", "x")],
                  [[], ["a"], ["b", "c"], ["a", "e"], ["e"], ["d"], S, ["zz"], ["zz", "c"]]))
    kinds.append(("bool", {}, [("bool", "x"), ("lit", True), ("lit", False), ("null", "is null", "x")], [True, False]))
    oth = [("bool", "y"), ("eq", "=", "z", 3)]
    rng = random.Random(9)
    for typ, d, leaves, vs in kinds:
        for undef in (True, False):
            doms = [dom("x", typ, undef, d.get("lo"), d.get("hi")), dom("y", "bool", True), dom("z", "int", True)]
            lv = [l for l in leaves if undef or not (l[0] == "null" and l[1] != "is empty")]
            evs = [{"x": v, "y": y, "z": 3} for v in vs for y in (True, False)] + [{"x": v, "y": True} for v in vs[::2]] + ([{"y": True, "z": 3}, {"y": False}] if undef else [])
            one = [g for l in lv for g in nots(l)]
            two = []
            plain = [(op, a, b) for a in lv for b in lv for op in ("or", "and")] + [(op, a, b) for a in lv for b in oth for op in ("or", "and")] + [(op, b, a) for a in lv for b in oth for op in ("or", "and")]
            for i, a in enumerate(lv):
                for j, b in enumerate(lv + oth):
                    two += forms2([a, b])
                for b in oth:
                    two += forms2([b, a])
            three = []
            for _ in range(7 if ck.quick else 120):
                a, b, c3 = rng.choice(lv), rng.choice(lv + oth), rng.choice(lv + oth)
                tri = [a, b, c3]
                rng.shuffle(tri)
                three += forms2(tri)[rng.randrange(3)::3]
            rng.shuffle(two)
            rng.shuffle(three)
            if ck.quick:
                two = two[:100 if typ != 'ilist' else 60]
            rng.shuffle(plain)
            fm = one + two + three
            for k, c2 in enumerate(chunks(fm, 120)):
                ck.task("%s formulas" % typ, run, doms, one[k % 3::3] + c2, evs, CAP1 if k % 3 else (2, 0))
            for k, c2 in enumerate(chunks(plain, 120)):
                ck.task("%s pairs" % typ, run, doms, c2, evs if not ck.quick else evs[(k + undef) % 2::2], CAP1 if k % 3 else (2, 0))
