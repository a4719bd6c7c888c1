"""C02: result of the set predicates (in / not in) and list predicates (one of / none of / all of)."""
from .lib import *
from .c01 import variants, BIGCAP

LOPS = ("one of", "none of", "all of")


def seqs(vals, lo, hi):
    for n in range(lo, hi + 1):
        yield from itertools.product(vals, repeat=n)


def run(t, doms, exprs, evs, wrap=False):
    subs, n = [], 0
    for e in exprs:
        for v in (variants(e) if wrap else [e]):
            n += 1
            subs.append((n, v))
    match_world(t, World(doms, subs, *BIGCAP), evs)


def permuted(l, k):
    """a fixed, well mixed permutation of l"""
    n = len(l)
    step = next(s for s in (7, 5, 11, 13, 3, 1) if s % n and n % s or s == 1) if n > 1 else 1
    from math import gcd
    while gcd(step, n) != 1:
        step += 1
    return [l[(i * step + k) % n] for i in range(n)]


def longlists(ty, n, shared):
    """expression list of n members and events that hit each member and each gap"""
    if ty == "int":
        mem = [A(1, 2 * i) if i % 2 else A(i + 2) for i in range(n)] if not shared else [10 * i - 5 * n for i in range(n)]
        gap = [m + 1 for m in mem] + [m - 1 for m in mem]
    else:
        mem = ["s%d" % i for i in range(n)]
        gap = ["g%d" % i for i in range(3)]
    return permuted(mem, 3), gap


def onehit(ty, n, m, pos):
    """a universe in id order, an expression list of n members of it, and an event list of m members sharing exactly one at each end or in the middle"""
    U = 2 * (n + m) + 3
    val = (lambda i: A(1, i)) if ty == "int" else (lambda i: "w%d" % i)
    mid = U // 2
    if pos == "last":           # the shared one is the largest of the event's, the smallest / a middle one / the largest of the expression's
        sh = [mid, U - 1]
    elif pos == "first":
        sh = [mid, 0]
    else:
        sh = [mid]
    out = []
    for h in sh:
        below, above = [i for i in range(h) if i % 2 == 0], [i for i in range(h + 1, U) if i % 2 == 0]
        eb, ea = [i for i in range(h) if i % 2], [i for i in range(h + 1, U) if i % 2]
        for kx in {0, (n - 1) // 2, n - 1}:          # members of the expression's list below the shared one
            nb = {"first": 0, "last": m - 1, "mid": (m - 1) // 2}[pos]
            if kx > len(below) or n - 1 - kx > len(above) or nb > len(eb) or m - 1 - nb > len(ea):
                continue
            xs = below[len(below) - kx:] + [h] + above[:n - 1 - kx]
            es = eb[len(eb) - nb:] + [h] + ea[:m - 1 - nb]
            out.append(([val(i) for i in xs], [val(i) for i in es], val(h)))
    return U, val, out


def hits(t, ty, n, ms):
    d = [dom("l", "ilist" if ty == "int" else "slist")]
    for m in ms:
        for pos in ("first", "mid", "last"):
            U, val, cs = onehit(ty, n, m, pos)
            for xs, es, h in cs:
                subs = [(100, ("list", "one of", "l", [val(i) for i in range(U)]))] if ty == "str" else []
                subs += [(k + 1, ("list", o, "l", permuted(xs, 1))) for k, o in enumerate(LOPS)] + [(10, ("in", "in", h, V("l"))), (11, ("list", "all of", "l", [h]))]
                rest = [v for v in es if v != h]
                match_world(t, World(d, subs), [{"l": permuted(es, 2)}, {"l": es}, {"l": es[::-1]}] + ([{"l": rest}] if rest else []))


def big(t, ty, n):
    """members and gaps of one long list, probed from both sides"""
    mem, gap = longlists(ty, n, True)
    srt = sorted(mem) if ty == "int" else ["s%d" % i for i in range(n)]
    mem = permuted(srt, 3)
    d = [dom("x", "int" if ty == "int" else "str"), dom("l", "ilist" if ty == "int" else "slist")]
    pick = sorted({0, 1, 2, n // 8, n // 4, n // 3, n // 2 - 1, n // 2, n // 2 + 1, 2 * n // 3, 3 * n // 4, 7 * n // 8, n - 3, n - 2, n - 1})
    probes = [srt[k] for k in pick] + ([srt[k] + 1 for k in pick] + [srt[0] - 1] if ty == "int" else ["g0"])
    subs = [(1, ("in", "in", V("x"), mem)), (2, ("in", "not in", V("x"), mem))] + [(3 + k, ("list", o, "l", mem)) for k, o in enumerate(LOPS)]
    match_world(t, World(d, subs), [{"x": v, "l": [v]} for v in probes])
    # the long list in the event
    if ty == "str":
        subs = [(900, ("list", "one of", "l", srt))]
    else:
        subs = []
    for k, v in enumerate(probes):
        subs += [(10 * k + 10, ("in", "in", v, V("l"))), (10 * k + 11, ("in", "not in", v, V("l")))] + [(10 * k + 12 + j, ("list", o, "l", [v])) for j, o in enumerate(LOPS)]
    match_world(t, World(d, subs, *BIGCAP), [{"l": mem, "x": probes[0]}])


def build(ck):
    ck.partition = ("Lists are enumerated as order types: every sequence (sorted or not, with repetitions) up to the stated length over the order classes of the values, on both the "
                    "expression and the event side, plus long lists where each member and each gap between members is probed. Elements are abstract numbers, so an obligation covers all "
                    "integers in that order.")
    N = 3
    zz = dom("zz", "bool")
    ex = [A(1), A(2), A(3)]
    evv = [A(0, 5), A(1), A(1, 1), A(2), A(3)]
    il = [dom("l", "ilist"), zz]
    exprs = [("list", o, "l", list(s)) for s in seqs(ex, 1, N) for o in LOPS]
    evs = [{"l": list(s)} for s in seqs(evv, 0, N)]
    for i, c in enumerate(chunks(evs, 8)):
        ck.task("integer lists %d" % i, run, il, exprs, c)
    # strings: the order of the ids is the order of first appearance, both orders of declaration are analysed
    sl = [dom("l", "slist"), zz]
    names = ["b", "a", "c"]
    for perm in (names, names[::-1]):
        exprs = [("list", "one of", "l", perm)] + [("list", o, "l", list(s)) for s in seqs(names, 1, N) for o in LOPS]
        evs = [{"l": list(s)} for s in seqs(["u", "a", "b", "c", "v"], 0, N)]
        for i, c in enumerate(chunks(evs, 12)):
            ck.task("string lists %d" % i, run, sl, exprs, c)
    # membership of a scalar in a list
    si = [dom("x", "int"), zz]
    exprs = [("in", o, V("x"), list(s)) for s in seqs(ex, 1, 4) for o in ("in", "not in")]
    evs = [{"x": v} for v in (A(0), A(1, -1), A(1), A(1, 1), A(2), A(2, 1), A(3), A(4), 0, I64MAX, I64MIN + 1)]
    for c in chunks(exprs, 60):
        ck.task("integer in list", run, si, c, evs)
    ss = [dom("x", "str"), zz]
    exprs = [("in", o, V("x"), list(s)) for s in seqs(names, 1, 4) for o in ("in", "not in")]
    for c in chunks(exprs, 60):
        ck.task("string in list", run, ss, [("eq", "=", "x", "z0")] + c, [{"x": v} for v in ("a", "b", "c", "z0", "unknown", "")])
    # literal in a list attribute
    lits = [A(1), A(2), A(2, 1), 0, I64MAX, -I64MAX, (1 << 32)]
    exprs = [("in", o, v, V("l")) for v in lits for o in ("in", "not in")]
    evs = [{"l": list(s)} for s in seqs([A(1), A(2), A(2, 1), 0], 0, 3)] + [{"l": [v]} for v in lits] + [{"l": [I64MAX, A(2), -I64MAX]}, {"l": [1 << 32, 0, A(1)]}, {"l": [1 << 32]}]
    for c in chunks(evs, 20):
        ck.task("integer literal in list attribute", run, il, exprs, c)
    exprs = [("in", o, v, V("l")) for v in ["a", "b", "c", ""] for o in ("in", "not in")]
    evs = [{"l": list(s)} for s in seqs(["a", "b", "c", "u", ""], 0, 3)]
    for c in chunks(evs, 30):
        ck.task("string literal in list attribute", run, sl, exprs, c)
    # behind connectives, undefined, null, required and bounded attributes
    for req in (True, False):
        for bnd in ((None, None), (A(0), A(9))):
            d = [dom("l", "ilist", req, *bnd), dom("x", "int", req, *bnd), zz]
            es = [("list", o, "l", l) for o in LOPS for l in ([A(1)], [A(2), A(1)])] + [("in", o, V("x"), [A(2), A(1)]) for o in ("in", "not in")] + [("in", o, A(1), V("l")) for o in ("in", "not in")]
            evs = [{"l": l, "x": x, "zz": False} for l in ([], [A(1)], [A(2)], [A(3), A(1)]) for x in (A(1), A(2), A(3))]
            if req:
                evs += [{"l": [A(1)], "zz": False}, {"x": A(1), "zz": False}, {"zz": False}, {"l": None, "x": None, "zz": False}, {}]
            ck.task("lists under connectives", run, d, es, evs, True)
        for hi in (None, 20):
            d = [dom("l", "slist", req, None, hi), dom("x", "str", req, None, hi), zz]
            es = [("list", o, "l", l) for o in LOPS for l in (["a"], ["b", "a"])] + [("in", o, V("x"), ["b", "a"]) for o in ("in", "not in")] + [("in", o, "a", V("l")) for o in ("in", "not in")]
            evs = [{"l": l, "x": x, "zz": False} for l in ([], ["a"], ["b"], ["c", "a"], ["u", "v"]) for x in ("a", "b", "c", "u")]
            if req:
                evs += [{"l": ["a"], "zz": False}, {"x": "a", "zz": False}, {"zz": False}, {"l": None, "x": None, "zz": False}, {}]
            ck.task("string lists under connectives", run, d, es, evs, True)
    # two string attributes: ids are per attribute
    d = [dom("l", "slist"), dom("m", "slist"), dom("x", "str"), dom("y", "str")]
    es = [("list", "one of", "l", ["a", "b"]), ("list", "one of", "m", ["b", "c", "a"]), ("in", "in", V("x"), ["c", "b"]), ("in", "in", V("y"), ["b"]), ("list", "all of", "m", ["c", "a"]),
          ("in", "not in", V("x"), ["b"]), ("in", "in", "b", V("l")), ("in", "in", "b", V("m")), ("list", "none of", "l", ["b"]), ("list", "none of", "m", ["a"])]
    vals = [["a"], ["b"], ["c", "a"], ["b", "c"]]
    ck.task("two string attributes", run, d, es, [{"l": p, "m": q, "x": r, "y": s} for p in vals for q in vals for r in "abc" for s in ("a", "b", "zz")])
    # one shared member at each place of lists of every length, one longer than the other
    sz = tuple(range(1, 8)) + (9, 12, 17)
    for ty in ("int", "str"):
        for n in sz if ck.quick else range(1, 20):
            for ms in chunks(sz if ck.quick else range(1, 20), 4):
                ck.task("one member of %d shared (%s)" % (n, ty), hits, ty, n, ms)
        for n in (128, 200, 300) if ck.quick else (100, 101, 127, 128, 129, 199, 200, 201, 255, 256, 257, 299, 300, 301, 511, 512, 513, 600):
            ck.task("long lists of %d (%s)" % (n, ty), big, ty, n)
    # long lists
    sizes = (4, 5, 7, 8, 9, 15, 16, 17, 31, 33, 64, 65) + (() if ck.quick else (100, 127, 128, 129, 255, 256, 257, 300))
    for n in sizes:
        for shared in (False, True):
            mem, gap = longlists("int", n, shared)
            d = [dom("x", "int"), dom("l", "ilist")]
            es = [("in", "in", V("x"), mem), ("in", "not in", V("x"), mem)] + [("list", o, "l", mem) for o in LOPS]
            es += [("in", "in", mem[k], V("l")) for k in (0, n // 2, n - 1)] + [("list", o, "l", [mem[n - 1]]) for o in LOPS] + [("list", o, "l", [mem[0], mem[n // 2], mem[n - 1]]) for o in LOPS]
            pick = range(n) if n <= 17 else sorted(set(list(range(3)) + list(range(n - 3, n)) + [n // 2, n // 3]))
            evs = [{"x": mem[k], "l": [mem[k]]} for k in pick] + [{"x": gap[k], "l": [gap[k]]} for k in pick]
            evs += [{"x": 0, "l": mem}, {"x": 1, "l": mem[::-1]}, {"x": 1, "l": mem[1:]}, {"x": 1, "l": mem[:-1]}, {"x": 1, "l": permuted(mem, 1)[1:] + gap[:2]}, {"x": 1, "l": gap}, {"x": 1, "l": gap + [mem[n // 2]]}]
            for c in chunks(evs, 12):
                ck.task("lists of %d integers" % n, run, d, es, c)
        if n in (4, 8, 9, 17, 33, 65, 129, 257):
            mem, gap = longlists("str", n, False)
            d = [dom("x", "str"), dom("l", "slist")]
            es = [("in", "in", V("x"), mem), ("in", "not in", V("x"), mem)] + [("list", o, "l", mem) for o in LOPS]
            es += [("in", "in", mem[k], V("l")) for k in (0, n // 2, n - 1)] + [("list", o, "l", [mem[n - 1]]) for o in LOPS] + [("list", o, "l", [mem[0], mem[n // 2], mem[n - 1]]) for o in LOPS]
            pick = range(n) if n <= 9 else sorted(set(list(range(3)) + list(range(n - 3, n)) + [n // 2, n // 3]))
            evs = [{"x": mem[k], "l": [mem[k]]} for k in pick] + [{"x": g, "l": [g]} for g in gap]
            evs += [{"x": "g", "l": mem}, {"x": "g", "l": mem[::-1]}, {"x": "g", "l": mem[1:]}, {"x": "g", "l": permuted(mem, 1)[1:] + gap[:2]}, {"x": "g", "l": gap}, {"x": "g", "l": gap + [mem[n // 2]]}]
            for c in chunks(evs, 12):
                ck.task("lists of %d strings" % n, run, d, es, c)
