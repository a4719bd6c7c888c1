"""C05: memoization is transparent: identical predicates share a result, different ones never do."""
import random
from .lib import *

BIGCAP = (4096, 0)
DOMS = [dom("i", "int"), dom("j", "int"), dom("f", "float"), dom("g", "float"), dom("s", "str"), dom("u", "str"), dom("e", "ienum"), dom("k", "ienum"), dom("l", "ilist"), dom("m", "ilist"),
        dom("sl", "slist"), dom("sm", "slist"), dom("b", "bool"), dom("c", "bool"), dom("sg", "seg"), dom("sh", "seg"), dom("segments_with_timestamp", "seg"), dom("frequency_caps", "freq"), dom("now", "int"),
        dom("latitude", "float"), dom("longitude", "float")]
CON = dict(advertiser_id=1, campaign_id=2, campaign_group_id=3, flight_id=4, product_id=5)
CON2 = dict(CON, flight_id=40, campaign_id=20)


def near():
    """families of predicates that differ in one component"""
    P = []
    for x in ("i", "j"):
        for op in ("<", "<=", ">", ">="):
            for c in (0, 1, 2, -1, A(1), A(1, 1), I64MAX, (1 << 32), (1 << 32) + 1):
                P.append(("cmp", op, x, c))
        for op in ("=", "<>"):
            for c in (0, 1, -1, A(1), (1 << 32), (1 << 32) + 1):
                P.append(("eq", op, x, c))
    for x in ("f", "g"):
        for op in ("<", "<=", ">", ">="):
            for c in (F(0), F(1), F(1.5), F(A(1)), F(A(1, 1)), 2):
                P.append(("cmp", op, x, c))
        for op in ("=", "<>"):
            for c in (F(0), F(1), F(1.5), F(A(1)), 2, -1):
                P.append(("eq", op, x, c))
    for x in ("s", "u"):
        for op in ("=", "<>"):
            for c in ("a", "b", "", "ab"):
                P.append(("eq", op, x, c))
        for op in ("in", "not in"):
            for l in (["a"], ["b"], ["a", "b"], ["a", "ab"], ["a", "b", "ab"]):
                P.append(("in", op, V(x), l))
        for op in ("contains", "starts_with", "ends_with"):
            for p in ("a", "b", "ab", ""):
                P.append(("str", op, x, p))
    for x in ("e", "k"):
        for op in ("=", "<>"):
            for c in (0, 1, A(1), (1 << 32)):
                P.append(("eq", op, x, c))
    for x in ("i", "j"):
        for op in ("in", "not in"):
            for l in ([0], [1], [0, 1], [0, 2], [0, 1, 2], [0, A(1)], [1, 2], [(1 << 32)]):
                P.append(("in", op, V(x), l))
    for x in ("l", "m"):
        for op in ("in", "not in"):
            for c in (0, 1, A(1), (1 << 32)):
                P.append(("in", op, c, V(x)))
        for op in ("one of", "none of", "all of"):
            for l in ([0], [1], [0, 1], [0, 2], [0, 1, 2], [1, 2], [0, A(1)]):
                P.append(("list", op, x, l))
        P.append(("null", "is empty", x))
    for x in ("sl", "sm"):
        for op in ("in", "not in"):
            for c in ("a", "b"):
                P.append(("in", op, c, V(x)))
        for op in ("one of", "none of", "all of"):
            for l in (["a"], ["b"], ["a", "b"], ["b", "c"], ["a", "b", "c"]):
                P.append(("list", op, x, l))
        P.append(("null", "is empty", x))
    for x in ("b", "c"):
        P.append(("bool", x))
    P += [("lit", True), ("lit", False)]
    for x in ("i", "j", "s", "b", "l"):
        P += [("null", "is null", x), ("null", "is not null", x)]
    for n in (None, "sg", "sh"):
        for o in ("segment_within", "segment_before"):
            for i in (1, 2):
                for sec in (10, 20):
                    P.append(("seg", o, n, i, sec))
    for ty in ("flight", "flight:ip", "campaign", "campaign:ip", "advertiser", "product"):
        for ns in ("x", "y"):
            for v in (5, 6):
                for ln in (10, 20):
                    P.append(("freq", ty, ns, v, ln))
    return P


def evs():
    US = 1000000
    base = dict(b=True, c=False, now=100)
    E = []
    ints = [0, 1, 2, -1, A(1), A(1, 1), (1 << 32), (1 << 32) + 1, A(2), -2]
    strs = ["a", "b", "", "ab", "ba", "zz", None]
    ils = [[], [0], [1], [0, 1], [0, 2], [1, 2], [0, 1, 2], [A(1)], [1 << 32], [0, A(1)]]
    sls = [[], ["a"], ["b"], ["a", "b"], ["b", "c"], ["a", "b", "c"], ["q"]]
    fls = [0, 1, 1.5, A(1), A(1, 1), 0.5, A(2), -1]
    for n in range(24):
        e = dict(base)
        q = lambda l, k: l[(n * k + k) % len(l)]
        e.update(i=q(ints, 1), j=q(ints, 3), f=F(q(fls, 1)), g=F(q(fls, 5)), s=q(strs, 1), u=q(strs, 3), e=[0, 1, A(1), 1 << 32, 7][n % 5], k=[1, 0, 7, A(1)][n % 4],
                 l=q(ils, 1), m=q(ils, 3), sl=q(sls, 1), sm=q(sls, 3), b=n % 2 == 0, c=n % 3 == 0)
        e["sg"] = Seg([(1, [70, 85, 95][n % 3] * US), (2, [95, 70, 85, 10][n % 4] * US)][:1 + n % 2])
        e["sh"] = Seg([(2, [85, 95, 70][n % 3] * US)])
        e["segments_with_timestamp"] = Seg([(1, [95, 70, 85, 10][n % 4] * US)])
        caps = []
        for z, (ty, cid) in enumerate((("flight", 4), ("flight:ip", 4), ("campaign", 2), ("campaign:ip", 20), ("advertiser", 1), ("flight", 40), ("campaign", 20), ("product", 5))):
            if (n >> (z % 4)) & 1:
                caps.append((ty, cid, "xyz"[(n + z) % 3], 4 + (n + z) % 4, [85, 95, 70][(n + z) % 3] * US))
        e["frequency_caps"] = Caps(caps)
        for d in [k for z, k in enumerate(list(e)) if k not in ("now",) and (n * 7 + z) % 11 == 0]:
            del e[d]
        E.append(e)
    return E


def fine():
    """groups of predicates that are hard to tell apart, each with events that do: [(name, predicates, events)]"""
    US, B = 1000000, 1 << 32
    G = []
    ids = [1, 2, 1 + B, 1 + (1 << 31), 1 + (1 << 33), I64MAX, -1]
    for x in ("sg", None):
        at = x or "segments_with_timestamp"
        for op in ("segment_within", "segment_before"):
            G.append(("segment ids", [("seg", op, x, i, 20) for i in ids], [{at: Seg([(i, ts * US)]), "now": 100} for i in ids + [3] for ts in (95, 10)] + [{at: Seg([(i, 95 * US) for i in ids if i != j]), "now": 100} for j in ids]))
            secs = [20, 21, 20 + B, 20 + 2 * B, 20 + (1 << 31)]
            G.append(("segment times", [("seg", op, x, 1, z) for z in secs], [{at: Seg([(1, ts * US)]), "now": now} for now in (100, 30 * B) for z in secs for ts in (now - z, now - z - 1, now - z + 1)]))
    lens = [0, 1, 20, 21, 255, 256, 276, 20 + B]
    G.append(("lengths of caps", [("freq", "flight", "ns", 5, z) for z in lens], [{"frequency_caps": Caps([("flight", 4, "ns", v, (now - z + d) * US)]), "now": now} for now in (100000, 30 * B) for z in lens for d in (-1, 0, 1) for v in (4, 5)]))
    vals = [1, 4, 5, 6, 255, 256, 261, 65535, 65536, 65541, (1 << 31) - 1]
    G.append(("values of caps", [("freq", "flight", "ns", v, 20) for v in vals], [{"frequency_caps": Caps([("flight", 4, "ns", w, 95 * US)]), "now": 100} for v in vals for w in (v - 1, v)]))
    for n in (1, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 255, 256, 257):
        base = "".join(chr(97 + (i * 7) % 23) for i in range(n))
        ss = [base, base[:-1] + "y", "y" + base[1:], base + "y", base[:n // 2] + "y" + base[n // 2 + 1:]]
        ss = sorted(set(ss), key=ss.index)
        ev = [{"s": z, "sl": [z], "now": 100, "frequency_caps": Caps([("flight", 4, z, 9, 95 * US)])} for z in ss + ["q"]] + [{"s": z + "!", "sl": ss[:2]} for z in ss] + [{"s": "!" + z} for z in ss] + [{"s": "!" + z + "!"} for z in ss]
        if n in (7, 16, 32, 64, 256):
            G.append(("strings of %d" % n, [("eq", o, "s", z) for o in ("=", "<>") for z in ss] + [("in", "in", V("s"), l) for l in ([ss[0], ss[1]], [ss[0], ss[2]], [ss[1], ss[2]])] + [("in", "in", z, V("sl")) for z in ss] +
                      [("list", "one of", "sl", [ss[0], z]) for z in ss[1:]] + [("freq", "flight", z, 5, 20) for z in ss], ev))
        G.append(("patterns of %d" % n, [("str", o, "s", z) for o in ("contains", "starts_with", "ends_with") for z in ss], ev))
    for n in (4, 5, 6, 8, 9, 16, 17, 33):
        li = list(range(0, 10 * n, 10))
        alt = [li] + [li[:k] + [li[k] + 1] + li[k + 1:] for k in (0, 1, n // 2, n - 2, n - 1)] + [li[:-1], li + [10 * n], li[:k_] + [li[k_] + B] + li[k_ + 1:] if (k_ := n - 1) else li]
        ev = [{"i": v, "l": [v]} for k in (0, 1, n // 2, n - 2, n - 1) for v in (li[k], li[k] + 1)] + [{"i": 10 * n, "l": [10 * n]}, {"i": li[-1] + B, "l": [li[-1] + B]}] + [{"i": 3, "l": a} for a in alt]
        G.append(("integer lists of %d" % n, [("in", "in", V("i"), a) for a in alt] + [("list", o, "l", a) for o in ("one of", "all of") for a in alt], ev))
        st = lambda a: ["v%d" % v for v in a]
        ev = [{"s": "v%d" % e["i"], "sl": st(e["l"])} for e in ev]
        G.append(("string lists of %d" % n, [("in", "in", V("s"), st(a)) for a in alt] + [("list", o, "sl", st(a)) for o in ("one of", "all of") for a in alt], ev))
    nums = [0, 1, B, B + 1, 1 << 31, (1 << 31) + 1, -B, -B + 1, 1 << 33, I64MAX, I64MAX - 1, -I64MAX]
    G.append(("integers", [("eq", "=", "i", v) for v in nums] + [("cmp", o, "i", v) for o in ("<", ">=") for v in nums] + [("in", "in", v, V("l")) for v in nums] + [("list", "all of", "l", [v]) for v in nums] + [("eq", "=", "e", v) for v in nums],
              [{"i": v, "e": v, "l": [v]} for v in nums + [2]] + [{"i": v - 1, "l": nums[:4]} for v in nums[:-1]]))
    fl = [0.0, 1.0, 1.0 + 1e-6, 1.0 + 1e-9, 1.0 + 1e-12, 0.1, 0.10000001, 0.1000000015, 16777216.0, 16777217.0, 1e15, 1e15 + 1, -1.0, -0.1, float(B), float(B + 1), 123456.789, 123456.78901]
    G.append(("floats", [("eq", "=", "f", F(v)) for v in fl] + [("cmp", o, "f", F(v)) for o in ("<", ">=") for v in fl] + [("eq", "=", "f", v) for v in (16777216, 16777217, B, B + 1, 1, -1)],
              [{"f": F(v)} for v in fl] + [{"f": v} for v in (0, 1, 16777216, 16777217, B, B + 1, 10 ** 15, 10 ** 15 + 1)]))
    return G


def world(t, preds, copies, order, evl):
    l = [(p, None) for p in preds for _ in range(copies)]
    l = [(p, (CON2 if z % 5 == 3 else CON) if has_freq(p) else None) for z, (p, _) in enumerate(l)]
    if order == "rev":
        l.reverse()
    elif order == "twice":
        l = l[::copies] * copies
    elif order:
        random.Random(order).shuffle(l)
    match_world(t, World(DOMS, [(i + 1, p, c) for i, (p, c) in enumerate(l)], *BIGCAP), evl)


def falses(t, preds, ev, order):
    """all the given predicates, or their negations, that are false for the event, each twice: nothing matches, by search and by exists; then one that is true"""
    con = lambda p: CON if has_freq(p) else None
    env = env_of(DOMS, ev)
    fl, tr = [], []
    for p in preds:
        for f in (p, ("not", p), ("not", ("not", p)), ("and", p, ("lit", True)), ("or", ("not", p), ("lit", False))):
            (tr if ref(f, env, CON) else fl).append(f)
    l = fl * 2
    random.Random(order).shuffle(l)
    w = World(DOMS, [(i + 1, p, con(p)) for i, p in enumerate(l)], *BIGCAP)
    if not setup(t, w):
        return

    def ask(ex):
        t.begin()
        d = t.guard("search %s" % showev(ev), t.a.search, ev)
        x = t.guard("exists %s" % showev(ev), t.a.exists, ev)
        if d is NOFAULT or x is NOFAULT:
            return False
        t.n += len(l)
        t.check(d is not None and sorted(d["ids"]) == ex, lambda: diff(w, ev, ex, d and sorted(d["ids"])))
        t.check(bool(x) == bool(ex), lambda: "event %s: exists says %r, the matching ids are %r [%s]" % (showev(ev), bool(x), ex, w.show()[:900]))
        return True
    if not ask([]):
        return
    base = t.e.snapshot()
    for k, p in enumerate(tr[order % 7::max(1, len(tr) // 6)]):
        t.e.restore(base)
        for j in range(1 + k % 2):
            r = t.guard("insert", t.a.insert, 5000 + j, p, con(p))
            if r is NOFAULT or not r:
                t.check(False, "insert of the valid '%s' is refused" % show(p))
                return
        w.subs = w.subs[:len(l)] + [(5000 + j, p, con(p)) for j in range(1 + k % 2)]
        if not ask([5000 + j for j in range(1 + k % 2)]):
            return


def has_freq(p):
    return p[0] == "freq" or p[0] in ("not", "and", "or") and any(has_freq(x) for x in p[1:] if isinstance(x, tuple))


def geo(t, order):
    """near-equal geo predicates, decided far from the radius"""
    declare(t, DOMS, *BIGCAP)
    G = (0.0, 40.0, -40.0)
    ps = [(la, lo, r) for la in G for lo in G for r in (50.0, 60.0, 20100.0)]
    l = ps * 2
    if order:
        random.Random(order).shuffle(l)
    for i, p in enumerate(l):
        r = t.guard("insert of a geo predicate", t.a.insert, i, ("geo", F(p[0]), F(p[1]), F(p[2])))
        if r is NOFAULT or not r:
            t.check(False, "insert of a geo predicate is refused")
            return
    for la in G:
        for lo in G:
            t.begin()
            d = t.guard("search", t.a.search, {"latitude": F(la), "longitude": F(lo)})
            if d is NOFAULT:
                return
            for i, (a, b, r) in enumerate(l):
                t.check((i in d["ids"]) == ((a, b) == (la, lo) or r > 10000), "geo_within_radius%r gives the result of another predicate for (%r, %r)" % ((a, b, r), la, lo))


def shared(t, n, copies):
    """n distinct predicates, each in `copies` subs: re-used results are counted, distinct ones never share"""
    doms = [dom("x", "int", False)]
    subs = [(1 + c * n + k, ("cmp", "<", "x", k)) for c in range(copies) for k in range(n)]
    w = World(doms, subs, *BIGCAP)
    if not setup(t, w):
        return
    for v in (-1, 0, 1, n // 2, 63, 64, 65, 127, 128, n - 1, n, A(1), A(-1)):
        t.begin()
        d = t.guard("search x = %r" % (v,), t.a.search, {"x": v})
        if d is NOFAULT:
            return
        ex = sorted(i for i, e in subs if v < e[3])
        t.n += len(subs) - 1
        t.check(d is not None and sorted(d["ids"]) == ex, lambda: "%d distinct predicates 'x < k' in %d subs each, event x = %r: subs %r are wrong" % (n, copies, v, sorted(set(ex) ^ set(d["ids"]))[:5]))
        t.check(d is not None and d["memoized"] == n * (copies - 1) and d["evaluated"] == n * copies and d["shorted"] == 0,
                lambda: "%d distinct predicates in %d subs each, event x = %r: the report counts %d re-used results, %d evaluations, %d shorted (expected %d, %d, 0)"
                % (n, copies, v, d["memoized"], d["evaluated"], d["shorted"], n * (copies - 1), n * copies))


def build(ck):
    ck.partition = ("All the predicate kinds in families that differ in exactly one component (attribute, operator, literal, list length or element, constant, namespace, time, position of 'not', shape of the "
                    "formula) are inserted two or more times in one tree, in several orders, so every pair of them meets in the map of shared predicates; the result of each must stay its own for events that tell them apart. "
                    "More than 64 / 128 shared predicates are analysed for the width of the result bitmaps.")
    P, E = near(), evs()
    step = 1
    for o in (0, "rev", "twice", 1) + (() if ck.quick else (2, 3, 4, 5)):
        if o == "twice":
            for c in range(0, len(P), 90):
                ck.task("near-equal predicates, repeated list", world, P[c:c + 90], 3, o, E[::3])
        else:
            # every pair inside a kind meets; kinds overlap between tasks
            for c in range(0, len(P), 110):
                ck.task("near-equal predicates (order %s)" % o, world, P[c:c + 150], 2, o, E[(c // 110) % 2::2])
    for n, ps, ev in fine():
        for o in (0, 1):
            for c in chunks(ev, 40):
                ck.task("near-equal %s" % n, world, ps, 2, o, c)
    for k, e in enumerate(E if not ck.quick else E[::2]):
        ck.task("nothing matches", falses, P[k % 4::4], e, k)
        ck.task("nothing matches", falses, P[(k + 2) % 4::4], {n: v for z, (n, v) in enumerate(e.items()) if (z + k) % 3}, k)
    R = random.Random(7)
    for k in range(4 if ck.quick else 16):
        l = list(P)
        R.shuffle(l)
        ck.task("mixed predicates", world, l[:150], 2, 11 + k, E[k % 3::3])
    # formulas sharing their leaves
    B = [("bool", n) for n in ("b", "c")] + [("cmp", "<", "i", 1), ("cmp", "<", "j", 1), ("eq", "=", "s", "a")]
    fs = []
    for x in B:
        fs += [x, ("not", x), ("not", ("not", x))]
        for y in B:
            for op in ("and", "or"):
                f = (op, x, y)
                fs += [f, ("not", f), (op, ("not", x), y), (op, x, ("not", y)), ("not", (op, ("not", x), ("not", y)))]
                for z in B[::2]:
                    for op2 in ("and", "or"):
                        fs += [(op2, f, z), (op2, z, f)]
    fe = [{k: v for k, v in dict(b=b, c=c, i=i, j=j, s=s).items() if v is not None} for b in (True, False, None) for c in (True, False) for i in (0, 1, None) for j in (0, 1) for s in ("a", "b")]
    for k in range(4):
        R.shuffle(fs)
        ck.task("formulas sharing sub-formulas", world, fs[:220], 2, 3 * k + 1, fe[k::4])
    for o in (0, 1, 2):
        ck.task("near-equal geo predicates", geo, o)
    for n, c in ((1, 2), (2, 2), (63, 2), (64, 2), (65, 2), (127, 2), (129, 3), (5, 40)) + (() if ck.quick else ((193, 2), (257, 2))):
        ck.task("%d shared predicates" % n, shared, n, c)
