"""C12: an event is accepted exactly when it fits the declarations, and means the same however it is written."""
import itertools
import random
from .lib import *

TYPES = ["bool", "int", "float", "str", "ilist", "slist", "seg", "freq", "ienum"]
US = 1000000
VALS = dict(bool=[True, False], int=[3, -4, A(1), (1 << 63) - 1, 16777216, 16777217, -16777216, -16777217, 1 << 40, (1 << 40) + 1], float=[F(2.5), F(-1.5), F(0.1), F(16777217.0)], str=["a", "zz", ""], empty=[[]], ints=[[1, 2], [2, 1, 1], [A(1)]], strs=[["a"], ["zz", "a", "a"]],
            seg=[Seg([(1, 5 * US)]), Seg([(2, 1), (1, 95 * US)])], caps=[Caps([("flight", 4, "ns", 1, 95 * US)]), Caps([("campaign", 2, "zz", 9, 1), ("flight", 4, "ns", 9, 95 * US)])])
FITS = dict(bool=["bool"], int=["int"], float=["float", "int"], str=["str"], ilist=["ints", "empty"], slist=["strs", "empty"], seg=["seg", "empty"], freq=["caps", "empty"], ienum=["int"])
SUBS = dict(bool=[("bool", "x"), ("not", ("bool", "x"))], int=[("cmp", "<", "x", 4), ("eq", "=", "x", A(1)), ("in", "in", V("x"), [3, 5])], float=[("cmp", "<", "x", 16777217), ("eq", "=", "x", 16777217), ("eq", "=", "x", F(16777217.0)), ("eq", "=", "x", F(0.1)), ("cmp", ">", "x", -16777217), ("eq", "=", "x", (1 << 40) + 1), ("cmp", ">", "x", 2), ("cmp", "<", "x", F(0.5)), ("eq", "=", "x", F(2.5))],
            str=[("eq", "=", "x", "a"), ("eq", "<>", "x", "a"), ("str", "contains", "x", "z")], ilist=[("list", "one of", "x", [1]), ("list", "none of", "x", [1]), ("list", "all of", "x", [1, 2]), ("null", "is empty", "x"), ("in", "in", 2, V("x"))],
            slist=[("list", "one of", "x", ["a"]), ("list", "none of", "x", ["a"]), ("null", "is empty", "x"), ("in", "not in", "a", V("x"))], seg=[("seg", "segment_within", "x", 1, 20), ("seg", "segment_before", "x", 1, 20)],
            freq=[], ienum=[("eq", "=", "x", 3), ("eq", "<>", "x", -4)])


def typed(ty, v):
    """the value the language sees"""
    return v


def probe(t, w, ev, ok, what, objects=True):
    """search and exists accept the event iff ok; a refused search leaves the report alone"""
    t.begin()
    try:
        r = t.a.report()
        tx = ev if isinstance(ev, list) else list(ev.items())
        got = t.a.call("betree_search", t.a.t, t.a.text(evt(tx)), r)
        d = t.a.rep(r)
        x = t.a.call("betree_exists", t.a.t, t.a.text(evt(tx)))
    except Fault as f:
        t.fault("%s: event %s [%s]" % (what, showev(tx), w.show()), f)
        return
    except Limit as f:
        t.limit("event %s" % showev(tx), f)
        return
    t.check(bool(got) == ok, lambda: "%s: event %s is %s, expected %s [%s]" % (what, showev(tx), "accepted" if got else "refused", "accepted" if ok else "refused", w.show()))
    if ok:
        ex = expected(w, tx)
        t.check(sorted(d["ids"]) == ex, lambda: diff(w, tx, ex, sorted(d["ids"])))
        t.check(bool(x) == bool(ex), lambda: "%s: event %s: exists is %r, %d subscriptions match [%s]" % (what, showev(tx), bool(x), len(ex), w.show()))
    else:
        t.check(not x, lambda: "%s: event %s is refused by search, but exists says true" % (what, showev(tx)))
        t.check(d["matched"] == 0 and d["ids"] == [] and d["evaluated"] == 0, lambda: "%s: event %s is refused but the report is filled: %r" % (what, showev(tx), d))


from sa.api import evtoks as evt


def table(t, ty, undef, extra):
    """one attribute of every type, every kind of value"""
    nm = "frequency_caps" if ty == "freq" else "x"
    doms = [dom("r", "bool", True)] + ([dom(nm, ty, undef)] if not extra else []) + [dom("now", "int")] + ([dom(nm, ty, undef)] if extra else [])
    subs = [(1, ("bool", "r")), (2, ("lit", True))] + [(3 + k, e) for k, e in enumerate(SUBS[ty])]
    if ty == "freq":
        subs += [(3, ("freq", "flight", "ns", 5, 20), dict(flight_id=4)), (4, ("not", ("freq", "flight", "ns", 5, 20)), dict(flight_id=4))]
    if undef:
        subs += [(20, ("null", "is null", nm)), (21, ("null", "is not null", nm))]
    w = World(doms, subs)
    if not setup(t, w):
        return
    n0 = t.e.snapshot()
    for vk, vs in VALS.items():
        for v in vs:
            ev = {nm: v, "now": 100}
            probe(t, w, ev, vk in FITS[ty], "%s attribute given a %s" % (ty, vk))
            probe(t, w, {"r": True, "now": 100, nm: v}, vk in FITS[ty], "%s attribute given a %s" % (ty, vk))
            if vk in FITS[ty]:
                probe(t, w, {"r": None, "now": 100, nm: v}, True, "null attribute")
    probe(t, w, {"r": True, "now": 100}, undef, "%s attribute missing" % ty)
    probe(t, w, {"r": True, nm: None, "now": 100}, undef, "%s attribute null" % ty)
    probe(t, w, {nm: None}, undef, "%s attribute null" % ty)
    probe(t, w, {}, undef, "empty event")


def required(t, kinds, cap):
    """which attributes are required, for every subset given"""
    names = ["a%d" % i for i in range(len(kinds))]
    doms = [dom(n, ty, u) for n, (ty, u) in zip(names, kinds)]
    ok = dict(bool=True, int=3, float=F(1), str="s", ilist=[1], slist=["s"], seg=Seg([(1, 1)]), freq=Caps([("flight", 4, "ns", 1, 1)]), ienum=3)
    subs = [(1, ("lit", True))] + [(2 + i, ("null", "is not null", n)) for i, n in enumerate(names)]
    w = World(doms, subs, *cap)
    if not setup(t, w):
        return
    for bits in range(1 << len(kinds)):
        for how in (0, 1):
            ev = [(n, ok[ty]) for i, (n, (ty, u)) in enumerate(zip(names, kinds)) if bits >> i & 1]
            if how:
                ev = [(n, ok[ty] if bits >> i & 1 else None) for i, (n, (ty, u)) in reversed(list(enumerate(zip(names, kinds))))]
            probe(t, w, ev, all(u or bits >> i & 1 for i, (ty, u) in enumerate(kinds)), "attributes %s" % [y + ("" if u else "!") for y, u in kinds])


def orders(t, seed):
    """the order of the attributes and of the elements of lists, and repeated elements, do not matter"""
    doms = [dom("i", "int"), dom("l", "ilist"), dom("sl", "slist"), dom("b", "bool"), dom("f", "float"), dom("s", "str"), dom("e", "ienum"), dom("sg", "seg"), dom("now", "int")]
    ints, strs = [0, 1, 2, -3, A(1)], ["a", "b", "c", "zz"]
    subs, k = [], 0
    for op in ("one of", "none of", "all of"):
        for l in ([0], [0, 1], [1, 2], [-3, 2], [A(1)], [0, 1, 2], [7]):
            subs.append(("list", op, "l", l))
        for l in (["a"], ["a", "b"], ["b", "c"], ["c", "b", "a"], ["q"]):
            subs.append(("list", op, "sl", l))
    for op in ("in", "not in"):
        subs += [("in", op, v, V("l")) for v in ints + [9]] + [("in", op, v, V("sl")) for v in strs[:3]]
    subs += [("bool", "b"), ("cmp", "<", "i", 2), ("cmp", "<", "f", F(1.5)), ("eq", "=", "s", "a"), ("eq", "=", "e", 3), ("seg", "segment_within", "sg", 1, 20), ("null", "is empty", "l"), ("null", "is null", "s")]
    w = World(doms, [(i + 1, e) for i, e in enumerate(subs)], *((3, 0) if seed % 2 else (4096, 0)))
    if not setup(t, w):
        return
    rng = random.Random(seed)
    for _ in range(14):
        li = [rng.choice(ints) for _ in range(rng.randrange(0, 7))]
        ls = [rng.choice(strs) for _ in range(rng.randrange(0, 7))]
        sg = Seg([(i, rng.choice((85, 70)) * US) for i in rng.sample([1, 2, 3, -1], rng.randrange(0, 4))])
        ev = [("i", rng.randrange(4)), ("l", li), ("sl", ls), ("b", rng.random() < .5), ("f", rng.choice((1, F(2.5)))), ("s", rng.choice(strs)), ("e", rng.choice((3, 4))), ("sg", sg), ("now", 100)]
        for _ in range(3):
            rng.shuffle(ev)
            probe(t, w, [(n, v) for n, v in ev if rng.random() < .85], True, "shuffled event")


def repeats(t, ty, ns):
    """lists of every number of distinct members, each given once or more, in several orders"""
    mk = (lambda i: 3 * i - 7) if ty == "ilist" else (lambda i: "m%d" % i)
    N = max(ns) + 1
    all_ = [mk(i) for i in range(N + 1)]
    subs = [("list", "all of", "l", all_)] + [("in", "in", v, V("l")) for v in all_] + [("in", "not in", v, V("l")) for v in all_[::3]] + \
           [("list", "all of", "l", all_[:k]) for k in (1, 2, 3, 5, N // 2, N)] + [("list", "none of", "l", all_[k:]) for k in range(0, N, 2)]
    w = World([dom("l", ty)], [(i + 1, e) for i, e in enumerate(subs)], 4096, 0)
    if not setup(t, w):
        return
    R = random.Random(ns[0])
    for n in ns:
        d = all_[:n]
        for l in (d, d[::-1], d + d, [v for v in d for _ in range(2)], d[::-1] + d[:1], d[:-1] + d[-1:] * 5, d[:1] * 4 + d[1:], R.sample(d * 3, 3 * n), R.sample(d * 2, 2 * n)):
            probe(t, w, {"l": l}, True, "list of %d distinct members" % n)


def letters(t, names, seed):
    """attribute names do not depend on upper and lower case, wherever they appear"""
    kinds = [("bool", ("bool", "x")), ("int", ("cmp", "<", "x", 4)), ("str", ("eq", "=", "x", "a")), ("ilist", ("list", "one of", "x", [1])), ("float", ("cmp", ">", "x", F(1.5))), ("slist", ("in", "in", "a", V("x"))), ("seg", ("seg", "segment_within", "x", 1, 20))]
    ok = dict(bool=True, int=3, str="a", ilist=[1], float=F(2.5), slist=["a"], seg=Seg([(1, 95 * US)]))
    R = random.Random(seed)
    case = lambda n: R.choice([n, n.upper(), n.lower(), n.capitalize(), n.swapcase(), "".join(R.choice((c.upper(), c.lower())) for c in n)])
    doms = [dom(case(n), kinds[i % len(kinds)][0], i % 4 != 1) for i, n in enumerate(names)] + [dom("now", "int")]

    def ren(e, n):
        return tuple(ren(x, n) if isinstance(x, tuple) else V(n) if isinstance(x, V) else n if x == "x" else x for x in e)
    declare(t, doms, *[(4096, 0), (1, 0)][seed % 2])
    subs = []
    for i, n in enumerate(names):
        for _ in range(3):
            e = ren(kinds[i % len(kinds)][1], case(n))
            r = t.guard("insert %s" % show(e), t.a.insert, len(subs), e)
            if r is NOFAULT:
                return
            t.check(bool(r), lambda: "insert of '%s' is refused though %s is declared" % (show(e), n))
            subs.append(i)
    for miss in [None] + list(range(len(names))):
        ev = [(case(n), ok[kinds[i % len(kinds)][0]]) for i, n in enumerate(names) if i != miss] + [("now", 100)]
        R.shuffle(ev)
        t.begin()
        d = t.guard("search %s" % showev(ev), t.a.search, ev)
        x = t.guard("exists %s" % showev(ev), t.a.exists, ev)
        if d is NOFAULT or x is NOFAULT:
            return
        if miss is not None and miss % 4 == 1:
            t.check(d is None and not x, lambda: "event %s lacks %s and is accepted" % (showev(ev), names[miss]))
        else:
            ex = [k for k, i in enumerate(subs) if i != miss]
            t.check(d is not None and sorted(d["ids"]) == ex and x, lambda: "event %s: reported %r, expected %r (declared as %s)" % (showev(ev), d and sorted(d["ids"]), ex, [q[0] for q in doms]))


def build(ck):
    ck.partition = ("Truth table of events: every declared type x every kind of event value (integer for float and enum, the empty list, null, missing and wrong kinds included) x required or not x position; every subset of "
                    "required and optional attributes of every type; permutations of attributes and list elements with repetitions. Refused events give false from search and exists and an empty report.")
    for ty in TYPES:
        for u in (True, False):
            for x in (False, True):
                ck.task("%s attribute" % ty, table, ty, u, x)
    for k in range(len(TYPES)):
        for us in itertools.product((True, False), repeat=4):
            ks = [(TYPES[(k + j * 2) % len(TYPES)], u) for j, u in enumerate(us)]
            if ck.quick and (k + sum(us)) % 3:
                continue
            ck.task("required attributes", required, ks, [(3, 0), (1, 0)][k % 2])
    for ty in ("ilist", "slist"):
        for ns in chunks(range(1, 21 if ck.quick else 41), 5):
            ck.task("repeated members (%s)" % ty, repeats, ty, ns)
    for s in range(12 if ck.quick else 80):
        ck.task("orders", orders, s)
    for k in range(6 if ck.quick else 40):
        ck.task("letters of names", letters, [["x", "ab", "country", "browser_lang", "z9_q", "width", "exchange", "aA"], ["Country", "COUNTRY_CODE", "w", "xY"], ["advertiserId", "advertiserIdx", "advertiser"]][k % 3], k)
