"""C19: each subscription keeps the constants it was inserted with."""
import itertools
import random
from .lib import *

US = 1000000
TYPES = ["advertiser", "campaign", "campaign_group", "flight", "product"]
KEY = {"advertiser": "advertiser_id", "campaign": "campaign_id", "campaign_group": "campaign_group_id", "flight": "flight_id", "product": "product_id"}
ALL = TYPES + [t + ":ip" for t in TYPES]
DOMS = [dom("frequency_caps", "freq", True), dom("now", "int", True), dom("b", "bool", True), dom("c", "bool", True)]
IDS = [0, 1, 2, 3, 1 << 31, (1 << 31) - 1, (1 << 32) - 1, (1 << 32) - 2, 255, 256, 65536]


def key(ty):
    return KEY[ty.split(":")[0]]


def freq(ty, ns="n", v=5, ln=0):
    return ("freq", ty, ns, v, ln)


def needs(e):
    if e[0] == "freq":
        return {key(e[1])}
    return set().union(*[needs(x) for x in e[1:] if isinstance(x, tuple)]) if e[0] in ("not", "and", "or") else set()


def go(t, subs, evs, cap=(4096, 0), how="insert"):
    """subs: (expr, constants or None); refused exactly when a needed constant is missing; the rest is decided by its own constants"""
    a = t.a
    declare(t, DOMS, *cap)
    w = World(DOMS, [], *cap)
    for i, (e, c) in enumerate(subs):
        ok = needs(e) <= set(c or {})
        t.begin()
        if how == "sub":
            r = t.guard("betree_make_sub '%s' with %r" % (show(e), c), a.make_sub, i + 1, e, c)
            if r is NOFAULT:
                return
            t.check(bool(r) == ok, lambda: "betree_make_sub of '%s' with the constants %r is %s" % (show(e), c, "accepted" if r else "refused"))
            if r and ok:
                r = t.guard("betree_insert_sub", a.insert_sub, r)
        else:
            r = t.guard("insert '%s' with %r" % (show(e), c), a.insert, i + 1, e, c)
        if r is NOFAULT:
            return
        t.check(bool(r) == ok, lambda: "insertion of '%s' with the constants %r is %s" % (show(e), c, "accepted" if r else "refused"))
        if ok and r:
            w.subs.append((i + 1, e, c))
        elif bool(r) != ok:
            return
    events(t, w, evs)


def ev(caps, **k):
    return dict(k, now=1000, frequency_caps=Caps(caps))


def build(ck):
    ck.partition = ("Every cap type, with every subset and permutation of the five constants (and unrelated ones) given at insertion, ids at the ends of the 32-bit range, several cap predicates of the same or different types in one "
                    "formula (negated, nested), equal texts with different constants in one tree; events carry caps for the id of each constant, of the other constants and of no constant.")
    R = random.Random(2)
    # each type, with all the constants having different ids: only the right one counts
    C = dict(zip(KEY.values(), (11, 12, 13, 14, 15)))
    other = [(ty, i) for ty in ALL for i in (11, 12, 13, 14, 15, 16)]
    evs = [ev([(ty, i, "n", 9, 990 * US)]) for ty, i in other] + [ev([(ty, i, "n", 4, 990 * US) for ty, i in other])] + [ev([(ty, i, "n", 9, 990 * US) for ty, i in other if ty != x]) for x in ALL]
    base = [freq(ty) for ty in ALL]
    for how in ("insert", "sub"):
        for perm in ([0, 1, 2, 3, 4], [4, 3, 2, 1, 0], [2, 0, 4, 1, 3]):
            cs = {list(C)[i]: list(C.values())[i] for i in perm}
            ck.task("each type takes its own constant (%s)" % how, go, [(x, cs) for e in base for x in (e, ("not", e))], evs, (4096, 0), how)
        # subsets of the constants: refused exactly when the one needed is missing
        for n in range(6):
            subs = []
            for names in itertools.combinations(KEY.values(), n):
                cs = {k: C[k] for k in names}
                for e in base:
                    subs.append((e, cs or None if how == "insert" else cs))
                    if ck.quick and n in (2, 3) and R.random() < .5:
                        subs.pop()
            ck.task("%d constants given (%s)" % (n, how), go, subs, evs[::7], (4096, 0), how)
    # unrelated constants around
    X = ["x", "flight", "flight_i", "flight_idd", "_id", "campaign_group", "advertiser", "id", "campaign_i", "campaign_group_id2", "product_"]
    subs = []
    for e in base:
        k = key(e[1])
        for z in range(6):
            ns = R.sample(X, 5)
            ns.insert(z % 6, k)
            subs.append((e, {n: (C[k] if n == k else 16 + i) for i, n in enumerate(ns)}))
        subs.append((e, {n: 7 for n in X}))
    ck.task("unrelated constants", go, subs, evs[::2] + [ev([(ty, i, "n", 9, 1)]) for ty in ALL for i in (7, 16, 17, 18, 19, 20, 21)])
    # several caps in one formula
    fs = []
    for a, b in itertools.product(ALL, ALL):
        x, y = freq(a, "n"), freq(b, R.choice("nm"), R.choice((3, 5, 9)), R.choice((0, 20)))
        fs += [R.choice([("and", x, y), ("or", x, y), ("and", ("not", x), y), ("or", x, ("not", y)), ("not", ("or", x, y)), ("and", ("bool", "b"), ("or", ("not", x), y)), ("or", ("and", x, ("bool", "b")), ("and", ("not", y), ("bool", "c")))])]
    E2 = []
    for k in range(16):
        l = [(ty, i, R.choice("nm"), R.choice((2, 4, 6, 9)), R.choice((1, 970, 990)) * US) for ty in ALL for i in (11, 12, 13, 14, 15, 16) if R.random() < .4]
        seen, l2 = set(), []
        for x in l:
            if x[:3] not in seen:
                seen.add(x[:3])
                l2.append(x)
        R.shuffle(l2)
        E2.append(ev(l2, b=k % 2 == 0, c=k % 3 == 0))
    for how in ("insert", "sub"):
        for q in chunks(fs, 50):
            ck.task("several caps in a formula (%s)" % how, go, [(f, C) for f in q], E2, (4096, 0), how)
    miss = []
    for f in fs[::3]:
        n = sorted(needs(f))
        miss += [(f, {k: C[k] for k in n}), (f, {k: C[k] for k in C if k != n[0]}), (f, {k: C[k] for k in C if k != n[-1]}), (f, {}), (f, None)]
    for q in chunks(miss, 60):
        ck.task("one constant is missing", go, q, E2[::3])
    # same text, other constants: each keeps its own
    for cap in ((4096, 0), (1, 0), (3, 0)):
        for ty in ("flight", "campaign:ip", "advertiser"):
            l = [(freq(ty), {key(ty): i}) for i in IDS]
            l = l + l[::-1]
            l += [(("not", x), c) for x, c in l[:8]]
            l += [(("and", x, ("bool", "b")), c) for x, c in l[:8]]
            es = [ev([(ty, i, "n", 9, 990 * US)], b=True) for i in IDS + [4, 7, 1 << 30, (1 << 32) - 3]] + [ev([(ty, i, "n", R.choice((4, 9)), 990 * US) for i in IDS], b=True) for _ in range(4)]
            ck.task("same text, other constants, %s" % ty, go, [(x, dict(c, **{k: 77 for k in KEY.values() if k not in c}) if z % 2 else c) for z, (x, c) in enumerate(l)], es, cap)
    # one sub at a time: nothing is carried over from a refused or an accepted insertion
    seqs = []
    for a in ("flight", "product:ip"):
        k = key(a)
        seqs.append([(freq(a), {k: 1}), (freq(a), None), (freq(a), {k: 2}), (freq(a), {KEY["campaign"]: 1}), (freq(a), {k: 3}), (("and", freq(a), freq("campaign")), {k: 1}), (freq(a), {k: 1}), (("bool", "b"), None), (("bool", "b"), {k: 9}), (("or", freq(a), freq(a, "m")), {k: 4})])
    for s in seqs:
        for how in ("insert", "sub"):
            ck.task("accepted and refused in turns (%s)" % how, go, s, [ev([(ty, i, n, 9, 990 * US)], b=b) for ty in ("flight", "product:ip", "campaign") for i in (1, 2, 3, 4, 9) for n in "nm" for b in (True, False)], (4096, 0), how)
