"""C11: an expression is accepted exactly when it fits the declarations; a refused one has no effect."""
import random
from .lib import *

TYPES = ["bool", "int", "float", "str", "ilist", "slist", "seg", "freq", "ienum"]
ALLOW = dict(now="int", frequency_caps="freq", latitude="float", longitude="float")
CON = dict(advertiser_id=1, campaign_id=2, campaign_group_id=3, flight_id=4, product_id=5)
KEEP = [dom("kb", "bool", False), dom("ki", "int"), dom("ks", "str")]
FTYPES = ("advertiser", "advertiser:ip", "campaign", "campaign:ip", "campaign_group", "campaign_group:ip", "flight", "flight:ip", "product", "product:ip")


def kind(v):
    return "float" if isinstance(v, F) else "str" if isinstance(v, str) else kind(v[0]) + "s" if isinstance(v, (list, tuple)) else "int"


def accept(e, d, strict):
    """the type rules of the language; d: attribute -> (type, may be undefined)"""
    k = e[0]
    ty = lambda n: d[n][0] if n in d else None
    if k in ("cmp", "eq"):
        a, v = ty(e[2]), kind(e[3])
        ok = [("int", "int"), ("float", "int"), ("float", "float")]
        if k == "eq":
            ok += [("str", "str"), ("ienum", "int")]
        return (a, v) in ok
    if k == "bool":
        return ty(e[1]) == "bool"
    if k == "lit":
        return True
    if k == "not":
        return accept(e[1], d, strict)
    if k in ("and", "or"):
        return accept(e[1], d, strict) and accept(e[2], d, strict)
    if k == "in":
        l, r = e[2], e[3]
        if isinstance(l, V):
            return not isinstance(r, V) and (ty(l.n), kind(r)) in (("str", "strs"), ("int", "ints"))
        return isinstance(r, V) and (ty(r.n), kind(l)) in (("slist", "str"), ("ilist", "int"))
    if k == "list":
        return (ty(e[2]), kind(e[3])) in (("slist", "strs"), ("ilist", "ints"))
    if k == "null":
        if e[2] not in d:
            return False
        if not strict:
            return True
        return ty(e[2]) in ("ilist", "slist") if e[1] == "is empty" else d[e[2]][1]
    if k == "freq":
        return e[1] in FTYPES and ty("frequency_caps") == "freq" and ty("now") == "int"
    if k == "seg":
        return ty(e[2] or "segments_with_timestamp") == "seg" and ty("now") == "int"
    if k == "geo":
        return ty("latitude") == "float" and ty("longitude") == "float"
    if k == "str":
        return ty(e[2]) == "str"
    raise ValueError(k)


def preds(x):
    P = []
    for op in ("<", "<=", ">", ">="):
        P += [("cmp", op, x, 3), ("cmp", op, x, F(1.5))]
    for op in ("=", "<>"):
        P += [("eq", op, x, v) for v in (3, F(1.5), "a")]
    for op in ("in", "not in"):
        P += [("in", op, V(x), [1, 2]), ("in", op, V(x), ["a", "b"]), ("in", op, 3, V(x)), ("in", op, "a", V(x))]
    for op in ("one of", "none of", "all of"):
        P += [("list", op, x, [1, 2]), ("list", op, x, ["a", "b"])]
    P += [("bool", x)] + [("null", o, x) for o in ("is null", "is not null", "is empty")]
    P += [("str", o, x, "a") for o in ("contains", "starts_with", "ends_with")]
    P += [("seg", o, x, 1, 20) for o in ("segment_within", "segment_before")]
    return P


def special():
    P = [("seg", o, None, 1, 20) for o in ("segment_within", "segment_before")] + [("geo", F(1), F(2), F(3)), ("geo", 1, 2, 3)]
    P += [("freq", t, "ns", 5, 20) for t in ("flight", "campaign:ip", "product")]
    P += [("freq", "flight", "ns", 5, 0), ("freq", "campaign", "ns", 0, 0), ("freq", "product:ip", "", 1, 1 << 40), ("seg", "segment_before", None, 0, 0), ("seg", "segment_within", None, 7, 0)]
    P += [("in", op, v, l) for op in ("in", "not in") for v, l in ((1, [1, 2]), (3, [1, 2]), ("a", ["a"]))]
    return P


CTX = [("", lambda p, g: p), ("not", lambda p, g: ("not", p)), ("and right", lambda p, g: ("and", g, p)), ("and left", lambda p, g: ("and", p, g)), ("or right", lambda p, g: ("or", g, p)), ("or left", lambda p, g: ("or", p, g)),
       ("deep", lambda p, g: ("and", ("or", g, ("not", ("and", g, p))), g))]
GOOD = ("bool", "kb")
VAL = dict(bool=True, int=3, float=F(1.5), str="a", ilist=[1], slist=["a"], seg=Seg([(1, 2)]), freq=Caps([("flight", 4, "ns", 1, 2)]), ienum=3)


def gate(t, doms, exprs, ctxs):
    """every entry point that takes an expression decides the same way, and a refusal changes nothing"""
    declare(t, doms)
    d = {x[0]: (x[1], x[2]) for x in doms}
    w = World(doms, [(1, GOOD), (2, ("not", GOOD)), (3, ("cmp", "<", "ki", 5)), (4, ("eq", "=", "ks", "w"))])
    for i, e, c in w.subs:
        if not t.guard("insert %s" % show(e), t.a.insert, i, e):
            t.check(False, "insert of the valid expression '%s' is refused" % show(e))
            return
    req = {n: VAL[y] for n, (y, u) in d.items() if not u}
    snap = t.e.snapshot()
    for p in exprs:
        for c in ctxs:
            e = CTX[c][1](p, GOOD)
            con = CON if p[0] == "freq" else None
            sh = "%s with %s" % (show(e), ", ".join("%s:%s%s" % (n, y, "" if u else "!") for n, (y, u) in d.items() if n not in ("kb", "ki", "ks")))
            for how in ("insert", "make_sub", "change_boundaries"):
                t.begin()
                ex = accept(e, d, how == "make_sub")
                f = t.a.change_boundaries if how == "change_boundaries" else None
                r = t.guard("%s '%s'" % (how, sh), f, e) if f else t.guard("%s '%s'" % (how, sh), getattr(t.a, how), 9, e, con)
                if r is NOFAULT:
                    t.e.restore(snap)
                    continue
                ok = r != 0 and r is not None
                t.check(ok == ex, lambda: "%s '%s': the expression is %s, expected %s" % (how, sh, "accepted" if ok else "refused", "accepted" if ex else "refused"))
                if not ok and c == (len(p) + len(show(p))) % len(CTX) or not ok and c == 0:
                    events(t, w, [dict(req, kb=True, ki=4, ks="w"), dict(req, kb=False, ki=5, ks="v")], "search after a refusal")
                t.e.restore(snap)


def after(t, doms, bad, good, evs):
    """a run of refusals between insertions: the accepted expressions behave as if the refused ones had never been there"""
    declare(t, doms)
    w = World(doms, [])
    for i, e in enumerate(good):
        for b in bad[i::len(good)]:
            r = t.guard("insert %s" % show(b), t.a.insert, 1000 + i, b, {} if b[0] == "freq" else None)
            if r is NOFAULT:
                return
            t.check(r == 0, "insert '%s' is accepted" % show(b))
            r = t.guard("make_sub %s" % show(b), t.a.make_sub, 1000 + i, b)
            if r is NOFAULT:
                return
            t.check(r == 0, "betree_make_sub '%s' is accepted" % show(b))
        r = t.guard("insert %s" % show(e), t.a.insert, i + 1, e)
        if r is NOFAULT:
            return
        t.check(r != 0, "insert of the valid expression '%s' is refused after refusals" % show(e))
        w.subs.append((i + 1, e, None))
    events(t, w, evs)


def build(ck):
    ck.partition = ("Truth table of the type rules: every predicate form x every declared type (and no declaration, and may-be-undefined or not) x position in a formula x the three entry points that take an expression "
                    "(insert, making a subscription, changing boundaries); special predicates x every type of each attribute they use implicitly. After a refusal, the other subscriptions still match as before.")
    P = preds("x")
    for ty in TYPES + [None]:
        for u in (True, False):
            doms = KEEP + ([dom("x", ty, u)] if ty else []) + [dom("now", "int")]
            ctxs = range(len(CTX)) if u or not ck.quick else (0, 2)
            for c in chunks(P, 9 if u else 15):
                ck.task("%s attribute" % ty, gate, doms, c, list(ctxs))
    # attributes used implicitly
    names = ["segments_with_timestamp", "frequency_caps", "now", "latitude", "longitude"]
    good = dict(segments_with_timestamp="seg", frequency_caps="freq", now="int", latitude="float", longitude="float")
    S = special() + [("seg", "segment_within", "sg", 1, 20)]
    for n in names:
        for ty in TYPES + [None]:
            doms = KEEP + [dom("sg", "seg")] + [dom(m, ty if m == n else good[m]) for m in names if not (m == n and ty is None)]
            ck.task("implicit attribute %s:%s" % (n, ty), gate, doms, S, [0, 1, 2, 6] if ty in ("int", "float", None) else [0, 3])
    doms = KEEP + [dom("sg", "seg")] + [dom(m, good[m]) for m in names]
    ck.task("frequency types", gate, doms, [("freq", ty, "ns", 5, 20) for ty in FTYPES + ("flights", "flightip", "", "fligh", "FLIGHT", "ip", "advertiser:", ":ip")], [0, 2])
    # two wrong, one wrong, none wrong in every position of larger formulas
    rng = random.Random(3)
    doms = KEEP + [dom("b", "bool"), dom("s", "str"), dom("sl", "slist"), dom("f", "float"), dom("now", "int")]
    badl = [("cmp", "<", "s", 3), ("eq", "=", "ki", "a"), ("bool", "s"), ("in", "in", V("sl"), ["a"]), ("list", "one of", "s", ["a"]), ("bool", "nope"), ("eq", "=", "nope", 3), ("str", "contains", "sl", "a"), ("seg", "segment_within", None, 1, 2)]
    goodl = [("cmp", "<", "ki", 3), ("eq", "=", "s", "a"), ("bool", "b"), ("in", "in", "a", V("sl")), ("list", "one of", "sl", ["a"]), ("cmp", "<", "f", 3), ("lit", True), ("null", "is null", "b")]

    def form(ls):
        if len(ls) == 1:
            return ls[0] if rng.random() < .6 else ("not", ls[0])
        k = rng.randrange(1, len(ls))
        e = (rng.choice(("and", "or")), form(ls[:k]), form(ls[k:]))
        return e if rng.random() < .7 else ("not", e)
    for z in range(12 if ck.quick else 100):
        fs = []
        for _ in range(14):
            n = rng.randrange(2, 6)
            ls = [rng.choice(goodl) for _ in range(n)]
            if rng.random() < .7:
                ls[rng.randrange(n)] = rng.choice(badl)
            fs.append(form(ls))
        ck.task("formulas with a wrong predicate", gate, doms, fs, [0])
    evl = [{"kb": k, "ki": i, "s": s, "sl": l, "f": 2, "b": True} for k in (True, False) for i in (1, 4) for s, l in (("a", ["a"]), ("b", []))]
    for z in range(3):
        rng.shuffle(goodl)
        ck.task("refusals between insertions", after, doms, badl + [form([rng.choice(badl), rng.choice(goodl)]) for _ in range(12)] + [("freq", "flight", "ns", 1, 2)], list(goodl) * 2, evl)
