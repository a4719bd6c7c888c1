"""C22: an event means the same whether it is text or built by calls, and attributes are where their definition says."""
import random
from .lib import *
from .c05 import DOMS, CON, near, has_freq, evs as E5
from sa.api import T as Tok, evtoks, evnum, showev

US = 1000000


def same(t, doms, subs, evs, cap):
    w = World(doms, [(i + 1,) + s for i, s in enumerate(subs)], *cap)
    if not setup(t, w):
        return
    pos = {}
    a = t.a
    for ev in evs:
        t.begin()
        snap = t.e.snapshot()
        try:
            # positions and names come from the definitions of the tree
            e = a.call("betree_make_event", a.t)
            for n, v in reversed(list(ev.items())):
                if v is not None:
                    a.call("betree_set_variable", e, [d[0] for d in doms].index(n), a.variable(n, v, {d[0]: d[1] for d in doms}[n]))
            e2 = a.event(doms, ev)
            x0 = a.exists_with(e2)                # the first use of a fresh event
            d0 = a.search_with(e2)
            a.call("betree_free_event", e2)
            d1 = a.search_with(e)
            x1 = a.exists_with(e)
            d2 = a.search(ev)
            x2 = a.exists(ev)
        except Fault as f:
            t.fault("event %s [%s]" % (showev(ev), w.show()[:500]), f)
            return
        except Limit as f:
            t.limit("event %s" % showev(ev), f)
            return
        ex = expected(w, ev)
        for d, x, how in ((d0, x0, "built by calls, exists first"), (d1, x1, "built by calls"), (d2, x2, "as text")):
            t.n += len(w.subs) - 1
            t.check(d is not None and sorted(d["ids"]) == ex, lambda: diff(w, ev, ex, d and sorted(d["ids"])) + " (%s)" % how)
            t.check(bool(x) == bool(ex), lambda: "event %s %s: exists is %r, %d subscriptions match" % (showev(ev), how, bool(x), len(ex)))
        if d1 and d2:
            t.check((d1["evaluated"], d1["memoized"], d1["shorted"]) == (d2["evaluated"], d2["memoized"], d2["shorted"]), lambda: "event %s: the report of the event built by calls differs from that of its text" % showev(ev))
        t.e.restore(snap)


def reuse(t, doms, subs, evs, cap, order):
    """one event object, its attributes set again (or unset) between searches"""
    w = World(doms, [(i + 1,) + s for i, s in enumerate(subs)], *cap)
    if not setup(t, w):
        return
    a = t.a
    ty = {d[0]: d[1] for d in doms}
    idx = [d[0] for d in doms]
    old = {}
    e = t.guard("betree_make_event", a.call, "betree_make_event", a.t)
    if e is NOFAULT:
        return
    for k, ev in enumerate(evs):
        t.begin()
        try:
            for n in (idx if (k + order) % 2 else idx[::-1]):
                v = ev.get(n)
                if v is None and n not in old:
                    continue
                x = 0 if v is None else a.variable(n, v, ty[n])
                a.call("betree_set_variable", e, idx.index(n), x)
                if n in old:
                    a.call("betree_free_variable", old.pop(n))
                if x:
                    old[n] = x
            for again in range(1 + k % 2):
                d = a.search_with(e)
                x = a.exists_with(e)
        except Fault as f:
            t.fault("event %s, set in an event used before [%s]" % (showev(ev), w.show()[:500]), f)
            return
        except Limit as f:
            t.limit("event %s" % showev(ev), f)
            return
        ex = expected(w, ev)
        t.n += len(w.subs) - 1
        t.check(d is not None and sorted(d["ids"]) == ex, lambda: diff(w, ev, ex, d and sorted(d["ids"])) + " (set in an event used before)")
        t.check(bool(x) == bool(ex), lambda: "event %s: exists is %r, %d subscriptions match (event used before)" % (showev(ev), bool(x), len(ex)))
    t.guard("betree_free_event", a.call, "betree_free_event", e)
    t.guard("betree_free", a.free)


def conversions(t, ty, vals, subs):
    """integers for floats and enums, empty lists of any maker"""
    nm = "frequency_caps" if ty == "freq" else "x"
    doms = [dom("b", "bool"), dom(nm, ty), dom("now", "int")]
    same(t, doms, subs, [dict({nm: v, "now": 100}, **({"b": True} if k % 2 else {})) for k, v in enumerate(vals)] + [{"b": True}], (3, 0))


def emptykinds(t, ty):
    """an empty list built by the maker of another type"""
    nm = "frequency_caps" if ty == "freq" else "x"
    doms = [dom(nm, ty), dom("now", "int")]
    subs = [(1, ("null", "is null", nm)), (2, ("null", "is not null", nm)), (3, ("lit", True))]
    if ty in ("ilist", "slist"):
        subs += [(4, ("null", "is empty", nm)), (5, ("list", "none of", nm, [1] if ty == "ilist" else ["a"]))]
    w = World(doms, subs)
    if not setup(t, w):
        return
    a = t.a
    for mk in ("betree_make_integer_list", "betree_make_string_list", "betree_make_segments", "betree_make_frequency_caps"):
        t.begin()
        try:
            e = a.call("betree_make_event", a.t)
            l = a.call(mk, 0)
            v = a.call(mk.replace("_make_segments", "_make_segments_variable").replace("_caps", "_caps_variable").replace("_list", "_list_variable"), a.s(nm), l)
            a.call("betree_set_variable", e, 0, v)
            d = a.search_with(e)
            a.call("betree_free_event", e)
        except Fault as f:
            t.fault("an empty value made by %s for an attribute of type %s" % (mk, ty), f)
            return
        own = {"ilist": "integer_list", "slist": "string_list", "seg": "segments", "freq": "frequency_caps"}[ty] in mk
        if own or d is not None:
            ex = expected(w, {nm: []})
            t.check(d is not None and sorted(d["ids"]) == ex, lambda: "an empty value made by %s for an attribute of type %s gives %r instead of %r" % (mk, ty, d and d["ids"], ex))


def definitions(t, kinds):
    """the definition at every index gives the name and type declared at that position"""
    en = t.a.en
    names = dict(bool="BETREE_BOOLEAN", int="BETREE_INTEGER", float="BETREE_FLOAT", str="BETREE_STRING", ilist="BETREE_INTEGER_LIST", slist="BETREE_STRING_LIST", seg="BETREE_SEGMENTS", freq="BETREE_FREQUENCY_CAPS", ienum="BETREE_INTEGER_ENUM")
    doms = [dom("n%d" % i if i % 3 else "Name_%d" % i, k, i % 2 == 0) for i, k in enumerate(kinds)]
    declare(t, doms)
    a = t.a
    for again in range(2):
        for i, d in enumerate(doms):
            t.begin()
            r = t.guard("betree_get_variable_definition %d" % i, defn, t, i)
            if r is NOFAULT:
                return
            t.check(r == (d[0].lower() if False else r[0], en[names[d[1]]]) and r[0].lower() == d[0].lower(), lambda: "the definition at index %d is %r, declared %s:%s" % (i, r, d[0], d[1]))
        ev = t.guard("betree_make_event", a.call, "betree_make_event", a.t)
        if ev is NOFAULT:
            return
        n = a.rd(ev, "betree_event", "variable_count")
        t.check(n == len(doms), "an event has room for %r attributes, %d are declared" % (n, len(doms)))
        vs = a.rd(ev, "betree_event", "variables")
        for i in range(len(doms)):
            t.check(t.e.load(P(vs.o, vs.off + 8 * i), 8, "p") == 0, "a new event defines the attribute at index %d" % i)
        # values at the index of their definition, every subset
        t.guard("insert", a.insert, 1, ("bool", doms[0][0]))


def defn(t, i):
    a = t.a
    o = P(t.e.new(16, "heapx", "definition"), 0)
    r = a.call("betree_get_variable_definition", a.t, i)
    if isinstance(r, (tuple, list)):
        return t.e.cstr(r[0]), r[1] & 0xffffffff
    raise Limit("definition returned as %r" % (r,))


def caps(t):
    """frequency caps: times defined or not, both forms of text, order of the elements"""
    doms = [dom("b", "bool"), dom("frequency_caps", "freq"), dom("now", "int")]
    C = dict(flight_id=4, campaign_id=2, advertiser_id=1)
    subs = [(i + 1, e, C) for i, e in enumerate([("freq", ty, ns, v, ln) for ty in ("flight", "campaign:ip", "advertiser") for ns in ("x", "y") for v in (4, 6) for ln in (0, 20, 5)])]
    w = World(doms, subs, 4096, 0)
    if not setup(t, w):
        return
    a = t.a
    rng = random.Random(4)
    for k in range(40):
        l = []
        for ty, i in (("flight", 4), ("campaign:ip", 2), ("advertiser", 1), ("flight", 40), ("campaign", 2)):
            for ns in ("x", "y"):
                if rng.random() < .6:
                    l.append((ty, i, ns, rng.choice((3, 4, 5, 6, 7)), rng.choice((85 * US, 99 * US, 70 * US, None, 80 * US, 80 * US - 1, 0, 0, 1, US))))
        rng.shuffle(l)
        ev = {"frequency_caps": Caps(l), "now": (100, 10, 20, 21, 0)[k % 5]}
        ex = expected(w, ev)
        t.begin()
        try:
            e = a.event(doms, ev)
            d = a.search_with(e)
            x = a.exists_with(e)
        except Fault as f:
            t.fault("event %s" % showev(ev), f)
            return
        t.n += len(subs) - 1
        t.check(d is not None and sorted(d["ids"]) == ex and bool(x) == bool(ex), lambda: diff(w, ev, ex, d and sorted(d["ids"])) + " (built by calls)")
        if all(c[4] is not None for c in l):
            for flat in (False, True):
                tk = evtoks(ev)
                if flat:
                    tk = flatten(ev)
                r = a.report()
                try:
                    ok = a.call("betree_search", a.t, a.text(tk), r)
                    d = a.rep(r)
                except Fault as f:
                    t.fault("event %s" % showev(ev), f)
                    return
                t.check(bool(ok) and sorted(d["ids"]) == ex, lambda: diff(w, ev, ex, sorted(d["ids"])) + (" (flat form of text)" if flat else " (text)"))


def flatten(ev):
    r = [Tok("EVENT_LCURLY")]
    for i, (n, v) in enumerate(ev.items()):
        if i:
            r.append(Tok("EVENT_COMMA"))
        r += [Tok("EVENT_STRING", n), Tok("EVENT_COLON")]
        if isinstance(v, Caps):
            r.append(Tok("EVENT_LSQUARE"))
            for k, (ty, d, ns, val, ts) in enumerate(v):
                C = [Tok("EVENT_COMMA")]
                r += (C if k else []) + [Tok("EVENT_LSQUARE"), Tok("EVENT_STRING", ty)] + C + evnum(d) + C + [Tok("EVENT_STRING", ns)] + C + evnum(val) + C + evnum(ts) + [Tok("EVENT_RSQUARE")]
            r.append(Tok("EVENT_RSQUARE"))
        else:
            r += evnum(v)
    return r + [Tok("EVENT_RCURLY")]


def build(ck):
    ck.partition = ("Every type of value, built by calls at the index of its definition and in another order than the text, must give the same matches and the same report as the text; integers for floats and enums, empty lists of "
                    "every maker, frequency caps with and without a time and in both textual forms; definitions by index for every type and many attributes.")
    Pn, E = near(), E5()
    rng = random.Random(12)
    for k in range(12 if ck.quick else 60):
        l = list(Pn)
        rng.shuffle(l)
        f = lambda p: (p, CON if has_freq(p) else None)
        subs = [f(p) for p in l[:60]] + [f((rng.choice(("and", "or")), ("not", a) if i % 3 else a, b)) for i, (a, b) in enumerate(zip(l[60:90], l[110:140]))]
        ck.task("text and calls", same, DOMS, subs, E[k % 3::3], [(3, 0), (4096, 0), (1, 0)][k % 3])
    # one predicate alone decides exists
    li = [("list", o, "l", l) for o in ("one of", "all of", "none of") for l in ([5], [1, 9], [9, 5, 1])] + [("in", o, v, V("l")) for o in ("in", "not in") for v in (1, 5, 9)]
    ls = [("list", o, "sl", l) for o in ("one of", "all of", "none of") for l in (["e"], ["a", "i"], ["i", "e", "a"])] + [("in", o, v, V("sl")) for o in ("in", "not in") for v in ("a", "e", "i")]
    li2 = [[9, 1], [9, 5, 1], [9, 9, 5], [7, 9, 1, 5, 3], [5, 3, 9, 1, 1, 1], [3, 2, 1], [5], []]
    for e in li:
        ck.task("one predicate, lists in any order", same, [dom("l", "ilist")], [(e, None)], [{"l": l} for l in li2], (3, 0))
    for e in ls:
        # another one fixes the order of the strings
        ck.task("one predicate, lists in any order", same, [dom("sl", "slist")], [(("and", ("list", "all of", "sl", list("acegi")), ("lit", False)), None), (e, None)], [{"sl": [chr(96 + v) for v in l]} for l in li2], (3, 0))
    for k, p in enumerate(Pn[::2 if ck.quick else 1]):
        ck.task("one predicate", same, DOMS, [((p if k % 3 else ("not", p)), CON if has_freq(p) else None)], E[k % 7::7], [(3, 0), (1, 0)][k % 2])
    for k in range(6 if ck.quick else 30):
        l = list(Pn)
        rng.shuffle(l)
        q = list(E)
        rng.shuffle(q)
        # every other event drops attributes
        q = [ev if i % 2 else {n: v for n, v in ev.items() if rng.random() < .6} for i, ev in enumerate(q)]
        ck.task("events used again", reuse, DOMS, [(p, CON if has_freq(p) else None) for p in l[:70]], q[:30], [(3, 0), (4096, 0), (1, 0)][k % 3], k)
    N = lambda *e: [(x, None) for x in e]
    ck.task("floats", conversions, "float", [3, F(3), A(1), F(2.5), -1, F(-0.5), 0, 16777217, F(16777217.0), 16777216, (1 << 40) + 1, F(0.1), (1 << 53) - 1, -16777217],
            N(("eq", "=", "x", F(16777217.0)), ("cmp", "<", "x", 16777217), ("eq", "=", "x", (1 << 40) + 1), ("eq", "=", "x", F(0.1)), ("eq", "=", "x", (1 << 53) - 1), ("cmp", ">", "x", -16777217), ("cmp", "<", "x", 3), ("cmp", ">=", "x", F(2.5)), ("eq", "=", "x", 3), ("eq", "<>", "x", F(A(1))), ("null", "is null", "x")))
    ck.task("enums", conversions, "ienum", [3, A(1), 5, -1], N(("eq", "=", "x", 3), ("eq", "<>", "x", A(1)), ("eq", "=", "x", -1)))
    ck.task("integer lists", conversions, "ilist", [[], [1], [2, 1, 1], [A(1), 0]], N(("list", "one of", "x", [1]), ("list", "all of", "x", [1, 2]), ("list", "none of", "x", [A(1)]), ("null", "is empty", "x"), ("in", "in", 2, V("x"))))
    ck.task("string lists", conversions, "slist", [[], ["a"], ["b", "a", "b"], ["zz", "b"]], N(("list", "one of", "x", ["a"]), ("list", "all of", "x", ["b", "a"]), ("list", "none of", "x", ["b"]), ("null", "is empty", "x"), ("in", "in", "b", V("x"))))
    ck.task("segments", conversions, "seg", [Seg([]), Seg([(1, 85 * US)]), Seg([(2, 1), (1, 70 * US)]), Seg([(1, 80 * US), (2, 99 * US)])], N(("seg", "segment_within", "x", 1, 20), ("seg", "segment_before", "x", 1, 20), ("seg", "segment_within", "x", 2, 5)))
    # every field of every maker at the widths of the machine
    W = [0, 1, 127, 128, 255, 256, 32767, 32768, 65535, 65536, (1 << 24) + 1, (1 << 31) - 1]
    V32 = W + [1 << 31, (1 << 32) - 2, (1 << 32) - 1]
    V64 = [v for w in V32 + [1 << 32, (1 << 32) + 5, (1 << 53) + 1, 1 << 62, I64MAX - 1] for v in (w, -w)] + [A(1), A(-2, 3)]
    T64 = [v * US + d for v in (0, 1, 4294, 4295, 80, 100, (1 << 31) - 1, 1 << 31, 1 << 32, (1 << 32) + 1) for d in (-1, 0, 1)]
    C = lambda i: dict(flight_id=i, campaign_id=2, advertiser_id=1, campaign_group_id=i, product_id=i)
    for q in chunks(W, 4):
        subs = [(("freq", ty, "ns", v, ln), C(i)) for i in q for ty in ("flight", "product:ip", "campaign_group") for v, ln in ((5, 0), (300, 20))]
        evs = [{"frequency_caps": Caps([("flight", i, "ns", v, 95 * US), ("product:ip", i + 1, "ns", v, 95 * US)]), "now": 100} for i in q for v in (4, 5, 299, 300)]
        evs += [{"frequency_caps": Caps([(ty, i, "ns", 9, 95 * US)]), "now": 100} for i in q for ty in ("flight", "product:ip", "campaign_group")]
        ck.task("caps with ids %r" % (q,), same, [dom("frequency_caps", "freq"), dom("now", "int")], subs, evs, (3, 0))
    for q in chunks(V32, 3):
        subs = [(("freq", "flight", "ns", v, ln), C(4)) for w in q for v in (w - 1, w, w + 1) if 0 <= v for ln in (0, 20)]
        ck.task("caps with values %r" % (q,), same, [dom("frequency_caps", "freq"), dom("now", "int")], subs, [{"frequency_caps": Caps([("flight", 4, "ns", v, 95 * US)]), "now": 100} for v in q], (3, 0))
    for q in chunks(T64, 6):
        subs = [(("freq", "flight", "ns", 5, ln), C(4)) for ln in (1, 20, 4294, (1 << 31) - 1)] + [(("seg", o, "sg", 7, ln), None) for o in ("segment_within", "segment_before") for ln in (0, 20, 4295, 1 << 32)]
        evs = [{"frequency_caps": Caps([("flight", 4, "ns", 9, v)]), "sg": Seg([(7, v)]), "now": v // US + d} for v in q for d in (0, 1, 20, 21, 4295)]
        ck.task("times %r" % (q,), same, [dom("frequency_caps", "freq"), dom("sg", "seg"), dom("now", "int")], subs, evs, (3, 0))
    for q in chunks(V64, 4):
        subs = [(e, None) for v in q for e in (("eq", "=", "x", v), ("list", "one of", "l", [v]), ("in", "in", v, V("l")), ("seg", "segment_within", "sg", v, 20), ("eq", "=", "e", v), ("in", "not in", V("x"), [v, 3]))]
        ck.task("integers %r" % (q,), same, [dom("x", "int"), dom("e", "ienum"), dom("l", "ilist"), dom("sg", "seg"), dom("now", "int")], subs, [{"x": v, "e": v, "l": [v, 9], "sg": Seg([(v, 95 * US)]), "now": 100} for v in q] + [{"l": q}], (3, 0))
    for ty in ("ilist", "slist", "seg", "freq"):
        ck.task("empty values", emptykinds, ty)
    ks = ["bool", "int", "float", "str", "ilist", "slist", "seg", "freq", "ienum"]
    ck.task("definitions", definitions, ks)
    ck.task("definitions", definitions, ["bool"] + ks[::-1] * 3)
    ck.task("definitions", definitions, ["bool"] + (ks * 16)[:130])
    ck.task("frequency caps", caps)
