"""C14: memory: nothing leaks, nothing is released twice or used after release, the caller's memory is not kept."""
import random
from .lib import *
from .c05 import DOMS, CON, near, has_freq, evs as E5
from sa.api import IDS
from .c11 import preds, special


class Owner:
    """drives the interface like a careful caller: everything it owns is released as soon as it may be"""

    def __init__(self, t):
        self.t, self.a, self.e = t, t.a, t.e
        t.e.sites = True
        self.m = len(t.e.objs)
        self.start = t.e.objs[-1].id + 1 if t.e.objs else 0

    def done(self):
        """the strings and arrays of the last call are gone"""
        for o in self.e.objs[self.m:]:
            if o.kind == "input":
                o.flags |= FREED
        self.m = len(self.e.objs)

    def call(self, f, *a):
        r = self.a.call(f, *a)
        return r

    def insert(self, id, e, con=None):
        a = self.a
        if con is None:
            r = a.insert(id, e)
        else:
            n, arr = a.consts(con)
            r = a.call("betree_insert_with_constants", a.t, IDS.get(id, id), n, arr, a.text(toks(e)))
            if n:
                a.call("betree_free_constants", n, arr)
        self.done()
        return r

    def make_sub(self, id, e, con=None):
        a = self.a
        n, arr = a.consts(con or {})
        r = a.call("betree_make_sub", a.t, IDS.get(id, id), n, arr, a.text(toks(e)))
        for k in range(n):
            a.call("betree_free_constant", self.e.load(P(arr.o, 8 * k), 8, "p"))
        self.done()
        return r

    def change(self, e):
        r = self.a.change_boundaries(e)
        self.done()
        return r

    def search(self, ev):
        d = self.a.search(ev)
        self.done()
        x = self.a.exists(ev)
        self.done()
        return d, x

    def search_with(self, doms, ev):
        e = self.a.event(doms, ev)
        self.done()
        d = self.a.search_with(e)
        x = self.a.exists_with(e)
        d2 = self.a.search_with(e)
        self.a.call("betree_free_event", e)
        self.done()
        return d, x, d2

    def leaks(self):
        return self.a.leaks(self.start)


def finish(t, o, what):
    l = o.leaks()
    t.check(not l, lambda: "%s: %d objects are never released, e.g. one of %s bytes allocated in %s" % (what, len(l), l[0].size, l[0].name))


def life(t, doms, subs, evs, cap, extra=()):
    """make, insert, search, free"""
    o = Owner(t)
    w = World(doms, subs, *cap)
    what = "make, insert %d, search, free [%s]" % (len(subs), w.show()[:500])
    try:
        declare(t, doms, *cap)
        o.done()
        for i, e, c in w.subs:
            if not o.insert(i, e, c):
                t.check(False, "insert of the valid expression '%s' is refused" % show(e))
                return
        for k, ev in enumerate(evs):
            t.begin()
            d, x = o.search(ev)
            ex = expected(w, ev)
            t.check(d is not None and sorted(d["ids"]) == ex and bool(x) == bool(ex), lambda: diff(w, ev, ex, d and sorted(d["ids"])))
            if k % 2:
                d, x, d2 = o.search_with(doms, ev)
                t.check(d is not None and d2 is not None and sorted(d["ids"]) == ex and sorted(d2["ids"]) == ex and bool(x) == bool(ex), lambda: diff(w, ev, ex, d and sorted(d["ids"])))
        t.a.free()
    except Fault as x:
        t.fault(what, x)
        return
    except Limit as x:
        t.limit(what, x)
        return
    finish(t, o, what)


def rejected(t, doms, exprs, how, con=None):
    """refused expressions release everything they made"""
    declare(t, doms)
    o = Owner(t)
    base = t.e.snapshot()
    for e in exprs:
        t.begin()
        o = Owner(t)
        what = "%s of '%s' with %s" % (how, show(e), [(d[0], d[1]) for d in doms])
        try:
            live = {id(x) for x in o.leaks()}
            r = o.change(e) if how == "change" else o.make_sub(9, e, con) if how == "make_sub" else o.insert(9, e, con)
            if r and how == "make_sub":
                t.a.insert_sub(r)
            t.a.free()
        except Fault as x:
            t.fault(what, x)
            t.e.restore(base)
            continue
        except Limit as x:
            t.limit(what, x)
            t.e.restore(base)
            continue
        finish(t, o, what + (" (accepted)" if r else " (refused)"))
        t.e.restore(base)


def badevents(t, doms, evs):
    """refused events release everything too"""
    declare(t, doms)
    o = Owner(t)
    try:
        for ev in evs:
            t.begin()
            d, x = o.search(ev)
            t.check(d is None and not x, lambda: "event %s is accepted" % showev(ev))
            e = t.a.event(doms, dict(ev))
            r = t.a.report()
            t.a.call("betree_search_with_event", t.a.t, e, r)
            t.a.call("free_report", r)
            t.a.call("betree_free_event", e)
            o.done()
        t.a.free()
    except Fault as x:
        t.fault("refused events", x)
        return
    except Limit as x:
        t.limit("refused events", x)
        return
    finish(t, o, "refused events")


def builders(t):
    """the makers and releasers of the values of events"""
    a = t.a
    declare(t, [dom("b", "bool")])
    C, S = a.call, a.s
    for n in (0, 1, 2, 5):
        try:
            o = Owner(t)
            l = C("betree_make_integer_list", n)
            for i in range(n):
                C("betree_add_integer", l, i, i)
            C("betree_free_integer_list", l)
            l = C("betree_make_string_list", n)
            for i in range(n):
                C("betree_add_string", l, i, S("s%d" % i))
            o.done()
            C("betree_free_string_list", l)
            l = C("betree_make_segments", n)
            for i in range(n):
                C("betree_add_segment", l, i, C("betree_make_segment", i, 2))
            C("betree_free_segments", l)
            l = C("betree_make_frequency_caps", n)
            for i in range(n):
                C("betree_add_frequency_cap", l, i, C("betree_make_frequency_cap", S("flight"), i, S("ns"), 1, 2, 3))
            o.done()
            C("betree_free_frequency_caps", l)
            C("betree_free_segment", C("betree_make_segment", 1, 2))
            C("betree_free_frequency_cap", C("betree_make_frequency_cap", S("campaign:ip"), 1, S("ns"), 0, 2, 3))
            o.done()
            r = C("betree_make_frequency_cap", S("nope"), 1, S("ns"), 0, 2, 3)
            o.done()
            t.check(r == 0, "an unknown type of frequency cap is accepted")
            for v in (True, 3, F(2.5), "str", [1] * n, ["a"] * n, Seg([(1, 2)] * n), Caps([("flight", 1, "ns", 2, 3)] * n)):
                x = a.variable("b", v)
                o.done()
                C("betree_free_variable", x)
            C("betree_free_constant", C("betree_make_integer_constant", S("flight_id"), 3))
            o.done()
            for miss in (None, 0, n // 2, n - 1):
                arr = P(t.e.new(8 * max(n, 1), "input", "constants"), 0)
                for i in range(n):
                    t.e.store(P(arr.o, 8 * i), 8, 0 if i == miss else C("betree_make_integer_constant", S("c%d" % i), i))
                C("betree_free_constants", n, arr)
            o.done()
            C("free_report", C("make_report"))
            C("betree_free_event", C("betree_make_event", a.t))
        except Fault as x:
            t.fault("makers and releasers, %d elements" % n, x)
            return
        except Limit as x:
            t.limit("makers and releasers", x)
            return
        finish(t, o, "makers and releasers of values with %d elements" % n)


def shells(t):
    """trees in every state of use can be released; a tree may live in the caller's memory"""
    a = t.a
    for cap in (None, (1, 0), (4096, 0)):
        for n in range(4):
            try:
                o = Owner(t)
                a.make(*(cap or (None, None)))
                for k in range(n):
                    a.domain("v%d" % k, ("bool", "str", "ienum")[k], True)
                o.done()
                if n:
                    o.insert(1, ("bool", "v0"))
                if n > 2:
                    o.insert(2, ("and", ("eq", "=", "v1", "x"), ("eq", "=", "v2", 4)))
                    o.search({"v1": "q"})
                a.free()
            except Fault as x:
                t.fault("release of a tree with %d attributes" % n, x)
                return
            finish(t, o, "release of a tree with %d attributes" % n)
    try:
        o = Owner(t)
        b = P(t.e.new(16, "heapx", "caller's tree"), 0)
        a.call("betree_init", b)
        a.t = b
        a.domain("b", "bool")
        a.domain("s", "str", True)
        o.done()
        o.insert(1, ("bool", "b"))
        o.insert(2, ("eq", "=", "s", "a"))
        d, x = o.search({"b": True, "s": "a"})
        t.check(d is not None and sorted(d["ids"]) == [1, 2] and bool(x), "a tree in the caller's memory answers wrongly")
        a.call("betree_deinit", b)
    except Fault as x:
        t.fault("betree_init / betree_deinit", x)
        return
    finish(t, o, "betree_init / betree_deinit")


def build(ck):
    ck.partition = ("Every abstract object carries its life cycle: uses after release, double and wrong releases, accesses outside of it and reads of uninitialised bytes are reported on every analysed path. The caller's strings, arrays, "
                    "constants, events and reports are released as soon as the interface allows; at the end no object allocated by the library may be left. Covers every predicate kind, formulas, node capacities (splits and moves), "
                    "refused expressions of every kind at each entry point, refused events, every maker and releaser of values. Text that is not in the grammar is out of scope (the generated parser has no destructors).")
    P, E = near(), E5()
    rng = random.Random(14)
    for k in range(14 if ck.quick else 60):
        l = list(P)
        rng.shuffle(l)
        f = lambda p: (p, CON if has_freq(p) else None)
        subs = [f(p) for p in l[:50]] + [f((rng.choice(("and", "or")), ("not", a) if i % 3 else a, b)) for i, (a, b) in enumerate(zip(l[60:90], l[110:140]))]
        ck.task("life of a tree %d" % k, life, DOMS, [(i + 1,) + s for i, s in enumerate(subs)], E[k % 4::5], [(3, 0), (1, 0), (4096, 0), (2, 4)][k % 4])
    L = A(1)
    for cap in ((1, 0), (2, 0), (3, 0), (1, 3)):
        for typ, d, ex, vs in (("int", dict(lo=L, hi=L + 15), [("eq", "=", "x", L + k) for k in range(16)] + [("cmp", "<", "x", L + k) for k in range(0, 16, 3)], [L, L + 3, L + 15, L + 40]),
                               ("float", dict(lo=0, hi=16), [("eq", "=", "x", F(k)) for k in range(17)] + [("cmp", "<", "x", F(k)) for k in range(0, 16, 3)], [F(0), F(7.5), F(16)]),
                               ("str", dict(hi=16), [("eq", "=", "x", "s%d" % k) for k in range(16)] + [("in", "in", V("x"), ["s%d" % k, "s%d" % ((k + 5) % 16)]) for k in range(8)], ["s0", "s9", "zz"]),
                               ("ilist", dict(lo=L, hi=L + 9), [("list", "one of", "x", [L + k]) for k in range(10)], [[L], [L + 2, L + 9], []]),
                               ("slist", dict(hi=9), [("list", "all of", "x", ["s%d" % k]) for k in range(9)], [["s0"], ["s2", "s8"], []]),
                               ("bool", {}, [("bool", "x"), ("not", ("bool", "x"))] * 5, [True, False])):
            doms = [dom("x", typ, True, d.get("lo"), d.get("hi")), dom("y", "int", True, 0, 5)]
            ex2 = [("and", e, ("eq", "=", "y", k % 6)) if k % 2 else e for k, e in enumerate(ex)]
            ck.task("splits of %s" % typ, life, doms, [(i + 1, e) for i, e in enumerate(ex2 + ex)], [{"x": v, "y": k} for k, v in enumerate(vs)] + [{}], cap)
    all_ = preds("x") + special()
    for how in ("insert", "make_sub", "change"):
        for ty in ("bool", "int", "float", "str", "ilist", "slist", "seg", "freq", "ienum", None):
            base = [dom("kb", "bool")] + ([dom("x", ty)] if ty else [])
            g = ("bool", "kb")
            es = [e for k, p in enumerate(all_) for e in ([p] if k % 2 else [("and", g, ("not", p))])]
            for c in chunks(es, 24):
                ck.task("%s with x:%s" % (how, ty), rejected, base, c, how)
        full = [dom(n, y) for n, y in (("frequency_caps", "freq"), ("now", "int"), ("x", "int"), ("kb", "bool"))]
        fr = ("freq", "flight", "ns", 1, 2)
        ck.task("constants missing", rejected, full, [fr, ("not", fr), ("and", fr, ("bool", "kb")), ("or", ("bool", "kb"), ("freq", "nope", "ns", 1, 2))], how, {"advertiser_id": 1})
        ck.task("constants given", rejected, full, [fr, ("not", fr), ("and", fr, ("bool", "kb")), ("or", ("bool", "kb"), ("freq", "nope", "ns", 1, 2)), ("bool", "kb")], how, {"advertiser_id": 1, "flight_id": 2})
        ck.task("capacity", rejected, [dom("s", "str", True, None, 1), dom("sl", "slist", True, None, 1), dom("e", "ienum", True, None, 1)],
                [("in", "in", V("s"), ["a", "b"]), ("and", ("eq", "=", "s", "a"), ("eq", "=", "s", "b")), ("list", "one of", "sl", ["a", "b", "c"]), ("or", ("eq", "=", "e", 1), ("eq", "=", "e", 2)), ("in", "in", "a", V("sl"))], how)
    ck.task("refused events", badevents, [dom("b", "bool", False), dom("s", "str"), dom("l", "ilist"), dom("sg", "seg"), dom("frequency_caps", "freq"), dom("sl", "slist")],
            [{"s": "x", "l": [1, 2]}, {"b": 3, "sl": ["a", "b"]}, {"b": True, "s": ["a"]}, {"b": True, "l": "q"}, {"sg": Seg([(1, 2)]), "frequency_caps": Caps([("flight", 1, "ns", 2, 3)])}, {"b": True, "sg": 3}, {"b": True, "frequency_caps": [1]}])
    ck.task("makers and releasers", builders)
    ck.task("shells", shells)
