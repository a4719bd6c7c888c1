"""C20: searches of one tree by several threads do not interfere."""
from .lib import *
from .c09 import effect_rule, ROOTS
from sa.effects import Effects


def globals_rule(ck):
    """a mutable global without thread-local storage is neither written nor read-and-written-elsewhere by a search"""
    import re
    E = Effects()
    roots = [r for r in ROOTS if r in E.ext] + [r for r in ("make_report", "free_report", "betree_make_event", "betree_set_variable", "betree_free_event") if r in E.ext]
    written = {}
    for F in E.funs.values():
        for (o, ty), site in F.eff.items():
            if o[0] == "global" and o[1] != "libc":
                written.setdefault((o[1], o[2]), E.at(site))
    n, viol = 0, []
    fs = E.reach(roots)
    for k in fs:
        F = E.funs[k]
        for b in F.f["order"]:
            for s, dbg in F.f["blocks"][b]:
                for g in set(re.findall(r"@([\w.$]+)", s)):
                    gi = E.globals.get((k[0], g))
                    if gi is None or gi["const"] or gi["tls"]:
                        continue
                    n += 1
                    w = written.get((k[0], g)) or next((v for (tu, gg), v in written.items() if gg == g and (gi["ext"] or not E.globals[(tu, gg)]["ext"]) and tu != k[0] and gi["ext"]), None)
                    if w:
                        f, l = F.mod.loc(dbg)
                        viol.append("%s (%s:%d), reachable from a search, uses the mutable global '%s' (written: %s)" % (F.src[0], f, l, g, w))
        for dst, callee, args, dbg in F.calls:
            n += 1
            from sa.effects import HIDDEN
            if callee.lstrip("@") in HIDDEN and (k[0], callee.lstrip("@")) not in E.funs:
                f, l = F.mod.loc(dbg)
                viol.append("%s (%s:%d), reachable from a search, calls %s, which keeps hidden state" % (F.src[0], f, l, callee))
    if len(fs) < 20:
        raise Anchor("functions reachable from a search")
    return n, sorted(set(viol)), "%d functions reachable, globals written anywhere: %s" % (len(fs), sorted(x[1] for x in written))


def two(t, doms, subs, e1, e2, cap, lo, hi, step):
    """thread 2 runs a whole search at the k-th scheduling point of thread 1, for every k"""
    w = World(doms, [(i + 1,) + s for i, s in enumerate(subs)], *cap)
    if not setup(t, w):
        return
    x1, x2 = expected(w, e1), expected(w, e2)
    lock = t.a.freeze()
    for k in range(lo, hi, step):
        n0 = len(t.e.objs)
        got2 = []

        def other():
            d = t.a.search(e2)
            got2.append((None if d is None else sorted(d["ids"]), bool(t.a.exists(e2))))
        t.begin()
        st = t.a.preempt(k, other)
        try:
            d = t.a.search(e1) if k % 3 else None
            x = t.a.exists(e1) if k % 3 == 0 else None
        except Fault as f:
            t.e.hook = None
            t.fault("a search of %s interrupted at allocation %d by a search of %s [%s]" % (showev(e1), k, showev(e2), w.show()[:500]), f)
            break
        except Limit as f:
            t.e.hook = None
            t.limit("interleaved searches", f)
            break
        t.e.hook = None
        if got2:
            t.check(got2[0] == (x2, bool(x2)), lambda: "a search of %s that interrupts one of %s (at allocation %d) reports %r instead of %r [%s]" % (showev(e2), showev(e1), k, got2[0], (x2, bool(x2)), w.show()[:500]))
        if d is not None or x is None:
            t.check(d is not None and sorted(d["ids"]) == x1, lambda: "a search of %s interrupted at allocation %d by one of %s reports %r instead of %r [%s]" % (showev(e1), k, showev(e2), d and sorted(d["ids"]), x1, w.show()[:500]))
        else:
            t.check(bool(x) == bool(x1), lambda: "an exists of %s interrupted at allocation %d by a search of %s says %r [%s]" % (showev(e1), k, showev(e2), bool(x), w.show()[:500]))
        if not got2:
            t.n += 1
            break
        del t.e.objs[n0:]
    t.a.thaw(lock)


def build(ck):
    ck.partition = ("Effects: for every function reachable from a search, every write is to memory the search created, to its event or to its report; no mutable global outside thread-local storage is involved. "
                    "Interleavings: a complete search or exists by a second thread (with its own thread-local storage) is placed at every allocation and release of a first search, over a tree whose objects are all read-only.")
    ck.rule("search does not write shared objects", effect_rule)
    ck.rule("search uses no shared mutable global", globals_rule)
    doms = [dom("x", "int", True, A(1), A(1, 15)), dom("s", "str"), dom("l", "ilist"), dom("sl", "slist"), dom("e", "ienum"), dom("b", "bool", False), dom("frequency_caps", "freq"), dom("now", "int"), dom("segments_with_timestamp", "seg"), dom("f", "float")]
    C = dict(flight_id=4)
    ex = [(("cmp", "<", "x", A(1, k)), None) for k in range(0, 16, 2)] + [(("eq", o, "s", w), None) for o in ("=", "<>") for w in "ab"] + [(("list", o, "l", [1, 2]), None) for o in ("one of", "none of", "all of")] + \
         [(("in", "in", w, V("sl")), None) for w in "ab"] + [(("eq", "=", "e", 5), None), (("bool", "b"), None), (("not", ("bool", "b")), None), (("freq", "flight", "ns", 5, 20), C), (("seg", "segment_within", None, 1, 20), None), (("cmp", ">", "f", F(1.5)), None),
          (("and", ("cmp", "<", "x", A(1, 8)), ("bool", "b")), None), (("or", ("eq", "=", "s", "a"), ("bool", "b")), None), (("str", "contains", "s", "a"), None)] * 2
    US = 1000000
    evs = [{"x": A(1, 3), "s": "a", "l": [2, 1, 1], "sl": ["b", "a", "q"], "e": 5, "b": True, "frequency_caps": Caps([("flight", 4, "ns", 9, 99 * US)]), "now": 100, "segments_with_timestamp": Seg([(1, 90 * US), (2, 5)]), "f": F(2.5)},
           {"x": A(1, 12), "s": "unknown", "l": [1, 5], "sl": ["b"], "e": 77, "b": False, "frequency_caps": Caps([("flight", 4, "ns", 1, 99 * US)]), "now": 100, "segments_with_timestamp": Seg([(1, 10 * US)]), "f": 1},
           {"b": True}, {"b": False, "s": "b", "x": A(1, 40)}]
    for cap in ((3, 0), (1, 0)) if ck.quick else ((3, 0), (1, 0), (4096, 0)):
        for i, a in enumerate(evs):
            for j, b in enumerate(evs):
                if i == j and i > 1:
                    continue
                for lo in range(0, 160, 40):
                    ck.task("interleaving of events %d and %d" % (i, j), two, doms, ex, a, b, cap, lo, lo + 40 if lo < 120 else 600, 1 if cap[0] == 3 or not ck.quick else 5)
    # events refused by validation, in the other thread
    for i, a in enumerate(evs):
        ck.task("interleaving with another large event", two, doms, ex, a, {"b": True, "x": A(1, 1), "s": "n" * 40, "l": list(range(20)), "sl": ["w%d" % i for i in range(15)]}, (3, 0), 0, 600, 3)
