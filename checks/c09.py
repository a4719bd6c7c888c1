"""C09: a search leaves no trace: results depend on the subscriptions and the event only."""
import random
from .lib import *
from .c05 import DOMS, CON, near, has_freq

from sa.effects import Effects

ROOTS = ["betree_search", "betree_exists", "betree_search_with_event", "betree_exists_with_event"]


def effect_rule(ck, kinds=("types", "globals")):
    """no function reachable from a search writes an object of the tree or a shared global"""
    E = Effects()
    roots = [r for r in ROOTS if r in E.ext]
    if len(roots) < 4:
        raise Anchor("search entry points")
    tree, ev = set(), set()
    for tu in E.mods:
        tree |= E.type_reach(tu, "betree")
        ev |= E.type_reach(tu, "betree_event") | E.type_reach(tu, "report")
    shared = tree - ev
    if len(shared) < 10:
        raise Anchor("types of the tree")
    viol, n = [], 0
    fs = E.reach(roots)
    for r in roots:
        F = E.funs[E.ext[r]]
        for (o, ty), site in sorted(F.eff.items(), key=str):
            n += 1
            bad = None
            if ty in shared:
                bad = "a %s of the tree" % ty[8:]
            elif o[0] == "load" and o[1] in shared:
                bad = "memory owned by a %s of the tree" % o[1][8:]
            elif o == ("param", 0):
                bad = "the tree"
            elif o[0] == "global":
                g = E.globals.get((o[1], o[2]))
                if o[1] == "libc" or g is None or not g["tls"]:
                    bad = "the global %s" % o[2]
            if bad:
                viol.append("%s may write %s: %s" % (r, bad, E.at(site)))
    return n, sorted(set(viol)), "%d functions reachable from %s; tree-only types: %s" % (len(fs), ", ".join(roots), ", ".join(sorted(x[8:] for x in shared)))


def frozen(t, doms, subs, evs, cap, seed):
    """searches with the whole tree read-only, in several orders, give the same answers as the oracle each time"""
    w = World(doms, [(i + 1,) + s for i, s in enumerate(subs)], *cap)
    if not setup(t, w):
        return
    rng = random.Random(seed)
    seq = [rng.choice(evs) for _ in range(len(evs))] + evs + evs[::-1]
    lock = t.a.freeze()
    first = {}
    for k, ev in enumerate(seq):
        t.begin()
        n0 = len(t.e.objs)
        try:
            d = t.a.search(ev)
            x = t.a.exists(ev)
            wd = t.a.event(doms, ev) if k % 3 == 0 else None
            if wd is not None:
                d2 = t.a.search_with(wd)
                t.a.call("betree_free_event", wd)
        except Fault as f:
            t.fault("search %s on a frozen tree [%s]" % (showev(ev), w.show()[:600]), f)
            break
        except Limit as f:
            t.limit("search %s" % showev(ev), f)
            break
        ex = expected(w, ev)
        got = None if d is None else sorted(d["ids"])
        t.check(got == ex, lambda: diff(w, ev, ex, got) + " (search number %d)" % (k + 1))
        t.check(bool(x) == bool(ex), lambda: "event %s: exists is %r, %d subscriptions match (search number %d)" % (showev(ev), bool(x), len(ex), k + 1))
        key = showev(ev)
        if d is not None:
            r = (d["ids"], d["evaluated"], d["memoized"], d["shorted"])
            t.check(first.setdefault(key, r) == r, lambda: "event %s: a repeated search reports %r, the first one %r" % (key, r, first[key]))
        del t.e.objs[n0:]
    t.a.thaw(lock)


def alternate(t, doms, a, b, evs, cap):
    """search, insert more, search: same as inserting everything first"""
    declare(t, doms, *cap)
    w = World(doms, [], *cap)
    n = 0
    for part in (a, b):
        for e in part:
            n += 1
            r = t.guard("insert %s" % show(e), t.a.insert, n, e)
            if r is NOFAULT:
                return
            if not r:
                t.check(False, "insert of the valid expression '%s' is refused after searches" % show(e))
                return
            w.subs.append((n, e, None))
        events(t, w, evs)


def build(ck):
    ck.partition = ("The type-directed effect analysis covers every path of every function reachable from the search entry points. The abstract searches run with every object of the tree marked read-only "
                    "(any write or release of one is reported), in repeated and reversed orders of events, with unknown strings and values, failing validations, and interleaved with insertions.")
    ck.rule("search does not write the tree", effect_rule)
    P = near()
    rng = random.Random(5)
    for k in range(6 if ck.quick else 30):
        l = list(P)
        rng.shuffle(l)
        subs = [(p, CON if has_freq(p) else None) for p in l[:60]] + [((op, ("not", a) if i % 2 else a, b), CON if has_freq(a) or has_freq(b) else None) for i, (op, a, b) in enumerate(zip(("and", "or") * 20, l[60:100], l[100:140]))]
        from .c05 import evs as E5
        ev = E5()
        ck.task("frozen tree %d" % k, frozen, DOMS, subs, ev[k % 2::2], [(4096, 0), (3, 0), (1, 0)][k % 3], k)
    L = A(1)
    doms = [dom("x", "int", True, L, L + 9), dom("s", "str", True), dom("t", "str", True, None, 4), dom("sl", "slist"), dom("e", "ienum", True), dom("e2", "ienum", True, None, 3), dom("b", "bool", False), dom("frequency_caps", "freq"), dom("now", "int")]
    words = ["a", "b", "c"]
    ex = [("eq", op, x, wd) for op in ("=", "<>") for x in "st" for wd in words] + [("in", op, wd, V("sl")) for op in ("in", "not in") for wd in words] + [("cmp", "<", "x", L + k) for k in range(9)] + \
         [("eq", op, x, v) for x in ("e", "e2") for op in ("=", "<>") for v in (1, A(3))] + [("bool", "b"), ("not", ("bool", "b"))]
    evs = [{"b": True, "s": "unknown%d" % i, "t": "other%d" % (i % 2), "sl": ["u%d" % i, "a"], "e": 100 + i, "e2": 50 + i, "x": L + i} for i in range(5)] + [{"b": False, "s": "a", "t": "b", "sl": ["c", "zz"], "e": 1, "e2": A(3)}, {"b": True}] + \
          [{"b": True, "s": "new1", "frequency_caps": Caps([("flight", 1, "nsu", 2, 3)]), "now": 5}]
    for cap in ((1, 0), (3, 0), (4096, 0)):
        ck.task("unknown values leave no trace, cap %d" % cap[0], frozen, doms, [(e, None) for e in ex], evs, cap, 3)
        ex2 = [("eq", op, "s", "unknown%d" % i) for i in range(5) for op in ("=", "<>")] + [("eq", "=", "t", "other0")] + [("in", "in", "u%d" % i, V("sl")) for i in range(5)] + [("eq", op, "e", 100 + i) for i in range(5) for op in ("=", "<>")] + [("eq", "=", "e2", 50)]
        ck.task("inserting values already seen in events, cap %d" % cap[0], alternate, doms, ex, ex2, evs + evs[:3], cap)
        ck.task("inserting in two parts, cap %d" % cap[0], alternate, doms, ex2, ex, evs, cap)
