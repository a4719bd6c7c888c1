"""C07: every accepted subscription stays reachable, exactly once, whatever the history of insertions."""
import random
from .lib import *
from .c06 import mixed


def history(t, doms, exprs, evs, cap, ids, every):
    """insert one by one, searching in between"""
    w = World(doms, [(i, e) for i, e in zip(ids, exprs)], *cap)
    declare(t, doms, *cap)
    cur = World(doms, [], *cap)
    k = 0
    for n, (i, e, c) in enumerate(w.subs):
        t.begin()
        r = t.guard("insert %s: %s [%s]" % (i, show(e), cur.show()), t.a.insert, i, e, c)
        if r is NOFAULT:
            return
        t.check(bool(r), "insert of the valid expression '%s' is refused [%s]" % (show(e), cur.show()))
        if not r:
            return
        cur.subs.append((i, e, c))
        if (n + 1) % every == 0:
            ev = evs[k % len(evs)]
            k += 1
            t.begin()
            d = t.guard("search %s after %d insertions" % (showev(ev), n + 1), t.a.search, ev)
            if d is NOFAULT:
                return
            ex = expected(cur, ev)
            got = None if d is None else sorted(d["ids"])
            t.n += n
            t.check(got == ex, lambda: diff(cur, ev, ex, got) + " after insertion %d" % (n + 1))
            if t.fails:
                return
    for ev in evs:
        t.begin()
        d = t.guard("search %s" % showev(ev), t.a.search, ev)
        if d is NOFAULT:
            return
        ex = expected(cur, ev)
        got = None if d is None else sorted(d["ids"])
        t.n += len(cur.subs)
        t.check(got == ex, lambda: diff(cur, ev, ex, got))


def copies(t, doms, expr, n, ev, cap):
    """n subscriptions that no split can separate"""
    history(t, doms, [expr] * n, [ev], cap, [i * 3 + 1 for i in range(n)], max(1, n // 25))


def build(ck):
    ck.partition = ("Histories of insertions with a search after each one (or every few): ascending, descending and shuffled orders of range, equality and multi-attribute subscriptions, inseparable subscriptions beyond the "
                    "capacity of a node, equal ids, ids at the 64-bit extremes, capacities 1..5 and several minimum partition sizes. After every step the report must hold exactly the ids of the matching subscriptions, once each.")
    caps = [(1, 0), (2, 0), (3, 0), (3, 4), (5, 2), None] if True else []
    C4 = ("<", "<=", ">", ">=", "=", "<>")
    L = A(1)
    for ci, cap in enumerate(caps):
        cap = cap or (None, None)
        for undef in (True, False):
            doms = [dom("x", "int", undef, L, L + 15), dom("y", "int", undef, 0, 7), dom("b", "bool", undef), dom("z", "int", True)]
            preds = [(("eq" if op in "=<>" and op in ("=", "<>") else "cmp"), op, "x", L + k) for k in range(16) for op in C4]
            preds = preds + [("and", p, ("cmp", "<", "y", k % 8)) for k, p in enumerate(preds[::5])] + [("and", ("bool", "b"), p) for p in preds[::7]] + [("or", p, ("eq", "=", "z", A(2))) for p in preds[::11]]
            evs = [{"x": L + 3, "y": 2, "b": True}, {"x": L + 15, "y": 7, "b": False, "z": A(2)}, {"x": L, "y": 0, "b": True, "z": 1}, {"x": L + 8, "y": 9, "b": True}, {"x": L + 40, "y": -3, "b": False}, {"x": L - 1, "y": 4, "b": True}]
            if undef:
                evs += [{}, {"y": 3}, {"x": L + 7}]
            orders = [list(preds), list(reversed(preds))]
            for sd in range(1 if ck.quick else 6):
                q = list(preds)
                random.Random(31 * ci + sd).shuffle(q)
                orders.append(q)
            for oi, q in enumerate(orders):
                n = len(q)
                ids = [list(range(1, n + 1)), [7] * 3 + list(range(8, n + 5)), [(1 << 64) - 1 - i for i in range(n)]][oi % 3]
                ids = ids if oi % 3 != 2 else [i - (1 << 64) for i in ids]
                q2 = q if not ck.quick else q[ci % 2::2] if oi else q[:70]
                ck.task("history %d cap %r" % (oi, cap), history, doms, q2, evs, cap, ids, 4 if ck.quick else 1)
    ex = [("bool", "b"), ("cmp", "<", "x", L + 9), ("and", ("eq", "=", "x", L + 3), ("cmp", "<=", "y", 5)), ("lit", True), ("not", ("eq", "=", "z", 4)), ("list", "one of", "l", [1, 2]), ("eq", "=", "s", "a"),
          ("eq", "=", "e", 5), ("cmp", ">", "f", F(1)), ("in", "in", "a", V("m")), ("seg", "segment_within", "sg", 1, 20)]
    ev = {"x": L + 3, "y": 2, "b": True, "z": 1, "l": [1], "s": "a", "e": 5, "f": F(2), "m": ["a"], "sg": Seg([(1, 90000000)]), "now": 100}
    for undef in (True, False):
        doms = [dom("x", "int", undef, L, L + 15), dom("y", "int", undef, 0, 7), dom("b", "bool", undef), dom("z", "int", undef), dom("l", "ilist", undef, 0, 5), dom("s", "str", undef, None, 3), dom("e", "ienum", undef, None, 3),
                dom("f", "float", undef, 0, 4), dom("m", "slist", undef, None, 3), dom("sg", "seg", undef), dom("now", "int", undef)]
        for e in ex:
            for cap in ((1, 0), (3, 0), (2, 5)):
                ck.task("inseparable subscriptions '%s'" % show(e), copies, doms, e, 40 if cap[0] > 1 else 17, ev, cap)
    ck.task("many inseparable subscriptions", copies, doms, ("bool", "b"), 150 if ck.quick else 600, ev, (3, 0))
    ck.task("many inseparable subscriptions", copies, doms, ("lit", True), 300 if ck.quick else 1200, ev, (None, None))
    # ids, order of attributes in the tree and many attributes
    ck.task("many attributes", history, [dom("a%d" % i, "int", i % 3 > 0, 0, 4) for i in range(30)],
            [("cmp", op, "a%d" % i, k) for i in range(30) for op, k in (("<", 2), (">=", 2), ("<=", 4))], [{"a%d" % i: (i * d) % 5 for i in range(30)} for d in (1, 2, 3)] + [{"a%d" % i: 1 for i in range(0, 30, 3)}],
            (2, 0), list(range(90)), 9)
    # equal ids: subscriptions are told apart by identity, not by id
    doms = [dom("x", "int", True, 0, 15), dom("y", "int", True, 0, 15), dom("b", "bool", True), dom("s", "str", True, None, 9)]
    lv = [("cmp", "<", "x", 4), ("eq", "=", "y", 3), ("bool", "b"), ("cmp", ">=", "x", 9), ("eq", "=", "s", "u"), ("eq", "=", "x", 12), ("cmp", "<=", "y", 9), ("not", ("bool", "b")), ("and", ("eq", "=", "x", 2), ("cmp", ">", "y", 1)), ("lit", True), ("eq", "=", "s", "v"), ("cmp", ">", "y", 12)]
    evs = [{"x": 2}, {"y": 3}, {"b": True}, {"x": 12}, {"s": "u"}, {"y": 14}, {"x": 2, "y": 3, "b": False, "s": "v"}, {}, {"x": 12, "y": 13}]
    for k in range(24 if ck.quick else 200):
        R = random.Random(400 + k)
        q = [R.choice(lv) for _ in range(16)]
        ids = [[5] * 16, [R.randrange(3) for _ in q], [i // 2 for i in range(16)], [i % 4 for i in range(16)]][k % 4]
        ck.task("equal ids", history, doms, q, evs, [(1, 0), (2, 0), (3, 0), (3, 2)][(k // 4) % 4], ids, 3)
