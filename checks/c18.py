"""C18: copies and equality of expressions cover everything that matters."""
import random
from .lib import *
from .c05 import DOMS, CON, CON2, near, fine, has_freq, evs as E5

FLOATS = {d[0] for d in DOMS if d[1] == "float"}


def canon(p, c):
    """the identity of an expression: what the language lets one see of it; None: both answers are fine"""
    k = p[0]
    if k in ("rcmp", "req"):
        from sa.api import FLIP
        p = (k[1:], FLIP[p[1]], p[2], p[3])
        k = p[0]
    if k in ("cmp", "eq") and p[2] in FLOATS:
        v = p[3].v if isinstance(p[3], F) else p[3]
        return (k, p[1], p[2], repr(float(v) if isinstance(v, (int, float)) else v))
    if k == "in" and isinstance(p[2], V) and isinstance(p[3], list):
        return (k, p[1], p[2].n, tuple(map(repr, p[3])))
    if k == "in":
        return (k, p[1], repr(p[2]), p[3].n)
    if k == "list":
        return (k, p[1], p[2], tuple(map(repr, p[3])))
    if k == "freq":
        from sa.api import SPECIAL_IDS
        return p + ((c or {}).get(SPECIAL_IDS[p[1].split(":")[0]]),)
    if k == "seg":
        return (k, p[1], p[2] or "segments_with_timestamp") + tuple(map(repr, p[3:]))
    if k in ("not", "and", "or"):
        return (k,) + tuple(canon(x, c) for x in p[1:])
    return (k,) + tuple(map(repr, p[1:]))


def unordered(c):
    """operands of 'and' and 'or' may be swapped for speed"""
    if isinstance(c, tuple) and c[0] in ("and", "or"):
        return (c[0],) + tuple(sorted(map(repr, map(unordered, c[1:]))))
    return ("not", unordered(c[1])) if isinstance(c, tuple) and c[0] == "not" else c


def graph(e, p):
    """objects reachable from p"""
    seen, todo = {}, [p]
    while todo:
        x = todo.pop()
        if x.__class__ is not P or x.o.id in seen:
            continue
        seen[x.o.id] = x.o
        todo += [c[1] for c in x.o.data.values() if c[1].__class__ is P]
    return seen


def text_of(t, node):
    return t.e.cstr(t.a.call("ast_to_string", node))


def made(t, subs, cap):
    """subscriptions made but not linked: [(id, expr, constants, address)]"""
    declare(t, DOMS, *cap)
    out = []
    for i, (e, c) in enumerate(subs):
        r = t.guard("betree_make_sub '%s'" % show(e), t.a.make_sub, i + 1, e, c)
        if r is NOFAULT or not r:
            t.check(False, "betree_make_sub of the valid '%s' is refused" % show(e))
            return None
        out.append((i + 1, e, c, r))
    return out


def copies(t, subs, evs, cap, which):
    """replace the expressions by their copies (or keep the original and release the copy) and search"""
    m = made(t, subs, cap)
    if m is None:
        return
    a, e = t.a, t.e
    for i, x, c, s in m:
        t.begin()
        try:
            o = a.rd(s, "betree_sub", "expr")
            mark = e.objs[-1].id + 1
            k = a.call("clone_node", o)
            g1, g2 = graph(e, o), graph(e, k)
            sh = [ob for n, ob in g2.items() if n in g1 and ob.kind in ("heap", "heapx", "input")]
            t.check(not sh, lambda: "the copy of '%s' shares memory with the original (%s)" % (show(x), sh[0].site or sh[0].name))
            t.check(len([1 for n in g1.values() if n.kind == "heap" and not n.flags & FREED]) == len([1 for n in g2.values() if n.kind == "heap"]), "the copy of '%s' has not as many parts as the original" % show(x))
            for f in ("eq_expr", "fast_eq_expr"):
                t.check(bool(a.call(f, o, k)) and bool(a.call(f, k, o)), lambda: "the copy of '%s' is not equal to it (%s)" % (show(x), f))
            t.check(a.call("expr_cmp", o, k) == 0, lambda: "the copy of '%s' does not compare as equal" % show(x))
            for f in ("global_id", "memoize_id"):
                if f not in a.st["ast_node"]["fields"]:   # internal: only while it is called so
                    continue
                va, vb = a.rd(o, "ast_node", f), a.rd(k, "ast_node", f)
                t.check(va == vb, lambda: "the copy of '%s' has another %s" % (show(x), f))
            txt = text_of(t, o)
            t.check(txt == text_of(t, k), lambda: "the copy of '%s' prints as '%s'" % (show(x), text_of(t, k)))
            if which == "copy":
                a.wr(s, "betree_sub", "expr", k)
                a.call("free_ast_node", o)
            else:
                a.call("free_ast_node", k)
                left = [ob for ob in g2.values() if ob.kind == "heap" and not ob.flags & FREED]
                t.check(not left, lambda: "releasing the copy of '%s' leaves %r" % (show(x), left[0]))
        except Fault as f:
            t.fault("copy of '%s'" % show(x), f)
            return
        except Limit as f:
            t.limit("copy of '%s'" % show(x), f)
            return
    for i, x, c, s in m:
        r = t.guard("betree_insert_sub of the copy of '%s'" % show(x), a.insert_sub, s)
        if r is NOFAULT:
            return
    events(t, World(DOMS, [(i, x, c) for i, x, c, s in m], *cap), evs)
    t.guard("betree_free", a.free)


def fresh(t, exprs, stage):
    """copies of expressions as they come out of the parser (0), or once their names are resolved (1)"""
    declare(t, DOMS)
    a, e = t.a, t.e
    for x in exprs:
        t.begin()
        try:
            out = P(e.new(8, "heapx", "out"), 0)
            if a.call("parse", a.text(toks(x)), out) != 0:
                t.check(False, "the valid '%s' is not parsed" % show(x))
                return
            o = e.load(out, 8, "p")
            if stage:
                cfg = a.rd(a.t, "betree", "config")
                a.call("assign_variable_id", cfg, o)
                a.call("assign_str_id", cfg, o, 1)
                a.call("assign_ienum_id", cfg, o, 1)
            k = a.call("clone_node", o)
            g1, g2 = graph(e, o), graph(e, k)
            sh = [ob for n, ob in g2.items() if n in g1 and ob.kind in ("heap", "heapx", "input")]
            t.check(not sh, lambda: "the copy of '%s' shares memory with the original (%s)" % (show(x), sh[0].site or sh[0].name))
            for f in ("eq_expr", "fast_eq_expr"):
                t.check(bool(a.call(f, o, k)) and bool(a.call(f, k, o)), lambda: "the copy of '%s' is not equal to it (%s)" % (show(x), f))
            txt = text_of(t, o)
            a.call("free_ast_node", o)
            t.check(txt == text_of(t, k), lambda: "the copy of '%s' prints as '%s'" % (show(x), text_of(t, k)))
            a.call("free_ast_node", k)
            left = [ob for g in (g1, g2) for ob in g.values() if ob.kind == "heap" and not ob.flags & FREED]
            t.check(not left, lambda: "releasing '%s' and its copy leaves %r" % (show(x), left[0]))
        except Fault as f:
            t.fault("copy of '%s'" % show(x), f)
            return
        except Limit as f:
            t.limit("copy of '%s'" % show(x), f)
            return


def repeats():
    """lists with repeated members, in and out of order"""
    r = []
    for l in ([0, 0], [1, 0, 0], [0, 0, 0, 1], [2, 1, 2, 1, 2], [5] * 9, list(range(12)), list(range(12))[::-1]):
        r += [("in", "in", V("i"), l), ("list", "one of", "l", l), ("list", "all of", "l", l), ("list", "none of", "m", l)]
    for l in (["a", "a"], ["a", "b", "c", "d"], ["b", "a", "a", "a"], ["", "", "a"], ["x%d" % i for i in range(12)], ["q"] * 9):
        r += [("in", "not in", V("s"), l), ("list", "one of", "sl", l), ("list", "all of", "sl", l), ("list", "none of", "sm", l)]
    return r


def pairs(t, subs, cap):
    m = made(t, subs, cap)
    if m is None:
        return
    a = t.a
    ns = [(canon(x, c), show(x) + (" %r" % c if c else ""), a.rd(s, "betree_sub", "expr")) for i, x, c, s in m]
    C = {}
    us = [unordered(x[0]) for x in ns]
    for i, (c1, s1, p1) in enumerate(ns):
        t.begin()
        for j, (c2, s2, p2) in enumerate(ns):
            free = c1 != c2 and us[i] == us[j]
            try:
                for f in ("eq_expr", "fast_eq_expr"):
                    r = bool(a.call(f, p1, p2))
                    t.check(free or r == (c1 == c2), lambda: "%s says that '%s' and '%s' are %s" % (f, s1, s2, "equal" if r else "different"))
                r = a.call("expr_cmp", p1, p2)
                C[i, j] = (r > 0) - (r < 0)
                t.check(free or (r == 0) == (c1 == c2), lambda: "expr_cmp says that '%s' and '%s' are %s" % (s1, s2, "equal" if r == 0 else "different"))
            except Fault as x:
                t.fault("comparing '%s' and '%s'" % (s1, s2), x)
                return
            except Limit as x:
                t.limit("comparing '%s' and '%s'" % (s1, s2), x)
                return
    n = len(ns)
    for i in range(n):
        for j in range(i):
            t.check(C[i, j] == -C[j, i], lambda: "expr_cmp of '%s' and '%s' is not antisymmetric" % (ns[i][1], ns[j][1]))
    # a total order: ranks are distinct per class
    rank = [sum(C[i, j] > 0 for j in range(n)) for i in range(n)]
    for i in range(n):
        for j in range(n):
            t.check((rank[i] > rank[j]) - (rank[i] < rank[j]) == C[i, j], lambda: "expr_cmp is not transitive around '%s' and '%s'" % (ns[i][1], ns[j][1]))


def build(ck):
    ck.partition = ("Every node kind, every value kind inside each, and formulas over them: the object graph of the copy is disjoint from the original's, both print alike, carry the same ids, compare equal by every comparison, and after the "
                    "original (or the copy) is released the other still evaluates as the reference semantics says. Every ordered pair inside a family of expressions that differ in one component is compared; equality must be exactly "
                    "identity of the components, and the ordering used by the predicate map a total order.")
    P, E = near(), E5()
    P += [("geo", F(a), F(b), F(r)) for a in (1.5, 2.5, -1.5) for b in (1.5, -2.5, -1.5) for r in (10.0, 20.0)]
    P += [("str", o, x, p) for o in ("contains", "starts_with", "ends_with") for x in "su" for p in ("a", "b", "ab", "")]
    geo = lambda p: p[0] == "geo"
    R = random.Random(4)
    f = lambda p, z: (p, (CON2 if z % 5 == 3 else CON) if has_freq(p) else None)
    Q = [p for p in P if not geo(p)]
    caps = [(4096, 0), (1, 0)]
    for k in range(8 if ck.quick else 40):
        l = list(Q)
        R.shuffle(l)
        l = l[:60]
        subs = [f(p, z) for z, p in enumerate(l)] + [f(p, z) for z, p in enumerate(l[:20])]
        subs += [f((R.choice(("and", "or")), ("not", a) if i % 3 else a, b), i) for i, (a, b) in enumerate(zip(l[20:40], l[40:60]))]
        ck.task("copies %d" % k, copies, subs, E[k % 4::4], caps[k % 2], "copy" if k % 3 else "original")
    for p in (0,):
        ck.task("copies of geo predicates", copies, [f(p, 0) for p in P if geo(p)] * 2, [], caps[0], "copy")
    for stage in (0, 1):
        l = repeats() + Q[stage::2] + [p for p in P if geo(p)] + [(R.choice(("and", "or")), ("not", x) if i % 3 else x, y) for i, (x, y) in enumerate(zip(Q[20:60:4], Q[240:280:4]))]
        for c in range(0, len(l), 90):
            ck.task("copies of %s expressions" % ("resolved" if stage else "parsed"), fresh, l[c:c + 90], stage)
    for c in chunks(repeats(), 30):
        ck.task("copies of lists", copies, [(p, None) for p in c], E[::9], caps[0], "copy")
    # pairs: within a kind, and across
    by = {}
    for p in P:
        by.setdefault(p[0] + (str(p[2].__class__) if p[0] == "in" else ""), []).append(p)
    N = 40
    for k, l in by.items():
        if k == "seg":
            l = [p for p in l if p[2]] + [p for p in l if not p[2] and p[1] == "segment_within"][:0]
        ls = [(p, None) if not has_freq(p) else (p, c) for p in l for c in ((CON, CON2) if has_freq(p) else (None,))]
        R.shuffle(ls)
        for c in range(0, len(ls), N // 2):
            ck.task("pairs of %s" % k, pairs, ls[c:c + N] + ls[:5], caps[0])
        # neighbours as written differ in one component
        ls = [(p, None) if not has_freq(p) else (p, c) for p in l for c in ((CON, CON2) if has_freq(p) else (None,))]
        for c in range(0, len(ls), N - 8):
            ck.task("neighbouring pairs of %s" % k, pairs, ls[c:c + N], caps[0])
    for n, ps, ev in fine():
        ck.task("copies of near-equal %s" % n, copies, [f(p, 0) for p in ps], ev[::5], caps[0], "copy")
        if n == "segment ids" or n == "segment times":
            ps = [p for p in ps if p[2]]
        for c in range(0, len(ps), N // 2):
            if len(ps) - c > N // 2 or c == 0:
                ck.task("near-equal pairs of %s" % n, pairs, [f(p, 0) for p in ps[c:c + N]], caps[0])
    for k in range(4 if ck.quick else 30):
        l = list(P)
        R.shuffle(l)
        ck.task("pairs of several kinds", pairs, [f(p, z) for z, p in enumerate(l[:N]) if p[0] != "seg" or p[2]], caps[0])
    B = [("bool", "b"), ("bool", "c"), ("cmp", "<", "i", 1), ("lit", True), ("null", "is null", "b")]
    fs = []
    for x in B:
        fs += [x, ("not", x), ("not", ("not", x))]
        for y in B[:3]:
            fs += [("and", x, y), ("or", x, y), ("not", ("and", x, y)), ("and", ("not", x), y), ("and", x, ("not", y)), ("or", ("and", x, y), x), ("and", x, ("or", y, x)), ("or", x, ("and", y, x))]
    R.shuffle(fs)
    for c in range(0, len(fs), N - 5):
        ck.task("pairs of formulas", pairs, [(p, None) for p in fs[c:c + N]], caps[0])
