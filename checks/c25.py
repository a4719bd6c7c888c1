"""C25: the trees of a process do not interfere, and the library remembers nothing outside of them."""
import random, re
from .lib import *
from .c05 import DOMS, CON, near, has_freq, evs as E5
from sa.effects import Effects, HIDDEN

BIG = (4096, 0)


def state_rule(ck):
    """no function reachable from the interface both depends on and changes memory that belongs to the process (globals, thread-local or not, and what libc hides)"""
    E = Effects()
    roots = [f for f in E.ext if re.match(r"(betree_|make_report|free_report|add_variable_from_string|empty_tree|make_event|event_to_string|make_tree)", f)]
    if len(roots) < 40:
        raise Anchor("functions of the interface")
    written = {}
    for F in E.funs.values():
        for (o, ty), site in F.eff.items():
            if o[0] == "global" and o[1] != "libc":
                written.setdefault((o[1], o[2]), E.at(site))
    n, viol = 0, []
    fs = E.reach(roots)
    for k in fs:
        F = E.funs[k]
        for b in F.f["order"]:
            for s, dbg in F.f["blocks"][b]:
                for g in set(re.findall(r"@([\w.$]+)", s)):
                    gi = E.globals.get((k[0], g))
                    if gi is None or gi["const"]:
                        continue
                    n += 1
                    w = written.get((k[0], g)) or next((v for (tu, gg), v in written.items() if gg == g and gi["ext"] and tu != k[0]), None)
                    if w:
                        f, l = F.mod.loc(dbg)
                        viol.append("%s (%s:%d) uses the mutable global '%s' (written: %s): what is done with one tree can reach another" % (F.src[0], f, l, g, w))
        for dst, callee, args, dbg in F.calls:
            n += 1
            if callee.lstrip("@") in HIDDEN and (k[0], callee.lstrip("@")) not in E.funs:
                f, l = F.mod.loc(dbg)
                viol.append("%s (%s:%d) calls %s, which keeps hidden state" % (F.src[0], f, l, callee))
    return n, sorted(set(viol)), "%d functions reachable from %d functions of the interface" % (len(fs), len(roots))


class Tree:
    """one tree and the operations done with it"""

    def __init__(self, name, doms, cap, ops):
        self.name, self.doms, self.cap, self.ops = name, doms, cap, ops

    def start(self):
        self.t = None
        self.subs, self.events, self.out = {}, {}, []
        self.own = []

    def do(self, t, i):
        """operation i; what is seen of it is appended to self.out"""
        a = t.a
        a.t = self.t
        op, *arg = self.ops[i]
        r = None
        if op == "make":
            self.t = a.make(*self.cap)
        elif op == "dom":
            a.domain(*arg)
        elif op == "insert":
            r = bool(a.insert(*arg))
        elif op == "refuse":
            r = bool(a.insert(arg[0], None, None, arg[1]))
        elif op == "sub":
            self.subs[arg[0]] = a.make_sub(*arg)
            r = bool(self.subs[arg[0]])
        elif op == "link":
            s = self.subs.pop(arg[0])
            if s:
                r = bool(a.insert_sub(s))
        elif op == "learn":
            r = bool(a.change_boundaries(arg[0]))
        elif op == "search":
            d = a.search(arg[0])
            r = d and (sorted(d["ids"]), d["evaluated"], d["shorted"], d["memoized"])
        elif op == "exists":
            r = bool(a.exists(arg[0]))
        elif op == "event":
            self.events[arg[0]] = a.event(self.doms, {n: v for n, v in arg[1].items()})
        elif op == "with":
            d = a.search_with(self.events[arg[0]])
            r = d and (sorted(d["ids"]), d["evaluated"], d["shorted"], d["memoized"], bool(a.exists_with(self.events[arg[0]])))
        elif op == "drop":
            a.call("betree_free_event", self.events.pop(arg[0]))
        elif op == "empty":
            a.call("empty_tree", self.t)
        elif op == "free":
            a.free()
        else:
            raise Anchor("operation " + op)
        self.out.append(r)

    def what(self, i):
        op, *arg = self.ops[i]
        s = {"insert": lambda: "insert %s: '%s'" % (arg[0], show(arg[1])), "sub": lambda: "make %s: '%s'" % (arg[0], show(arg[1])), "link": lambda: "link %s" % arg[0], "learn": lambda: "learn from '%s'" % show(arg[0]), "refuse": lambda: "insert an expression over an undeclared attribute",
             "search": lambda: "search %s" % showev(arg[0]), "exists": lambda: "exists %s" % showev(arg[0]), "dom": lambda: "declare %s" % (arg[0],), "with": lambda: "search with event %s" % arg[0]}
        return s.get(op, lambda: op)()


def schedule(trees, how):
    n = [len(x.ops) for x in trees]
    if how == "blocks":
        return [(j, i) for j in range(len(trees)) for i in range(n[j])]
    if how == "turns":
        return [(j, i) for i in range(max(n)) for j in range(len(trees)) if i < n[j]]
    if how == "nested":
        # the second lives while the first is at its middle
        h = n[0] // 2
        return [(0, i) for i in range(h)] + [(j, i) for j in range(1, len(trees)) for i in range(n[j])] + [(0, i) for i in range(h, n[0])]
    R = random.Random(how)
    l = [j for j in range(len(trees)) for _ in range(n[j])]
    R.shuffle(l)
    c = [0] * len(trees)
    out = []
    while l:
        # by runs: several operations on one tree, then another
        j = l.pop()
        out.append((j, c[j]))
        c[j] += 1
    return out


def alone(t, trees, base):
    res = []
    for x in trees:
        t.e.restore(base)
        x.start()
        t.begin()
        for i in range(len(x.ops)):
            if t.guard("%s alone: %s" % (x.name, x.what(i)), x.do, t, i) is NOFAULT:
                return None
        res.append(x.out)
    t.e.restore(base)
    t.begin()
    return res


def together(t, mk, how):
    trees = mk()
    t.a.own_constants = True
    base = t.e.snapshot()
    want = alone(t, trees, base)
    if want is None:
        return
    m = t.e.objs[-1].id + 1 if t.e.objs else 0
    for x in trees:
        x.start()
    done = []
    for j, i in schedule(trees, how):
        x = trees[j]
        # the memory of the other trees must neither change nor be released
        lock = []
        for y in trees:
            if y is not x:
                for o in y.own:
                    if not o.flags & (RO | FREED):
                        o.flags |= RO
                        lock.append(o)
        old = set(o.id for o in t.e.objs)
        r = t.guard("%s: %s, after %s" % (x.name, x.what(i), ", ".join(done[-6:]) or "nothing"), x.do, t, i)
        for o in lock:
            o.flags &= ~RO
        if r is NOFAULT:
            return
        x.own += [o for o in t.e.objs if o.kind == "heap" and o.id not in old]
        x.own = [o for o in x.own if not o.flags & FREED]
        done.append("%s: %s" % (x.name, x.what(i)[:60]))
        t.check(x.out[-1] == want[j][i], lambda: "%s, beside other trees, after %s: %s gives %r, alone %r" % (x.name, ", ".join(done[-7:-1]), x.what(i), x.out[-1], want[j][i]))
        if x.out[-1] != want[j][i]:
            return
    l = t.a.leaks(m)
    t.check(not l, lambda: "several trees: %d objects are never released, e.g. allocated in %s" % (len(l), l[0].name))


def threads(t, mk, j0, i0, lo, hi, step):
    """another thread does all that remains of another tree at the k-th scheduling point of operation i0 on tree j0"""
    trees = mk()[:2]
    t.a.own_constants = True
    base = t.e.snapshot()
    want = alone(t, trees, base)
    if want is None:
        return
    x, y = trees[j0], trees[1 - j0]
    for k in range(lo, hi, step):
        t.e.restore(base)
        t.begin()
        x.start()
        y.start()
        for i in range(i0):
            if t.guard("%s: %s" % (x.name, x.what(i)), x.do, t, i) is NOFAULT:
                return

        def other():
            tr = t.a.t
            for i in range(len(y.ops)):
                y.do(t, i)
            t.a.t = tr
        st = t.a.preempt(k, other)
        sh = "%s: %s, interrupted at allocation %d by a thread that uses %s" % (x.name, x.what(i0), k, y.name)
        r = t.guard(sh, x.do, t, i0)
        t.e.hook = None
        if r is NOFAULT:
            return
        ran = "ran" in st
        for i in range(i0 + 1, len(x.ops)):
            if t.guard(sh + ", then " + x.what(i), x.do, t, i) is NOFAULT:
                return
        for z, q in ((x, j0), (y, 1 - j0)):
            for i, (g, e) in enumerate(zip(z.out, want[q])):
                t.check(g == e, lambda: "%s: %s: %s gives %r, alone %r" % (sh, z.name, z.what(i), g, e))
                if g != e:
                    return
        if not ran:
            break


# ------------------------------------------------------------------------------------------------ the trees
def life(name, doms, cap, subs, evs, R, mode=0):
    """make, declare, insert with searches in between, refusals, linked subscriptions, events by calls, free"""
    ops = [("make",)] + [("dom",) + tuple(d) for d in doms]
    con = lambda p: CON if has_freq(p) else None
    if mode & 1:
        ops.append(("event", 0, evs[0]))
    later = []
    for i, s in enumerate(subs):
        if (mode >> 1) & 1 and i % 4 == 2:
            ops.append(("sub", i + 1, s, con(s)))
            later.append(i + 1)
        else:
            ops.append(("insert", i + 1, s, con(s)))
        if i % 5 == 3:
            ops.append(("search", evs[i % len(evs)]))
        if i % 7 == 4:
            ops.append(("refuse", 900 + i, toks(("eq", "=", "undeclared%d" % (i % 2), 1))))
        if later and i % 3 == 0:
            ops.append(("link", later.pop()))
    for k in later:
        ops.append(("link", k))
    for e in evs:
        ops.append(("search", e))
        ops.append(("exists", e))
        if mode & 1:
            ops.append(("with", 0))
    if mode & 1:
        ops += [("drop", 0)]
    if mode & 4:
        ops += [("empty",), ("search", evs[0]), ("insert", 1, subs[0], con(subs[0])), ("search", evs[0]), ("search", evs[-1])]
    return Tree(name, doms, cap, ops + [("free",)])


def pair(seed, n, mode):
    def mk():
        R = random.Random(seed)
        P, E = near(), E5()
        a = R.sample(P, n)
        b = a[::-1] if seed % 3 == 0 else R.sample(P, n)
        doms = list(DOMS)
        d2 = doms[::-1] if seed % 2 else doms[3:] + doms[:3]
        return [life("tree A", doms, [BIG, (1, 0), (3, 0)][seed % 3], a, R.sample(E, 3), R, mode), life("tree B", d2, [(1, 0), (3, 0), BIG][seed % 3], b, R.sample(E, 3), R, mode ^ 3)]
    return mk


def alike(seed):
    """the same names with other types, other bounds, another order: ids of attributes, strings and enum values, and indexes of definitions differ"""
    def mk():
        R = random.Random(seed)
        d1 = [dom("a", "int", True, 0, 31), dom("b", "str", True, None, 3), dom("c", "bool"), dom("d", "slist"), dom("e", "ienum", True, None, 3), dom("f", "float", False, 0, 31), dom("segments_with_timestamp", "seg"), dom("now", "int")]
        d2 = [dom("now", "int"), dom("b", "int", False, -20, 11), dom("a", "str"), dom("d", "ilist", True, 0, 31), dom("c", "ienum"), dom("e", "bool"), dom("x", "int", True, 0, 500), dom("f", "str", True, None, 2)]
        d3 = [dom("c", "bool", False), dom("e", "ienum"), dom("a", "int", False, 100, 131), dom("b", "str"), dom("d", "slist", True, None, 4)]
        s1 = [("cmp", ("<", ">=")[i % 2], "a", (i * 5) % 32) for i in range(10)] + [("eq", o, "b", "w%d" % i) for i in range(3) for o in ("=", "<>")] + [("list", "one of", "d", ["w%d" % i, "v%d" % i]) for i in range(3)] + \
             [("eq", "=", "e", 70 + i) for i in range(3)] + [("and", ("bool", "c"), ("cmp", "<", "f", F(9.5))), ("seg", "segment_within", None, 3, 20), ("bool", "c"), ("in", "in", "w1", V("d"))]
        s2 = [("cmp", ("<", ">=")[i % 2], "b", (i * 5) % 32 - 20) for i in range(10)] + [("eq", o, "a", "w%d" % (4 - i)) for i in range(4) for o in ("=", "<>")] + [("list", "one of", "d", [i, i + 7]) for i in range(5)] + \
             [("eq", "=", "c", 72 - i) for i in range(4)] + [("bool", "e"), ("not", ("bool", "e")), ("eq", "=", "f", "w2"), ("eq", "=", "f", "w1"), ("cmp", ">", "x", 250)]
        s3 = [("cmp", "<", "a", 100 + i) for i in range(0, 31, 4)] + [("eq", "=", "b", "w%d" % i) for i in (2, 0, 3, 1)] + [("list", "all of", "d", ["w2", "w0"]), ("eq", "=", "e", 71), ("eq", "=", "e", 70), ("not", ("bool", "c"))]
        e1 = [{"a": 3, "b": "w1", "c": True, "d": ["w2", "w1"], "e": 71, "f": F(2.5), "segments_with_timestamp": Seg([(3, 95 * 10 ** 6)]), "now": 100}, {"b": "w2", "f": F(30.0), "e": 70, "d": ["w0"]}, {"f": F(0.0), "b": "w3"}]
        e2 = [{"b": 3, "a": "w1", "c": 71, "d": [1, 9], "e": True, "x": 300, "f": "w2"}, {"b": -20, "a": "w4", "f": "w1"}, {"b": 9, "c": 70, "e": False}]
        e3 = [{"c": False, "a": 110, "b": "w2", "e": 70, "d": ["w0", "w2"]}, {"c": True, "a": 131, "b": "w1", "e": 71}]
        for l in (s1, s2, s3):
            R.shuffle(l)
        l = [life("tree A", d1, (1, 0), s1, e1, R, seed % 8), life("tree B", d2, (2, 0), s2, e2, R, seed % 8 ^ 2), life("tree C", d3, (3, 1), s3, e3, R, seed % 8 ^ 5)]
        k = seed % 3
        return l[k:] + l[:k]
    return mk


def learning(seed):
    """boundaries learnt in one tree, declared in another"""
    def mk():
        R = random.Random(seed)
        d1 = [dom("i", "int"), dom("f", "float"), dom("s", "str", True, None, 4), dom("l", "ilist"), dom("b", "bool")]
        d2 = d1[::-1]
        out = []
        for z, (d, off) in enumerate(((d1, 0), (d2, 400))):
            ops = [("make",)] + [("dom",) + x for x in d]
            ex = [("cmp", "<", "i", off + 3 * i) for i in range(12)] + [("cmp", ">", "f", F(off + 2 * i)) for i in range(6)] + [("list", "one of", "l", [off + i, off + 5]) for i in range(6)] + [("eq", "=", "s", "w%d" % (i + z)) for i in range(3)]
            R.shuffle(ex)
            ops += [("learn", x) for x in ex if z == 0 or x[0] != "eq"]
            ops += [("insert", k + 1, x, None) for k, x in enumerate(ex)]
            for v in (off, off + 5, off + 20, off + 33):
                e = {"i": v, "f": F(v), "l": [v], "s": "w%d" % (v % 3), "b": True}
                ops += [("search", e), ("exists", e)]
            out.append(Tree("tree %s" % "AB"[z], d, ((1, 0), (3, 0))[z], ops + [("free",)]))
        return out
    return mk


def build(ck):
    ck.partition = ("State: every global and every libc function with hidden state used by a function reachable from the interface. Histories: the lives of two or three trees (declared alike, in another order, with other types for the same names; learnt or declared boundaries; insertions, refusals, "
                    "linked subscriptions, searches by text and by events made by calls, emptying, freeing) one after the other, in turns, nested and shuffled; during an operation on one tree the memory of the others is read-only; everything seen of each is compared with what it shows alone. "
                    "Threads: at each allocation of a declaration, insertion, learning or search in one tree another thread runs the whole life of another tree.")
    ck.rule("no state outside the trees", state_rule)
    hows = ["blocks", "turns", "nested", 1, 2]
    k = 0
    for s in range(6 if ck.quick else 30):
        for how in hows:
            k += 1
            ck.task("two trees, %s" % how, together, pair(s, (12, 20, 30)[k % 3], k % 8), how)
            ck.task("three trees, other types for the same names, %s" % how, together, alike(s + 2 * k), how)
            if s < 3 or not ck.quick:
                ck.task("learning, %s" % how, together, learning(s), how)
    for s, mk in enumerate((alike(1), alike(5), learning(0), pair(2, 8, 3), pair(4, 8, 6))):
        tr = mk()
        for j in (0, 1):
            kinds = {}
            for i, o in enumerate(tr[j].ops):
                kinds.setdefault((o[0], o[2][0] if o[0] in ("insert", "sub") else ""), []).append(i)
            for kd, l in sorted(kinds.items()):
                if kd[0] in ("make", "free", "drop", "empty", "link"):
                    l = l[:1]
                for i in (l[:1] if ck.quick else sorted(set((l[0], l[len(l) // 2], l[-1])))):
                    ck.task("threads: %s" % (kd[0],), threads, mk, j, i, k % 3, 400, (17 if ck.quick else 5))
                    k += 1
