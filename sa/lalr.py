"""LALR(1) automata: built from a reference grammar, and read from bison's tables; comparison of the two."""


class Grammar:
    def __init__(self, start, rules, prec=()):
        """rules: [(lhs, [rhs])]; prec: [(assoc, [tokens])], weakest first"""
        self.rules = [("$accept", (start, "$end"))] + [(l, tuple(r)) for l, r in rules]
        self.nt = {l for l, r in self.rules}
        self.terms = sorted({s for l, r in self.rules for s in r} - self.nt)
        self.prec = {t: (i + 1, a) for i, (a, ts) in enumerate(prec) for t in ts}
        self.by = {}
        for i, (l, r) in enumerate(self.rules):
            self.by.setdefault(l, []).append(i)
        self.rprec = [next((self.prec[s] for s in reversed(r) if s in self.prec), None) if not any(s in self.nt and False for s in r) else None for l, r in self.rules]
        self.first()
        self.build()

    def first(self):
        self.null, self.fst = set(), {t: {t} for t in self.terms}
        for n in self.nt:
            self.fst[n] = set()
        ch = True
        while ch:
            ch = False
            for l, r in self.rules:
                n0 = len(self.fst[l]), len(self.null)
                for s in r:
                    self.fst[l] |= self.fst[s]
                    if s not in self.null:
                        break
                else:
                    self.null.add(l)
                ch |= n0 != (len(self.fst[l]), len(self.null))

    def firsts(self, seq, la):
        out = set()
        for s in seq:
            out |= self.fst[s]
            if s not in self.null:
                return out
        return out | la

    def closure(self, items):
        """items: {(rule, dot): lookaheads}"""
        items = {k: set(v) for k, v in items.items()}
        todo = list(items)
        while todo:
            r, d = todo.pop()
            rhs = self.rules[r][1]
            if d < len(rhs) and rhs[d] in self.nt:
                la = self.firsts(rhs[d + 1:], items[r, d])
                for p in self.by[rhs[d]]:
                    k = (p, 0)
                    if k not in items:
                        items[k] = set(la)
                        todo.append(k)
                    elif not la <= items[k]:
                        items[k] |= la
                        todo.append(k)
        return items

    def build(self):
        """states merged by kernel, lookaheads propagated to a fixpoint"""
        k0 = frozenset([(0, 0)])
        self.kern, self.idx = [{(0, 0): {"$eof"}}], {k0: 0}
        self.goto = [{}]
        todo = [0]
        while todo:
            s = todo.pop()
            c = self.closure(self.kern[s])
            mv = {}
            for (r, d), la in c.items():
                rhs = self.rules[r][1]
                if d < len(rhs):
                    mv.setdefault(rhs[d], {}).setdefault((r, d + 1), set()).update(la)
            for x, k in mv.items():
                fk = frozenset(k)
                if fk not in self.idx:
                    self.idx[fk] = len(self.kern)
                    self.kern.append({i: set() for i in k})
                    self.goto.append({})
                    new = True
                else:
                    new = False
                t = self.idx[fk]
                self.goto[s][x] = t
                ch = new
                for i, la in k.items():
                    if not la <= self.kern[t][i]:
                        self.kern[t][i] |= la
                        ch = True
                if ch:
                    todo.append(t)
        self.action, self.done = [], []
        self.conflicts = []
        for s in range(len(self.kern)):
            act = {}
            c = self.closure(self.kern[s])
            for x, t in self.goto[s].items():
                if x not in self.nt:
                    act[x] = ("s", t)
            comp = sorted(r for (r, d) in c if d == len(self.rules[r][1]))
            for r in comp:
                for x in c[r, len(self.rules[r][1])]:
                    if x == "$eof":
                        continue
                    if x not in act:
                        act[x] = ("r", r)
                    elif act[x][0] == "r":
                        self.conflicts.append((s, x))
                    else:
                        p, q = self.rprec[r], self.prec.get(x)
                        if p is None or q is None:
                            self.conflicts.append((s, x))
                        elif p[0] > q[0] or p[0] == q[0] and q[1] == "left":
                            act[x] = ("r", r)
            self.action.append(act)
            self.done.append(set(comp))

    # -- as a recogniser
    def init(self):
        return (0,)

    def shift(self, st, tok):
        """stack after reading tok, None when refused, True when accepted"""
        st = list(st)
        while True:
            a = self.action[st[-1]].get(tok)
            if a is None:
                return None
            if a[0] == "s":
                return True if tok == "$end" else tuple(st) + (a[1],)
            l, r = self.rules[a[1]]
            if r:
                del st[-len(r):]
            st.append(self.goto[st[-1]][l])


class Bison:
    def __init__(self, tab, tok):
        """tok: terminal name -> symbol number"""
        self.t, self.tok = tab, tok
        self.ninf = min(tab["yypact"])
        self.last = len(tab["yytable"]) - 1
        self.ntok = min(x for x in tab["yyr1"] if x > 0)
        self.tninf = None
        m = min(tab["yytable"])
        if m < 0 and -m >= len(tab["yyr1"]):
            self.tninf = m

    def act(self, s, name):
        t = self.t
        n = t["yypact"][s]
        if n != self.ninf:
            k = self.tok[name]
            n += k
            if 0 <= n <= self.last and t["yycheck"][n] == k:
                n = t["yytable"][n]
                if n > 0:
                    return ("s", n)
                if n == 0 or n == self.tninf:
                    return None
                return ("r", -n)
        r = t["yydefact"][s]
        return ("r", r) if r else None

    def gotos(self, s, lhs):
        t = self.t
        k = lhs - self.ntok
        n = t["yypgoto"][k] + s
        if 0 <= n <= self.last and t["yycheck"][n] == s:
            return t["yytable"][n]
        return t["yydefgoto"][k]

    def init(self):
        return (0,)

    def shift(self, st, tok):
        st = list(st)
        n = 0
        while True:
            a = self.act(st[-1], tok)
            if a is None:
                return None
            if a[0] == "s":
                return True if tok == "$end" else tuple(st) + (a[1],)
            n += 1
            if n > 10000:
                raise ValueError("endless reductions")
            ln = self.t["yyr2"][a[1]]
            if ln >= len(st):
                return None
            if ln:
                del st[-ln:]
            st.append(self.gotos(st[-1], self.t["yyr1"][a[1]]))


def isomorphic(b, g):
    """follow both automata together -> (obligations, mismatch or None)"""
    rule, lhs, st = {}, {}, {0: 0}
    n = 0
    path = {0: ()}
    ch = True
    while ch:
        ch = False
        for s in list(st):
            bs = st[s]
            for t in g.terms:
                n += 1
                x, y = g.action[s].get(t), b.act(bs, t)
                if x is None:
                    if y is not None and (y[0] == "s" or not any(rule.get(r, y[1]) == y[1] for r in g.done[s])):
                        return n, (path[s], t, x, y)
                    continue
                if y is None or x[0] != y[0]:
                    return n, (path[s], t, x, y)
                if x[0] == "s":
                    if x[1] not in st:
                        st[x[1]] = y[1]
                        path[x[1]] = path[s] + (t,)
                        ch = True
                    elif st[x[1]] != y[1]:
                        return n, (path[s], t, x, y)
                else:
                    l, r = g.rules[x[1]]
                    if x[1] not in rule:
                        rule[x[1]] = y[1]
                        ch = True
                        if b.t["yyr2"][y[1]] != len(r) or lhs.setdefault(l, b.t["yyr1"][y[1]]) != b.t["yyr1"][y[1]]:
                            return n, (path[s], t, x, y)
                    if rule[x[1]] != y[1]:
                        return n, (path[s], t, x, y)
            for X, t in g.goto[s].items():
                if X in g.nt and X in lhs:
                    n += 1
                    u = b.gotos(st[s], lhs[X])
                    if t not in st:
                        st[t] = u
                        path[t] = path[s] + (X,)
                        ch = True
                    elif st[t] != u:
                        return n, (path[s], X, t, u)
    if len(st) != len(g.kern) or len(rule) != len(g.rules) - 1:
        return n, ((), "", "%d states, %d rules followed" % (len(st), len(rule)), "of %d, %d" % (len(g.kern), len(g.rules) - 1))
    return n, dict(rules=rule, states=st) and None


def compare_language(b, g, limit, depth):
    """the token sequences both have read so far, shortest first: the tokens they can read next are the same -> (n, witness or None)"""
    level = [((), b.init(), g.init())]
    n, seen = 0, set()
    for d in range(depth):
        nxt = []
        for w, x, y in level:
            for t in g.terms:
                n += 1
                p, q = b.shift(x, t), g.shift(y, t)
                if (p is None) != (q is None):
                    return n, (w, t, "accepted" if p is not None else "refused", "refused" if q is None else "accepted")
                if p is not None and p is not True and len(nxt) < limit and (p, q) not in seen:
                    seen.add((p, q))
                    nxt.append((w + (t,), p, q))
        level = nxt
    return n, None
