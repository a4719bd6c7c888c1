"""Regular languages over bytes: reference automata from rule lists, and automata read from flex's tables."""

ANY = frozenset(range(1, 256))
DOT = ANY - {10}


def lit(s):
    return ("cat", [("cls", frozenset([c])) for c in s.encode()])


def cls(s):
    return ("cls", frozenset(s))


def rng(*ps):
    r = set()
    for p in ps:
        r |= set(range(ord(p[0]), ord(p[-1]) + 1))
    return frozenset(r)


def cat(*x):
    return ("cat", list(x))


def star(x):
    return ("star", x)


def plus(x):
    return ("cat", [x, ("star", x)])


def alt(*x):
    return ("alt", list(x))


class Ref:
    """deterministic automaton of an ordered rule list [(name, regex)]: the earliest rule wins"""

    def __init__(self, rules):
        self.eps, self.tr, self.n = {}, {}, 0
        self.rules = [r[0] for r in rules]
        start = self.new()
        self.fin = {}
        for i, (n, rx) in enumerate(rules):
            a, b = self.build(rx)
            self.eps.setdefault(start, []).append(a)
            self.fin[b] = i
        self.sets = {}
        self.acc = []
        self.delta = []
        s0 = self.close({start})
        todo = [self.state(s0)]
        k = 0
        order = [s0]
        while k < len(order):
            s = order[k]
            row = {}
            for c in range(1, 256):
                t = set()
                for q in s:
                    for cs, d in self.tr.get(q, ()):
                        if c in cs:
                            t.add(d)
                if t:
                    t = self.close(t)
                    if t not in self.sets:
                        order.append(t)
                    row[c] = self.state(t)
            self.delta.append(row)
            k += 1

    def new(self):
        self.n += 1
        return self.n - 1

    def build(self, rx):
        k = rx[0]
        a, b = self.new(), self.new()
        e = lambda x, y: self.eps.setdefault(x, []).append(y)
        if k == "cls":
            self.tr.setdefault(a, []).append((rx[1], b))
        elif k == "cat":
            p = a
            for r in rx[1]:
                x, y = self.build(r)
                e(p, x)
                p = y
            e(p, b)
        elif k == "alt":
            for r in rx[1]:
                x, y = self.build(r)
                e(a, x)
                e(y, b)
        else:
            x, y = self.build(rx[1])
            e(a, x)
            e(y, x)
            e(a, b)
            e(y, b)
        return a, b

    def close(self, s):
        s, todo = set(s), list(s)
        while todo:
            for q in self.eps.get(todo.pop(), ()):
                if q not in s:
                    s.add(q)
                    todo.append(q)
        return frozenset(s)

    def state(self, s):
        if s not in self.sets:
            self.sets[s] = len(self.acc)
            f = [self.fin[q] for q in s if q in self.fin]
            self.acc.append(self.rules[min(f)] if f else None)
        return self.sets[s]

    def step(self, q, c):
        return self.delta[q].get(c)

    def access(self):
        """a shortest text per state, and representatives of the character classes of each state"""
        txt, order = {0: b""}, [0]
        for q in order:
            for c, d in sorted(self.delta[q].items()):
                if d not in txt:
                    txt[d] = txt[q] + bytes([c])
                    order.append(d)
        return txt


class Flex:
    def __init__(self, tab):
        self.t = tab
        self.jam = len(tab["yy_accept"]) - 1
        self.tmpl = len(tab["yy_accept"])

    def start(self):
        return 1

    def step(self, st, c):
        t = self.t
        k = t["yy_ec"][c]
        n = 0
        while t["yy_chk"][t["yy_base"][st] + k] != st:
            st = t["yy_def"][st]
            if st >= self.tmpl:
                k = t["yy_meta"][k]
            n += 1
            if n > 10000:
                raise ValueError("the default chain of the tables does not end")
        st = t["yy_nxt"][t["yy_base"][st] + k]
        return None if st == self.jam else st

    def acc(self, st):
        return self.t["yy_accept"][st] or None


def equivalent(flex, ref):
    """-> (pairs explored, mapping action -> rule, [differences (text, flex, ref)])"""
    seen = {(1, 0): b""}
    order = [(1, 0)]
    m, inv, diff = {}, {}, []
    for f, r in order:
        txt = seen[f, r]
        if txt:
            a, b = flex.acc(f), ref.acc[r]
            if (a is None) != (b is None):
                diff.append((txt, a, b))
            elif a is not None and m.setdefault(a, b) != b:
                diff.append((txt, a, b))
        for c in range(1, 256):
            x, y = flex.step(f, c), ref.step(r, c)
            if x is None and y is None:
                continue
            if x is None or y is None:
                # one goes on: only a difference when an accepting state is ahead; both automata are trim except for dead prefixes
                if x is None and alive(ref.step, ref_acc(ref), y) or y is None and alive(flex.step, flex.acc, x):
                    diff.append((txt + bytes([c]), "goes on" if x is not None else "stops", "goes on" if y is not None else "stops"))
                continue
            if (x, y) not in seen:
                seen[x, y] = txt + bytes([c])
                order.append((x, y))
        if len(diff) > 5:
            break
    return len(order), m, diff


def ref_acc(ref):
    return lambda q: ref.acc[q]


def alive(step, acc, q):
    seen, todo = {q}, [q]
    while todo:
        s = todo.pop()
        if acc(s) is not None:
            return True
        for c in range(1, 256):
            t = step(s, c)
            if t is not None and t not in seen:
                seen.add(t)
                todo.append(t)
    return False
