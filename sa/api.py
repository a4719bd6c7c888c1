"""Drives the public interface of be-tree inside the abstract interpreter.

Expressions and events are handed to the analysed code as *token streams* (the
generated lexer is bypassed, the generated parser is analysed), so literals can
be abstract numbers.  `ref` is the reference semantics of the language."""
from .engine import Engine, P, Fn, UNDEF, Fault, CAbort, FREED, RO
from .num import A, Limit

CMP = {"<": "TCLT", "<=": "TCLE", ">": "TCGT", ">=": "TCGE", "=": "TCEQ", "<>": "TCNE"}
FLIP = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "=": "=", "<>": "<>"}


class F:
    """float-typed literal (its value may be an abstract number)"""
    __slots__ = ("v",)

    def __init__(s, v):
        s.v = v

    def __repr__(s):
        return "%r." % (s.v,)

    def __eq__(s, o):
        return isinstance(o, F) and s.v == o.v

    def __hash__(s):
        return hash(s.v)


class V:
    """a variable reference in set expressions"""
    __slots__ = ("n",)

    def __init__(s, n):
        s.n = n

    def __repr__(s):
        return s.n


# ------------------------------------------------------------ expression text
def lit_str(v):
    if isinstance(v, F):
        return repr(v)
    if isinstance(v, str):
        return '"%s"' % v
    if isinstance(v, (list, tuple)):
        return "(" + ", ".join(lit_str(x) for x in v) + ")"
    return repr(v)


def show(e):
    k = e[0]
    if k in ("cmp", "eq"):
        return "%s %s %s" % (e[2], e[1], lit_str(e[3]))
    if k in ("rcmp", "req"):
        return "%s %s %s" % (lit_str(e[3]), e[1], e[2])
    if k == "bool":
        return e[1]
    if k == "lit":
        return "true" if e[1] else "false"
    if k == "not":
        return "not (%s)" % show(e[1])
    if k in ("and", "or"):
        return "((%s) %s (%s))" % (show(e[1]), k, show(e[2]))
    if k == "in":
        return "%s %s %s" % (lit_str(e[2]), e[1], lit_str(e[3]))
    if k == "list":
        return "%s %s %s" % (e[2], e[1], lit_str(e[3]))
    if k == "null":
        return "%s %s" % (e[2], e[1])
    if k == "freq":
        return 'within_frequency_cap("%s", "%s", %r, %r)' % tuple(e[1:])
    if k == "seg":
        return "%s(%s%r, %r)" % (e[1], e[2] + ", " if e[2] else "", e[3], e[4])
    if k == "geo":
        return "geo_within_radius(%s, %s, %s)" % tuple(lit_str(x) for x in e[1:])
    if k == "str":
        return '%s(%s, "%s")' % (e[1], e[2], e[3])
    if k == "raw":
        return "<tokens %s>" % " ".join(str(t[0]) for t in e[1])
    raise ValueError(k)


def T(n, v=None):
    return (n, v)


def lit(v):
    """tokens of a literal"""
    if isinstance(v, V):
        return [T("TIDENTIFIER", v.n)]
    if isinstance(v, F):
        x = float(v.v) if isinstance(v.v, int) else v.v
        return [T("TMINUS"), T("TFLOAT", -x)] if x < 0 else [T("TFLOAT", x)]
    if isinstance(v, str):
        return [T("TSTRING", v)]
    if isinstance(v, (list, tuple)):
        r = [T("TLPAREN")]
        for i, x in enumerate(v):
            if i:
                r.append(T("TCOMMA"))
            r += lit(x)
        return r + [T("TRPAREN")]
    if v < 0:
        return [T("TMINUS"), T("TINTEGER", -v)]
    return [T("TINTEGER", v)]


def toks(e):
    k = e[0]
    I = lambda n: [T("TIDENTIFIER", n)]
    if k in ("cmp", "eq"):
        return I(e[2]) + [T(CMP[e[1]])] + lit(e[3])
    if k in ("rcmp", "req"):
        return lit(e[3]) + [T(CMP[e[1]])] + I(e[2])
    if k == "bool":
        return I(e[1])
    if k == "lit":
        return [T("TTRUE" if e[1] else "TFALSE")]
    if k == "not":
        return [T("TNOT"), T("TLPAREN")] + toks(e[1]) + [T("TRPAREN")]
    if k in ("and", "or"):
        return [T("TLPAREN"), T("TLPAREN")] + toks(e[1]) + [T("TRPAREN"), T("TAND" if k == "and" else "TOR"), T("TLPAREN")] + toks(e[2]) + [T("TRPAREN"), T("TRPAREN")]
    if k == "in":
        return lit(e[2]) + [T("TIN" if e[1] == "in" else "TNOTIN")] + lit(e[3])
    if k == "list":
        return I(e[2]) + [T({"one of": "TONEOF", "none of": "TNONEOF", "all of": "TALLOF"}[e[1]])] + lit(e[3])
    if k == "null":
        return I(e[2]) + [T({"is null": "TISNULL", "is not null": "TISNOTNULL", "is empty": "TISEMPTY"}[e[1]])]
    C = [T("TCOMMA")]
    if k == "freq":
        return [T("TWITHINFREQUENCYCAP"), T("TLPAREN"), T("TSTRING", e[1])] + C + [T("TSTRING", e[2])] + C + lit(e[3]) + C + lit(e[4]) + [T("TRPAREN")]
    if k == "seg":
        return [T("TSEGMENTWITHIN" if e[1] == "segment_within" else "TSEGMENTBEFORE"), T("TLPAREN")] + (I(e[2]) + C if e[2] else []) + lit(e[3]) + C + lit(e[4]) + [T("TRPAREN")]
    if k == "geo":
        return [T("TGEOWITHINRADIUS"), T("TLPAREN")] + lit(e[1]) + C + lit(e[2]) + C + lit(e[3]) + [T("TRPAREN")]
    if k == "str":
        return [T({"contains": "TCONTAINS", "starts_with": "TSTARTSWITH", "ends_with": "TENDSWITH"}[e[1]]), T("TLPAREN")] + I(e[2]) + C + [T("TSTRING", e[3])] + [T("TRPAREN")]
    if k == "raw":
        return list(e[1])
    raise ValueError(k)


# --------------------------------------------------------- reference semantics
class Seg(list):
    """segments event value: [(id, timestamp)]"""


class Caps(list):
    """frequency caps: [(type, id, ns, value, timestamp or None)]"""


SPECIAL_IDS = dict(advertiser="advertiser_id", campaign="campaign_id", campaign_group="campaign_group_id",
                   flight="flight_id", product="product_id")


def val(v):
    return v.v if isinstance(v, F) else v


def rel(op, a, b):
    a, b = val(a), val(b)
    return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "=": a == b, "<>": a != b}[op]


def usec(ts):
    """microseconds -> whole seconds (towards zero)"""
    if isinstance(ts, A):
        return ts.idiv(1000000)
    return abs(ts) // 1000000 * (1 if ts >= 0 else -1)


def ref(e, env, consts={}):
    """truth of e for the event env (attribute -> value; missing = undefined)"""
    k = e[0]
    if k in ("rcmp", "req"):
        return ref((k[1:], FLIP[e[1]], e[2], e[3]), env, consts)
    if k in ("cmp", "eq"):
        x = env.get(e[2])
        return False if x is None else rel(e[1], x, e[3])
    if k == "bool":
        return bool(env.get(e[1], False))
    if k == "lit":
        return e[1]
    if k == "not":
        return not ref(e[1], env, consts)
    if k == "and":
        return ref(e[1], env, consts) and ref(e[2], env, consts)
    if k == "or":
        return ref(e[1], env, consts) or ref(e[2], env, consts)
    if k == "in":
        l, r = e[2], e[3]
        if isinstance(l, V):
            l = env.get(l.n)
            if l is None:
                return False
        if isinstance(r, V):
            r = env.get(r.n)
            if r is None:
                return False
        res = any(x == l for x in r)
        return res if e[1] == "in" else not res
    if k == "list":
        x = env.get(e[2])
        if x is None:
            return False
        if e[1] == "all of":
            return all(any(a == b for a in x) for b in e[3])
        res = any(a == b for a in x for b in e[3])
        return res if e[1] == "one of" else not res
    if k == "null":
        x = env.get(e[2])
        if e[1] == "is null":
            return x is None
        if e[1] == "is not null":
            return x is not None
        return x is not None and len(x) == 0
    if k == "seg":
        x, now = env.get(e[2] or "segments_with_timestamp"), env.get("now")
        if x is None or now is None:
            return False
        for i, ts in x:
            if i == e[3]:
                if e[1] == "segment_within":
                    return (now - e[4]) <= usec(ts)
                return (now - e[4]) > usec(ts)
        return False
    if k == "freq":
        caps, now = env.get("frequency_caps"), env.get("now")
        if caps is None or now is None:
            return False
        idn = SPECIAL_IDS[e[1].split(":")[0]]
        for t, i, ns, v, ts in caps:
            if t == e[1] and i == consts.get(idn) and ns == e[2]:
                if ts is None and not e[4] <= 0:
                    return True
                if e[4] <= 0 or (now - usec(ts)) <= e[4]:
                    return e[3] > v
                return True
        return True
    if k == "opaque":
        return env[e[1]]
    if k == "str":
        x = env.get(e[2])
        if x is None:
            return False
        return {"contains": e[3] in x, "starts_with": x.startswith(e[3]), "ends_with": x.endswith(e[3])}[e[1]]
    raise ValueError(k)


def attrs_of(e):
    k = e[0]
    if k in ("cmp", "eq", "rcmp", "req", "list", "null", "str"):
        return {e[2]}
    if k == "bool":
        return {e[1]}
    if k == "not":
        return attrs_of(e[1])
    if k in ("and", "or"):
        return attrs_of(e[1]) | attrs_of(e[2])
    if k == "in":
        return {x.n for x in e[2:4] if isinstance(x, V)}
    if k == "seg":
        return {e[2] or "segments_with_timestamp", "now"}
    if k == "freq":
        return {"frequency_caps", "now"}
    if k == "geo":
        return {"latitude", "longitude"}
    return set()


# -------------------------------------------------------------- event tokens
def evtoks(ev):
    """ev: list of (name, value) / dict"""
    items = list(ev.items()) if isinstance(ev, dict) else list(ev)
    r = [T("EVENT_LCURLY")]
    for i, (n, v) in enumerate(items):
        if i:
            r.append(T("EVENT_COMMA"))
        r += [T("EVENT_STRING", n), T("EVENT_COLON")] + evlit(v)
    return r + [T("EVENT_RCURLY")]


def evnum(v):
    if isinstance(v, F):
        x = float(v.v) if isinstance(v.v, int) else v.v
        return [T("EVENT_MINUS"), T("EVENT_FLOAT", -x)] if x < 0 else [T("EVENT_FLOAT", x)]
    return [T("EVENT_MINUS"), T("EVENT_INTEGER", -v)] if v < 0 else [T("EVENT_INTEGER", v)]


def evlit(v):
    C = [T("EVENT_COMMA")]
    LS, RS = [T("EVENT_LSQUARE")], [T("EVENT_RSQUARE")]
    if v is None:
        return [T("EVENT_NULL")]
    if v is True or v is False:
        return [T("EVENT_TRUE" if v else "EVENT_FALSE", int(v))]
    if isinstance(v, str):
        return [T("EVENT_STRING", v)]
    if isinstance(v, Seg):
        els = [LS + evnum(a) + C + evnum(b) + RS for a, b in v]
    elif isinstance(v, Caps):
        els = [LS + LS + [T("EVENT_STRING", t)] + C + evnum(i) + C + [T("EVENT_STRING", ns)] + RS + C + evnum(val_) + C + evnum(ts) + RS
               for t, i, ns, val_, ts in v]
    elif isinstance(v, (list, tuple)):
        els = [evlit(x) for x in v]
    else:
        return evnum(v)
    r = list(LS)
    for i, x in enumerate(els):
        if i:
            r += C
        r += x
    return r + RS


def showev(ev):
    items = list(ev.items()) if isinstance(ev, dict) else list(ev)
    return "{" + ", ".join("%s: %s" % (n, "null" if v is None else v if isinstance(v, bool) else lit_str(v) if not isinstance(v, (Seg, Caps)) else repr(list(v))) for n, v in items) + "}"


def idmap():
    """a renaming of subscription ids, its own inverse: what the checks call 1, 2, 3... are ids at the ends of 64 bits and alike in their low bits"""
    m = {}
    for k, v in enumerate([0, (1 << 64) - 1, 1 << 32, 1 << 63, 1 << 31, (1 << 32) + (1 << 31), (1 << 40) + 8, (1 << 16) + 9, (1 << 32) + 10, (1 << 63) + 11, (1 << 32) - 1, (1 << 64) - 2, 256 + 13, (1 << 48) + 14]):
        v -= v >> 63 << 64      # as the analysis holds them: signed
        m[k + 1], m[v] = v, k + 1
    return m


IDS = idmap()


class Api:
    """the analysed library"""

    def __init__(self, eng):
        self.e = eng
        eng.api = self
        self.tokq = {}
        self.texts = 0
        self.FUEL = 400000
        self.en = eng.m.enums
        for p, en in (("xx", "T"), ("zz", "EVENT_")):
            eng.intercept(p + "lex_init", lambda e, a, o: (e.store(a[0], 8, 0), 0)[1])
            eng.intercept(p + "_scan_string", self.scan)
            eng.intercept(p + "_delete_buffer", lambda e, a, o: None)
            eng.intercept(p + "lex_destroy", lambda e, a, o: 0)
            eng.intercept(p + "lex", self.lex)
        self.cur = None
        self.writer = None
        self.lexers = [p + f for p in ("xx", "zz") for f in ("lex_init", "_scan_string", "_delete_buffer", "lex_destroy", "lex")]
        self.icepts = {f: eng.icepts[f] for f in self.lexers}
        self.base = eng.snapshot()
        self.st = eng.m.structs

    # -- token feeding
    def real(self, writer):
        """from now on texts are spelled by writer(tokens) and read by the lexers of the tree (None: token streams again)"""
        if writer is not None and self.writer is None:
            for f in self.lexers:
                n = len(self.e.m.funcs[f]["params"])
                self.e.intercept(f, lambda e, a, o, n=n: o(*a[:n]))   # the unprototyped calls pass more than is declared
        if writer is None and self.writer is not None:
            for f, cb in self.icepts.items():
                self.e.intercept(f, cb)
        self.writer = writer

    def text(self, tokens):
        if self.writer is not None:
            return self.e.mkstr(tokens if isinstance(tokens, str) else self.writer(tokens), "input")
        self.texts += 1
        s = "#%d" % self.texts
        self.tokq[s] = tokens
        return self.e.mkstr(s, "input")

    def scan(self, e, a, o):
        s = e.cstr(a[0])
        self.cur = list(reversed(self.tokq[s]))
        return P(e.new(8, "heapx", "lexbuf"), 0)

    def lex(self, e, a, o):
        if not self.cur:
            return 0
        n, v = self.cur.pop()
        if n in ("TIDENTIFIER", "TSTRING", "EVENT_STRING"):
            p = e.malloc(len(v) + 1, name="token")
            e.putstr(p, v)
            e.store(a[0], 8, p)
        elif n in ("TINTEGER", "TFLOAT", "EVENT_INTEGER", "EVENT_FLOAT"):
            e.store(a[0], 8, float(v) if n.endswith("FLOAT") and v.__class__ is int else v)
        elif n in ("EVENT_TRUE", "EVENT_FALSE"):
            e.store(a[0], 4, self.en[n])
        elif n == "BAD":
            return 1 if False else 0x7e   # an unknown character: '~'
        else:
            e.store(a[0], 4, self.en[n])
        return self.en[n]

    # -- helpers
    def fuel(self):
        self.e.fuel = self.FUEL

    def call(self, f, *a):
        self.fuel()
        return self.e.call(f, *a)

    def reset(self):
        self.real(None)
        self.e.restore(self.base)
        self.e.ub.clear()
        self.e.err.clear()

    def fld(self, struct, path):
        return self.st[struct]["fields"][path]

    def rd(self, p, struct, path):
        off, sz, k = self.fld(struct, path)
        return self.e.load(P(p.o, p.off + off), sz, "i" if k == "e" else k)

    def wr(self, p, struct, path, v):
        off, sz, k = self.fld(struct, path)
        self.e.store(P(p.o, p.off + off), sz, v)

    # -- public api
    def make(self, cap=None, part=None):
        if cap is None:
            self.t = self.call("betree_make")
        else:
            self.t = self.call("betree_make_with_parameters", cap, part)
        return self.t

    def s(self, x):
        return self.e.mkstr(x, "input")

    def domain(self, name, typ, undef=False, lo=None, hi=None):
        t, n, u = self.t, self.s(name), int(undef)
        I = lambda v, d: d if v is None else v
        if typ == "bool":
            self.call("betree_add_boolean_variable", t, n, u)
        elif typ in ("int", "ilist"):
            self.call("betree_add_integer_variable" if typ == "int" else "betree_add_integer_list_variable", t, n, u,
                      I(lo, -(1 << 63)), I(hi, (1 << 63) - 1))
        elif typ == "float":
            self.call("betree_add_float_variable", t, n, u, I(lo, -1.7976931348623157e308), I(hi, 1.7976931348623157e308))
        elif typ in ("str", "slist", "ienum"):
            self.call({"str": "betree_add_string_variable", "slist": "betree_add_string_list_variable",
                       "ienum": "betree_add_integer_enum_variable"}[typ], t, n, u, I(hi, -1))
        elif typ == "seg":
            self.call("betree_add_segments_variable", t, n, u)
        elif typ == "freq":
            self.call("betree_add_frequency_caps_variable", t, n, u)
        else:
            raise ValueError(typ)

    own_constants = False

    def consts(self, d):
        if not d:
            return 0, 0
        ps = [self.call("betree_make_integer_constant", self.s(k), v) for k, v in d.items()]
        arr = P(self.e.new(8 * len(ps), "input", "constants"), 0)
        for i, p in enumerate(ps):
            self.e.store(P(arr.o, 8 * i), 8, p)
        return len(ps), arr

    def insert(self, id, expr, consts=None, toks_=None):
        tx = self.text(toks_ if toks_ is not None else toks(expr))
        id = IDS.get(id, id)
        if consts is None:
            return self.call("betree_insert", self.t, id, tx)
        n, arr = self.consts(consts)
        r = self.call("betree_insert_with_constants", self.t, id, n, arr, tx)
        self.unconst(n, arr)
        return r

    def unconst(self, n, arr):
        """the constants stay the caller's"""
        if self.own_constants:
            for i in range(n):
                self.call("betree_free_constant", self.e.load(P(arr.o, 8 * i), 8, "p"))

    def make_sub(self, id, expr, consts=None, toks_=None):
        n, arr = self.consts(consts or {})
        r = self.call("betree_make_sub", self.t, IDS.get(id, id), n, arr, self.text(toks_ if toks_ is not None else toks(expr)))
        self.unconst(n, arr)
        return r

    def report(self):
        return self.call("make_report")

    def rep(self, r):
        n = self.rd(r, "report", "matched")
        subs = self.rd(r, "report", "subs")
        ids = [self.e.load(P(subs.o, subs.off + 8 * i), 8, "i") for i in range(n)] if n else []
        ids = [IDS.get(i, i) for i in ids]
        return dict(ids=ids, matched=n, evaluated=self.rd(r, "report", "evaluated"),
                    memoized=self.rd(r, "report", "memoized"), shorted=self.rd(r, "report", "shorted"))

    def search(self, ev, keep=False):
        """-> dict or None when the search reports failure"""
        r = self.report()
        ok = self.call("betree_search", self.t, self.text(evtoks(ev)), r)
        if not ok:
            self.call("free_report", r)
            return None
        d = self.rep(r)
        d["report"] = r
        if not keep:
            self.call("free_report", r)
        return d

    def exists(self, ev):
        return self.call("betree_exists", self.t, self.text(evtoks(ev)))

    # -- events built by calls
    def variable(self, n, v, typ=None):
        c, S = self.call, self.s
        nm = S(n)
        if v is True or v is False:
            return c("betree_make_boolean_variable", nm, int(v))
        if isinstance(v, F):
            return c("betree_make_float_variable", nm, float(v.v) if isinstance(v.v, int) else v.v)
        if isinstance(v, str):
            return c("betree_make_string_variable", nm, S(v))
        if isinstance(v, Seg) or typ == "seg" and v == []:
            l = c("betree_make_segments", len(v))
            for i, (a, b) in enumerate(v):
                c("betree_add_segment", l, i, c("betree_make_segment", a, b))
            return c("betree_make_segments_variable", nm, l)
        if isinstance(v, Caps) or typ == "freq" and v == []:
            l = c("betree_make_frequency_caps", len(v))
            for i, (t, d, ns, val_, ts) in enumerate(v):
                c("betree_add_frequency_cap", l, i, c("betree_make_frequency_cap", S(t), d, S(ns), int(ts is not None), 0 if ts is None else ts, val_))
            return c("betree_make_frequency_caps_variable", nm, l)
        if isinstance(v, (list, tuple)):
            if v and isinstance(v[0], str) or typ == "slist":
                l = c("betree_make_string_list", len(v))
                for i, x in enumerate(v):
                    c("betree_add_string", l, i, S(x))
                return c("betree_make_string_list_variable", nm, l)
            l = c("betree_make_integer_list", len(v))
            for i, x in enumerate(v):
                c("betree_add_integer", l, i, x)
            return c("betree_make_integer_list_variable", nm, l)
        return c("betree_make_integer_variable", nm, v)

    def event(self, doms, ev, order=None):
        """an event built with betree_make_event / betree_set_variable"""
        e = self.call("betree_make_event", self.t)
        names = [d[0] for d in doms]
        types = {d[0]: d[1] for d in doms}
        items = [(n, v) for n, v in ev.items() if v is not None]
        for k, (n, v) in enumerate(items):
            idx = names.index(n) if order is None else order[k]
            self.call("betree_set_variable", e, idx, self.variable(n, v, types[n]))
        return e

    def search_with(self, event, keep=False):
        r = self.report()
        ok = self.call("betree_search_with_event", self.t, event, r)
        if not ok:
            self.call("free_report", r)
            return None
        d = self.rep(r)
        d["report"] = r
        if not keep:
            self.call("free_report", r)
        return d

    def exists_with(self, event):
        return self.call("betree_exists_with_event", self.t, event)

    def insert_sub(self, sub):
        return self.call("betree_insert_sub", self.t, sub)

    def change_boundaries(self, expr, toks_=None):
        return self.call("betree_change_boundaries", self.t, self.text(toks_ if toks_ is not None else toks(expr)))

    def preempt(self, at, other):
        """run other() - another thread - at the at-th scheduling point (allocation or release) of what follows"""
        e = self.e
        st = [0, False]
        tls = [o for o in e.objs if o.kind == "tls"]
        init = [(dict(o.data), o.zero) for o in tls]

        def hook():
            if st[1]:
                return
            st[0] += 1
            if st[0] - 1 != at:
                return
            st[1] = True
            saved = [(o.data, o.zero, o.zr) for o in tls]
            cur = self.cur
            fuel = e.fuel
            for o, (d, z) in zip(tls, init):
                o.data, o.zero, o.zr = dict(d), z, None
            try:
                other()
            finally:
                for o, (d, z, zr) in zip(tls, saved):
                    o.data, o.zero, o.zr = d, z, zr
                self.cur = cur
                e.fuel = fuel
                st[1] = False
                st.append("ran")
        e.hook = hook
        return st

    def freeze(self):
        """every object that exists now becomes read-only (thread-local storage and the test's own inputs excepted)"""
        l = []
        for o in self.e.objs:
            if o.flags & (RO | FREED) or o.kind in ("tls", "stack", "input", "heapx"):
                continue
            o.flags |= RO
            l.append(o)
        return l

    def thaw(self, l):
        for o in l:
            o.flags &= ~RO

    def free(self):
        self.call("betree_free", self.t)

    def leaks(self, mark):
        """heap objects allocated since object id `mark` and not freed"""
        return [o for o in self.e.objs if o.kind == "heap" and not o.flags & FREED and o.id >= mark]
