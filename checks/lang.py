"""Reference syntax of the two languages: tokens, grammars, and ways to write a sentence down."""
import re
import random

from sa.api import T, F, V, Seg, Caps
from sa.dfa import *

W = rng("az", "AZ", "09") | {ord("_"), ord("-")}
STR = [cat(cls(q), star(alt(cat(cls(b"\\"), ("cls", DOT)), ("cls", ANY - set(q) - {92}))), cls(q)) for q in (b'"', b"'")]
DIG = ("cls", rng("09"))
KEY = [("TWITHINFREQUENCYCAP", "within_frequency_cap"), ("TSEGMENTWITHIN", "segment_within"), ("TSEGMENTBEFORE", "segment_before"), ("TGEOWITHINRADIUS", "geo_within_radius"), ("TCONTAINS", "contains"),
       ("TSTARTSWITH", "starts_with"), ("TENDSWITH", "ends_with"), ("TMINUS", "-"), ("TCEQ", "="), ("TCNE", "<>"), ("TCGT", ">"), ("TCGE", ">="), ("TCLT", "<"), ("TCLE", "<="), ("TLPAREN", "("), ("TRPAREN", ")"),
       ("TCOMMA", ","), ("TNOTIN", "not in"), ("TIN", "in"), ("TONEOF", "one of"), ("TNONEOF", "none of"), ("TALLOF", "all of"), ("TAND", "&&"), ("TAND", "and"), ("TOR", "||"), ("TOR", "or"), ("TNOT", "not"),
       ("TISNOTNULL", "is not null"), ("TISNULL", "is null"), ("TISEMPTY", "is empty"), ("TTRUE", "true"), ("TFALSE", "false")]
XX = [("space", cls(b" \t\r\n"))] + [(n, cat(lit(s), ("cls", ANY - W)) if n == "TNOTIN" else lit(s)) for n, s in KEY] + \
     [("TSTRING", STR[0]), ("TSTRING", STR[1]), ("TIDENTIFIER", cat(("cls", rng("az", "AZ") | {ord("_")}), star(("cls", W)))), ("TINTEGER", plus(DIG)), ("TFLOAT", cat(plus(DIG), lit("."), star(DIG))), ("unknown", ("cls", DOT))]
ZKEY = [("EVENT_MINUS", "-"), ("EVENT_LSQUARE", "["), ("EVENT_RSQUARE", "]"), ("EVENT_LCURLY", "{"), ("EVENT_RCURLY", "}"), ("EVENT_COMMA", ","), ("EVENT_COLON", ":"), ("EVENT_TRUE", "true"), ("EVENT_FALSE", "false"), ("EVENT_NULL", "null")]
ZZ = [("space", cls(b" \t\n"))] + [(n, lit(s)) for n, s in ZKEY] + [("EVENT_STRING", STR[0]), ("EVENT_STRING", STR[1]), ("EVENT_INTEGER", plus(DIG)), ("EVENT_FLOAT", cat(plus(DIG), lit("."), star(DIG))), ("unknown", ("cls", DOT))]

# an independent tokenizer over regular expressions
_S = r'"(?:\\.|[^"\\])*"', r"'(?:\\.|[^'\\])*'"
RX = dict(xx=[("space", r"[ \t\r\n]")] + [(n, re.escape(s) + (r"(?=[^a-zA-Z0-9_-])" if n == "TNOTIN" else "")) for n, s in KEY] +
          [("TSTRING", _S[0]), ("TSTRING", _S[1]), ("TIDENTIFIER", r"[a-zA-Z_][a-zA-Z0-9_-]*"), ("TINTEGER", r"[0-9]+"), ("TFLOAT", r"[0-9]+\.[0-9]*"), ("unknown", r".")],
          zz=[("space", r"[ \t\n]")] + [(n, re.escape(s)) for n, s in ZKEY] + [("EVENT_STRING", _S[0]), ("EVENT_STRING", _S[1]), ("EVENT_INTEGER", r"[0-9]+"), ("EVENT_FLOAT", r"[0-9]+\.[0-9]*"), ("unknown", r".")])
RX = {k: [(n, re.compile(r)) for n, r in l] for k, l in RX.items()}


def tokenize(pre, s):
    """[(token, value)]; an unknown character is ('BAD', c)"""
    out, i = [], 0
    while i < len(s):
        best = None
        for n, r in RX[pre]:
            m = r.match(s, i)
            if m:
                ln = m.end() - i + (n == "TNOTIN")      # the character after it counts for the longest match
                if best is None or ln > best[0]:
                    best = (ln, n, m.group(0))
        if best is None:
            return None
        _, n, tx = best
        i += len(tx)
        if n == "space":
            continue
        k = n.replace("EVENT_", "T")
        if n == "unknown":
            out.append(("BAD", tx))
            if pre == "zz":
                return out
        elif k == "TSTRING":
            out.append((n, tx[1:-1]))
        elif k == "TIDENTIFIER":
            out.append((n, tx))
        elif k == "TINTEGER":
            out.append((n, min(int(tx), (1 << 63) - 1)))
        elif k == "TFLOAT":
            out.append((n, float(tx)))
        else:
            out.append((n, None))
    return out


# ------------------------------------------------------------------- writing
SP = {n: s for n, s in KEY if s not in ("&&", "||")}
ZSP = dict(ZKEY)


def digits(v):
    s = repr(v)
    if "e" in s or "E" in s:
        from decimal import Decimal
        s = format(Decimal(v), "f")
        if "." not in s:
            s += "."
    return s


def spell(tok, rnd=None):
    n, v = tok
    if n in ("TIDENTIFIER",):
        return v
    if n in ("TSTRING", "EVENT_STRING"):
        q = '"' if rnd is None or rnd.random() < .5 else "'"
        if q in v.replace("\\" + q, ""):
            q = "'" if q == '"' else '"'
        return q + v + q
    if n in ("TINTEGER", "EVENT_INTEGER"):
        s = str(v)
        return s if rnd is None or rnd.random() < .7 else "0" * rnd.randrange(1, 4) + s
    if n in ("TFLOAT", "EVENT_FLOAT"):
        s = digits(float(v))
        if rnd is not None:
            z = rnd.random()
            if z < .3 and s.endswith(".0"):
                s = s[:-1]
            elif z < .6:
                s += "0"
            elif z < .7:
                s = "0" + s
        return s
    if rnd is not None and n in ("TAND", "TOR") and rnd.random() < .5:
        return {"TAND": "&&", "TOR": "||"}[n]
    return SP[n] if n in SP else ZSP[n]


def write(pre, tokens, style, seed=0):
    """style: 'plain' one space between tokens, 'min' as few as possible, 'wild' random white space, spellings and quotes"""
    R = random.Random(seed) if style == "wild" else None
    sp = [spell(t, R) for t in tokens]
    out = ""
    for k, s in enumerate(sp):
        if style == "plain":
            out += (" " if k else "") + s
        else:
            ws = "" if style == "min" or R.random() < .5 else "".join(R.choice(" \t\n" + ("\r" if pre == "xx" else "")) for _ in range(R.randrange(1, 4)))
            for cand in ([ws] if ws else ["", " "]):
                t = tokenize(pre, out + cand + s + (" " if tokens[k][0] == "TNOTIN" else ""))
                if t is not None and len(t) == k + 1 and [x[0] for x in t] == [x[0] for x in tokens[:k + 1]]:
                    break
            out += cand + s
    if R:
        out = R.choice(["", " ", "\n\t"]) + out + R.choice(["", " ", "\n"])
    return out


# ------------------------------------------------------------ expression grammar
CMPT = {"TCGT": ">", "TCGE": ">=", "TCLT": "<", "TCLE": "<="}
EQT = {"TCEQ": "=", "TCNE": "<>"}
FL = {">": "<", "<": ">", ">=": "<=", "<=": ">=", "=": "=", "<>": "<>"}
NULLT = {"TISNULL": "is null", "TISNOTNULL": "is not null", "TISEMPTY": "is empty"}
LISTT = {"TONEOF": "one of", "TNONEOF": "none of", "TALLOF": "all of"}


class Bad(Exception):
    pass


class Parser:
    """or < and < not; left associative.  -> the expression, or Bad"""

    def __init__(self, toks):
        self.t, self.i = toks, 0

    def pk(self, k=0):
        return self.t[self.i + k][0] if self.i + k < len(self.t) else None

    def nx(self, *want):
        if self.i >= len(self.t) or want and self.t[self.i][0] not in want:
            raise Bad
        self.i += 1
        return self.t[self.i - 1]

    def parse(self):
        e = self.or_()
        if self.i != len(self.t):
            raise Bad
        return e

    def or_(self):
        e = self.and_()
        while self.pk() == "TOR":
            self.nx()
            e = ("or", e, self.and_())
        return e

    def and_(self):
        e = self.not_()
        while self.pk() == "TAND":
            self.nx()
            e = ("and", e, self.not_())
        return e

    def not_(self):
        if self.pk() == "TNOT":
            self.nx()
            return ("not", self.not_())
        return self.leaf()

    def int_(self):
        if self.pk() == "TMINUS":
            self.nx()
            return -self.nx("TINTEGER")[1]
        return self.nx("TINTEGER")[1]

    def num(self):
        s = 1
        if self.pk() == "TMINUS":
            self.nx()
            s = -1
        n, v = self.nx("TINTEGER", "TFLOAT")
        return F(s * v) if n == "TFLOAT" else s * v

    def eqv(self):
        return self.nx()[1] if self.pk() == "TSTRING" else self.num()

    def list_(self):
        self.nx("TLPAREN")
        st = self.pk() == "TSTRING"
        r = []
        while True:
            r.append(self.nx("TSTRING")[1] if st else self.int_())
            if self.nx("TCOMMA", "TRPAREN")[0] == "TRPAREN":
                return r

    def setr(self):
        return V(self.nx()[1]) if self.pk() == "TIDENTIFIER" else self.list_()

    def leaf(self):
        k = self.pk()
        if k == "TLPAREN":
            self.nx()
            e = self.or_()
            self.nx("TRPAREN")
            return e
        if k in ("TTRUE", "TFALSE"):
            self.nx()
            return ("lit", k == "TTRUE")
        if k == "TIDENTIFIER":
            x = self.nx()[1]
            o = self.pk()
            if o in CMPT:
                self.nx()
                return ("cmp", CMPT[o], x, self.num())
            if o in EQT:
                self.nx()
                return ("eq", EQT[o], x, self.eqv())
            if o in NULLT:
                self.nx()
                return ("null", NULLT[o], x)
            if o in LISTT:
                self.nx()
                return ("list", LISTT[o], x, self.list_())
            if o in ("TIN", "TNOTIN"):
                self.nx()
                return ("in", "in" if o == "TIN" else "not in", V(x), self.setr())
            return ("bool", x)
        if k in ("TINTEGER", "TFLOAT", "TMINUS", "TSTRING"):
            v = self.eqv()
            o = self.nx()[0]
            if o in CMPT and not isinstance(v, str):
                return ("cmp", FL[CMPT[o]], self.nx("TIDENTIFIER")[1], v)
            if o in EQT:
                return ("eq", EQT[o], self.nx("TIDENTIFIER")[1], v)
            if o in ("TIN", "TNOTIN") and not isinstance(v, F):
                return ("in", "in" if o == "TIN" else "not in", v, self.setr())
            raise Bad
        if k is None:
            raise Bad
        self.nx()
        C = lambda: self.nx("TCOMMA")
        if k == "TWITHINFREQUENCYCAP":
            self.nx("TLPAREN")
            a = self.nx("TSTRING")[1]
            C()
            b = self.nx("TSTRING")[1]
            C()
            c = self.int_()
            C()
            e = ("freq", a, b, c, self.int_())
        elif k in ("TSEGMENTWITHIN", "TSEGMENTBEFORE"):
            self.nx("TLPAREN")
            x = None
            if self.pk() == "TIDENTIFIER":
                x = self.nx()[1]
                C()
            a = self.int_()
            C()
            e = ("seg", "segment_within" if k == "TSEGMENTWITHIN" else "segment_before", x, a, self.int_())
        elif k == "TGEOWITHINRADIUS":
            self.nx("TLPAREN")
            a = self.num()
            C()
            b = self.num()
            C()
            c = self.num()
            if len({isinstance(x, F) for x in (a, b, c)}) > 1:
                raise Bad
            e = ("geo", a, b, c)
        elif k in ("TCONTAINS", "TSTARTSWITH", "TENDSWITH"):
            self.nx("TLPAREN")
            x = self.nx("TIDENTIFIER")[1]
            C()
            e = ("str", {"TCONTAINS": "contains", "TSTARTSWITH": "starts_with", "TENDSWITH": "ends_with"}[k], x, self.nx("TSTRING")[1])
        else:
            raise Bad
        self.nx("TRPAREN")
        return e


def parse(toks):
    try:
        return Parser(toks).parse()
    except Bad:
        return None


# ------------------------------------------------------------------ event grammar
class EvParser(Parser):
    def parse(self):
        self.nx("EVENT_LCURLY")
        r = []
        if self.pk() == "EVENT_RCURLY":
            self.nx()
        else:
            while True:
                n = self.nx("EVENT_STRING")[1]
                self.nx("EVENT_COLON")
                r.append((n, self.value()))
                if self.nx("EVENT_COMMA", "EVENT_RCURLY")[0] == "EVENT_RCURLY":
                    break
        if self.i != len(self.t):
            raise Bad
        return r

    def int_(self):
        s = 1
        if self.pk() == "EVENT_MINUS":
            self.nx()
            s = -1
        return s * self.nx("EVENT_INTEGER")[1]

    def value(self):
        k = self.pk()
        if k == "EVENT_NULL":
            self.nx()
            return None
        if k in ("EVENT_TRUE", "EVENT_FALSE"):
            return self.nx()[0] == "EVENT_TRUE"
        if k == "EVENT_STRING":
            return self.nx()[1]
        if k in ("EVENT_MINUS", "EVENT_INTEGER", "EVENT_FLOAT"):
            s = 1
            if k == "EVENT_MINUS":
                self.nx()
                s = -1
            n, v = self.nx("EVENT_INTEGER", "EVENT_FLOAT")
            return F(s * v) if n == "EVENT_FLOAT" else s * v
        self.nx("EVENT_LSQUARE")
        k = self.pk()
        if k == "EVENT_RSQUARE":
            self.nx()
            return []
        if k == "EVENT_STRING":
            return self.seq(list, lambda: self.nx("EVENT_STRING")[1])
        if k != "EVENT_LSQUARE":
            return self.seq(list, self.int_)
        if self.pk(1) in ("EVENT_STRING", "EVENT_LSQUARE"):
            return self.seq(Caps, self.cap)
        return self.seq(Seg, self.seg)

    def seq(self, mk, f):
        r = mk()
        while True:
            r.append(f())
            if self.nx("EVENT_COMMA", "EVENT_RSQUARE")[0] == "EVENT_RSQUARE":
                return r

    def seg(self):
        self.nx("EVENT_LSQUARE")
        a = self.int_()
        self.nx("EVENT_COMMA")
        b = self.int_()
        self.nx("EVENT_RSQUARE")
        return (a, b)

    def cap(self):
        self.nx("EVENT_LSQUARE")
        nest = self.pk() == "EVENT_LSQUARE"
        if nest:
            self.nx()
        t = self.nx("EVENT_STRING")[1]
        self.nx("EVENT_COMMA")
        i = self.int_()
        self.nx("EVENT_COMMA")
        ns = self.nx("EVENT_STRING")[1]
        if nest:
            self.nx("EVENT_RSQUARE")
        self.nx("EVENT_COMMA")
        v = self.int_()
        self.nx("EVENT_COMMA")
        ts = self.int_()
        self.nx("EVENT_RSQUARE")
        return (t, i, ns, v, ts)


def evparse(toks):
    try:
        return EvParser(toks).parse()
    except Bad:
        return None


# ------------------------------------------------ the same grammars as productions
def rules_of(text):
    out = []
    for l in text.strip().splitlines():
        a, b = l.split("->")
        for alt_ in b.split("|"):
            out.append((a.strip(), alt_.split()))
    return out


XG = rules_of("""
program -> expr
ident -> TIDENTIFIER
integer -> TINTEGER | TMINUS TINTEGER
float -> TFLOAT | TMINUS TFLOAT
string -> TSTRING
integer_list_value -> TLPAREN integer_list_loop TRPAREN
integer_list_loop -> integer | integer_list_loop TCOMMA integer
string_list_value -> TLPAREN string_list_loop TRPAREN
string_list_loop -> string | string_list_loop TCOMMA string
expr -> TLPAREN expr TRPAREN | num_comp_expr | eq_expr | set_expr | list_expr | bool_expr | special_expr | is_null_expr
is_null_expr -> ident TISNULL | ident TISNOTNULL | ident TISEMPTY
num_comp_value -> integer | float
num_comp_expr -> ident TCGT num_comp_value | ident TCGE num_comp_value | ident TCLT num_comp_value | ident TCLE num_comp_value
num_comp_expr -> num_comp_value TCLT ident | num_comp_value TCLE ident | num_comp_value TCGT ident | num_comp_value TCGE ident
eq_value -> integer | float | string
eq_expr -> ident TCEQ eq_value | ident TCNE eq_value | eq_value TCEQ ident | eq_value TCNE ident
variable_value -> ident
set_left_value -> integer | string | variable_value
set_right_value -> integer_list_value | string_list_value | variable_value
set_expr -> set_left_value TNOTIN set_right_value | set_left_value TIN set_right_value
list_value -> integer_list_value | string_list_value
list_expr -> ident TONEOF list_value | ident TNONEOF list_value | ident TALLOF list_value
bool_expr -> expr TAND expr | expr TOR expr | TNOT expr | ident | TTRUE | TFALSE
special_expr -> s_frequency_expr | s_segment_expr | s_geo_expr | s_string_expr
s_frequency_expr -> TWITHINFREQUENCYCAP TLPAREN TSTRING TCOMMA string TCOMMA integer TCOMMA integer TRPAREN
s_segment_expr -> TSEGMENTWITHIN TLPAREN integer TCOMMA integer TRPAREN | TSEGMENTWITHIN TLPAREN ident TCOMMA integer TCOMMA integer TRPAREN
s_segment_expr -> TSEGMENTBEFORE TLPAREN integer TCOMMA integer TRPAREN | TSEGMENTBEFORE TLPAREN ident TCOMMA integer TCOMMA integer TRPAREN
s_geo_expr -> TGEOWITHINRADIUS TLPAREN integer TCOMMA integer TCOMMA integer TRPAREN | TGEOWITHINRADIUS TLPAREN float TCOMMA float TCOMMA float TRPAREN
s_string_expr -> TCONTAINS TLPAREN ident TCOMMA string TRPAREN | TSTARTSWITH TLPAREN ident TCOMMA string TRPAREN | TENDSWITH TLPAREN ident TCOMMA string TRPAREN
""")
XPREC = [("left", ["TCEQ", "TCNE", "TCGT", "TCGE", "TCLT", "TCLE"]), ("left", ["TOR"]), ("left", ["TAND"]), ("none", ["TNOT"])]
ZG = rules_of("""
program -> EVENT_LCURLY EVENT_RCURLY | EVENT_LCURLY variable_loop EVENT_RCURLY
variable_loop -> variable | variable_loop EVENT_COMMA variable
variable -> EVENT_STRING EVENT_COLON value | EVENT_STRING EVENT_COLON EVENT_NULL
value -> boolean | integer | float | string | empty_list_value | integer_list_value | string_list_value | segments_value | frequencies_value
boolean -> EVENT_TRUE | EVENT_FALSE
integer -> EVENT_INTEGER | EVENT_MINUS EVENT_INTEGER
float -> EVENT_FLOAT | EVENT_MINUS EVENT_FLOAT
string -> EVENT_STRING
empty_list_value -> EVENT_LSQUARE EVENT_RSQUARE
integer_list_value -> EVENT_LSQUARE integer_list_loop EVENT_RSQUARE
integer_list_loop -> integer | integer_list_loop EVENT_COMMA integer
string_list_value -> EVENT_LSQUARE string_list_loop EVENT_RSQUARE
string_list_loop -> string | string_list_loop EVENT_COMMA string
segments_value -> EVENT_LSQUARE segments_loop EVENT_RSQUARE
segments_loop -> segment_value | segments_loop EVENT_COMMA segment_value
segment_value -> EVENT_LSQUARE integer EVENT_COMMA integer EVENT_RSQUARE
frequencies_value -> EVENT_LSQUARE frequencies_loop EVENT_RSQUARE
frequencies_loop -> frequency_value | frequencies_loop EVENT_COMMA frequency_value
frequency_value -> EVENT_LSQUARE EVENT_STRING EVENT_COMMA integer EVENT_COMMA string EVENT_COMMA integer EVENT_COMMA integer EVENT_RSQUARE
frequency_value -> EVENT_LSQUARE EVENT_LSQUARE EVENT_STRING EVENT_COMMA integer EVENT_COMMA string EVENT_RSQUARE EVENT_COMMA integer EVENT_COMMA integer EVENT_RSQUARE
""")
