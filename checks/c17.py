"""C17: expressions and events are read as their grammar says."""
import itertools
import random
import re
from .lib import *
from .lang import *
from .c05 import DOMS, CON, near, has_freq, evs as E5
from .c11 import accept
from sa import dfa, lalr
from sa.api import evtoks, toks as toks_of

BIG = (4096, 0)


# ---------------------------------------------------------------- tables
def tables(ck, fn, names):
    """constant tables the function reads"""
    e = ck.eng
    if fn not in e.m.funcs:
        raise Anchor("function " + fn)
    f = e.m.funcs[fn]
    body = "\n".join(s for b in f["order"] for s, d in f["blocks"][b])
    tab = {}
    for n in names:
        gs = set(re.findall(r"@(%s(?:\.\d+)?)\b" % n, body))
        if len(gs) != 1:
            raise Anchor("table %s of %s" % (n, fn))
        g = gs.pop()
        t = e.m.globals[g]["ty"]
        es = t.el.size
        p = e.g[g]
        tab[n] = [e.load(P(p.o, p.off + i * es), es, "i") for i in range(t.size // es)]
        if n in ("yytranslate", "yydefact", "yyr1", "yyr2", "yy_ec", "yy_meta"):
            tab[n] = [x & (255 if es == 1 else 65535) for x in tab[n]]
    return tab


def lexer_rule(pre, rules):
    def rule(ck):
        fl = dfa.Flex(tables(ck, pre + "lex", ("yy_accept", "yy_ec", "yy_meta", "yy_base", "yy_def", "yy_nxt", "yy_chk")))
        ref = dfa.Ref(rules)
        n, m, d = dfa.equivalent(fl, ref)
        if len(m) < 10:
            raise Anchor("actions of the lexer tables")
        viol = ["the lexer (%slex) on the text %r: its tables give action %s, which reads %s elsewhere; the language says %s" % (pre, t.decode("latin1"), a, m.get(a), b) for t, a, b in d[:3]]
        return n * 255, viol, "%d pairs of states; actions %s" % (n, {str(a): r for a, r in sorted(m.items())})
    return rule


def parser_rule(pre, G, prec):
    def rule(ck):
        g = lalr.Grammar("program", G, prec)
        tab = tables(ck, pre + "parse", ("yypact", "yydefact", "yypgoto", "yydefgoto", "yytable", "yycheck", "yyr1", "yyr2", "yytranslate"))
        en = ck.eng.m.enums
        miss = [t for t in g.terms if t != "$end" and t not in en]
        if miss:
            raise Anchor("tokens %s" % miss)
        b = lalr.Bison(tab, {t: tab["yytranslate"][en[t]] if t != "$end" else 0 for t in g.terms})
        n, bad = lalr.isomorphic(b, g)
        if bad is None:
            return n, [], "the tables of %sparse are the LALR(1) automaton of the reference grammar (%d states, %d rules): the same sentences, of any length, and the same derivations" % (pre, len(g.kern), len(g.rules))
        n2, w = lalr.compare_language(b, g, 4000, 9)
        viol = []
        if w:
            viol.append("the parser (%sparse) after the tokens '%s': %s is %s, the grammar says %s" % (pre, " ".join(w[0]), w[1], w[2], w[3]))
        return n + n2, viol, "structure differs from the reference automaton at %r; language compared on %d bounded sequences" % (bad, n2)
    return rule


# ---------------------------------------------------------------- lexers
def lexing(t, pre, texts):
    e = t.e
    en = e.m.enums
    ZERO = 0
    by = {v: k for k, v in en.items() if k.startswith("EVENT_" if pre == "zz" else "T") and v >= 258}
    t.a.real(lambda x: x)
    call = lambda f, *a: e.call(f, *a)
    for s in texts:
        want = tokenize(pre, s)
        if want is None:
            continue
        t.begin()
        snap = e.snapshot()
        got = []
        try:
            e.fuel = 10 ** 6
            sc = P(e.new(8, "input", "scanner"), 0)
            lv = P(e.new(64, "input", "lval"), 0)
            call(pre + "lex_init", sc)
            scn = e.load(sc, 8, "p")
            buf = call(pre + "_scan_string", e.mkstr(s, "input"), scn)
            for _ in range(len(want) + 2):
                k = call(pre + "lex", lv, scn)
                if k == 0:
                    break
                n = by.get(k, "BAD")
                b = n.replace("EVENT_", "T")
                v = None
                if n == "BAD":
                    v = chr(k) if 0 < k < 256 else k
                elif b in ("TSTRING", "TIDENTIFIER"):
                    v = e.cstr(e.load(lv, 8, "p"))
                    call("free", e.load(lv, 8, "p")) if "f_free" in e.ns else None
                elif b == "TINTEGER":
                    v = e.load(lv, 8, "i")
                elif b == "TFLOAT":
                    v = e.load(lv, 8, "f")
                got.append((n, v))
            call(pre + "_delete_buffer", buf, scn)
            call(pre + "lex_destroy", scn)
        except Fault as x:
            t.fault("reading %r" % s, x)
            return
        except Limit as x:
            t.limit("reading %r" % s, x)
            return
        if pre == "zz":
            want = [w for w in want if w[0] != "BAD"]
        t.n += len(want)
        same = len(got) == len(want) and all(a[0] == b[0] and (a[0] == "BAD" or a[1] == b[1]) for a, b in zip(got, want))
        t.check(same, lambda: "%s: the text %r is read as %s, it means %s" % (pre + "lex", s, " ".join("%s(%r)" % x for x in got), " ".join("%s(%r)" % x for x in want)))
        e.restore(snap)


def witnesses(pre, rules, R):
    """texts that reach every state of the reference automaton and leave it by every class of characters"""
    ref = dfa.Ref(rules)
    cols = {}
    for c in range(1, 256):
        cols.setdefault(tuple(ref.delta[q].get(c) for q in range(len(ref.acc))), []).append(c)
    reps = [l[0] for l in cols.values()]
    out = []
    for q, tx in ref.access().items():
        for c in reps:
            s = (tx + bytes([c])).decode("latin1")
            out.append(s + R.choice(["", " ", " x", "1", "\n", ".", "("]))
    return out


# ------------------------------------------------------------ sentences
SD = [dom("b", "bool"), dom("c", "bool"), dom("i", "int"), dom("f", "float"), dom("s", "str"), dom("l", "ilist"), dom("sl", "slist"), dom("sg", "seg"), dom("segments_with_timestamp", "seg"), dom("frequency_caps", "freq"), dom("now", "int"),
      dom("latitude", "float"), dom("longitude", "float")]
SDT = {d[0]: (d[1], d[2]) for d in SD}
US = 1000000
SE = [dict(b=True, c=False, i=2, f=F(2.5), s="a", l=[1, 2], sl=["a"], sg=Seg([(1, 95 * US)]), segments_with_timestamp=Seg([(1, 70 * US)]), frequency_caps=Caps([("flight", 4, "n", 5, 95 * US)]), now=100, latitude=F(1.0), longitude=F(2.0)),
      dict(b=False, c=True, i=-3, f=F(-1.0), s="bc", l=[], sl=["bc", "d"], sg=Seg([(1, 70 * US)]), segments_with_timestamp=Seg([(1, 95 * US)]), frequency_caps=Caps([("flight", 4, "n", 1, 95 * US)]), now=100, latitude=F(60.0), longitude=F(50.0)),
      dict(b=True, c=True, i=3, f=F(2.0), s="", l=[3], sl=[], sg=Seg([]), now=100), dict(b=False, c=False, s="ab", l=[-3, 2], i=0), {}]


def g2(e):
    """geo predicates are decided far from the rim only"""
    return e[0] == "geo" or any(isinstance(x, tuple) and g2(x) for x in e[1:])


def vals(e):
    return [v for v in [x for x in e[1:]] if not isinstance(v, tuple)]


BASE = []


def base_sentences():
    if BASE:
        return BASE
    S = [("cmp", "<", "i", 3), ("cmp", ">=", "f", F(2.5)), ("cmp", ">", "i", -3), ("cmp", "<=", "f", 2), ("eq", "=", "i", 2), ("eq", "<>", "f", F(2.5)), ("eq", "=", "s", "a"), ("eq", "<>", "i", -3), ("eq", "=", "f", F(-1.0)),
         ("rcmp", "<", "i", 3), ("rcmp", "<=", "f", F(-1.0)), ("rcmp", ">", "i", 2), ("rcmp", ">=", "f", 2), ("req", "=", "s", "a"), ("req", "<>", "i", 2), ("req", "=", "f", F(2.5)),
         ("in", "in", V("i"), [2, -3]), ("in", "not in", V("s"), ["a", "bc"]), ("in", "in", "a", V("sl")), ("in", "not in", 2, V("l")), ("in", "in", -3, V("l")), ("list", "one of", "l", [1, -3]), ("list", "none of", "sl", ["a", "d"]),
         ("list", "all of", "l", [1, 2]), ("list", "all of", "sl", ["bc"]), ("null", "is null", "i"), ("null", "is not null", "s"), ("null", "is empty", "l"), ("bool", "b"), ("lit", True), ("lit", False),
         ("not", ("bool", "b")), ("and", ("bool", "b"), ("bool", "c")), ("or", ("bool", "b"), ("not", ("bool", "c"))), ("seg", "segment_within", "sg", 1, 20), ("seg", "segment_before", None, 1, 20), ("freq", "flight", "n", 5, 20),
         ("str", "contains", "s", "a"), ("str", "starts_with", "s", "b"), ("str", "ends_with", "s", "c"), ("geo", 1, 2, 100), ("geo", F(1.0), F(2.0), F(100.0)), ("geo", F(-1.0), F(-2.0), F(1.0))]
    BASE.extend(S)
    return BASE


def georef(e):
    la, lo, r = (float(x.v if isinstance(x, F) else x) for x in e[1:])
    return la, lo, r


LISTS = ("l", "sl", "m")


def nolist(e):
    """'is empty' of something that is not a list, or a cap over a negative time, has no meaning"""
    return e[0] == "freq" and not 0 <= e[4] or e[0] == "null" and e[1] == "is empty" and e[2] not in LISTS or any(isinstance(x, tuple) and nolist(x) for x in e[1:])


def truth(e, ev):
    """reference truth; geo decided only when far from the rim (None otherwise)"""
    if nolist(e):
        return None
    if g2(e):
        if e[0] != "geo":
            return None
        if ev.get("latitude") is None:
            return False
        from .c03 import geo_ref
        la, lo, r = georef(e)
        d = geo_ref(la, lo, ev["latitude"].v, ev["longitude"].v)
        return True if d < r * 0.98 - 1 else False if d > r * 1.02 + 1 else None
    return ref(e, ev, CON)


def sentences(t, seqs, mode="tokens"):
    """token sequences: inserted exactly when they are sentences that fit the declarations; then they mean what their derivation says"""
    a = t.a
    declare(t, SD, *BIG)
    base = t.e.snapshot()
    subs = []

    def flush():
        for ev in SE:
            t.begin()
            d = t.guard("search", a.search, ev)
            if d is NOFAULT:
                return False
            got = set() if d is None else set(d["ids"])
            for i, e, tx in subs:
                x = truth(e, ev)
                if x is not None:
                    t.check((i in got) == x, lambda: "'%s' is %s for the event %s; it means %s" % (tx, "true" if i in got else "false", showev(ev), show(e)))
        return True
    for n, sq in enumerate(seqs):
        e = parse(sq)
        con = CON
        ok = e is not None and accept(e, SDT, False)
        tx = " ".join(spell(x) if x[0] != "BAD" else "~" for x in sq)
        t.begin()
        r = t.guard("insert of '%s'" % tx, a.insert, n + 1, None, con, sq)
        if r is NOFAULT:
            return
        t.check(bool(r) == ok, lambda: "the text '%s' is %s, %s" % (tx, "accepted" if r else "refused", "it is not a sentence of the language" if e is None else "it means %s, which %s" % (show(e), "fits" if ok else "does not fit")))
        if r and ok:
            subs.append((n + 1, e, tx))
        if len(subs) >= 150:
            if not flush():
                return
            subs = []
            t.e.restore(base)
    flush()


VOC = [(n, None) for n, s in KEY if s not in ("&&", "||")] + [("TIDENTIFIER", "b"), ("TIDENTIFIER", "i"), ("TIDENTIFIER", "sl"), ("TINTEGER", 2), ("TFLOAT", 2.5), ("TSTRING", "a"), ("BAD", None)]


def mutants(sq, R, k):
    out = []
    for _ in range(k):
        s = list(sq)
        for _ in range(1 if R.random() < .8 else 2):
            z, i = R.randrange(4), R.randrange(len(s) + 1)
            if z == 0:
                s.insert(i, R.choice(VOC))
            elif z == 1 and i < len(s) and len(s) > 1:
                del s[i]
            elif z == 2 and i < len(s):
                s[i] = R.choice(VOC)
            elif i + 1 < len(s):
                s[i], s[i + 1] = s[i + 1], s[i]
        out.append(s)
    return out


def formulas(R, n):
    """operators without parentheses, some with"""
    out = []
    I = lambda x: ("TIDENTIFIER", x)

    def prim(d):
        z = R.random()
        if z < .2:
            return [("TNOT", None)] + prim(d)
        if z < .32 and d:
            return [("TLPAREN", None)] + chain(d - 1) + [("TRPAREN", None)]
        if z < .42:
            return toks_of(R.choice(base_sentences()[:30]))
        return [I(R.choice("pqrs_"[:4]))]

    def chain(d):
        s = prim(d)
        for _ in range(R.randrange(1, 4)):
            s += [(R.choice(("TAND", "TOR")), None)] + prim(d)
        return s
    return [chain(2) for _ in range(n)]


def precedence(t, seqs, names, writer=None):
    """formulas over boolean attributes, for every assignment"""
    a = t.a
    doms = [dom(n, "bool", False) for n in names]
    if writer:
        a.real(writer)
    declare(t, doms, *BIG)
    subs = []
    if max(map(len, seqs)) > 400:
        a.FUEL = 20000000
    for n, sq in enumerate(seqs):
        e = parse(sq)
        tx = " ".join(map(spell, sq))
        if len(tx) > 300:
            tx = "%s ... %s (%d tokens)" % (tx[:120], tx[-60:], len(sq))
        t.begin()
        r = t.guard("insert of '%s'" % tx, a.insert, n, None, None, sq)
        if r is NOFAULT:
            return
        t.check(bool(r), lambda: "the text '%s' is refused" % tx)
        if r:
            subs.append((n, e, tx))
    for bits in itertools.product((True, False), repeat=len(names)):
        ev = dict(zip(names, bits))
        t.begin()
        d = t.guard("search", a.search, ev)
        if d is NOFAULT:
            return
        got = set() if d is None else set(d["ids"])
        for i, e, tx in subs:
            x = ref(e, ev)
            t.check((i in got) == x, lambda: "'%s' is %s for %s; it means %s" % (tx, "true" if i in got else "false", showev(ev), show(e)))


# ------------------------------------------------------------ full text
def written(t, subs, evs, style, seed, doms=DOMS):
    """everything through the lexers of the tree, in one way of writing"""
    st = [seed]

    def w(tokens):
        st[0] += 1
        return write("zz" if tokens and tokens[0][0].startswith("EVENT") else "xx", tokens, style, st[0])
    t.a.real(w)
    match_world(t, World(doms, [(i + 1, p, CON if has_freq(p) else None) for i, p in enumerate(subs)], *BIG), evs)


def texts(t, cases, doms, evs):
    """given texts: (text, meaning or None when it must be refused)"""
    a = t.a
    a.real(lambda tk: write("zz", tk, "plain"))
    declare(t, doms, *BIG)
    w = World(doms, [], *BIG)
    for n, (tx, e) in enumerate(cases):
        t.begin()
        r = t.guard("insert of %r" % tx, a.insert, n + 1, None, CON, tx)
        if r is NOFAULT:
            return
        t.check(bool(r) == (e is not None), lambda: "the expression %r is %s" % (tx, "accepted" if r else "refused"))
        if r and e is not None:
            w.subs.append((n + 1, e, CON))
    events(t, w, evs)


def evsentences(t, seqs, texts_=False):
    """event token sequences: read exactly when they are sentences, with their meaning"""
    a, e = t.a, t.e
    if texts_:
        st = [0]

        def wr(tk):
            st[0] += 1
            return write("zz" if tk and tk[0][0].startswith("EVENT") else "xx", tk, ("plain", "min", "wild")[st[0] % 3], st[0])
        a.real(wr)
    doms = SD + [dom("t", "str"), dom("m", "ilist"), dom("g", "float")]
    declare(t, doms, *BIG)
    P_ = [p for p in base_sentences() if not g2(p)] + [("freq", y, "n", c, z) for y, c, z in (("flight", 1, 20), ("flight", 128, 20), ("flight", 256, 20), ("flight", 300, 20), ("flight", 65536, 20), ("flight", 70000, 0), ("flight", (1 << 31) + 1, 20), ("campaign", 300, 20), ("product:ip", 300, 20), ("advertiser", 300, 0))]
    P_ += [("seg", "segment_within", "sg", i, 20) for i in (257, 65537, (1 << 32) + 1, (1 << 63) - 1)] + [("in", "in", i, V("l")) for i in (257, 65537, (1 << 32) + 1, (1 << 63) - 1)] + [("eq", "=", "i", i) for i in (1, 257, -65537, (1 << 32) + 1, -(1 << 53) - 1, (1 << 63) - 1)] + [("eq", "=", "t", "x"), ("null", "is empty", "m"), ("list", "one of", "m", [7]), ("cmp", "<", "g", F(0.0)), ("cmp", "<=", "g", F(-0.1)), ("cmp", ">=", "g", F(-0.1)), ("cmp", "<=", "g", F(0.7)), ("cmp", ">=", "g", F(0.7)), ("cmp", ">=", "g", F(-123456789.125)), ("null", "is null", "t"), ("null", "is null", "sg"), ("null", "is null", "frequency_caps")]
    w = World(doms, [(i + 1, p, CON if has_freq(p) else None) for i, p in enumerate(P_)], *BIG)
    for i, x, c in w.subs:
        if not t.guard("insert %s" % show(x), a.insert, i, x, c):
            t.check(False, "insert of '%s' is refused" % show(x))
            return
    types = {d[0]: d[1] for d in doms}
    from .c12 import FITS
    snap = e.snapshot()
    for sq in seqs:
        v = evparse(sq)
        tx = " ".join("~" if x[0] == "BAD" else spell(x) for x in sq)
        if v is not None and (any(n not in types for n, x in v) or len({n for n, x in v}) != len(v)):
            continue
        t.begin()
        try:
            r = a.report()
            ok = a.call("betree_search", a.t, a.text(sq), r)
            d = a.rep(r) if ok else None
        except CAbort as x:
            ok, d = "abort", None
        except Fault as x:
            t.fault("event '%s'" % tx, x)
            return
        except Limit as x:
            t.limit("event '%s'" % tx, x)
            return
        if v is None:
            t.check(ok in (0, "abort"), lambda: "the event '%s' is accepted, it is not a sentence" % tx)
        else:
            fit = all(x is None or kindof(x) in FITS[types[n]] for n, x in v)
            t.check((ok not in (0, "abort")) == fit, lambda: "the event '%s' is %s, it %s the declarations" % (tx, "refused" if ok in (0, "abort") else "accepted", "fits" if fit else "does not fit"))
            if d is not None and fit:
                ex = expected(w, v)
                t.n += len(w.subs) - 1
                t.check(sorted(d["ids"]) == ex, lambda: diff(w, v, ex, sorted(d["ids"])))
        e.restore(snap)


def kindof(v):
    if isinstance(v, Seg):
        return "seg"
    if isinstance(v, Caps):
        return "caps"
    if isinstance(v, bool):
        return "bool"
    if isinstance(v, F):
        return "float"
    if isinstance(v, str):
        return "str"
    if isinstance(v, list):
        return "empty" if not v else "strs" if isinstance(v[0], str) else "ints"
    return "int"


ZV = [(n, None) for n, s in ZKEY] + [("EVENT_STRING", "s"), ("EVENT_STRING", "flight"), ("EVENT_INTEGER", 7), ("EVENT_FLOAT", 2.5)]


def zmut(sq, R, k):
    out = []
    for _ in range(k):
        s = list(sq)
        z, i = R.randrange(4), R.randrange(len(s) + 1)
        if z == 0:
            s.insert(i, R.choice(ZV))
        elif z == 1 and i < len(s) and len(s) > 1:
            del s[i]
        elif z == 2 and i < len(s):
            s[i] = R.choice(ZV)
        elif i + 1 < len(s):
            s[i], s[i + 1] = s[i + 1], s[i]
        # a cap type that is none is refused by aborting: out of the grammar
        out.append([(n, {"EVENT_TRUE": 1, "EVENT_FALSE": 0}.get(n, v)) for n, v in s])
    return out


def build(ck):
    ck.partition = ("The tables of both lexers are decided equal, as automata over all texts, to the automaton of the token definitions, and the tables of both parsers to the LALR(1) automaton of the reference grammar (all token "
                    "sequences of any length). What the code does around the tables is analysed on texts that reach every state of the automaton and leave it by every character class, on every production, on single-token "
                    "mutations of sentences, on formulas without parentheses for every assignment of their attributes, and on whole texts in plain, minimal and irregular spacing, quoting and spelling.")
    ck.rule("expression lexer tables = token definitions", lexer_rule("xx", XX))
    ck.rule("event lexer tables = token definitions", lexer_rule("zz", ZZ))
    ck.rule("expression parser tables = grammar", parser_rule("xx", XG, XPREC))
    ck.rule("event parser tables = grammar", parser_rule("zz", ZG, ()))
    R = random.Random(21)
    for pre, rules in (("xx", XX), ("zz", ZZ)):
        ws = witnesses(pre, rules, R)
        if ck.quick and pre == "xx":
            R.shuffle(ws)
            ws = ws[:3600]
        num = ["0", "00", "7", "08", "010", "0x1F", "9223372036854775807", "9223372036854775806", "2147483648", "4294967295", "4294967296", "1.", "1.5", "0.25", "007.5", "123456789.125", "1.50", "12a", "1-2", "1 -2", "-1", "--1", "1..2", "9999999999999999.",
               "'a'", "'a\"b'", '"a\'b"', '"a\\"b"', "'a\\'b'", '"\\\\"', '"a b\tc"', '""', "''", '"é"', '"a' + "b" * 300 + '"', "x" * 300, "9" * 18, '"\\n"', '"a\nb"']
        ws += num + ["%s%s%s" % (x, s, y) for x in num[:14] for y in ("1", "a", '"b"', "-") for s in ("", " ")]
        if pre == "xx":
            kw = sorted({s for n, s in KEY})
            ws += [a + b for a in kw for b in ("x", "_", "1", "-", " x", "in", "(", '"', ".")] + ["x" + a for a in kw] + ["not " + a for a in kw] + ["not int", "not in_x", "not in-x", "not in1", "not in(", "not in x", "is not nullx", "is nulla", "is notnull", "is  null", "one  of", "none offer", "all ofx"]
        for c in chunks(ws, 230):
            ck.task("texts of %slex" % pre, lexing, pre, c)
    B = base_sentences()
    seqs = []
    for p in B:
        s = toks_of(p)
        seqs.append(s)
        seqs += mutants(s, R, 60 if ck.quick else 400)
    short = [[x] for x in VOC] + [[x, y] for x in VOC for y in VOC]
    tri = [list(x) for x in itertools.product(VOC, repeat=3)]
    R.shuffle(tri)
    allseq = seqs + short + tri[:1500 if ck.quick else 40000]
    R.shuffle(allseq)
    for c in chunks(allseq, 400):
        ck.task("sentences and their mutations", sentences, c)
    # formulas
    names = ["p", "q", "r", "s"]
    I = [("TIDENTIFIER", x) for x in names]
    fs = []
    for n in (2, 3, 4):
        for ops in itertools.product(("TAND", "TOR"), repeat=n - 1):
            for nots in itertools.product((0, 1), repeat=n):
                s = []
                for k in range(n):
                    s += ([(ops[k - 1], None)] if k else []) + [("TNOT", None)] * nots[k] + [I[k]]
                fs.append(s)
    fs += [f for f in formulas(R, 500 if ck.quick else 4000) if {v for n, v in f if n == "TIDENTIFIER"} <= set(names) and not any(n in ("TSTRING", "TINTEGER", "TFLOAT", "TIN", "TNOTIN", "TISNULL", "TISNOTNULL", "TISEMPTY", "TTRUE", "TFALSE") for n, v in f)]
    for c in chunks(fs, 120):
        ck.task("operators without parentheses", precedence, c, names)
    for st in ("min", "wild"):
        for c in chunks(fs[::7], 60):
            ck.task("operators without parentheses, as text", precedence, c, names, (lambda s: lambda tk: write("zz" if tk[0][0].startswith("EVENT") else "xx", tk, s, len(tk)))(st))
    # nesting: the stacks of the parser grow, the recursions go as deep as the formula
    T_ = lambda n: (n, None)
    for d in (30, 70, 150, 260, 600, 1500) if ck.quick else (30, 70, 150, 199, 200, 201, 260, 600, 1500, 2400):
        s = [[T_("TLPAREN")] * d + [I[0]] + [T_("TRPAREN")] * d, [T_("TNOT")] * d + [I[1]], [T_("TNOT")] * (d + 1) + [I[1]],
             [x for k in range(min(d, 260)) for x in ([I[k % 3], T_(("TAND", "TOR")[k % 2])])] + [I[3]],
             [x for k in range(min(d, 260)) for x in ([I[k % 2], T_(("TAND", "TOR")[k % 2]), T_("TLPAREN")])] + [I[2]] + [T_("TRPAREN")] * min(d, 260),
             [x for k in range(min(d, 260) // 2) for x in ([T_("TNOT"), T_("TLPAREN"), I[k % 3], T_(("TOR", "TAND")[k % 2])])] + [I[3]] + [T_("TRPAREN")] * (min(d, 260) // 2)]
        ck.task("nesting of %d" % d, precedence, s, names)
    # whole texts
    conc = lambda p: not any(isinstance(x, A) or isinstance(getattr(x, "v", None), A) or isinstance(x, list) and any(isinstance(y, A) for y in x) for x in p)
    Pn = [p for p in near() if conc(p)]
    Pn += [("str", o, "s", p) for o in ("contains", "starts_with", "ends_with") for p in ("a", "b", "ab")]
    Pn += [("rcmp", o, "i", 1) for o in ("<", ">", "<=", ">=")] + [("req", o, "s", "a") for o in ("=", "<>")] + [("rcmp", o, "f", F(-1.5)) for o in ("<", ">=")]
    evs = [{k: v for k, v in ev.items() if conc((0, v)) and not (isinstance(v, (list,)) and any(isinstance(y, A) for y in v))} for ev in E5()]
    for k, st in enumerate(("plain", "min", "wild", "wild", "min", "plain")):
        l = list(Pn)
        R.shuffle(l)
        q = l[:45] + [(R.choice(("and", "or")), ("not", x) if z % 2 else x, y) for z, (x, y) in enumerate(zip(l[45:55], l[55:65]))]
        ck.task("whole texts, %s" % st, written, q, evs[k::8], st, k * 1000)
    X = [dom("intent", "bool"), dom("in_app", "bool"), dom("notify", "bool"), dom("order", "int"), dom("android", "bool"), dom("is", "bool"), dom("nulls", "int"), dom("truex", "bool"), dom("all", "ilist"), dom("s", "str"), dom("or-else", "bool"),
         dom("f", "float"), dom("_x1", "int"), dom("not_in", "bool"), dom("containsx", "bool"), dom("l", "ilist"), dom("falsey", "bool"), dom("isnull", "bool"), dom("frequency_caps", "freq"), dom("now", "int")]
    B_ = lambda n: ("bool", n)
    cases = [("intent", B_("intent")), ("not intent", ("not", B_("intent"))), ("not in_app", ("not", B_("in_app"))), ("notify", B_("notify")), ("order=3", ("eq", "=", "order", 3)), ("android and is", ("and", B_("android"), B_("is"))),
             ("nulls is null", ("null", "is null", "nulls")), ("nulls is not null", ("null", "is not null", "nulls")), ("truex or falsey", ("or", B_("truex"), B_("falsey"))), ("all all of (1,2)", ("list", "all of", "all", [1, 2])),
             ("all one of(1)", ("list", "one of", "all", [1])), ("all none of\n(1)", ("list", "none of", "all", [1])), ("or-else or intent", ("or", B_("or-else"), B_("intent"))), ("not not_in", ("not", B_("not_in"))), ("containsx", B_("containsx")),
             ("isnull&&intent||is", ("or", ("and", B_("isnull"), B_("intent")), B_("is"))), ("_x1>=-3", ("cmp", ">=", "_x1", -3)), ("_x1 > - 3", ("cmp", ">", "_x1", -3)), ("1 in l", ("in", "in", 1, V("l"))), ("1 not in l", ("in", "not in", 1, V("l"))),
             ("order not in(1,3)", ("in", "not in", V("order"), [1, 3])), ("s='it''", None), ("s = 'a\"b'", ("eq", "=", "s", 'a"b')), ('s = "a\'b"', ("eq", "=", "s", "a'b")), ('s = "a\\"b"', ("eq", "=", "s", 'a\\"b')), ("s in ('x y', \"z\")", ("in", "in", V("s"), ["x y", "z"])),
             ("order = 010", ("eq", "=", "order", 10)), ("f = 1.", ("eq", "=", "f", F(1.0))), ("f = 01.50", ("eq", "=", "f", F(1.5))), ("order = 9223372036854775807", ("eq", "=", "order", (1 << 63) - 1)), ("", None), ("   ", None), ("intent;", None), ("intent intent", None),
             ("(intent", None), ("intent)", None), ("((intent))", B_("intent")), ("not not intent", ("not", ("not", B_("intent")))), ("intent & is", None), ("intent | is", None), ("order == 3", None), ("order != 3", None), ("order => 3", None), ("order =< 3", None),
             ("order < > 3", None), ("f = .5", None), ("order = +3", None), ("order = 1e3", None), ("s = abc", None), ("is not", None), ("order is  null", None), ("order is not  null", None), ("INTENT", B_("intent")), ("TRUE", None), ("intent AND is", None), ("l one of ()", None),
             ("l one of (1,)", None), ("l one of (1 2)", None), ("l one of 1", None), ("1 in (1,2)", None), ("order in (1,'a')", None), ("true", ("lit", True)), ("false", ("lit", False)), ("not true", ("not", ("lit", True))), ("s=\"\"", ("eq", "=", "s", "")), ("s = \"unterminated", None),
             ("intent\x7f", None), ("intent é", None), ("intent\xff", None), ("intent \x01", None), ("intent\r\nand\tis", ("and", B_("intent"), B_("is"))), ("#intent", None), ("intent # comment", None), ("[intent]", None), ("order in [1,2]", None)]
    ev = []
    for k in range(14):
        b = lambda j: (k * 7 + j * 3) % 4 < 2
        e = {n: b(j) for j, n in enumerate(d[0] for d in X if d[1] == "bool")}
        e.update(order=[3, 1, 10, (1 << 63) - 1, 8][k % 5], all=[[1, 2], [1], [3], []][k % 4], s=['a"b', "a'b", 'a\\"b', "x y", "z", ""][k % 6], f=F([1.0, 1.5, 0.5][k % 3]), _x1=[-3, -4, 3, 0][k % 4], l=[[1], [2, 1], [], [3]][k % 4])
        if k % 3:
            e["nulls"] = k
        ev.append(e)
    evx = [{k: v for k, v in e.items() if not isinstance(v, str) or not '"' in v} for e in ev]
    ck.task("texts", texts, cases, X, evx + ev)
    # events
    zb = [evtoks(e) for e in SE] + [evtoks({n: v}) for n, v in (("b", True), ("b", False), ("i", -3), ("i", 7), ("f", F(-2.5)), ("f", F(0.25)), ("f", 2), ("s", "it's"), ("s", ""), ("l", []), ("l", [1]), ("l", [-1, 2, -3]), ("sl", ["a"]), ("sl", ["d", "bc", "a"]),
          ("sg", Seg([(1, 95 * US)])), ("sg", Seg([(2, -5), (1, 70 * US)])), ("t", "x"), ("t", None), ("m", [7]), ("m", []), ("g", F(-0.5)), ("g", F(-0.1)), ("g", F(0.7)), ("g", F(-123456789.125)), ("g", F(-123456789.25)), ("i", (1 << 63) - 1))]
    cap = lambda *l: evtoks({"frequency_caps": Caps(l), "now": 100})
    zb += [cap(("flight", 4, "n", 5, 95 * US)), cap(("flight", 4, "n", 1, 95 * US), ("flight", 4, "m", 5, 95 * US)), cap(("campaign:ip", 2, "n", 5, -3))]
    E = lambda n, v=None: ("EVENT_" + n, v)
    mkflat = lambda ty, i, ns, c, tm, now=100: [E("LCURLY"), E("STRING", "frequency_caps"), E("COLON"), E("LSQUARE"), E("LSQUARE"), E("STRING", ty), E("COMMA"), E("INTEGER", i), E("COMMA"), E("STRING", ns), E("COMMA"), E("INTEGER", c), E("COMMA"), E("INTEGER", tm), E("RSQUARE"), E("RSQUARE"),
            E("COMMA"), E("STRING", "now"), E("COLON"), E("INTEGER", now), E("RCURLY")]
    zb += [mkflat("flight", 4, "n", 5, 95 * US), [E("LCURLY"), E("RCURLY")]]
    # numbers of every size in every place of a cap, a segment and a list
    wide = []
    for c in (0, 1, 127, 128, 255, 256, 299, 300, 399, 65535, 65536, 69999, 70000, 1 << 31, (1 << 32) - 1):
        for tm in (0, 1, 95 * US, (1 << 31), (1 << 40), 95 * US + (1 << 45)):
            wide += [mkflat("flight", 4, "n", c, tm, tm // US + 5), cap(("flight", 4, "n", c, tm))]
    for i in (0, 3, 5, 4 + 256, 4 + 65536, (1 << 32) - 1, (1 << 31) + 4):
        wide += [mkflat("flight", i, "n", 400, 95 * US), cap(("flight", i, "n", 400, 95 * US))]
    for ty in ("advertiser", "advertiser:ip", "campaign", "campaign:ip", "campaign_group", "campaign_group:ip", "flight", "flight:ip", "product", "product:ip"):
        for i in (1, 2, 3, 4, 5):
            wide += [mkflat(ty, i, "n", 400, 95 * US), cap((ty, i, "n", 400, 95 * US))]
    for now in (94, 95, 115, 116, 1 << 31, 1 << 40, (1 << 40) + 100):
        wide += [mkflat("flight", 4, "n", 400, 95 * US, now)]
    for i in (1, 257, 65537, (1 << 32) + 1, (1 << 53) + 1, (1 << 63) - 1):
        for tm in (70 * US, 95 * US, (1 << 31), (1 << 32) + 70 * US, (1 << 50)):
            wide += [evtoks({"sg": Seg([(i, tm)]), "now": 100})]
        wide += [evtoks({"l": [i, i - 1]}), evtoks({"m": [7 + i - 1]}), evtoks({"i": i}), evtoks({"i": -i})]
    for l in (1, 31, 32, 33, 255, 256, 257, 300):
        wide += [evtoks({"t": "x" * l}), evtoks({"s": "b" * l + "a"}), evtoks({"s": "a" * l + "c"}), evtoks({"sl": ["q" * l, "d"]}), evtoks({"l": [50 + z for z in range(l)] + [1]}), evtoks({"m": [100 + z for z in range(l)] + [7]}), evtoks({"sl": ["q%d" % z for z in range(l)] + ["a"]}),
                 evtoks({"sg": Seg([(9 + z, 9) for z in range(l)] + [(1, 95 * US)]), "now": 100}), cap(*([("product", 9 + z, "n", 1, 9) for z in range(l)] + [("flight", 4, "n", 400, 95 * US)]))]
    zs = []
    for s in zb:
        zs.append(s)
        zs += zmut(s, R, 25 if ck.quick else 300)
    short = [[x] for x in ZV] + [[x, y] for x in ZV for y in ZV]
    zs += [[(n, {"EVENT_TRUE": 1, "EVENT_FALSE": 0}.get(n, v)) for n, v in s] for s in short]
    zs += wide
    R.shuffle(zs)
    for c in chunks(zs, 150):
        ck.task("events and their mutations", evsentences, c)
    for c in chunks(zb + [z for z in zs if R.random() < (.12 if ck.quick else .5)], 30):
        ck.task("events as text", evsentences, c, True)
