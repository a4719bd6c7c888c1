"""Abstract interpreter for the LLVM IR of /repo.

Each IR function is translated once into a Python function over the abstract
value domain: known constants (tags, counts, enumerators), abstract numbers
(sa.num: only their order is known), pointers (allocation object + byte
offset), UNDEF.  Memory is a set of objects with typed cells.  Every
non-determinism is an explicit choice of the driving scenario, enumerated
exhaustively (trace partitioning)."""
import math
import struct as _struct
import sys
import re
import hashlib

from .ll import Module, split_top, match_close
from .num import A, Limit, BIG

sys.setrecursionlimit(20000)


class Fault(Exception):
    """the analysed code reaches an erroneous operation"""

    def __init__(s, kind, msg=""):
        s.kind, s.msg = kind, msg
        Exception.__init__(s, "%s: %s" % (kind, msg))


class CAbort(Fault):
    def __init__(s, msg=""):
        Fault.__init__(s, "abort", msg)


class Undef:
    def __repr__(s): return "undef"
    def _u(s, *_): return s
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __and__ = __rand__ = __or__ = __ror__ = _u
    __xor__ = __rxor__ = __neg__ = __abs__ = __lshift__ = __rshift__ = __truediv__ = __rtruediv__ = _u
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __ne__ = _u
    __hash__ = object.__hash__

    def __bool__(s):
        raise Fault("uninitialised", "branch or comparison on an uninitialised value")

    def __getattr__(s, n):
        if n in ("o", "off"):
            raise Fault("uninitialised", "dereference of an uninitialised pointer")
        raise AttributeError(n)


UNDEF = Undef()

FREED, RO, ZERO = 1, 2, 4


class Obj:
    __slots__ = ("id", "size", "kind", "data", "flags", "zero", "name", "site", "zr")

    def __init__(s, id, size, kind, name, zero=False):
        s.id, s.size, s.kind, s.name = id, size, kind, name
        s.data = {}
        s.flags = 0
        s.zero = zero
        s.zr = None
        s.site = None

    def __repr__(s):
        return "<%s#%d %s %d>" % (s.kind, s.id, s.name, s.size)


class P:
    __slots__ = ("o", "off")

    def __init__(s, o, off=0):
        s.o, s.off = o, off

    def __eq__(s, x):
        return x.__class__ is P and x.o is s.o and x.off == s.off

    def __ne__(s, x):
        return not (x.__class__ is P and x.o is s.o and x.off == s.off)

    def __hash__(s):
        return hash((s.o.id, s.off))

    def __bool__(s):
        return True

    def __sub__(s, x):
        if x.__class__ is P and x.o is s.o:
            return s.off - x.off
        if isinstance(x, int):
            return P(s.o, s.off - x)
        raise Limit("pointer difference between objects")

    def __add__(s, x):
        return P(s.o, s.off + x)

    def _ord(s, x):
        if x.__class__ is P and x.o is s.o:
            return s.off - x.off
        raise Fault("pointer-order", "ordering comparison of pointers into different objects")

    def __lt__(s, x): return s._ord(x) < 0
    def __le__(s, x): return s._ord(x) <= 0
    def __gt__(s, x): return s._ord(x) > 0
    def __ge__(s, x): return s._ord(x) >= 0

    def __repr__(s):
        return "&%r+%d" % (s.o, s.off)


class Fn:
    __slots__ = ("name",)

    def __init__(s, name):
        s.name = name

    def __repr__(s):
        return "@" + s.name

    @property
    def o(s):
        raise Fault("bad-deref", "data access to a function")


def wrap(r, w):
    if r.__class__ is not int:
        return r
    m = 1 << w
    r &= m - 1
    return r - m if r >= (m >> 1) else r


def uns(x, w):
    if x.__class__ is int:
        return x if x >= 0 else x + (1 << w)
    return x


def ult(x, y, w):
    if x.__class__ is int and y.__class__ is int:
        return uns(x, w) < uns(y, w)
    if x.__class__ is P or y.__class__ is P:
        return x < y
    # abstract numbers: negatives are huge as unsigned
    xn, yn = x < 0, y < 0
    if xn != yn:
        return bool(yn)
    return x < y


def ule(x, y, w):
    return not ult(y, x, w)


def trunc(x, w):
    c = x.__class__
    if c is int:
        if w == 1:
            return x & 1
        return wrap(x, w)
    if c is Undef:
        return x
    if c is A:
        if w == 64:
            return x
        if w <= 40 and not x.c and x.b == int(x.b):
            # W is a multiple of every power of two: only the residue is left
            return (int(x.b) & 1) if w == 1 else wrap(int(x.b), w)
        raise Limit("truncation of an unbounded value to i%d" % w)
    if isinstance(x, float):
        raise Limit("bits of a float")
    return x


def sdiv(x, y):
    if y.__class__ is int and y == 0:
        raise Fault("div-zero", "")
    if x.__class__ is A:
        return x.idiv(y)
    if y.__class__ is A:
        raise Limit("division by unbounded")
    q = abs(x) // abs(y)
    return q if (x >= 0) == (y >= 0) else -q


def srem(x, y):
    return x - sdiv(x, y) * y


def wovf(r, w):
    return (wrap(r, w), 0 if r.__class__ is not int or -(1 << (w - 1)) <= r < (1 << (w - 1)) else 1)


def uovf(r, w):
    return (wrap(r, w), 0 if r.__class__ is not int or 0 <= r < (1 << w) else 1)


def sat(r, w, signed):
    if r.__class__ is not int:
        return r
    lo, hi = (-(1 << (w - 1)), (1 << (w - 1)) - 1) if signed else (0, (1 << w) - 1)
    return wrap(max(lo, min(hi, r)), w)


def udiv(x, y, w):
    x, y = uns(x, w), uns(y, w)
    if y.__class__ is int and y == 0:
        raise Fault("div-zero", "")
    if x.__class__ is A:
        return x.idiv(y)
    if y.__class__ is A:
        raise Limit("division by unbounded")
    return wrap(x // y, w)


def urem(x, y, w):
    x, y = uns(x, w), uns(y, w)
    if y.__class__ is int and y == 0:
        raise Fault("div-zero", "")
    if y.__class__ is A:
        raise Limit("remainder")
    if x.__class__ is A:
        if x < 0 or x.b != int(x.b) or x.c:
            raise Limit("remainder")
        return int(x.b) % y
    return wrap(x % y, w)


def fdiv(x, y):
    if y.__class__ is not A and y == 0:
        if x == 0:
            return float("nan")
        return math.copysign(float("inf"), float(x) if x.__class__ is not A else (1 if x > 0 else -1))
    r = x / y
    return r


def fptoint(x, w):
    if x.__class__ is A:
        b = math.floor(x.b) if x > 0 else math.ceil(x.b)
        return A(x.a, b)
    if x.__class__ is Undef:
        return x
    if x != x or abs(x) >= 2.0 ** 64:
        # undefined in C; what every x86-64 compiler yields
        return -(1 << (w - 1))
    return wrap(int(x), w)


def itofp(x, w=None):
    if x.__class__ is int:
        if w:
            x = uns(x, w)
        return float(x)
    return x


def fadd(x, y):
    return x + y


class Engine:
    def __init__(self, text, trace=False):
        self.m = Module(text)
        self.m.build_di()
        self.ns = {}
        self.nblk = 0
        self.blk_info = []      # block id -> (func, file, line)
        self.linemap = {}       # func -> list (python line -> dbg)
        self.trace = trace
        self.trace_log = []
        self.py = {}
        self.objs = []
        self.nid = 0
        self.fuel = 0
        self.ub = []
        self.setup_ns()
        self.setup_globals()
        self.heap_from = len(self.objs)
        self.icepts = {}
        self.err = []
        self.strcache = {}

    # ---------------------------------------------------------------- memory
    def new(self, size, kind, name, zero=False):
        o = Obj(self.nid, size, kind, name, zero)
        self.nid += 1
        self.objs.append(o)
        return o

    def alloca(self, size, name):
        o = Obj(self.nid, size, "stack", name)
        self.nid += 1
        return P(o, 0)

    def malloc(self, n, zero=False, name="heap"):
        if not isinstance(n, int):
            raise Limit("allocation of unbounded size")
        if n < 0 or n > (1 << 40):
            raise Fault("huge-alloc", str(n))
        if self.sites and name == "heap":
            name = self.site()
        return P(self.new(n, "heap", name, zero), 0)

    sites = False   # name heap objects after the code that allocates them

    def site(self):
        out, fr = [], sys._getframe(2)
        while fr is not None and len(out) < 4:
            fn = fr.f_code.co_filename
            if fn.startswith("<ir:"):
                f = fn[4:-1]
                lm = self.linemap.get(f)
                d = lm[fr.f_lineno] if lm and fr.f_lineno < len(lm) else None
                fl, ln = self.m.loc(d)
                n = self.m.func_src(f)[0]
                if n not in ("bmalloc", "bcalloc", "brealloc", "bstrdup", "bstrndup"):
                    out.append("%s %s:%d" % (n, fl, ln))
            fr = fr.f_back
        return " < ".join(out) or "heap"

    def chk(self, p, size, wr):
        if p.__class__ is not P:
            if p.__class__ is Undef:
                raise Fault("uninitialised", "access through an uninitialised pointer")
            if p.__class__ is int and p == 0:
                raise Fault("null-deref", "%s of %d bytes through NULL" % ("write" if wr else "read", size))
            raise Fault("bad-deref", "access through non-pointer value %r" % (p,))
        o = p.o
        if o.flags:
            if o.flags & FREED:
                raise Fault("use-after-free", "%r" % (o,))
            if wr and o.flags & RO:
                raise Fault("readonly-write", "write to %r at offset %d" % (o, p.off))
        if p.off < 0 or p.off + size > o.size:
            raise Fault("out-of-bounds", "%s of %d bytes at offset %d of %r" % ("write" if wr else "read", size, p.off, o))
        return o

    def load(self, p, sz, k):
        if p.__class__ is P:
            o = p.o
            if not o.flags:
                e = o.data.get(p.off)
                if e is not None and e[0] == sz:
                    v = e[1]
                    if v.__class__ is int:
                        if k == "i":
                            return v
                    elif v.__class__ is not float or k == "f":
                        return v
                    return self.conv(v, sz, k)
        return self.load_slow(p, sz, k)

    def conv(self, v, sz, k):
        c = v.__class__
        if k == "f":
            if c is int:
                if v == 0:
                    return 0.0
                if sz == 8:
                    return _struct.unpack("<d", _struct.pack("<q", v))[0]
                return _struct.unpack("<f", _struct.pack("<i", v))[0]
            return v
        if k == "p":
            return v
        return v

    def load_slow(self, p, sz, k):
        o = self.chk(p, sz, False)
        off = p.off
        e = o.data.get(off)
        if e is not None and e[0] == sz:
            return self.conv(e[1], sz, k)
        # compose bytes
        bs = []
        anyundef = False
        for i in range(sz):
            b = self.byte(o, off + i)
            if b is None:
                anyundef = True
                bs.append(0)
            elif b.__class__ is not int:
                return self.part(o, off, sz, k)
            else:
                bs.append(b & 255)
        if anyundef:
            return UNDEF
        v = int.from_bytes(bytes(bs), "little", signed=True)
        return self.conv(v, sz, k)

    def part(self, o, off, sz, k):
        raise Limit("partial access to an abstract cell of %r at %d size %d" % (o, off, sz))

    def byte(self, o, off):
        d = o.data
        for back in range(0, 16):
            e = d.get(off - back)
            if e is not None:
                if e[0] > back:
                    v = e[1]
                    if v.__class__ is int:
                        return (v >> (8 * back)) & 255
                    if v.__class__ is Undef:
                        return None
                    if v.__class__ is float:
                        raw = _struct.pack("<d" if e[0] == 8 else "<f", v)
                        return raw[back]
                    return v
                break
        if o.zero:
            return 0
        if o.zr:
            for (a, b) in o.zr:
                if a <= off < b:
                    return 0
        return None

    def store(self, p, sz, v):
        if p.__class__ is P:
            o = p.o
            if not o.flags:
                off = p.off
                d = o.data
                e = d.get(off)
                if e is not None and e[0] == sz:
                    d[off] = (sz, v)
                    return
                if 0 <= off and off + sz <= o.size:
                    if d:
                        self.clear(o, off, sz)
                    d[off] = (sz, v)
                    return
        o = self.chk(p, sz, True)
        self.clear(o, p.off, sz)
        o.data[p.off] = (sz, v)

    def clear(self, o, off, sz):
        """remove cells overlapping [off, off+sz), preserving the bytes outside"""
        d = o.data
        end = off + sz
        if len(d) < 24:
            hit = [k for k, e in d.items() if k < end and k + e[0] > off]
        else:
            hit = [k for k in range(off - 15, end) if k in d and k + d[k][0] > off]
        for k in hit:
            e = d.pop(k)
            if k < off or k + e[0] > end:
                v = e[1]
                if v.__class__ is int:
                    for i in range(e[0]):
                        if not off <= k + i < end:
                            d[k + i] = (1, wrap((v >> (8 * i)) & 255, 8))
                else:
                    for i in range(e[0]):
                        if not off <= k + i < end:
                            d[k + i] = (1, UNDEF)

    def memcpy(self, d, s, n):
        if not isinstance(n, int):
            raise Limit("memcpy of unbounded size")
        if n == 0:
            return
        so = self.chk(s, n, False)
        do = self.chk(d, n, True)
        if so is do and d.off == s.off:
            return
        items = []
        soff = s.off
        end = soff + n
        covered = 0
        for k, e in list(so.data.items()):
            if k < end and k + e[0] > soff:
                if k >= soff and k + e[0] <= end:
                    items.append((k - soff, e))
                    covered += e[0]
                else:
                    for i in range(e[0]):
                        if soff <= k + i < end:
                            b = self.byte(so, k + i)
                            items.append((k + i - soff, (1, UNDEF if b is None or b.__class__ is not int else wrap(b, 8))))
                            covered += 1
        zs = []
        if covered < n:
            if so.zero:
                zs = [(0, n)]
            elif so.zr:
                zs = [(max(a, soff) - soff, min(b, end) - soff) for a, b in so.zr if a < end and b > soff]
        self.clear(do, d.off, n)
        if do.zero and covered < n:
            # bytes of the destination that become undef: mark explicitly
            have = set()
            for k, e in items:
                have.update(range(k, k + e[0]))
            for a, b in zs:
                have.update(range(a, b))
            for i in range(n):
                if i not in have:
                    do.data[d.off + i] = (1, UNDEF)
        elif do.zr and covered < n:
            do.zr = self.zsub(do.zr, d.off, d.off + n)
        for k, e in items:
            do.data[d.off + k] = e
        if zs and not do.zero:
            do.zr = (do.zr or []) + [(a + d.off, b + d.off) for a, b in zs]

    def zsub(self, zr, a, b):
        out = []
        for x, y in zr:
            if y <= a or x >= b:
                out.append((x, y))
            else:
                if x < a:
                    out.append((x, a))
                if y > b:
                    out.append((b, y))
        return out

    def memset(self, d, c, n):
        if not isinstance(n, int):
            raise Limit("memset of unbounded size")
        if n == 0:
            return
        o = self.chk(d, n, True)
        self.clear(o, d.off, n)
        if c == 0:
            if not o.zero:
                o.zr = (o.zr or []) + [(d.off, d.off + n)]
        else:
            for i in range(n):
                o.data[d.off + i] = (1, wrap(c, 8))

    def byval(self, p, n):
        q = self.alloca(n, "byval")
        self.memcpy(q, p, n)
        return q

    # ------------------------------------------------------------- snapshots
    def snapshot(self):
        return (len(self.objs), self.nid, [(o, dict(o.data), o.flags, o.size, o.zero, list(o.zr) if o.zr else None) for o in self.objs])

    def restore(self, s):
        n, nid, st = s
        del self.objs[n:]
        self.nid = nid
        for o, d, f, sz, z, zr in st:
            o.data = dict(d)
            o.flags, o.size, o.zero = f, sz, z
            o.zr = list(zr) if zr else None

    # ---------------------------------------------------------------- strings
    def cstr(self, p):
        out = []
        o = self.chk(p, 1, False)
        off = p.off
        d = o.data
        size = o.size
        while True:
            if off >= size:
                raise Fault("out-of-bounds", "unterminated string read in %r" % (o,))
            e = d.get(off)
            if e is not None and e[0] == 1:
                b = e[1]
            else:
                b = self.load(P(o, off), 1, "i")
            if b.__class__ is not int:
                raise Fault("uninitialised", "string read of uninitialised byte in %r" % (o,))
            if b == 0:
                break
            out.append(b & 255)
            off += 1
        return bytes(out).decode("latin1")

    def mkstr(self, s, kind="str"):
        b = s.encode("latin1") + b"\0"
        o = self.new(len(b), kind, "str:" + s)
        for i, c in enumerate(b):
            o.data[i] = (1, c if c < 128 else c - 256)
        return P(o, 0)

    # ---------------------------------------------------------------- globals
    def setup_globals(self):
        self.g = {}
        for name, gi in self.m.globals.items():
            o = self.new(gi["ty"].size, "tls" if gi["tls"] else "global", name)
            self.g[name] = P(o, 0)
        for name, gi in self.m.globals.items():
            o = self.g[name].o
            if gi["init"] is None:
                if name in ("stderr", "stdout", "stdin"):
                    o.data[0] = (8, P(self.new(8, "global", "FILE:" + name), 0))
                continue
            self.init_const(o, 0, gi["ty"], gi["init"])
            if gi["const"]:
                o.flags = RO
        self.ns["GL"] = self.g
        for name in self.g:
            self.ns["G_" + self.san(name)] = self.g[name]

    def init_const(self, o, off, t, s):
        s = s.strip()
        if s in ("zeroinitializer", "null"):
            if t.size:
                o.zr = (o.zr or []) + [(off, off + t.size)]
            return
        if s in ("undef", "poison"):
            return
        if s.startswith('c"'):
            b = self.cbytes(s)
            for i, c in enumerate(b):
                o.data[off + i] = (1, c if c < 128 else c - 256)
            return
        if t.k == "array" or t.k == "struct":
            if s.startswith("<{"):
                inner = s[2:match_close(s, 1) - 1]
            else:
                inner = s[1:match_close(s, 0) - 1]
            parts = split_top(inner)
            for i, pt in enumerate(parts):
                et, rest = self.m.ty(pt)
                eo = off + (i * t.el.size if t.k == "array" else t.offs[i])
                self.init_const(o, eo, et, rest)
            return
        v = self.const(t, s)
        o.data[off] = (t.size, v)

    def cbytes(self, s):
        q = s[2:s.rindex('"')]
        out = bytearray()
        i = 0
        while i < len(q):
            if q[i] == "\\":
                if q[i + 1] == "\\":
                    out.append(92)
                    i += 2
                else:
                    out.append(int(q[i + 1:i + 3], 16))
                    i += 3
            else:
                out.append(ord(q[i]))
                i += 1
        return bytes(out)

    def const(self, t, s):
        s = s.strip()
        if s == "true":
            return 1
        if s == "false":
            return 0
        if s == "null":
            return 0
        if s in ("undef", "poison"):
            return UNDEF
        if s == "zeroinitializer":
            return 0
        if t.k == "int":
            return trunc(int(s), t.bits)
        if t.k in ("double", "float"):
            if s.startswith("0x"):
                return _struct.unpack(">d", bytes.fromhex(s[2:].zfill(16)))[0]
            return float(s)
        if t.k == "ptr":
            if s.startswith("@"):
                n = s[1:]
                if n in self.m.funcs or n in self.m.declares:
                    return Fn(n)
                return self.g[n]
            if s.startswith("getelementptr"):
                inner = s[s.index("("):]
                inner = inner[1:match_close(inner, 0) - 1]
                parts = split_top(inner)
                bt = self.m.ty(parts[0])[0]
                base = self.const(self.m.ty("ptr")[0], self.m.ty(parts[1])[1])
                off = 0
                cur = bt
                for i, ix in enumerate(parts[2:]):
                    it, r = self.m.ty(ix)
                    v = int(r)
                    if i == 0:
                        off += v * cur.size
                    elif cur.k == "struct":
                        off += cur.offs[v]
                        cur = cur.fields[v]
                    else:
                        cur = cur.el
                        off += v * cur.size
                return P(base.o, base.off + off)
        raise ValueError("const %s %s" % (t.k, s))

    # ---------------------------------------------------------------- codegen
    def san(self, n):
        return re.sub(r"\W", lambda m: "_%x_" % ord(m.group(0)), n)

    def setup_ns(self):
        ns = self.ns
        ns.update(M=self, P=P, UNDEF=UNDEF, wrap=wrap, uns=uns, ult=ult, ule=ule, trunc=trunc, sdiv=sdiv, srem=srem, wovf=wovf, uovf=uovf, sat=sat,
                  udiv=udiv, urem=urem, fdiv=fdiv, fptoint=fptoint, itofp=itofp, Fault=Fault, Fn=Fn,
                  load=self.load, store=self.store, alloca=self.alloca, inf=float("inf"), nan=float("nan"))
        self.C = bytearray()
        ns["C"] = self.C
        for f in self.m.funcs:
            ns["f_" + self.san(f)] = self.stub(f)

    def stub(self, f):
        def st(*a):
            self.compile(f)
            return self.ns["f_" + self.san(f)](*a)
        st._stub = True
        return st

    def compile(self, f):
        if f in self.py:
            return self.py[f]
        cg = CodeGen(self, self.m.funcs[f])
        src = cg.gen()
        self.linemap[f] = cg.linemap
        code = compile(src, "<ir:%s>" % f, "exec")
        exec(code, self.ns)
        nm = "f_" + self.san(f)
        self.py[f] = self.ns[nm]
        if f in self.icepts:
            self.ns[nm] = self.wrap_icept(f)
        return self.py[f]

    def intercept(self, f, cb):
        """cb(engine, args, orig) replaces calls to f"""
        if f not in self.m.funcs:
            raise KeyError(f)
        self.compile(f)
        self.icepts[f] = cb
        self.ns["f_" + self.san(f)] = self.wrap_icept(f)

    def wrap_icept(self, f):
        orig = self.py[f]
        cb = self.icepts[f]

        def w(*a):
            return cb(self, a, orig)
        return w

    def unintercept(self, f):
        del self.icepts[f]
        self.ns["f_" + self.san(f)] = self.py[f]

    def call(self, f, *args):
        fn = self.ns.get("f_" + self.san(f))
        if fn is None:
            raise KeyError("no function " + f)
        ps = self.m.funcs[f]["params"] if f in self.m.funcs else ()
        if any(p[1].k == "double" for p in ps):       # a whole number given for a double is one
            args = [float(v) if v.__class__ is int and p[1].k == "double" else v for v, p in zip(args, ps)]
        return fn(*args)

    def icall(self, p, *args):
        if p.__class__ is not Fn:
            if p.__class__ is int and p == 0:
                raise Fault("null-call", "call through NULL")
            raise Fault("bad-call", "call through %r" % (p,))
        if p.name in self.m.funcs:
            return self.call(p.name, *args)
        return getattr(self, "x_" + p.name)(*args)

    def where(self, exc):
        """source call stack (innermost last) of a Python exception raised in analysed code"""
        out = []
        tb = exc.__traceback__
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if fn.startswith("<ir:"):
                f = fn[4:-1]
                lm = self.linemap.get(f)
                if lm:
                    d = lm[tb.tb_lineno] if tb.tb_lineno < len(lm) else None
                    fl, ln = self.m.loc(d)
                    out.append("%s %s:%d" % (self.m.func_src(f)[0], fl, ln))
            tb = tb.tb_next
        return out

    # -------------------------------------------------------------- externals
    hook = None     # called at every allocation / release (scheduling point)

    def x_malloc(self, n):
        if self.hook:
            self.hook()
        return self.malloc(n)

    def x_calloc(self, n, m):
        if self.hook:
            self.hook()
        return self.malloc(n * m, True)

    def x_free(self, p):
        if self.hook:
            self.hook()
        if p.__class__ is int and p == 0:
            return
        if p.__class__ is Undef:
            raise Fault("uninitialised", "free of an uninitialised pointer")
        if p.__class__ is not P:
            raise Fault("bad-free", "free of non-pointer %r" % (p,))
        o = p.o
        if o.flags & FREED:
            raise Fault("double-free", repr(o))
        if o.flags & RO:
            raise Fault("readonly-write", "free of %r" % (o,))
        if o.kind != "heap" or p.off != 0:
            raise Fault("bad-free", "free of %r+%d" % (o, p.off))
        o.flags |= FREED
        o.data = {}

    def x_realloc(self, p, n):
        if p.__class__ is int and p == 0:
            return self.malloc(n)
        o = self.chk(p, 0, True)
        if o.kind != "heap" or p.off != 0:
            raise Fault("bad-free", "realloc of %r" % (o,))
        q = self.malloc(n)
        m = min(n, o.size)
        if m:
            self.memcpy(q, p, m)
        self.x_free(p)
        return q

    def x_strlen(self, p): return len(self.cstr(p))

    def x_strcmp(self, a, b):
        a, b = self.cstr(a), self.cstr(b)
        return (a > b) - (a < b)

    def x_strcasecmp(self, a, b):
        a, b = self.cstr(a).lower(), self.cstr(b).lower()
        return (a > b) - (a < b)

    def x_strncmp(self, a, b, n):
        a, b = self.cstr(a)[:n], self.cstr(b)[:n]
        return (a > b) - (a < b)

    def x_strncasecmp(self, a, b, n):
        a, b = self.cstr(a)[:n].lower(), self.cstr(b)[:n].lower()
        return (a > b) - (a < b)

    def x_memcmp(self, a, b, n):
        for i in range(n):
            x, y = self.load(P(a.o, a.off + i), 1, "i") & 255, self.load(P(b.o, b.off + i), 1, "i") & 255
            if x != y:
                return -1 if x < y else 1
        return 0

    x_bcmp = x_memcmp

    def x_strstr(self, a, b):
        i = self.cstr(a).find(self.cstr(b))
        return 0 if i < 0 else P(a.o, a.off + i)

    def x_strchr(self, a, c):
        s = self.cstr(a)
        if (c & 255) == 0:
            return P(a.o, a.off + len(s))
        i = s.find(chr(c & 255))
        return 0 if i < 0 else P(a.o, a.off + i)

    def x_strrchr(self, a, c):
        s = self.cstr(a)
        i = s.rfind(chr(c & 255))
        return 0 if i < 0 else P(a.o, a.off + i)

    def putstr(self, d, s):
        b = s.encode("latin1") + b"\0"
        for i, c in enumerate(b):
            self.store(P(d.o, d.off + i), 1, c if c < 128 else c - 256)

    def x_strcpy(self, d, s):
        self.putstr(d, self.cstr(s))
        return d

    def x_strcat(self, d, s):
        n = len(self.cstr(d))
        self.putstr(P(d.o, d.off + n), self.cstr(s))
        return d

    def x_strdup(self, s):
        t = self.cstr(s)
        p = self.malloc(len(t) + 1)
        self.putstr(p, t)
        return p

    def x_memcpy(self, d, s, n):
        self.memcpy(d, s, n)
        return d

    x_memmove = x_memcpy

    def x_memset(self, d, c, n):
        self.memset(d, c, n)
        return d

    def x_abort(self):
        raise CAbort(self.err[-1] if self.err else "")

    def x___assert_fail(self, *a):
        raise CAbort("assert")

    def x_exit(self, c):
        raise Fault("exit", str(c))

    def fmt(self, f, args):
        out = []
        i = 0
        args = list(args)
        while i < len(f):
            c = f[i]
            if c != "%":
                out.append(c)
                i += 1
                continue
            m = re.match(r"%([-+ #0]*)(\d+|\*)?(?:\.(\d+|\*))?(hh|h|ll|l|z|j|t|L)?([a-zA-Z%])", f[i:])
            i += m.end()
            cv = m.group(5)
            if cv == "%":
                out.append("%")
                continue
            if m.group(2) == "*":
                args.pop(0)
            prec = m.group(3)
            if prec == "*":
                prec = args.pop(0)
            v = args.pop(0)
            w = 64 if m.group(4) in ("l", "ll", "z", "j", "t") else 32
            if cv == "s":
                out.append(self.cstr(v) if v.__class__ is P else "(null)" if v == 0 else str(v))
                if v.__class__ is not P and not (v.__class__ is int and v == 0):
                    raise Fault("bad-deref", "%%s of %r" % (v,))
            elif cv in "di":
                out.append(repr(v) if v.__class__ is A else str(wrap(v, w)))
            elif cv in "u":
                out.append(repr(v) if v.__class__ is A else str(uns(wrap(v, w), w)))
            elif cv in "xX":
                out.append("%x" % uns(v, w))
            elif cv in "fgeFGE":
                out.append(repr(v) if v.__class__ is A else "%.*f" % (int(prec) if prec is not None else 6, v))
            elif cv == "c":
                out.append(chr(v & 255))
            else:
                out.append("?")
        return "".join(out)

    def x_fprintf(self, fp, f, *a):
        try:
            self.err.append(self.fmt(self.cstr(f), a))
            del self.err[:-8]
        except (Limit, IndexError):
            pass
        return 0

    def x_printf(self, f, *a): return 0
    def x_puts(self, f): return 0
    def x_fputs(self, s, f):
        self.err.append(self.cstr(s))
        return 0
    def x_fputc(self, c, f): return 0
    def x_putchar(self, c): return 0
    def x_fflush(self, f): return 0
    def x_fwrite(self, p, a, b, f): return b

    def x_sprintf(self, d, f, *a):
        s = self.fmt(self.cstr(f), a)
        self.putstr(d, s)
        return len(s)

    def x_snprintf(self, d, n, f, *a):
        s = self.fmt(self.cstr(f), a)
        if n:
            self.putstr(d, s[:n - 1])
        return len(s)

    def x_vsnprintf(self, d, n, f, va):
        v = va.o.data[va.off][1]
        s = self.fmt(self.cstr(f), v.name)
        if n:
            self.putstr(d, s[:n - 1])
        return len(s)

    def va_start(self, p, args):
        self.store(p, 8, Fn(tuple(args)))

    def va_copy(self, d, s):
        self.store(d, 8, s.o.data[s.off][1])

    def strint(self, s, b):
        """C's reading of an integer in base b: (value, length)"""
        if b.__class__ is not int:
            raise Limit("base of a number")
        t = self.cstr(s)
        m = re.match(r"[ \t\n\v\f\r]*([-+]?)", t)
        i, sg = m.end(), m.group(1)
        if b in (0, 16) and re.match(r"0[xX][0-9a-fA-F]", t[i:]):
            b, i = 16, i + 2
        elif b == 0:
            b = 8 if t[i:i + 1] == "0" else 10
        v, k = 0, i
        while k < len(t):
            c = t[k]
            d = ord(c) - 48 if "0" <= c <= "9" else ord(c.lower()) - 87 if c.isascii() and c.isalpha() else 99
            if d >= b:
                break
            v, k = v * b + d, k + 1
        return (0, 0) if k == i else (-v if sg == "-" else v, k)

    def x_strtoll(self, s, e, b):
        v, n = self.strint(s, b)
        if e.__class__ is P:
            self.store(e, 8, P(s.o, s.off + n))
        return max(-(1 << 63), min((1 << 63) - 1, v))

    def x_strtoull(self, s, e, b):
        v, n = self.strint(s, b)
        if e.__class__ is P:
            self.store(e, 8, P(s.o, s.off + n))
        return wrap((1 << 64) - 1 if abs(v) >= 1 << 64 else v, 64)

    x_strtoul = x_strtoull
    x_strtoumax = x_strtoull
    x_strtoimax = x_strtoll
    x_strtol = x_strtoll
    def x_atoll(self, s): return self.x_strtoll(s, 0, 10)
    x_atol = x_atoll
    def x_atoi(self, s): return wrap(self.x_strtoll(s, 0, 10), 32)

    def x_strtod(self, s, e):
        t = self.cstr(s)
        m = re.match(r"\s*[-+]?(\d+\.?\d*|\.\d+)([eE][-+]?\d+)?", t)
        if e.__class__ is P:
            self.store(e, 8, P(s.o, s.off + (m.end() if m else 0)))
        return float(m.group(0)) if m else 0.0

    def x_atof(self, s): return self.x_strtod(s, 0)
    def x_strtof(self, s, e): return _struct.unpack("<f", _struct.pack("<f", self.x_strtod(s, e)))[0]
    def x_tolower(self, c): return c + 32 if 65 <= c <= 90 else c
    def x_toupper(self, c): return c - 32 if 97 <= c <= 122 else c
    def x_isatty(self, c): return 0
    def x_fileno(self, c): return 0

    def x___errno_location(self):
        if "errno" not in self.g:
            o = self.new(4, "global", "errno", True)
            self.g["errno"] = P(o, 0)
        return self.g["errno"]

    def x_strtok_r(self, s, d, save):
        delim = self.cstr(d)
        if s.__class__ is int:
            s = self.load(save, 8, "p")
            if s.__class__ is int:
                return 0
        t = self.cstr(s)
        i = 0
        while i < len(t) and t[i] in delim:
            i += 1
        if i == len(t):
            self.store(save, 8, P(s.o, s.off + i))
            return 0
        j = i
        while j < len(t) and t[j] not in delim:
            j += 1
        if j < len(t):
            self.store(P(s.o, s.off + j), 1, 0)
            self.store(save, 8, P(s.o, s.off + j + 1))
        else:
            self.store(save, 8, P(s.o, s.off + j))
        return P(s.o, s.off + i)

    def x_qsort(self, base, n, sz, cmp):
        if n == 0 or n == 1:
            return
        el = []
        for i in range(n):
            q = self.alloca(sz, "qsort")
            self.memcpy(q, P(base.o, base.off + i * sz), sz)
            el.append(q)
        # merge sort driven by the analysed comparator
        def ms(l):
            if len(l) < 2:
                return l
            h = len(l) // 2
            a, b = ms(l[:h]), ms(l[h:])
            r = []
            while a and b:
                c = self.icall(cmp, a[0], b[0])
                r.append(a.pop(0) if c <= 0 else b.pop(0))
            return r + a + b
        for i, q in enumerate(ms(el)):
            self.memcpy(P(base.o, base.off + i * sz), q, sz)

    def x_bsearch(self, key, base, n, sz, cmp):
        lo, hi = 0, n
        while lo < hi:
            mid = (lo + hi) // 2
            q = P(base.o, base.off + mid * sz)
            c = self.icall(cmp, key, q)
            if c == 0:
                return q
            if c < 0:
                hi = mid
            else:
                lo = mid + 1
        return 0

    def fl(self, x):
        if x.__class__ is A:
            raise Limit("transcendental of an unbounded value")
        return x

    def x_sin(self, x): return math.sin(self.fl(x))
    def x_cos(self, x): return math.cos(self.fl(x))
    def x_asin(self, x): return math.asin(self.fl(x))
    def x_acos(self, x): return math.acos(self.fl(x))
    def x_atan2(self, x, y): return math.atan2(self.fl(x), self.fl(y))
    def x_sqrt(self, x): return math.sqrt(self.fl(x))
    def x_pow(self, x, y): return math.pow(self.fl(x), self.fl(y))
    def x_fabs(self, x): return abs(x)

    def x_ceil(self, x):
        return x.__ceil__() if x.__class__ is A else x if x != x or abs(x) > 1e18 else float(math.ceil(x))

    def x_floor(self, x):
        return x.__floor__() if x.__class__ is A else x if x != x or abs(x) > 1e18 else float(math.floor(x))

    def x_llabs(self, x): return abs(x)
    x_labs = x_abs = x_llabs
    def x_round(self, x):
        if x.__class__ is A:
            return A(x.a, math.floor(x.b + 0.5) if x > 0 else math.ceil(x.b - 0.5))
        return float(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)

    def x_trunc(self, x):
        if x.__class__ is A:
            return A(x.a, math.floor(x.b) if x > 0 else math.ceil(x.b))
        return float(math.trunc(x))

    def x_rint(self, x):
        return x.__floor__() if x.__class__ is A and x.b == int(x.b) else float(round(self.fl(x)))

    x_nearbyint = x_rint

    def x_copysign(self, x, y):
        r = abs(x)
        return -r if y < 0 else r

    def x_fmin(self, x, y): return x if x < y else y
    def x_fmax(self, x, y): return x if x > y else y
    def x_fmod(self, x, y): return math.fmod(self.fl(x), self.fl(y))
    def x_log(self, x): return math.log(self.fl(x))
    def x_log2(self, x): return math.log2(self.fl(x))
    def x_exp(self, x): return math.exp(self.fl(x))
    def x_tan(self, x): return math.tan(self.fl(x))
    def x_atan(self, x): return math.atan(self.fl(x))
    def x_lround(self, x): return int(self.x_round(x)) if x.__class__ is not A else self.x_round(x)
    x_llround = x_lround

    def bits(self, k, x, w):
        if x.__class__ is not int:
            raise Limit("bits of an unbounded value")
        x = uns(x, w)
        if k == "ctpo":
            return bin(x).count("1")
        if k == "ctlz":
            return w - x.bit_length()
        if k == "cttz":
            return (x & -x).bit_length() - 1 if x else w
        return wrap(int.from_bytes(x.to_bytes(w // 8, "little"), "big"), w)

    def x_strnlen(self, p, n):
        for i in range(n):
            if self.load(P(p.o, p.off + i), 1, "i") == 0:
                return i
        return n

    def x_strspn(self, a, b):
        a, b = self.cstr(a), self.cstr(b)
        i = 0
        while i < len(a) and a[i] in b:
            i += 1
        return i

    def x_strcspn(self, a, b):
        a, b = self.cstr(a), self.cstr(b)
        i = 0
        while i < len(a) and a[i] not in b:
            i += 1
        return i

    def x_strpbrk(self, a, b):
        i = self.x_strcspn(a, b)
        return P(a.o, a.off + i) if i < len(self.cstr(a)) else 0

    def x_strcasestr(self, a, b):
        i = self.cstr(a).lower().find(self.cstr(b).lower())
        return 0 if i < 0 else P(a.o, a.off + i)

    def x_stpcpy(self, d, s):
        t = self.cstr(s)
        self.putstr(d, t)
        return P(d.o, d.off + len(t))

    def nstr(self, s, n):
        out = []
        for i in range(n):
            b = self.load(P(s.o, s.off + i), 1, "i")
            if b.__class__ is not int:
                raise Fault("uninitialised", "string read of uninitialised byte in %r" % (s.o,))
            if b == 0:
                break
            out.append(chr(b & 255))
        return "".join(out)

    def x_strncpy(self, d, s, n):
        t = self.nstr(s, n)
        for i in range(n):
            c = ord(t[i]) if i < len(t) else 0
            self.store(P(d.o, d.off + i), 1, wrap(c, 8))
        return d

    def x_strncat(self, d, s, n):
        k = len(self.cstr(d))
        self.putstr(P(d.o, d.off + k), self.nstr(s, n))
        return d

    def x_strndup(self, s, n):
        t = self.nstr(s, n)
        p = self.malloc(len(t) + 1)
        self.putstr(p, t)
        return p

    def x_memchr(self, s, c, n):
        for i in range(n):
            if (self.load(P(s.o, s.off + i), 1, "i") & 255) == (c & 255):
                return P(s.o, s.off + i)
        return 0

    def x_reallocarray(self, p, n, m): return self.x_realloc(p, n * m)
    def x_strcoll(self, a, b): return self.x_strcmp(a, b)

    def x_isalpha(self, c): return int(65 <= c <= 90 or 97 <= c <= 122)
    def x_isdigit(self, c): return int(48 <= c <= 57)
    def x_isalnum(self, c): return int(self.x_isalpha(c) or self.x_isdigit(c))
    def x_isspace(self, c): return int(c == 32 or 9 <= c <= 13)
    def x_isupper(self, c): return int(65 <= c <= 90)
    def x_islower(self, c): return int(97 <= c <= 122)
    def x_isprint(self, c): return int(32 <= c <= 126)
    def x_isxdigit(self, c): return int(48 <= c <= 57 or 65 <= c <= 70 or 97 <= c <= 102)
    def x_ispunct(self, c): return int(33 <= c <= 126 and not self.x_isalnum(c))

    def table(self, name, sz, f):
        if name not in self.g:
            o = self.new(384 * sz, "global", name)
            for c in range(-128, 256):
                o.data[(c + 128) * sz] = (sz, f(c))
            q = self.new(8, "global", name + "_p")
            q.data[0] = (8, P(o, 128 * sz))
            self.g[name] = P(q, 0)
        return self.g[name]

    def x___ctype_tolower_loc(self): return self.table("ctype_lower", 4, lambda c: self.x_tolower(c))
    def x___ctype_toupper_loc(self): return self.table("ctype_upper", 4, lambda c: self.x_toupper(c))

    def x___ctype_b_loc(self):
        def f(c):
            r = 0
            for bit, p in ((256, self.x_isupper), (512, self.x_islower), (1024, self.x_isalpha), (2048, self.x_isdigit), (4096, self.x_isxdigit),
                           (8192, self.x_isspace), (16384, self.x_isprint), (4, self.x_ispunct), (8, self.x_isalnum)):
                if 0 <= c < 128 and p(c):
                    r |= bit
            if c in (32, 9):
                r |= 1
            return wrap(r, 16)
        return self.table("ctype_b", 2, f)

    def x_strtoull(self, s, e, b):
        t = self.cstr(s)
        m = re.match(r"\s*[-+]?\d+", t)
        v = int(m.group(0)) if m else 0
        if e.__class__ is P:
            self.store(e, 8, P(s.o, s.off + (m.end() if m else 0)))
        return wrap(min(v, (1 << 64) - 1), 64)

    x_strtoul = x_strtoull
    def x_atol(self, s): return self.x_strtoll(s, 0, 10)

    def x_strtok(self, s, d):
        if "strtok" not in self.g:
            self.g["strtok"] = P(self.new(8, "global", "strtok", True), 0)
        return self.x_strtok_r(s, d, self.g["strtok"])

    def x_perror(self, s): return None
    def x_putc(self, c, f): return 0
    def x_vfprintf(self, f, s, v): return 0
    def x_vprintf(self, s, v): return 0

    def x_vsprintf(self, d, f, va):
        return self.x_vsnprintf(d, 1 << 30, f, va)

    def x_asprintf(self, pp, f, *a):
        s = self.fmt(self.cstr(f), a)
        p = self.malloc(len(s) + 1)
        self.putstr(p, s)
        self.store(pp, 8, p)
        return len(s)

    def x_vasprintf(self, pp, f, va):
        return self.x_asprintf(pp, f, *va.o.data[va.off][1].name)

    def __getattr__(self, n):
        if n.startswith("x_"):
            for pre in ("__isoc23_", "__isoc99_", "__builtin_", "__"):
                if n[2:].startswith(pre):
                    try:
                        return getattr(self, "x_" + n[2 + len(pre):])
                    except AttributeError:
                        break

            def un(*a):
                raise Limit("unmodelled external function " + n[2:])
            return un
        raise AttributeError(n)

    def x_rand(self): raise Limit("rand")


VAL_RE = re.compile(r'[%@\-\d]|(null|true|false|undef|poison|zeroinitializer|getelementptr|none)\b|c"')


class CodeGen:
    def __init__(self, eng, fn):
        self.e, self.fn = eng, fn
        self.out = []
        self.linemap = [None]
        self.dbg = None

    def emit(self, ind, s):
        self.out.append(" " * ind + s)
        self.linemap.append(self.dbg)

    def var(self, n):
        return "v" + self.e.san(n[1:])

    def val(self, t, s):
        s = s.strip()
        if s.startswith("%"):
            return self.var(s)
        if t.k == "ptr":
            if s.startswith("@"):
                n = s[1:]
                if n in self.e.m.funcs or n in self.e.m.declares:
                    return "Fn(%r)" % n
                return "G_" + self.e.san(n)
            if s.startswith("getelementptr"):
                p = self.e.const(t, s)
                return "P(G_%s.o,%d)" % (self.e.san(p.o.name), p.off)
        v = self.e.const(t, s)
        if v is UNDEF:
            return "UNDEF"
        if isinstance(v, int) and v < 0:
            return "(%d)" % v
        if isinstance(v, float):
            return "(%r)" % v
        return repr(v)

    def tv(self, s):
        """'type [attrs] value' -> (Ty, code)"""
        t, r = self.e.m.ty(s)
        r = r.strip()
        bv = None
        while not VAL_RE.match(r):
            m = re.match(r"([a-z_]+)", r)
            kw, e = m.group(1), m.end()
            if e < len(r) and r[e] == "(":
                c = match_close(r, e)
                if kw == "byval":
                    bv = self.e.m.ty(r[e + 1:c - 1])[0]
                e = c
            elif kw == "align":
                e = re.match(r"align \d+", r).end()
            r = r[e:].strip()
        c = self.val(t, r)
        if bv is not None:
            c = "M.byval(%s,%d)" % (c, bv.size)
        return t, c

    def gen(self):
        fn = self.fn
        self.preds = {b: 0 for b in fn["order"]}
        self.phis = {}
        self.idx = {b: i for i, b in enumerate(fn["order"])}
        succs = {}
        for b in fn["order"]:
            ph = []
            for s, d in fn["blocks"][b]:
                m = re.match(r"(%\S+) = phi (.*)$", s)
                if m:
                    t, r = self.e.m.ty(m.group(2))
                    inc = {}
                    for x in split_top(r):
                        x = x.strip()
                        mm = re.match(r"\[ (.*), (%\S+) \]$", x)
                        inc[mm.group(2)] = self.val(t, mm.group(1))
                    ph.append((self.var(m.group(1)), inc))
            self.phis[b] = ph
            term = fn["blocks"][b][-1][0]
            tg = []
            if term.startswith("br ") or term.startswith("switch "):
                tg = re.findall(r"label (%[\w.$-]+)", term)
            succs[b] = tg
            for x in set(tg):
                self.preds[x] += 1
        self.succs = succs
        args = ["a%d" % i for i in range(len(fn["params"]))]
        if fn["varargs"]:
            args.append("*va")
        self.emit(0, "def f_%s(%s):" % (self.e.san(fn["name"]), ", ".join(args)))
        for i, (n, t, bv) in enumerate(fn["params"]):
            self.emit(1, "%s=a%d" % (self.var(n), i))
        # allocas
        self.allocas = []
        for b in fn["order"]:
            for s, d in fn["blocks"][b]:
                m = re.match(r"(%\S+) = alloca (.*)$", s)
                if m:
                    t, r = self.e.m.ty(m.group(2))
                    cnt = 1
                    mm = re.match(r", i\d+ (\d+)", r)
                    if mm:
                        cnt = int(mm.group(1))
                    elif re.match(r", i\d+ %", r):
                        raise Limit("vla")
                    v = self.var(m.group(1))
                    self.emit(1, "%s=alloca(%d,%r)" % (v, t.size * cnt, fn["name"] + ":" + m.group(1)))
                    self.allocas.append(v)
        self.emit(1, "M.fuel-=1")
        self.emit(1, "if M.fuel<0: M.nofuel()")
        # blocks to dispatch: entry plus everything not inlined
        self.depth_cap = 60
        self.queue = [fn["order"][0]]
        self.done = set()
        bodies = {}
        while self.queue:
            b = self.queue.pop(0)
            if b in bodies:
                continue
            save_o, save_l = self.out, self.linemap
            self.out, self.linemap = [], []
            self.block(b, 0)
            bodies[b] = (self.out, self.linemap)
            self.out, self.linemap = save_o, save_l
        keys = sorted(bodies, key=lambda b: self.idx[b])
        if len(keys) == 1:
            self.paste(bodies[keys[0]], 1)
        else:
            self.emit(1, "b=%d" % self.idx[keys[0]])
            self.emit(1, "while True:")
            self.tree(keys, bodies, 2)
        return "\n".join(self.out)

    def tree(self, keys, bodies, ind):
        if len(keys) == 1:
            self.paste(bodies[keys[0]], ind)
            return
        h = len(keys) // 2
        self.emit(ind, "if b<%d:" % self.idx[keys[h]])
        self.tree(keys[:h], bodies, ind + 1)
        self.emit(ind, "else:")
        self.tree(keys[h:], bodies, ind + 1)

    def paste(self, body, ind):
        o, l = body
        for s, d in zip(o, l):
            self.out.append(" " * ind + s)
            self.linemap.append(d)

    def goto(self, ind, src, dst):
        """emit phi moves and transfer"""
        ph = self.phis[dst]
        if ph:
            l = ",".join(p[0] for p in ph)
            r = ",".join(p[1][src] for p in ph)
            if l != r:
                self.emit(ind, "%s=%s" % (l, r))
        if self.preds[dst] == 1 and ind < self.depth_cap and dst != self.fn["order"][0]:
            self.block(dst, ind)
        else:
            if self.idx[dst] <= self.idx[src]:
                self.emit(ind, "M.fuel-=1")
                self.emit(ind, "if M.fuel<0: M.nofuel()")
            self.emit(ind, "b=%d" % self.idx[dst])
            self.emit(ind, "continue")
            if dst not in self.queue:
                self.queue.append(dst)

    def block(self, b, ind):
        fn = self.fn
        ins = fn["blocks"][b]
        first = next((d for s, d in ins if d), None)
        k = len(self.e.C)
        self.e.C.append(0)
        fl, ln = self.e.m.loc(first)
        self.e.blk_info.append((fn["name"], fl, ln))
        self.emit(ind, "C[%d]=1" % k)
        for s, d in ins:
            self.dbg = d
            self.instr(b, s, ind)
        self.dbg = None

    def instr(self, b, s, ind):
        m = re.match(r"(%\S+) = (.*)$", s)
        dst = None
        if m:
            dst, s = self.var(m.group(1)), m.group(2)
        op = s.split(" ", 1)[0]
        if op in ("tail", "musttail", "notail"):
            s = s.split(" ", 1)[1]
            op = "call"
        rest = s[len(op):].strip()
        E = lambda c: self.emit(ind, c)
        ty = self.e.m.ty
        if op in ("phi", "alloca"):
            return
        if op == "load":
            rest = re.sub(r"^(volatile|atomic) ", "", rest)
            t, r = ty(rest)
            pt, p = self.tv(split_top(r.lstrip(", "))[0])
            if t.k == "struct":
                E("%s=(%s,)" % (dst, ",".join("load(%s,%d,%r)" % ("P(%s.o,%s.off+%d)" % (p, p, o) if o else p, f.size, self.kind(f)) for f, o in zip(t.fields, t.offs))))
            else:
                E("%s=load(%s,%d,%r)" % (dst, p, t.size, self.kind(t)))
                if t.k == "int" and t.bits == 1:
                    E("%s&=1" % dst)
            return
        if op == "store":
            rest = re.sub(r"^(volatile|atomic) ", "", rest)
            ps = split_top(rest)
            t, v = self.tv(ps[0])
            _, p = self.tv(ps[1])
            if t.k == "struct":
                for i, (f, o) in enumerate(zip(t.fields, t.offs)):
                    E("store(%s,%d,%s[%d])" % ("P(%s.o,%s.off+%d)" % (p, p, o) if o else p, f.size, v, i))
            else:
                E("store(%s,%d,%s)" % (p, t.size, v))
            return
        if op == "getelementptr":
            rest = re.sub(r"^(inbounds|nuw|nusw) ", "", rest)
            ps = split_top(rest)
            cur = ty(ps[0])[0]
            _, base = self.tv(ps[1])
            off, dyn = 0, []
            for i, ix in enumerate(ps[2:]):
                it, c = self.tv(ix)
                isc = re.match(r"^\(?-?\d+\)?$", c)
                if i == 0:
                    sz = cur.size
                elif cur.k == "struct":
                    k = int(c)
                    off += cur.offs[k]
                    cur = cur.fields[k]
                    continue
                else:
                    cur = cur.el
                    sz = cur.size
                if isc:
                    off += int(c.strip("()")) * sz
                else:
                    dyn.append("%s*%d" % (c, sz) if sz != 1 else c)
            if not dyn and off == 0:
                E("%s=%s" % (dst, base))
                return
            expr = "+".join([str(off)] * (1 if off or not dyn else 0) + dyn)
            E("%s=M.gep(%s,%s)" % (dst, base, expr))
            return
        if op == "icmp":
            m = re.match(r"(\w+) (.*)$", rest)
            pred = m.group(1)
            ps = split_top(m.group(2))
            t, x = self.tv(ps[0])
            y = self.val(t, ps[1])
            w = t.bits if t.k == "int" else 64
            simple = dict(eq="==", ne="!=", slt="<", sle="<=", sgt=">", sge=">=")
            if pred in simple:
                E("%s=1 if %s%s%s else 0" % (dst, x, simple[pred], y))
            else:
                f = dict(ult="ult(%s,%s,%d)" % (x, y, w), ugt="ult(%s,%s,%d)" % (y, x, w),
                         ule="ule(%s,%s,%d)" % (x, y, w), uge="ule(%s,%s,%d)" % (y, x, w))[pred]
                E("%s=1 if %s else 0" % (dst, f))
            return
        if op == "fcmp":
            rest = re.sub(r"^((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )+", "", rest)
            m = re.match(r"(\w+) (.*)$", rest)
            pred = m.group(1)
            ps = split_top(m.group(2))
            t, x = self.tv(ps[0])
            y = self.val(t, ps[1])
            o = dict(oeq="==", une="!=", olt="<", ole="<=", ogt=">", oge=">=", ueq="==", one="!=", ult="<", ule="<=", ugt=">", uge=">=")[pred]
            E("%s=1 if %s%s%s else 0" % (dst, x, o, y))
            return
        if op in ("add", "sub", "mul", "sdiv", "udiv", "srem", "urem", "and", "or", "xor", "shl", "lshr", "ashr"):
            nsw = " nsw" in " " + rest.split("%")[0]
            rest = re.sub(r"^((nuw|nsw|exact|disjoint) )+", "", rest)
            ps = split_top(rest)
            t, x = self.tv(ps[0])
            y = self.val(t, ps[1])
            w = t.bits
            if w == 1:
                o = dict(xor="^", add="^", sub="^")
                o.update({"and": "&", "or": "|", "mul": "&"})
                E("%s=%s%s%s" % (dst, x, o[op], y))
                return
            if op in ("add", "sub", "mul"):
                E("%s=%s%s%s" % (dst, x, dict(add="+", sub="-", mul="*")[op], y))
                E("if %s.__class__ is int and not %d<=%s<%d: %s=%s" % (dst, -(1 << (w - 1)), dst, 1 << (w - 1), dst,
                                                 ("M.ovf(%s,%d)" if nsw else "wrap(%s,%d)") % (dst, w)))
            elif op == "sdiv":
                E("%s=sdiv(%s,%s)" % (dst, x, y))
            elif op == "srem":
                E("%s=srem(%s,%s)" % (dst, x, y))
            elif op in ("udiv", "urem"):
                E("%s=%s(%s,%s,%d)" % (dst, op, x, y, w))
            elif op in ("and", "or", "xor"):
                E("%s=%s%s%s" % (dst, x, {"and": "&", "or": "|", "xor": "^"}[op], y))
            elif op == "shl":
                E("%s=wrap(%s<<(%s&%d),%d)" % (dst, x, y, w - 1, w))
            elif op == "lshr":
                E("%s=wrap(uns(%s,%d)>>%s,%d)" % (dst, x, w, y, w))
            elif op == "ashr":
                E("%s=%s>>%s" % (dst, x, y))
            return
        if op in ("fadd", "fsub", "fmul", "fdiv"):
            rest = re.sub(r"^((fast|nnan|ninf|nsz|arcp|contract|afn|reassoc) )+", "", rest)
            ps = split_top(rest)
            t, x = self.tv(ps[0])
            y = self.val(t, ps[1])
            v = "fdiv(%s,%s)" % (x, y) if op == "fdiv" else "%s%s%s" % (x, dict(fadd="+", fsub="-", fmul="*")[op], y)
            E("%s=%s" % (dst, "M.f32(%s)" % v if t.k == "float" else v))
            return
        if op == "fneg":
            t, x = self.tv(rest)
            E("%s=-%s" % (dst, x))
            return
        if op in ("zext", "sext", "trunc", "bitcast", "ptrtoint", "inttoptr", "fptosi", "fptoui", "sitofp", "uitofp", "fpext", "fptrunc", "freeze"):
            rest = re.sub(r"^(nneg|nuw|nsw) ", "", rest)
            if op == "freeze":
                t, x = self.tv(rest)
                E("%s=%s" % (dst, x))
                return
            m = re.match(r"(.*) to (.*)$", rest)
            t, x = self.tv(m.group(1))
            t2 = ty(m.group(2))[0]
            if op == "zext":
                E("%s=%s" % (dst, x) if t.bits == 1 else "%s=uns(%s,%d)" % (dst, x, t.bits))
            elif op == "sext":
                E("%s=%s%s" % (dst, "-" if t.bits == 1 else "", x))
            elif op == "trunc":
                E("%s=trunc(%s,%d)" % (dst, x, t2.bits))
            elif op in ("fptosi", "fptoui"):
                E("%s=fptoint(%s,%d)" % (dst, x, t2.bits))
            elif op == "sitofp":
                E(("%s=M.f32(itofp(%s))" if t2.k == "float" else "%s=itofp(%s)") % (dst, x))
            elif op == "uitofp":
                E(("%s=M.f32(itofp(%s,%d))" if t2.k == "float" else "%s=itofp(%s,%d)") % (dst, x, t.bits))
            elif op == "fptrunc":
                E("%s=M.f32(%s)" % (dst, x))
            else:
                E("%s=%s" % (dst, x))
            return
        if op == "select":
            ps = split_top(rest)
            _, c = self.tv(ps[0])
            _, x = self.tv(ps[1])
            _, y = self.tv(ps[2])
            E("%s=%s if %s else %s" % (dst, x, c, y))
            return
        if op == "extractvalue":
            ps = split_top(rest)
            t, x = self.tv(ps[0])
            E("%s=%s%s" % (dst, x, "".join("[%s]" % i for i in ps[1:])))
            return
        if op == "insertvalue":
            ps = split_top(rest)
            t, x = self.tv(ps[0])
            _, v = self.tv(ps[1])
            E("%s=M.insv(%s,%d,%s,%d)" % (dst, x if x != "UNDEF" else "None", len(t.fields), v, int(ps[2])))
            return
        if op == "call":
            self.call(dst, rest, ind)
            return
        if op == "br":
            m = re.match(r"label (%\S+)$", rest)
            if m:
                self.goto(ind, b, m.group(1))
                return
            m = re.match(r"i1 (\S+), label (%\S+), label (%\S+)$", rest)
            c = self.val(self.e.m.ty("i1")[0], m.group(1))
            if self.e.trace:
                self.emit(ind, "M.tr(%r,%s)" % (self.dbg, c))
            self.emit(ind, "if %s:" % c)
            self.goto(ind + 1, b, m.group(2))
            self.emit(ind, "else:")
            self.goto(ind + 1, b, m.group(3))
            return
        if op == "switch":
            m = re.match(r"(.*?), label (%\S+) \[(.*)\]\s*$", rest)
            t, x = self.tv(m.group(1))
            if self.e.trace:
                self.emit(ind, "M.tr(%r,%s)" % (self.dbg, x))
            cases = {}
            order = []
            for c, l in re.findall(r"i\d+ (-?\d+|true|false), label (%[\w.$-]+)", m.group(3)):
                if l not in cases:
                    cases[l] = []
                    order.append(l)
                cases[l].append(str(self.e.const(t, c)))
            kw = "if"
            for l in order:
                cond = " or ".join("%s==%s" % (x, c) for c in cases[l])
                if l == m.group(2):
                    continue
                self.emit(ind, "%s %s:" % (kw, cond))
                self.goto(ind + 1, b, l)
                kw = "elif"
            if kw == "if":
                self.goto(ind, b, m.group(2))
            else:
                self.emit(ind, "else:")
                self.goto(ind + 1, b, m.group(2))
            return
        if op == "ret":
            for a in self.allocas:
                self.emit(ind, "%s.o.flags=1" % a)
            if rest == "void":
                self.emit(ind, "return")
            else:
                t, x = self.tv(rest)
                self.emit(ind, "return %s" % x)
            return
        if op == "unreachable":
            self.emit(ind, "raise Fault('unreachable','')")
            return
        raise ValueError("instr " + s)

    def kind(self, t):
        return "p" if t.k == "ptr" else "f" if t.k in ("double", "float") else "i"

    def call(self, dst, rest, ind):
        rest = re.sub(r"^((fast|nnan|ninf|nsz|fastcc|ccc) )+", "", rest)
        # strip return attrs
        r = re.sub(r"^((noundef|zeroext|signext|noalias|nonnull|align \d+) )+", "", rest)
        t, r = self.e.m.ty(r)
        r = r.strip()
        if r.startswith("("):
            r = r[match_close(r, 0):].strip()
        m = re.match(r'(@"[^"]+"|@[\w.$]+|%[\w.$-]+)\(', r)
        cal = m.group(1)
        e = match_close(r, m.end() - 1)
        inner = r[m.end():e - 1]
        args = []
        for a in split_top(inner):
            if a.startswith("metadata"):
                return
            args.append(self.tv(a)[1])
        pre = "%s=" % dst if dst else ""
        n = cal[1:]
        if cal[0] == "%":
            self.emit(ind, "%sM.icall(%s)" % (pre, ",".join([self.var(cal)] + args)))
            return
        if n in self.e.m.funcs:
            self.emit(ind, "%sf_%s(%s)" % (pre, self.e.san(n), ",".join(args)))
            return
        if n.startswith("llvm."):
            k = n[5:]
            if k.startswith("memcpy") or k.startswith("memmove"):
                self.emit(ind, "M.memcpy(%s,%s,%s)" % tuple(args[:3]))
            elif k.startswith("memset"):
                self.emit(ind, "M.memset(%s,%s,%s)" % tuple(args[:3]))
            elif k.startswith("va_start"):
                self.emit(ind, "M.va_start(%s,va)" % args[0])
            elif k.startswith("va_copy"):
                self.emit(ind, "M.va_copy(%s,%s)" % tuple(args[:2]))
            elif k.startswith("va_end") or k.startswith("lifetime") or k.startswith("dbg") or k.startswith("assume"):
                pass
            elif k.startswith("expect"):
                self.emit(ind, "%s%s" % (pre, args[0]))
            elif k.startswith("fabs") or k.startswith("abs"):
                self.emit(ind, "%sabs(%s)" % (pre, args[0]))
            elif k.startswith("ceil"):
                self.emit(ind, "%sM.x_ceil(%s)" % (pre, args[0]))
            elif k.startswith("floor"):
                self.emit(ind, "%sM.x_floor(%s)" % (pre, args[0]))
            elif k.startswith("threadlocal.address") or k.startswith("ptr.annotation") or k.startswith("launder") or k.startswith("strip"):
                self.emit(ind, "%s%s" % (pre, args[0]))
            elif k.startswith("stacksave"):
                self.emit(ind, "%s0" % pre)
            elif k.startswith("stackrestore") or k.startswith("prefetch") or k.startswith("donothing") or k.startswith("sideeffect"):
                pass
            elif k.startswith("objectsize"):
                self.emit(ind, "%s-1" % pre)
            elif k.startswith("is.constant"):
                self.emit(ind, "%s0" % pre)
            elif k.startswith("round") or k.startswith("trunc") or k.startswith("rint") or k.startswith("nearbyint"):
                self.emit(ind, "%sM.x_%s(%s)" % (pre, re.match(r"[a-z]+", k).group(0), args[0]))
            elif k.startswith("sqrt"):
                self.emit(ind, "%sM.x_sqrt(%s)" % (pre, args[0]))
            elif k.startswith("copysign"):
                self.emit(ind, "%sM.x_copysign(%s,%s)" % (pre, args[0], args[1]))
            elif k.startswith(("ctpop", "ctlz", "cttz", "bswap")):
                self.emit(ind, "%sM.bits(%r,%s,%d)" % (pre, k[:4], args[0], int(k.rsplit("i", 1)[1])))
            elif re.match(r"[su](add|sub|mul)\.(with\.overflow|sat)", k):
                w = int(k.rsplit(".i", 1)[1])
                o = {"add": "+", "sub": "-", "mul": "*"}[k[1:4]]
                x, y = args[0], args[1]
                if k[0] == "u":
                    x, y = "uns(%s,%d)" % (x, w), "uns(%s,%d)" % (y, w)
                if "overflow" in k:
                    self.emit(ind, "%s%sovf(%s%s%s,%d)" % (pre, "w" if k[0] == "s" else "u", x, o, y, w))
                else:
                    self.emit(ind, "%ssat(%s%s%s,%d,%r)" % (pre, x, o, y, w, k[0] == "s"))
            elif k.startswith("umin") or k.startswith("umax"):
                w = int(k.rsplit("i", 1)[1])
                self.emit(ind, "%s%s if %sult(%s,%s,%d) else %s" % (pre, args[0], "" if k[1:4] == "min" else "not ", args[0], args[1], w, args[1]))
            elif k.startswith("minnum") or k.startswith("umin") or k.startswith("smin"):
                self.emit(ind, "%smin(%s,%s)" % (pre, args[0], args[1]))
            elif k.startswith("maxnum") or k.startswith("umax") or k.startswith("smax"):
                self.emit(ind, "%smax(%s,%s)" % (pre, args[0], args[1]))
            elif k.startswith("fmuladd") or k.startswith("fma"):
                self.emit(ind, "%s%s*%s+%s" % (pre, args[0], args[1], args[2]))
            elif k.startswith("trap"):
                self.emit(ind, "M.x_abort()")
            else:
                self.emit(ind, "raise Fault('unmodelled',%r)" % n)
            return
        self.emit(ind, "%sM.x_%s(%s)" % (pre, n, ",".join(args)))


def _gep(self, p, off):
    if p.__class__ is P:
        if off.__class__ is not int:
            if off.__class__ is Undef:
                return off
            raise Limit("pointer arithmetic with an unbounded offset")
        return P(p.o, p.off + off)
    if p.__class__ is int and p == 0:
        if off == 0:
            return 0
        return NullOff(off)
    if p.__class__ is Undef:
        return p
    if p.__class__ is NullOff:
        return NullOff(p.k + off)
    raise Fault("bad-deref", "member access through non-pointer value %r" % (p,))


class NullOff:
    """NULL plus an offset: any access is a null dereference"""
    __slots__ = ("k",)

    def __init__(s, k):
        s.k = k

    def __repr__(s):
        return "NULL+%r" % (s.k,)


Engine.gep = _gep
_chk0 = Engine.chk


def _chk(self, p, size, wr):
    if p.__class__ is NullOff:
        raise Fault("null-deref", "%s through NULL%+d" % ("write" if wr else "read", p.k))
    return _chk0(self, p, size, wr)


Engine.chk = _chk


def _f32(self, x):
    if x.__class__ is A:
        return x
    if x.__class__ is Undef:
        return x
    try:
        return _struct.unpack("<f", _struct.pack("<f", x))[0]
    except OverflowError:
        return math.copysign(float("inf"), x)


Engine.f32 = _f32


def _ovf(self, r, w):
    x = wrap(r, w)
    if x != r:
        raise Fault("signed-overflow", "%d does not fit in %d bits" % (r, w))
    return x


Engine.ovf = _ovf


def _nofuel(self):
    raise Fault("non-termination", "analysis fuel exhausted (unbounded loop or recursion)")


Engine.nofuel = _nofuel


def _insv(self, agg, n, v, i):
    l = list(agg) if agg is not None else [UNDEF] * n
    l[i] = v
    return tuple(l)


Engine.insv = _insv


def _tr(self, dbg, c):
    self.trace_log.append((dbg, c))


Engine.tr = _tr
