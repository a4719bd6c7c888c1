"""Parser for the textual LLVM-18 IR of /repo (clang -O0 -g, mem2reg).

Produces a Module with types, globals, functions (blocks of decoded
instructions, each with its source location) and the debug-info tables this
analysis needs (struct layouts by field name, enumerators by name)."""
import re


class Ty:
    __slots__ = ("k", "size", "align", "el", "n", "fields", "offs", "bits")

    def __init__(s, k, size, align, el=None, n=0, fields=None, offs=None, bits=0):
        s.k, s.size, s.align, s.el, s.n, s.fields, s.offs, s.bits = k, size, align, el, n, fields, offs, bits


PTR = Ty("ptr", 8, 8)
VOID = Ty("void", 0, 1)
DBL = Ty("double", 8, 8)
FLT = Ty("float", 4, 4)
_ints = {}


def int_ty(b):
    if b not in _ints:
        sz = 1 if b <= 8 else 2 if b <= 16 else 4 if b <= 32 else 8
        if b > 64:
            sz = 16
        _ints[b] = Ty("int", sz, min(sz, 8), bits=b)
    return _ints[b]


def struct_ty(fields, packed=False):
    off, al, offs = 0, 1, []
    for f in fields:
        a = 1 if packed else f.align
        off = (off + a - 1) // a * a
        offs.append(off)
        off += f.size
        al = max(al, a)
    off = (off + al - 1) // al * al
    return Ty("struct", off, al, fields=fields, offs=offs)


def match_close(s, i):
    """index just past the bracket closing s[i]"""
    op = s[i]
    cl = {"(": ")", "[": "]", "{": "}", "<": ">"}[op]
    d = 0
    n = len(s)
    inq = False
    while i < n:
        c = s[i]
        if c == '"':
            inq = not inq
        elif not inq:
            if c == op:
                d += 1
            elif c == cl:
                d -= 1
                if d == 0:
                    return i + 1
        i += 1
    raise ValueError("unbalanced " + s)


def split_top(s):
    out, d, cur, inq = [], 0, 0, False
    for i, c in enumerate(s):
        if c == '"':
            inq = not inq
        elif inq:
            continue
        elif c in "([{<":
            d += 1
        elif c in ")]}>":
            d -= 1
        elif c == "," and d == 0:
            out.append(s[cur:i].strip())
            cur = i + 1
    t = s[cur:].strip()
    if t:
        out.append(t)
    return out


class Module:
    def __init__(self, text):
        self.typedefs = {}
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.declares = set()
        self.md = {}
        self.parse(text)

    # ---- types
    def ty(self, s):
        """parse a type at the start of s -> (Ty, rest)"""
        s = s.lstrip()
        if s.startswith("ptr"):
            return PTR, s[3:]
        if s.startswith("void"):
            return VOID, s[4:]
        if s.startswith("double"):
            return DBL, s[6:]
        if s.startswith("float"):
            return FLT, s[5:]
        if s.startswith("metadata"):
            return VOID, s[8:]
        m = re.match(r"i(\d+)", s)
        if m:
            return int_ty(int(m.group(1))), s[m.end():]
        if s[0] == "%":
            m = re.match(r'%("[^"]+"|[\w.$-]+)', s)
            return self.named(m.group(0)), s[m.end():]
        if s[0] == "[":
            e = match_close(s, 0)
            m = re.match(r"\[(\d+) x (.*)\]$", s[:e])
            el, _ = self.ty(m.group(2))
            n = int(m.group(1))
            return Ty("array", el.size * n, el.align, el=el, n=n), s[e:]
        if s[0] == "{":
            e = match_close(s, 0)
            return struct_ty([self.ty(x)[0] for x in split_top(s[1:e - 1])]), s[e:]
        if s.startswith("<{"):
            e = match_close(s, 1)
            return struct_ty([self.ty(x)[0] for x in split_top(s[2:e - 1])], True), s[e + 1:]
        raise ValueError("type? " + s[:60])

    def named(self, n):
        if n not in self.types:
            d = self.typedefs[n]
            self.types[n] = Ty("opaque", 0, 1) if d == "opaque" else self.ty(d)[0]
        return self.types[n]

    # ---- file
    def parse(self, text):
        lines = text.split("\n")
        i, n = 0, len(lines)
        for l in lines:
            if l.startswith("%"):
                m = re.match(r'(%\S+) = type (.*)$', l)
                if m:
                    self.typedefs[m.group(1)] = m.group(2)
            elif l.startswith("!"):
                m = re.match(r"!(\d+) = (.*)$", l)
                if m:
                    self.md[int(m.group(1))] = m.group(2)
        raw_globals = []
        while i < n:
            l = lines[i]
            if l.startswith("@"):
                raw_globals.append(l)
            elif l.startswith("declare"):
                m = re.search(r"@([\w.$]+)\(", l)
                self.declares.add(m.group(1))
            elif l.startswith("define"):
                j = i + 1
                while lines[j] != "}":
                    j += 1
                self.func(l, lines[i + 1:j])
                i = j
            i += 1
        for l in raw_globals:
            m = re.match(r'@("[^"]+"|[\w.$]+) = (.*)$', l)
            name, rest = m.group(1), m.group(2)
            const = " constant " in " " + rest.split("[")[0].split("{")[0] + " "
            m2 = re.search(r"\b(global|constant) (.*)$", rest)
            if not m2:
                continue
            ext = rest.startswith("external")
            tls = "thread_local" in rest.split(m2.group(1))[0]
            body = m2.group(2)
            t, init = self.ty(body)
            init = init.strip()
            dbg = re.search(r"!dbg !(\d+)", init)
            init = re.sub(r", (align \d+|!dbg !\d+|section \"[^\"]*\"|comdat.*)", "", init) if not init.startswith('c"') else init
            self.globals[name] = dict(ty=t, init=None if ext else init, const=const, tls=tls, ext=ext,
                                      dbg=int(dbg.group(1)) if dbg else None)
        self.locs = {}

    def loc(self, n):
        """metadata id of a DILocation -> (file, line)"""
        if n is None:
            return ("?", 0)
        if n in self.locs:
            return self.locs[n]
        s = self.md.get(n, "")
        m = re.search(r"line: (\d+)", s)
        line = int(m.group(1)) if m else 0
        m = re.search(r"scope: !(\d+)", s)
        f = self.scope_file(int(m.group(1))) if m else "?"
        self.locs[n] = (f, line)
        return self.locs[n]

    def scope_file(self, n, depth=0):
        s = self.md.get(n, "")
        m = re.search(r"file: !(\d+)", s)
        if m:
            fm = re.search(r'filename: "([^"]*)"', self.md.get(int(m.group(1)), ""))
            return fm.group(1).split("/")[-1] if fm else "?"
        m = re.search(r"scope: !(\d+)", s)
        if m and depth < 20:
            return self.scope_file(int(m.group(1)), depth + 1)
        return "?"

    # ---- functions
    def func(self, head, body):
        m = re.search(r'@("[^"]+"|[\w.$]+)\(', head)
        name = m.group(1)
        pre = head[:m.start()]
        p0 = m.end() - 1
        p1 = match_close(head, p0)
        params = []
        varargs = False
        for k, a in enumerate(split_top(head[p0 + 1:p1 - 1])):
            if a == "...":
                varargs = True
                continue
            t, rest = self.ty(a)
            mm = re.search(r"(%\S+)$", rest)
            byval = None
            bm = re.search(r"byval\(([^)]*)\)", rest)
            if bm:
                byval = self.ty(bm.group(1))[0]
            params.append((mm.group(1), t, byval))
        dm = re.search(r"!dbg !(\d+)", head[p1:])
        internal = " internal " in pre
        rt = re.sub(r"define|dso_local|internal|noundef|zeroext|signext|noalias|hidden", "", pre).strip()
        rett = self.ty(rt)[0]
        blocks, order = {}, []
        # entry label = number of params
        cur = "%" + str(len(params)) if all(re.match(r"%\d+$", p[0]) for p in params) else "%entry"
        blocks[cur] = []
        order.append(cur)
        k = 0
        while k < len(body):
            l = body[k]
            k += 1
            if not l.strip() or l.lstrip().startswith(";"):
                continue
            mm = re.match(r'^("[^"]+"|[\w.$-]+):', l)
            if mm:
                cur = "%" + mm.group(1)
                blocks[cur] = []
                order.append(cur)
                continue
            s = l.strip()
            if s.startswith("switch") and s.endswith("["):
                while not body[k].strip().startswith("]"):
                    s += " " + body[k].strip() + " ,"
                    k += 1
                s += " " + body[k].strip()
                k += 1
            dbg = None
            mm = re.search(r", !dbg !(\d+)", s)
            if mm:
                dbg = int(mm.group(1))
            s = re.sub(r"(, ![\w.]+ !\d+)+\s*$", "", s)
            if "@llvm.dbg." in s:
                continue
            blocks[cur].append((s, dbg))
        self.funcs[name] = dict(name=name, params=params, varargs=varargs, ret=rett, blocks=blocks, order=order,
                                internal=internal, dbg=int(dm.group(1)) if dm else None)

    def func_src(self, name):
        f = self.funcs[name]
        s = self.md.get(f["dbg"], "")
        m = re.search(r'name: "([^"]*)"', s)
        ln = re.search(r"line: (\d+)", s)
        return (m.group(1) if m else name, self.scope_file(f["dbg"]) if f["dbg"] else "?", int(ln.group(1)) if ln else 0)

    # ---- debug info tables
    def build_di(self):
        enums = {}
        for k, s in self.md.items():
            if "DIEnumerator(" in s:
                m = re.search(r'name: "([^"]+)", value: (-?\d+)', s)
                if m:
                    enums[m.group(1)] = int(m.group(2))
        self.enums = enums
        self.structs = {}
        self._typedef = {}
        for k, s in self.md.items():
            if s.startswith("distinct !DICompositeType(tag: DW_TAG_structure_type") or s.startswith("!DICompositeType(tag: DW_TAG_structure_type"):
                m = re.search(r'name: "([^"]+)"', s)
                if m and "elements:" in s and m.group(1) not in self.structs:
                    lay = self.layout(k, 0, "")
                    sz = int(re.search(r"size: (\d+)", s).group(1)) // 8
                    self.structs[m.group(1)] = dict(size=sz, fields=lay)
            elif "DW_TAG_typedef" in s:
                m = re.search(r'name: "([^"]+)".*baseType: !(\d+)', s)
                if m:
                    self._typedef[m.group(1)] = int(m.group(2))

    def strip(self, n):
        while n is not None:
            s = self.md[n]
            if "DIDerivedType(" in s and re.search(r"DW_TAG_(typedef|const_type|volatile_type|member)", s):
                m = re.search(r"baseType: !(\d+)", s)
                n = int(m.group(1)) if m else None
            else:
                return n
        return None

    def layout(self, n, base, prefix):
        """flatten (anonymous members included) -> {path: (off, size, kind)}"""
        out = {}
        s = self.md[n]
        m = re.search(r"elements: !(\d+)", s)
        if not m:
            return out
        for e in re.findall(r"!(\d+)", self.md[int(m.group(1))]):
            es = self.md[int(e)]
            if "DW_TAG_member" not in es:
                continue
            nm = re.search(r'name: "([^"]+)"', es)
            om = re.search(r"offset: (\d+)", es)
            off = base + (int(om.group(1)) // 8 if om else 0)
            szm = re.search(r"size: (\d+)", es)
            size = int(szm.group(1)) // 8 if szm else 0
            bt = re.search(r"baseType: !(\d+)", es)
            t = self.strip(int(bt.group(1)))
            ts = self.md[t] if t is not None else ""
            pth = prefix + (nm.group(1) if nm else "")
            if "DICompositeType(" in ts and ("structure_type" in ts or "union_type" in ts):
                sub = self.layout(t, off, pth + "." if nm else prefix)
                out.update(sub)
                if nm:
                    out[pth] = (off, size, "agg")
            else:
                kind = "i"
                if "DW_TAG_pointer_type" in ts:
                    kind = "p"
                elif "DW_ATE_float" in ts:
                    kind = "f"
                elif "enumeration_type" in ts:
                    kind = "e"
                elif "DW_TAG_array_type" in ts:
                    kind = "agg"
                out[pth] = (off, size, kind)
        return out
