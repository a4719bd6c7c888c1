"""The constants of the analysed program, read from its IR: where its behaviour can change with a size or a value.

Between two consecutive marks no comparison, mask, shift, remainder or narrowing with a constant can tell two sizes (or
values) apart, so the partitions of the checks take both sides of every mark. A change that introduces a new limit, a
narrower type or a special value introduces its mark, and with it the classes on both sides."""
import re

SKIP = re.compile(r"^(yy|xx|zz)(?!parse)|^(xx|zz)lex|^print_|^jsw_rb(t|err)|^llvm\.|^write_dot|^betree_print|^escape_name|^malloc|^exit")
OPS = {"icmp", "and", "or", "xor", "urem", "srem", "udiv", "sdiv", "select", "phi", "add", "sub", "mul", "store", "ret"}
INT = re.compile(r"(?<![\w.%@#])-?\d+(?![\w.])")


class Marks:
    def __init__(self, text):
        ints, where = set(), {}
        flts, strs, chars = set(), set(), set()
        glob = {}
        for m in re.finditer(r'^(@[\w.]+) = [^\n]*?constant \[\d+ x i8\] (?:c"((?:[^"\\]|\\..)*)"|zeroinitializer)', text, re.M):
            glob[m[1]] = re.sub(r"\\([0-9A-F]{2})", lambda x: chr(int(x[1], 16)), m[2] or "").rstrip("\0")
        fn = None
        skel = False

        def add(v, f):
            ints.add(v)
            where.setdefault(v, set()).add(f)
        for l in text.split("\n"):
            if l.startswith("define "):
                m = re.search(r"@([\w.]+)\(", l)
                fn = m[1] if m and not SKIP.search(m[1]) else None
                skel = fn is not None and fn[2:] == "parse"
                continue
            if fn is None or not l.startswith("  "):
                if l.startswith("}"):
                    fn = None
                continue
            if "@llvm." in l:
                continue
            l = re.split(r", !|, align ", l, maxsplit=1)[0]
            m = re.match(r"\s+(?:%[\w.\"-]+ = )?(?:tail |musttail |notail )?(\w+) (.*)", l)
            if not m:
                m = re.match(r"\s+i\d+ (-?\d+), label", l)
                if m and not skel:
                    add(int(m[1]), fn)
                continue
            op, r = m[1], m[2]
            if op in OPS or op == "call":
                if op == "call":
                    q = re.search(r"@([\w.]+)\(", r)
                    if q and re.match(r"(b?(malloc|calloc|realloc)|fprintf|printf|f?puts|snprintf|sprintf|memcpy|memset)$", q[1]):
                        continue
                    r = r.split("(", 1)[1] if "(" in r else r
                    if not (q and q[1] in ("abort", "__assert_fail")):
                        strs.update(glob[g] for g in re.findall(r"@[\w.]+", l) if g in glob)
                typ = re.match(r"(?:nsw |nuw |exact |\w+ )*?i8 ", r)
                for c in INT.findall(re.sub(r"(?<![\w])i\d+|\[ | \]|%[\w.\"-]+|@[\w.\"-]+|\w+=\w+", " ", r)):
                    v = int(c)
                    if op == "icmp" and typ and -128 <= v < 128:
                        chars.add(v & 255)
                    if skel and v in (200, 10000, -2):
                        continue
                    add(v, fn)
                    if op in ("and", "xor", "or"):
                        add(v + 1 if v > 0 else -v, fn)
                if "double " in r or "float " in r:
                    for c in re.findall(r"(?<![\w.%])-?\d+\.\d+e[+-]\d+|0x[0-9A-F]{16}", r):
                        if c.startswith("0x"):
                            import struct
                            v = struct.unpack(">d", bytes.fromhex(c[2:]))[0]
                        else:
                            v = float(c)
                        flts.add(v)
            elif op in ("shl", "lshr", "ashr"):
                q = re.search(r", (\d+)$", r)
                if q:
                    add(1 << int(q[1]), fn)
            elif op in ("trunc", "zext", "sext"):
                q = re.match(r"(?:nsw |nuw |nneg )*i(\d+) .* to i(\d+)", r)
                if q:
                    b = min(int(q[1]), int(q[2]))
                    if b > 1:
                        add(1 << b, fn)
                        add(1 << (b - 1), fn)
            elif op in ("fcmp", "fadd", "fsub", "fmul", "fdiv"):
                for c in re.findall(r"(?<![\w.%])-?\d+\.\d+e[+-]\d+|0x[0-9A-F]{16}", r):
                    if c.startswith("0x"):
                        import struct
                        flts.add(struct.unpack(">d", bytes.fromhex(c[2:]))[0])
                    else:
                        flts.add(float(c))
        self.ints = ints
        self.where = where
        self.floats = {v for v in flts if v == v and abs(v) < 1e15}
        self.strs = {s for s in strs if 0 < len(s) < 60 and '%' not in s and all(32 <= ord(c) < 127 and c not in '"\\' for c in s)}
        # 'char' is compared after its promotion to int
        self.chars = {c for c in chars | {v for v in ints if 32 <= v < 127} if 32 <= c < 127 and chr(c) not in '"\\'}

    def sizes(self, lo, hi):
        """sizes on both sides of every constant"""
        out = set()
        for v in self.ints:
            for d in (-1, 0, 1):
                if lo <= v + d <= hi:
                    out.add(v + d)
        return sorted(out)

    def values(self, lo=-(1 << 63), hi=(1 << 63) - 1):
        """values on both sides of every constant (and of its negation)"""
        out = set()
        for v in self.ints | {float(f) for f in self.floats if f == int(f)}:
            for s in (v, -v):
                for d in (-1, 0, 1):
                    if lo <= s + d <= hi:
                        out.add(int(s) + d)
        return sorted(out)
