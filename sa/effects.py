"""Type-directed effect analysis over the unlinked IR of every translation unit.

For each function: which memory it may write, as (object type, origin) pairs,
where origin is how the function got the object: created here, a parameter, a
global, or loaded from a field of some struct.  Effects on parameters are
propagated through the call graph to the callers' arguments (fixpoint)."""
import glob
import os
import re
import shutil
import tempfile
from concurrent.futures import ThreadPoolExecutor

from . import build
from .ll import Module, split_top, match_close

ALLOC = {"malloc", "calloc", "realloc", "strdup", "strndup", "aligned_alloc"}
# libc functions writing through argument k
WRITES = {"memcpy": [0], "memmove": [0], "memset": [0], "strcpy": [0], "strncpy": [0], "strcat": [0], "strncat": [0], "sprintf": [0], "snprintf": [0], "qsort": [0], "strtok_r": [0, 2], "strtok": [0],
          "vsnprintf": [0], "vsprintf": [0], "strtoll": [1], "strtol": [1], "strtod": [1], "strtoull": [1], "asprintf": [0], "vasprintf": [0], "free": [0], "realloc": [0], "fread": [0], "read": [1], "fgets": [0], "sscanf": [2, 3, 4]}
HIDDEN = {"strtok", "rand", "srand", "localtime", "gmtime", "ctime", "asctime", "setlocale", "strerror", "getenv", "setenv", "random", "drand48", "lrand48"}
RETARG = {"memcpy", "memmove", "memset", "strcpy", "strncpy", "strcat", "strncat", "strchr", "strrchr", "strstr", "realloc"}


def unlinked():
    src = sorted(glob.glob(build.REPO + "/src/*.c"))
    d = tempfile.mkdtemp(prefix="betree-tu-")
    try:
        def one(f):
            o = os.path.join(d, os.path.basename(f))
            build._run([build.LL + "clang", "-std=gnu11", "-O0", "-g", "-w", "-Xclang", "-disable-O0-optnone", "-fno-vectorize", "-c", "-emit-llvm", "-I" + build.REPO + "/src", "-o", o + ".bc", f])
            build._run([build.LL + "opt", "-S", "-passes=mem2reg", o + ".bc", "-o", o + ".ll"])
            with open(o + ".ll") as fh:
                return os.path.basename(f), fh.read()
        with ThreadPoolExecutor(8) as ex:
            return list(ex.map(one, src))
    finally:
        shutil.rmtree(d, ignore_errors=True)


class Fun:
    __slots__ = ("key", "mod", "f", "defs", "eff", "ret", "calls", "src", "params", "memo")


class Effects:
    def __init__(self):
        self.mods = {}
        self.funs = {}
        self.ext = {}
        self.taken = set()
        self.globals = {}
        for tu, text in unlinked():
            m = Module(text)
            self.mods[tu] = m
            for n, g in m.globals.items():
                self.globals[(tu, n)] = g
            for n, f in m.funcs.items():
                F = Fun()
                F.key, F.mod, F.f = (tu, n), m, f
                F.params = [p[0] for p in f["params"]]
                self.funs[(tu, n)] = F
                if not f["internal"]:
                    self.ext[n] = (tu, n)
        for F in self.funs.values():
            self.prepare(F)
        self.ret_origin()
        self.fix()

    # ---- per function
    def prepare(self, F):
        F.defs, F.calls, F.src = {}, [], F.mod.func_src(F.key[1])
        F.memo = {}
        for b in F.f["order"]:
            for s, dbg in F.f["blocks"][b]:
                m = re.match(r"(%\S+) = (.*)$", s)
                body = m.group(2) if m else s
                if m:
                    F.defs[m.group(1)] = body
                c = re.match(r"(?:tail |musttail |notail )?call\b", body)
                if c:
                    k = self.split_call(body)
                    if k:
                        F.calls.append((m.group(1) if m else None, k[0], k[1], dbg))
                for g in re.findall(r"@([\w.$]+)", body if not c else body[body.find("("):]):
                    if g in F.mod.funcs or g in F.mod.declares:
                        self.taken.add(self.resolve(F, "@" + g))

    def split_call(self, s):
        m = re.search(r"(@\"[^\"]+\"|@[\w.$]+|%[\w.$-]+)\(", s[s.find("call"):])
        if not m:
            return None
        st = s.find("call")
        # the callee is the last "name(" at top level that is followed by the argument list
        pos = st + m.start()
        callee = m.group(1)
        p0 = pos + len(callee)
        args = []
        for a in split_top(s[p0 + 1:match_close(s, p0) - 1]):
            args.append(a.split(" ")[-1] if not a.endswith(")") else a)
        return callee, args

    def resolve(self, F, callee):
        n = callee.lstrip("@")
        if (F.key[0], n) in self.funs:
            return (F.key[0], n)
        return self.ext.get(n, n)

    def targets(self, F, callee, nargs):
        if callee.startswith("@"):
            return [self.resolve(F, callee)]
        return [t for t in self.taken if t in self.funs and len(self.funs[t].params) == nargs]

    # ---- origin of a pointer: set of ("local"|"fresh"|"param",k|"global",name|"load",struct,field|"unknown")
    def origin(self, F, v, depth=0):
        """-> (set of origins, object type or None)"""
        if v in F.memo:
            return F.memo[v]
        F.memo[v] = (frozenset(), None)
        r = self._origin(F, v, depth)
        F.memo[v] = r
        return r

    def _origin(self, F, v, depth):
        if v in ("null", "undef", "poison"):
            return frozenset(), None
        if v.startswith("@"):
            return frozenset([("global", F.key[0], v[1:])]), None
        if v.startswith("getelementptr"):
            m = re.search(r"ptr (@[\w.$]+)", v)
            return frozenset([("global", F.key[0], m.group(1)[1:])] if m else [("unknown",)]), None
        if v in F.params:
            i = F.params.index(v)
            if F.f["params"][i][2] is not None:
                return frozenset([("local",)]), None
            return frozenset([("param", i)]), None
        d = F.defs.get(v)
        if d is None:
            return frozenset([("unknown",)]), None
        if d.startswith("alloca"):
            return frozenset([("local",)]), None
        if d.startswith("getelementptr"):
            st, base, fld = self.gep(d)
            o, t = self.origin(F, base)
            if st and st.startswith("%struct"):
                # writing inside a struct: the object is of that type (the outermost one known)
                return o, t if t and t.startswith("%struct") else st
            return o, t
        if d.startswith("phi"):
            r, t = set(), None
            for x in re.findall(r"\[ (\S+), %", d):
                o, t2 = self.origin(F, x)
                r |= o
                t = t or t2
            return frozenset(r), t
        if d.startswith("select"):
            r, t = set(), None
            for x in re.findall(r"ptr (\S+?)(?:,|$)", d):
                o, t2 = self.origin(F, x)
                r |= o
                t = t or t2
            return frozenset(r), t
        if d.startswith("load"):
            m = re.match(r"load ptr, ptr (\S+?),", d)
            if not m:
                return frozenset([("unknown",)]), None
            return frozenset([("load",) + self.slot(F, m.group(1))]), None
        if "call" in d[:16]:
            k = self.split_call(d)
            if k:
                r = set()
                for t in self.targets(F, k[0], len(k[1])):
                    if t in self.funs:
                        for o in getattr(self.funs[t], "ret", frozenset()) or ():
                            if o[0] == "param":
                                if o[1] < len(k[1]):
                                    r |= self.origin(F, k[1][o[1]])[0]
                            else:
                                r.add(o)
                    elif t in ALLOC:
                        r.add(("fresh",))
                    elif t in RETARG:
                        r |= self.origin(F, k[1][0])[0]
                    elif t in ("__errno_location",):
                        r.add(("local",))
                    else:
                        r.add(("unknown",))
                return frozenset(r), None
        if d.startswith(("extractvalue", "inttoptr", "freeze")):
            m = re.search(r"(%\S+?)(,|$)", d)
            return (self.origin(F, m.group(1))[0], None) if m else (frozenset([("unknown",)]), None)
        return frozenset([("unknown",)]), None

    def gep(self, d):
        body = re.sub(r"^getelementptr (inbounds )?(nuw )?", "", d)
        parts = split_top(body)
        ty = parts[0]
        base = parts[1].split(" ")[-1]
        idx = [p.split(" ")[-1] for p in parts[2:]]
        return ty, base, idx

    def slot(self, F, p, depth=0):
        """the struct type and field a pointer is loaded from (through array indexing)"""
        d = F.defs.get(p, "")
        if d.startswith("getelementptr"):
            ty, base, idx = self.gep(d)
            if ty.startswith("%struct") and len(idx) > 1:
                return (ty, idx[1])
            # array element: what holds the array
            if depth < 8:
                return self.slot(F, base, depth + 1)
        elif d.startswith("load"):
            m = re.match(r"load ptr, ptr (\S+?),", d)
            if m and depth < 8:
                return self.slot(F, m.group(1), depth + 1)
        elif d.startswith("alloca"):
            return ("local", d.split(" ")[1].rstrip(","))
        elif p in F.params:
            return ("param", str(F.params.index(p)))
        elif d.startswith("call") or d.startswith("tail call"):
            return ("call", d)
        elif p.startswith("@"):
            return ("global", p[1:])
        elif d.startswith("phi") and depth < 8:
            for x in re.findall(r"\[ (\S+), %", d):
                s = self.slot(F, x, depth + 1)
                if s[0].startswith("%struct"):
                    return s
        return ("?", p)

    def ret_origin(self):
        for F in self.funs.values():
            F.ret = frozenset()
        for _ in range(12):
            ch = False
            for F in self.funs.values():
                F.memo = {}
                if F.f["ret"].k != "ptr":
                    continue
                r = set()
                for b in F.f["order"]:
                    for s, dbg in F.f["blocks"][b]:
                        m = re.match(r"ret ptr (\S+)$", s)
                        if m:
                            r |= self.origin(F, m.group(1))[0]
                r = frozenset(r)
                if r != F.ret:
                    F.ret, ch = r, True
            if not ch:
                break
        for F in self.funs.values():
            F.memo = {}

    # ---- effects
    def fix(self):
        for F in self.funs.values():
            F.eff = {}
            for b in F.f["order"]:
                for s, dbg in F.f["blocks"][b]:
                    m = re.match(r"store .*, ptr (\S+?), align", s)
                    if m is None:
                        m = re.match(r"store .*, ptr (getelementptr.*\)), align", s)
                    if m:
                        o, t = self.origin(F, m.group(1))
                        self.add(F, o, t, ("store", F.key, dbg))
            for dst, callee, args, dbg in F.calls:
                n = callee.lstrip("@")
                if n.startswith("llvm.mem"):
                    n = n.split(".")[1]
                for t in self.targets(F, callee, len(args)):
                    nm = n if t not in self.funs else None
                    if nm in WRITES:
                        for k in WRITES[nm]:
                            if k < len(args):
                                o, ty = self.origin(F, args[k])
                                self.add(F, o, ty, (nm, F.key, dbg))
                    if nm in HIDDEN:
                        F.eff.setdefault((("global", "libc", nm), None), (nm, F.key, dbg))
        ch = True
        while ch:
            ch = False
            for F in self.funs.values():
                for dst, callee, args, dbg in F.calls:
                    for t in self.targets(F, callee, len(args)):
                        G = self.funs.get(t)
                        if not G:
                            continue
                        for (o, ty), site in list(G.eff.items()):
                            if o[0] == "param":
                                if o[1] < len(args):
                                    oo, ty2 = self.origin(F, args[o[1]])
                                    ch |= self.add(F, oo, ty or ty2, site)
                            elif o[0] not in ("local", "fresh"):
                                ch |= self.add(F, [o], ty, site)

    def add(self, F, origins, ty, site):
        ch = False
        for o in origins:
            if o[0] in ("local", "fresh"):
                continue
            if (o, ty) not in F.eff:
                F.eff[(o, ty)] = site
                ch = True
        return ch

    def reach(self, roots):
        seen, todo = set(), [self.ext[r] for r in roots if r in self.ext]
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            F = self.funs[k]
            for dst, callee, args, dbg in F.calls:
                for t in self.targets(F, callee, len(args)):
                    if t in self.funs:
                        todo.append(t)
        return seen

    def at(self, site):
        k, key, dbg = site
        f, l = self.mods[key[0]].loc(dbg)
        return "%s in %s (%s:%d)" % (k, self.funs[key].src[0], f, l)

    # ---- types reachable from a struct through its members and pointers (debug info)
    def type_reach(self, tu, name):
        m = self.mods[tu]
        ids = {}
        for k, s in m.md.items():
            if "DW_TAG_structure_type" in s and "elements:" in s:
                n = re.search(r'name: "([^"]+)"', s)
                if n:
                    ids.setdefault(n.group(1), k)
        seen, todo, visited = set(), [ids.get(name)], set()
        while todo:
            k = todo.pop()
            if k is None or k in visited:
                continue
            visited.add(k)
            s = m.md.get(k, "")
            if "DW_TAG_structure_type" in s:
                n = re.search(r'name: "([^"]+)"', s)
                if n:
                    seen.add("%struct." + n.group(1))
                    if "elements:" not in s and n.group(1) in ids:
                        todo.append(ids[n.group(1)])
            for ref in re.findall(r"(?:elements|baseType): !(\d+)", s):
                todo.append(int(ref))
            if s.startswith("!{"):
                todo += [int(x) for x in re.findall(r"!(\d+)", s)]
        return seen
