"""C13: strings and enum values are told apart exactly, per attribute, up to the declared capacity and no further."""
import random
from .lib import *

BIG = (4096, 0)


def strings(n, rng):
    base = ["", "a", "b", "aa", "ab", "ba", "A", "a ", " a", "0", "00", "true", "é", "\x7f", "a" * 40, "a" * 41, "a" * 40 + "b", "b" + "a" * 40]
    out = list(base[:n])
    k = 0
    while len(out) < n:
        s = rng.choice(["%d", "s%d", "%d.com", "key-%d-x", "%05d", "x%dx"]) % k
        k += 1
        if s not in out:
            out.append(s)
    return out


def collide():
    """pairs of distinct short strings with equal (h * 33) ^ c hashes, whatever the starting value's parity"""
    out = []
    for h0 in (5381, 0):
        seen = {}
        for a in range(33, 127):
            for b in range(33, 127):
                if chr(a) in '"\\' or chr(b) in '"\\':
                    continue
                h = (((h0 * 33) ^ a) * 33) ^ b
                if h in seen and len(out) < 40:
                    out.append((seen[h], chr(a) + chr(b)))
                seen.setdefault(h, chr(a) + chr(b))
    return out


def step(h, c):
    return ((h * 33) & 0xffffffff) ^ c


def chain(n, bits=32):
    """n distinct strings whose hashes (start 5381, times 33, exclusive or) agree in the low bits"""
    ok = [c for c in range(97, 123)] + [c for c in range(48, 58)] + [45, 46, 95] + list(range(65, 91))
    if bits < 32:
        rng, out, m = random.Random(bits), [], {}
        while True:
            s = "".join(chr(rng.choice(ok)) for _ in range(7))
            h = 5381
            for c in s:
                h = step(h, ord(c))
            l = m.setdefault(h & ((1 << bits) - 1), {})
            l.setdefault(h, s)
            if len(l) >= n:
                return list(l.values())[:n]
    out, h = [""], 5381
    while len(out) < n:
        seen = {}
        for a in ok:
            for b in ok:
                seen.setdefault(step(step(h, a), b), []).append(chr(a) + chr(b))
        h, l = max(seen.items(), key=lambda x: len(x[1]))
        out = [x + y for x in out for y in l]
    return out[:n]


def alike(sizes, tails=3):
    """strings with a common beginning of every size and equal hashes"""
    out = []
    for n in sizes:
        p = ("prefix-" * (n // 7 + 1))[:n]
        h = 5381
        for c in p:
            h = step(h, ord(c))
        seen = {}
        for a in range(97, 123):
            for b in list(range(97, 123)) + list(range(48, 58)):
                seen.setdefault(step(step(h, a), b), []).append(p + chr(a) + chr(b))
        l = sorted((x for x in seen.values() if len(x) > 1), key=len)
        for x in l[-tails:]:
            out += x[:2]
    return list(dict.fromkeys(out))


def exprs(n, ty, vals, rng):
    if ty == "ienum":
        return [("eq", rng.choice(("=", "<>")), n, v) for v in vals]
    if ty == "slist":
        return [rng.choice([("in", "in", v, V(n)), ("in", "not in", v, V(n)), ("list", "one of", n, [v]), ("list", "none of", n, [v])]) for v in vals]
    return [rng.choice([("eq", "=", n, v), ("eq", "<>", n, v), ("in", "in", V(n), [v]), ("in", "not in", V(n), [v])]) for v in vals]


def many(t, ty, vals, cap, bound, seed, twin):
    """n distinct values of one attribute, one expression each; a second attribute uses the same values in another order"""
    rng = random.Random(seed)
    doms = [dom("x", ty, True, None, bound), dom("y", ty, True)] if twin else [dom("x", ty, True, None, bound)]
    ex = exprs("x", ty, vals, rng)
    if twin:
        ex = [e for p in zip(exprs("y", ty, vals[::-1], rng), ex) for e in p]
    w = World(doms, [(i + 1, e) for i, e in enumerate(ex)], *cap)
    if not setup(t, w):
        return
    unk = [12345, -77] if ty == "ienum" else ["unknown", "unknow", "s"]
    vs = vals if len(vals) < 24 else rng.sample(vals, 20) + vals[:2] + vals[-2:]
    evs = []
    for k, v in enumerate(vs + unk):
        o = vs[(k * 7 + 1) % len(vs)]
        if ty == "slist":
            v, o = [v, unk[0], rng.choice(vs)], [o]
        evs.append({"x": v, "y": o} if twin else {"x": v})
    events(t, w, evs + [{}])


def capacity(t, ty, bound, script, evs, cap):
    """script: formulas; each is accepted iff the values it adds fit"""
    doms = [dom("x", ty, True, None, bound), dom("z", ty, True, None, 2), dom("b", "bool")]
    declare(t, doms, *cap)
    w = World(doms, [], *cap)
    used = {"x": set(), "z": set()}
    limit = {"x": bound, "z": 2}
    for i, e in enumerate(script):
        t.begin()
        new = {n: used[n] | values(e, n) for n in used}
        ok = all(len(new[n]) <= limit[n] for n in used)
        r = t.guard("insert %s" % show(e), t.a.insert, i + 1, e)
        if r is NOFAULT:
            return
        t.check(bool(r) == ok, lambda: "attribute x of %s with capacity %d (z: 2): after the values %s, insert '%s' is %s" % (ty, bound, sorted(used["x"], key=str), show(e), "accepted" if r else "refused"))
        if bool(r) != ok:
            return
        if r:
            used = new
            w.subs.append((i + 1, e, None))
        if i % 2 or i > len(script) - 3:
            n0 = t.e.snapshot()
            events(t, w, evs[i % 3::3] if i < len(script) - 1 else evs)
            t.e.restore(n0)


def values(e, n):
    k = e[0]
    if k == "not":
        return values(e[1], n)
    if k in ("and", "or"):
        return values(e[1], n) | values(e[2], n)
    if k == "eq":
        return {e[3]} if e[2] == n else set()
    if k == "list":
        return set(e[3]) if e[2] == n else set()
    if k == "in":
        if isinstance(e[2], V):
            return set(e[3]) if e[2].n == n else set()
        return {e[2]} if e[3].n == n else set()
    return set()


def build(ck):
    ck.partition = ("Values enter the code only through equality, so the partition is by which values are equal, how many distinct ones an attribute has seen (up to several growths of the maps), and whether they fit the declared "
                    "capacity. Strings include the empty one, prefixes of each other, equal lengths, and pairs with equal hashes; integers of enums include abstract and extreme ones.")
    rng = random.Random(2)
    P = collide()
    for ty in ("str", "slist", "ienum"):
        for n in (1, 2, 3, 5, 16, 17, 33, 65, 130) if ck.quick else (1, 2, 3, 4, 5, 8, 9, 16, 17, 18, 32, 33, 34, 64, 65, 66, 129, 130, 257, 300):
            for k, cap in enumerate([BIG, (3, 0), (1, 0)]):
                if ck.quick and k and n > 40:
                    continue
                if ty == "ienum":
                    vals = ([0, -1, 1, A(1), A(1, 1), A(-3), 1 << 32, (1 << 32) + 1, I64MAX, -(1 << 63) + 1, 1 << 31, 256] + [A(5, z) for z in range(n)] + list(range(100, 100 + n)))[:n]
                else:
                    vals = strings(n, rng)
                    if n > 20:
                        vals = vals[:-12] + [s for p in P[:6] for s in p]
                    vals = list(dict.fromkeys(vals))
                ck.task("%d values of %s" % (n, ty), many, ty, vals, cap, [None, len(vals), len(vals) + 3][(n + k) % 3], n + k, n % 2 == 1)
    ck.task("equal hashes", many, "str", list(dict.fromkeys(s for p in P for s in p)), BIG, None, 3, True)
    for n, bits in ((40, 32), (12, 6)) if ck.quick else ((300, 32), (60, 6), (25, 9)):
        ck.task("%d strings that share %d bits of hash" % (n, bits), many, ("str", "slist")[n % 2], chain(n, bits), BIG, None, 4, False)
    for ty in ("str", "slist"):
        ck.task("equal hashes after a common beginning", many, ty, alike((7, 8, 15, 16, 31, 32, 63, 64, 65, 100, 127, 128, 200, 255, 256, 300)), BIG, None, 5, False)
    ck.task("equal hashes", many, "slist", list(dict.fromkeys(s for p in P for s in p)), (3, 0), None, 4, True)
    for ty in ("str", "slist", "ienum"):
        vals = ["v%d" % i for i in range(7)] if ty != "ienum" else [5, A(1), -1, 1 << 32, 0, 7, 8]
        for bound in (1, 2, 3, 5):
            for s in range(5 if ck.quick else 40):
                r = random.Random(s * 31 + bound)
                script = []
                for _ in range(14):
                    n = r.choice("xxxz") if s % 2 else "x"
                    pool = vals[:bound + 2]
                    def leaf():
                        m = r.choice((1, 1, 2, 3))
                        l = [r.choice(pool) for _ in range(m)]
                        if ty == "ienum":
                            return ("eq", r.choice(("=", "<>")), n, l[0])
                        if ty == "str":
                            return r.choice([("eq", "=", n, l[0]), ("eq", "<>", n, l[0]), ("in", r.choice(("in", "not in")), V(n), l)])
                        return r.choice([("in", r.choice(("in", "not in")), l[0], V(n)), ("list", r.choice(("one of", "none of", "all of")), n, l)])
                    e = leaf()
                    for _ in range(r.randrange(3)):
                        x = leaf() if r.random() < .7 else ("bool", "b")
                        e = (r.choice(("and", "or")), e, x) if r.random() < .5 else (r.choice(("and", "or")), x, ("not", e))
                    script.append(e)
                evs = [{"x": [v] if ty == "slist" else v, "z": [vals[0]] if ty == "slist" else vals[(k * 3) % 3], "b": k % 2 == 0} for k, v in enumerate(vals)] + [{"b": True}]
                ck.task("capacity %d of %s" % (bound, ty), capacity, ty, bound, script, evs, [(3, 0), (1, 0), BIG][s % 3])
