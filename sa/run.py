"""Check driver: builds the IR of /repo's working tree, runs the obligations of
one property over the abstract interpreter and the structural rules, writes the
evidence file and reports violations."""
import gc
import importlib
import json
import math
import multiprocessing as mp
import os
import sys
import time
import traceback

from .num import A, Limit
from .engine import Engine, Fault, CAbort, P, FREED, RO
from . import api as apim
from . import build
from . import marks

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOFAULT = object()


class Anchor(Exception):
    """something the analysis is anchored to is gone: no verdict"""


class T:
    """what an obligation sees: the analysed library and verdict recording"""

    def __init__(self, eng, ap):
        self.e, self.a = eng, ap
        self.sweep = None
        self.clear()

    def clear(self):
        self.n = 0
        self.fails = []
        self.und = []
        self.passbits = []
        self.tot = 0

    # -- coverage of the current obligation
    def begin(self):
        C = self.e.C
        self.tot |= int.from_bytes(C, "little")
        C[:] = bytes(len(C))

    def bits(self):
        return int.from_bytes(self.e.C, "little")

    def check(self, ok, msg):
        self.n += 1
        if ok:
            if len(self.passbits) < 400:
                self.passbits.append(self.bits())
        else:
            self.fails.append((msg() if callable(msg) else msg, None, self.bits()))

    def fault(self, ctx, exc):
        self.n += 1
        self.fails.append(("%s: the analysed code reaches %s" % (ctx, exc), self.e.where(exc), None))

    def limit(self, ctx, exc):
        self.n += 1
        self.und.append("%s: %s @ %s" % (ctx, exc, " > ".join(self.e.where(exc)[-2:])))

    def guard(self, ctx, f, *a, **k):
        """-> result or NOFAULT when the analysed code faults (recorded)"""
        try:
            return f(*a, **k)
        except Fault as x:
            self.fault(ctx, x)
        except Limit as x:
            self.limit(ctx, x)
        return NOFAULT

    def suspects(self, failbits, top=4):
        """source constructs most correlated with failure (spectrum ranking over analysed blocks)"""
        allf = [f[2] for f in self.fails if f[2]]
        nf = len(allf)
        best = []
        b, i = failbits, 0
        info = self.e.blk_info
        data = failbits.to_bytes((failbits.bit_length() + 7) // 8 or 1, "little")
        for i, c in enumerate(data):
            if not c or i >= len(info):
                continue
            m = 1 << (8 * i)
            ef = sum(1 for x in allf if x & m)
            ep = sum(1 for x in self.passbits if x & m)
            sc = ef / math.sqrt(max(1, nf) * (ef + ep)) if ef else 0
            best.append((-sc, i))
        best.sort()
        out, seen = [], set()
        for sc, i in best:
            f, fl, ln = info[i]
            if not fl:
                continue
            k = (f, ln)
            if k in seen:
                continue
            seen.add(k)
            out.append("%s:%s in %s" % (fl, ln, self.e.m.func_src(f)[0]))
            if len(out) >= top:
                break
        return out

    def result(self):
        C = self.e.C
        self.tot |= int.from_bytes(C, "little")
        fails = []
        for msg, where, bits in self.fails[:6]:
            if where is None and bits:
                where = ["suspect: " + s for s in self.suspects(bits)]
            fails.append((msg, where or []))
        data = self.tot.to_bytes((self.tot.bit_length() + 7) // 8 or 1, "little")
        info = self.e.blk_info
        blocks = {info[i] for i, c in enumerate(data) if c and i < len(info)}
        return dict(n=self.n, nf=len(self.fails), fails=fails, und=self.und[:5], nund=len(self.und), blocks=blocks)


G = {}


def _work(i):
    fn, args, label = G["tasks"][i]
    t = G["t"]
    t.clear()
    t.e.C[:] = bytes(len(t.e.C))
    t.a.reset()
    t0 = time.time()
    try:
        fn(t, *args)
    except Fault as x:
        t.fault(label, x)
    except Limit as x:
        t.limit(label, x)
    except RecursionError as x:
        t.und.append(label + ": recursion")
        t.n += 1
    except Exception:
        return dict(error="%s\n%s" % (label, traceback.format_exc()))
    try:
        r = t.result()
    except Exception:
        return dict(error=traceback.format_exc())
    r["label"] = label
    r["t"] = time.time() - t0
    return r


class Check:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.tasks = []
        self.rules = []
        self.notes = {}
        self.partition = ""
        self.samples = []
        self.assumptions = []

    quick = property(lambda s: s.tier != "thorough")

    def task(self, label, fn, *args):
        self.tasks.append((fn, args, label))

    def rule(self, name, fn):
        """fn(module/engine) -> (n instances, [violation text], detail)"""
        self.rules.append((name, fn))


def known(pid):
    out = []
    p = os.path.join(VERIF, "known-findings.txt")
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith("known: property=%s " % pid):
                out.append(l.split(" ", 2)[2])
    return out


def main(pid):
    tier = os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    sys.path.insert(0, VERIF)
    mod = importlib.import_module("checks." + pid.lower())
    from checks import consts
    try:
        text, srcs = build.ir_text()
        eng = Engine(text)
        ap = apim.Api(eng)
    except (RuntimeError, KeyError) as x:
        print("cannot analyse the tree: %s" % x)
        return 3
    t1 = time.time()
    t = T(eng, ap)
    ck = Check(pid, tier, seed)
    ck.eng, ck.api = eng, ap
    ck.repo = build.REPO
    ck.marks = marks.Marks(text)
    ck.text = text
    try:
        mod.build(ck)
        consts.extra(ck)
    except Anchor as x:
        print("anchor missing: %s" % x)
        return 3
    G["tasks"], G["t"] = ck.tasks, t
    viol, und, nund, nob, blocks, errors, slow = [], [], 0, 0, set(), [], []
    rules = []
    for name, fn in ck.rules:
        try:
            n, vs, detail = fn(ck)
        except Anchor as x:
            print("anchor missing for rule %s: %s" % (name, x))
            return 3
        rules.append(dict(rule=name, instances=n, violations=len(vs), detail=detail))
        nob += n
        for v in vs:
            viol.append(("rule %s: %s" % (name, v), []))
    if ck.tasks:
        # warm up: translate the functions used by the first obligation before forking
        nproc = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
        _work(len(ck.tasks) // 2)
        gc.collect()
        gc.freeze()
        gc.set_threshold(50000, 20, 20)
        with mp.get_context("fork").Pool(nproc) as pool:
            cs = 1
            for r in pool.imap_unordered(_work, range(len(ck.tasks)), chunksize=cs):
                if "error" in r:
                    errors.append(r["error"])
                    if len(errors) > 3:
                        break
                    continue
                nob += r["n"]
                nund += r["nund"]
                und += r["und"]
                blocks |= r["blocks"]
                slow.append((r["t"], r["label"]))
                viol += r["fails"]
                if len(viol) > 60:
                    break
            pool.terminate()
    funcs = sorted({"%s (%s)" % (eng.m.func_src(f)[0], fl) for f, fl, ln in blocks if fl})
    kn = known(pid)
    seen, out, knhit = set(), [], set()
    for msg, wh in viol:
        hit = [k for k in kn if k and msg.find(k) >= 0]
        if hit:
            knhit.update(hit)
            continue
        if msg in seen:
            continue
        seen.add(msg)
        out.append((msg, wh))
    for k in kn:
        print("KNOWN-FINDING: property=%s %s" % (pid, k))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    cov = dict(
        explanation="Static analysis of the LLVM IR that clang emits for /repo's current sources (nothing is executed). " + ck.partition,
        source_files=len(srcs), ir_functions=len(eng.m.funcs),
        abstract_obligations=nob, undecided=nund, scenarios=len(ck.tasks),
        analysed_functions=len(funcs), analysed_blocks=len(blocks), functions=funcs,
        structural_rules=rules, samples=ck.samples[:8] or [x[2] for x in ck.tasks[:8]],
        undecided_examples=und[:5], slowest=["%.1fs %s" % s for s in sorted(slow, reverse=True)[:3]])
    cov.update(ck.notes)
    ev = dict(property=pid, tier="thorough" if tier == "thorough" else "quick", seed=seed, level="other", coverage=cov,
              assumptions=ck.assumptions + ["clang -O0 IR is a faithful translation of the sources", "the libc models of sa/engine.py", "allocation succeeds"],
              wall_s=round(time.time() - t0, 2), violations=len(out))
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print("%s %s: %d obligations, %d undecided, %d scenarios, %d functions, %d blocks, %d rules, %.1fs (%.1fs start)"
          % (pid, tier, nob, nund, len(ck.tasks), len(funcs), len(blocks), len(rules), time.time() - t0, t1 - t0))
    if errors:
        print("internal error of the check:\n" + "\n".join(errors[:3]))
    if out:
        rp = os.path.join(VERIF, "evidence", pid + ".replay.txt")
        with open(rp, "w") as f:
            for msg, wh in out:
                f.write(msg + "\n" + "".join("    at %s\n" % w for w in wh) + "\n")
        for msg, wh in out[:5]:
            print(msg if len(msg) < 3000 else msg[:1500] + " ... " + msg[-1000:])
            for w in wh if len(wh) <= 40 else wh[:15] + ["(%d more)" % (len(wh) - 30)] + wh[-15:]:
                print("    at " + w)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        return 1
    if errors:
        return 3
    if nund and nund * 2 > nob:
        print("no verdict: most obligations are outside the abstract domain, e.g.\n" + "\n".join(und[:5]))
        return 2
    if nob == 0:
        print("no verdict: no obligation")
        return 2
    return 0
