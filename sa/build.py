"""Compile /repo's current working tree to LLVM IR (never executed)."""
import glob, hashlib, os, shutil, subprocess, tempfile
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
LL = "/usr/lib/llvm-18/bin/"


def _run(c):
    r = subprocess.run(c, capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError("%s\n%s" % (" ".join(c), r.stderr[-3000:]))


def ir_text():
    src = sorted(glob.glob(REPO + "/src/*.c"))
    if len(src) < 10:
        raise RuntimeError("sources not found in " + REPO)
    d = tempfile.mkdtemp(prefix="betree-ir-")
    try:
        outs = []

        def one(f):
            o = os.path.join(d, os.path.basename(f) + ".bc")
            _run([LL + "clang", "-std=gnu11", "-O0", "-g", "-fno-eliminate-unused-debug-types", "-w", "-Xclang", "-disable-O0-optnone", "-fno-vectorize",
                  "-c", "-emit-llvm", "-I" + REPO + "/src", "-o", o, f])
            return o
        with ThreadPoolExecutor(8) as ex:
            outs = list(ex.map(one, src))
        a = os.path.join(d, "all.bc")
        _run([LL + "llvm-link", "-o", a] + outs)
        m = os.path.join(d, "m.ll")
        _run([LL + "opt", "-S", "-passes=mem2reg", a, "-o", m])
        with open(m) as fh:
            return fh.read(), src
    finally:
        shutil.rmtree(d, ignore_errors=True)
