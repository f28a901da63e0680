"""Builds the native parts into /verif/.cache (keyed by content, so that a change
of /repo's kernel or of our own sources rebuilds)."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(HERE, ".cache")
PY = "/opt/venv/bin/python"


def _key(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str) and os.path.exists(p):
            with open(p, "rb") as fp:
                h.update(fp.read())
        else:
            h.update(repr(p).encode())
    return h.hexdigest()[:16]


def run(cmd, **kw):
    env = dict(os.environ)
    env.pop("LD_PRELOAD", None)
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, text=True, **kw)
    if p.returncode:
        from .harness import BuildFailure
        raise BuildFailure("build failed: %s\n%s" % (" ".join(cmd), p.stdout[-4000:]))
    return p.stdout


def shim():
    src = os.path.join(HERE, "native", "simdisk.c")
    out = os.path.join(CACHE, "simdisk-%s.so" % _key(src))
    if not os.path.exists(out):
        os.makedirs(CACHE, exist_ok=True)
        tmp = out + ".%d.tmp" % os.getpid()
        run(["gcc", "-O1", "-w", "-fPIC", "-shared", "-o", tmp, src, "-ldl"])
        os.replace(tmp, out)
    return out


def _includes():
    return run([PY, "-c", "import numpy, sysconfig; print(numpy.get_include()); print(sysconfig.get_paths()['include'])"]).split()


KFLAGS = ["-O2", "-fPIC", "-fsanitize=thread", "-fopenmp", "-w", "-DNPY_NO_DEPRECATED_API=NPY_1_7_API_VERSION"]


def kernel():
    """The engine kernel of the current tree, linked with the simulated OpenMP runtime."""
    repo = os.environ.get("DST_REPO", "/repo")
    eng = os.path.join(repo, "pvtrace", "engine")
    srcs = sorted(os.path.join(eng, f) for f in os.listdir(eng) if f.endswith((".pyx", ".pxd", ".pxi", ".h")))
    sim = os.path.join(HERE, "native", "simomp.c")
    key = _key(sim, KFLAGS, *srcs)
    out = os.path.join(CACHE, "kernel-%s.so" % key)
    if os.path.exists(out):
        return out
    os.makedirs(CACHE, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="kb-", dir=CACHE)
    try:
        for f in srcs:
            shutil.copy(f, tmp)
        run([os.path.join(os.path.dirname(PY), "cython"), "-3", "--module-name", "pvtrace.engine._kernel", "_kernel.pyx", "-o", "k.c"], cwd=tmp)
        inc = ["-I" + d for d in _includes()]
        run(["gcc"] + KFLAGS + inc + ["-c", "k.c", "-o", "k.o"], cwd=tmp)
        run(["gcc", "-O2", "-fPIC", "-w", "-c", sim, "-o", "s.o"], cwd=tmp)
        run(["gcc", "-shared", "-Wl,-Bsymbolic", "k.o", "s.o", "-lm", "-o", "k.so"], cwd=tmp)
        os.replace(os.path.join(tmp, "k.so"), out)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    return out


def setup():
    shim()
    kernel()
