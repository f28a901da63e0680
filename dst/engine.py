"""The engine under the simulated OpenMP runtime."""
import ctypes
import importlib.machinery
import importlib.util
import os
import sys
import types

from . import build

M = types.SimpleNamespace()


def load():
    if getattr(M, "kernel", None):
        return
    so = build.kernel()
    import pvtrace.engine
    ld = importlib.machinery.ExtensionFileLoader("pvtrace.engine._kernel", so)
    spec = importlib.util.spec_from_file_location("pvtrace.engine._kernel", so, loader=ld)
    k = importlib.util.module_from_spec(spec)
    sys.modules["pvtrace.engine._kernel"] = k
    ld.exec_module(k)
    pvtrace.engine._kernel = k
    M.kernel = k
    M.lib = ctypes.CDLL(so)
    M.lib.simomp_config.argtypes = [ctypes.c_ulonglong] + [ctypes.c_long] * 5
    M.lib.simomp_stats.argtypes = [ctypes.POINTER(ctypes.c_long)]
    M.lib.simomp_log.argtypes = [ctypes.c_long, ctypes.POINTER(ctypes.c_long)]
    M.lib.simomp_hook_runs.restype = ctypes.c_long
    from pvtrace.engine import api
    M.api = api
    M.tally = pvtrace.engine.tally_histories
    # the real clock only feeds EngineResult.elapsed
    api.time = types.SimpleNamespace(perf_counter=_ticks, time=_ticks, monotonic=_ticks)
    api.multiprocessing = types.SimpleNamespace(cpu_count=lambda: M.cpus)


M.cpus = 8
_t = [0.0]


def _ticks():
    _t[0] += 0.001
    return _t[0]


NAMES = ("accesses", "preemptions", "conflict_preemptions", "switches", "regions", "chunks", "conflicts", "max_threads", "hash", "nlog")
SERIAL = dict(seed=0, gap=0, maxpre=0, conflict=0, team=1, stall=-1)


_keep = []


def config(s, hook=None, at=-1):
    """Sets the schedule of the runs that follow.  `hook()` is called when the team has
    made `at` memory accesses, with the team suspended: another run in the same process."""
    M.lib.simomp_config(s["seed"], s["gap"], s["maxpre"], s["conflict"], s["team"], s["stall"])
    del _keep[:]
    if hook is not None:
        f = ctypes.CFUNCTYPE(None)(hook)
        _keep.append(f)
        M.lib.simomp_hook(f, at)


def stats():
    b = (ctypes.c_long * 10)()
    M.lib.simomp_stats(b)
    return dict(zip(NAMES, b))


def log():
    b = (ctypes.c_long * 4)()
    out = []
    for i in range(stats()["nlog"]):
        M.lib.simomp_log(i, b)
        out.append("access %d: thread %d -> %d (%s)" % (b[0], b[1], b[2], {0: "start", 1: "preempted", 2: "preempted at a conflicting access", 3: "atomic", 4: "runtime call", 5: "blocked"}[b[3]]))
    return out


def gen_schedule(r):
    return dict(seed=r.getrandbits(48), gap=r.choice([0, 20, 200, 2000, 20000]), maxpre=r.choice([3, 30, 300, 3000]), conflict=r.choice([0, 20, 60]),
                team=r.choice([0, 0, 0, 0, 1, 2]), stall=r.choice([-1, -1, -1, 0, 1]))


INT_KEYS = ("counts", "kind", "hit", "container", "adjacent", "component", "source", "rec_distinct", "rec_crossings", "rec_bins")
REAL_KEYS = ("position", "direction", "normal", "wavelength", "travelled", "duration")


def same(a, b, sums=True):
    """None, or what differs between two `data` dicts.  Bit-equal but for the order of summation."""
    import numpy as np
    for k in a:
        x, y = np.asarray(a[k]), np.asarray(b[k])
        if x.shape != y.shape:
            return "%s: shape %s, expected %s" % (k, y.shape, x.shape)
        if k == "rec_sums":
            if sums and not np.allclose(x, y, rtol=1e-9, atol=1e-30, equal_nan=True):
                return "%s: %s, expected %s" % (k, y.tolist(), x.tolist())
            continue
        if x.tobytes() != y.tobytes():
            d = np.argwhere(x != y)
            if len(d):
                i = tuple(d[0])
                return "%s differs in %d places, first %s: %r, expected %r" % (k, len(d), i, y[i].item(), x[i].item())
            if not np.array_equal(x, y, equal_nan=True):
                return "%s differs" % k
    return None


def digest(data):
    import hashlib
    import numpy as np
    h = hashlib.sha256()
    for k in sorted(data):
        if k != "rec_sums":
            h.update(k.encode() + np.ascontiguousarray(data[k]).tobytes())
    return h.hexdigest()[:16]
