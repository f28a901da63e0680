"""The simulate/analyse pipeline world: the real command line application, its
recorder thread, its worker processes (forked, baton-driven), a simulated manager
queue, the real sqlite on a recorded disk, and a stub viewer."""
import collections
import contextlib
import io
import itertools
import json
import os
import pickle
import random
import signal
import sqlite3
import sys
import types

from . import choice, disk, fakes, harness, patch, sched

M = types.SimpleNamespace()     # pvtrace modules, filled by load()
HOOK = None                     # per-run tracer hook


class Dispatch(io.TextIOBase):
    """stdout/stderr per simulated task."""

    def __init__(self, real):
        self.real = real

    def _buf(self):
        s, t = sched.current()
        if s is None:
            return None
        return s.__dict__.setdefault("_out", {}).setdefault(t.name, [])

    def write(self, x):
        if not isinstance(x, str):
            raise TypeError("write() argument must be str")
        if patch.CHILD is not None:
            return len(x)
        b = self._buf()
        if b is None:
            return self.real.write(x)
        b.append(x)
        return len(x)

    def flush(self):
        if patch.CHILD is None:
            self.real.flush()

    def isatty(self):
        return False

    def fileno(self):
        return self.real.fileno()

    @property
    def encoding(self):
        return "utf-8"

    @property
    def buffer(self):
        return self.real.buffer

    def writable(self):
        return True


def _dst_step(orig):
    def step(*args, **kw):
        h = HOOK
        g = orig(*args, **kw)
        if h is None:
            return g
        return h.steps(g, args, kw)
    return step


def load():
    """Imports pvtrace with every seam in place."""
    if getattr(M, "main", None):
        return
    patch.install()
    fakes.install()
    sys.stdout = Dispatch(sys.stdout)
    sys.stderr = Dispatch(sys.stderr)
    import typer
    real_pb = typer.progressbar

    def progressbar(*a, **k):
        bar = real_pb(*a, **k)
        s, _ = sched.current()
        if s is not None:
            rec = s.__dict__.setdefault("progress", [])
            entry = dict(length=bar.length, pos=[0])
            rec.append(entry)
            orig = bar.make_step

            def make_step(n):
                r = orig(n)
                entry["pos"].append(bar.pos)
                return r
            bar.make_step = make_step
        return bar
    typer.progressbar = progressbar
    import logging
    logging.disable(logging.CRITICAL)
    import numpy as np
    M.np = np
    import pvtrace
    from pvtrace.cli import main as climain
    from pvtrace.algorithm import photon_tracer
    from pvtrace.scene import scene as scenemod
    from pvtrace.light.event import Event
    from pvtrace.light.ray import Ray
    M.pvtrace, M.climain, M.tracer, M.scenemod, M.Event, M.Ray = pvtrace, climain, photon_tracer, scenemod, Event, Ray
    f = photon_tracer.step_forward
    orig = types.FunctionType(f.__code__, f.__globals__, "step_forward", f.__defaults__, f.__closure__)
    orig.__kwdefaults__ = f.__kwdefaults__
    photon_tracer.__dict__["__dst_step__"] = _dst_step(orig)

    def tmpl(*args, **kwargs):
        return __dst_step__(*args, **kwargs)  # noqa: F821
    f.__defaults__ = None
    f.__kwdefaults__ = None
    f.__code__ = tmpl.__code__
    M.main = climain


# ---------------------------------------------------------------------------
# what the tracer yields, recorded out of band

def event_values(ray, event, metadata):
    m = metadata or {}
    normal = m.get("normal")
    normal = (None, None, None) if normal is None else tuple(float(x) for x in normal)
    return (event.name, m.get("component"), m.get("hit"), m.get("container"), m.get("adjacent"), m.get("facet")) + normal + \
        tuple(float(x) for x in ray.position) + tuple(float(x) for x in ray.direction) + \
        (float(ray.wavelength), ray.source, float(ray.travelled), float(ray.duration))


class WorkerKilled(BaseException):
    pass


class TracerHook:
    """Installed as HOOK for a run; works in the main process and in workers."""

    def __init__(self, case):
        self.case = case
        self.records = []           # main process records: (ray ordinal, values)
        self.nray = 0
        self.nev = 0
        self.mode = case.get("tracer", "real")
        self.faults = [f for f in case.get("faults", []) if f["kind"].startswith("worker_")]
        self.fired = {}
        self.rnd = None
        self.truth = case.get("truth", True)

    def _task(self):
        c = patch.CHILD
        return (c.name, c.ntask) if c is not None else ("main", 0)

    def steps(self, gen, args, kw):
        if self.mode != "real":
            # synthetic events follow numpy's state, as real ones do
            self.rnd = random.Random(int(M.np.random.randint(0, 2 ** 31 - 1)))
        r = self.nray
        self.nray += 1
        ray = args[1] if len(args) > 1 else kw["ray"]
        if self.mode == "stub":
            gen = stub_history(self.rnd, ray)
        elif self.mode == "augment":
            gen = augment(gen, self.rnd)
        limit = self.case.get("max_events", 400)
        n = 0
        for item in gen:
            self.nev += 1
            n += 1
            for f in self.faults:
                if self._matches(f):
                    self._fire(f)
            if self.truth:
                self._record((r,) + event_values(*item))
            yield item
            if n >= limit:
                break

    def _matches(self, f):
        c = patch.CHILD
        if f.get("at") != self.nev:
            return False
        if c is None:
            return f.get("task", 0) in (0, None) and f["kind"] == "worker_raise"
        return int(c.name.rsplit(".", 1)[1]) == f.get("task", 0) if "." in c.name else True

    def _fire(self, f):
        if f["kind"] == "worker_kill":
            c = patch.CHILD
            c.rpc("side", "fault", "worker_kill")
            os._exit(9)
        c = patch.CHILD
        if c is not None:
            c.side.append(("fault", f["kind"]))
        else:
            s, _ = sched.current()
            s.count("fault:" + f["kind"])
        raise {"ValueError": ValueError, "MemoryError": MemoryError, "TraceError": RuntimeError}[f.get("exc", "ValueError")](
            "simulated tracer failure")

    def _record(self, rec):
        c = patch.CHILD
        if c is not None:
            c.side.append(("ev", c.name, c.ntask, rec))
        else:
            self.records.append((("main", 0), rec))


STUB_NODES = ["world", "box", "ball", "rod"]


def stub_history(rnd, ray):
    """A synthetic event stream: any sequence the recorder may be asked to store."""
    E = M.Event
    nodes = STUB_NODES
    comps = ["dye", "bg", "haze"]
    facets = [None, None, "top", "left"]
    t = 0.0

    def move():
        nonlocal ray, t
        d = rnd.random() + 1e-3
        p = tuple(a + b * d for a, b in zip(ray.position, ray.direction))
        t += d
        from dataclasses import replace
        kw = dict(position=p, travelled=ray.travelled + d, duration=ray.duration + d * 3e-9)
        if rnd.random() < 0.3:
            kw["wavelength"] = 400.0 + 400.0 * rnd.random()
        ray = replace(ray, **kw)
    yield ray, E.GENERATE, None
    for _ in range(rnd.choice([0, 0, 1, 2, 3, 5, 8])):
        move()
        k = rnd.choice([E.REFLECT, E.TRANSMIT, E.REFLECT, E.TRANSMIT, E.ABSORB])
        a, b = rnd.sample(nodes, 2)
        if k is E.ABSORB:
            c = rnd.choice(comps)
            yield ray, k, {"component": c, "container": a}
            yield ray, rnd.choice([E.EMIT, E.SCATTER]), {"component": c, "container": a, "emit_method": "kT"}
        else:
            n = rnd.choice([(0.0, 0.0, 1.0), (0.0, 0.0, -1.0), (1.0, 0.0, 0.0), (0.0, 1.0, 0.0), (0.6, 0.8, 0.0)])
            md = {"hit": rnd.choice([a, b]), "container": a, "adjacent": b, "normal": n}
            f = rnd.choice(facets)
            if f:
                md["facet"] = f
            yield ray, k, md
    move()
    k = rnd.choice([E.EXIT, E.NONRADIATIVE, E.REACT, E.KILL])
    a = rnd.choice(nodes)
    if k is E.EXIT:
        yield ray, k, {"hit": "world", "container": "world", "adjacent": None}
    elif k is E.KILL:
        yield ray, k, {"maxsteps": 1001, "maxpathlength": ray.travelled, "container": a}
    else:
        c = rnd.choice(comps)
        yield ray, E.ABSORB, {"component": c, "container": a}
        yield ray, k, {"component": c, "container": a}


def augment(gen, rnd):
    """The real stream, with facet labels and some losses relabelled as reactions."""
    E = M.Event
    for ray, event, md in gen:
        if event in (E.REFLECT, E.TRANSMIT) and md is not None and rnd.random() < 0.5:
            md = dict(md, facet=rnd.choice(["top", "left"]))
        elif event is E.NONRADIATIVE and rnd.random() < 0.4:
            event = E.REACT
        yield ray, event, md


# ---------------------------------------------------------------------------
# scenes

def scene_yaml(p):
    """A scene file from plain parameters (JSON-able)."""
    out = ['version: "1.0"', "nodes:", "  world:"]
    n_world = 1.0
    out += ["    sphere:", "      radius: 50.0", "      material:", "        refractive-index: %g" % n_world]
    names = []
    for i, b in enumerate(p["bodies"]):
        name = b["name"]
        names.append(name)
        out += ["  %s:" % name, "    parent: %s" % b.get("parent", "world"), "    location: %s" % json.dumps(b["at"])]
        g = b["shape"]
        if g == "box":
            out += ["    box:", "      size: %s" % json.dumps(b["size"])]
        elif g == "sphere":
            out += ["    sphere:", "      radius: %g" % b["size"][0]]
        else:
            out += ["    cylinder:", "      radius: %g" % b["size"][0], "      length: %g" % b["size"][1]]
        out += ["      material:", "        refractive-index: %g" % b["n"]]
        if b.get("components"):
            out += ["        components:"] + ["          - %s" % c for c in b["components"]]
    for i, l in enumerate(p["lights"]):
        out += ["  %s:" % l["name"], "    parent: world", "    location: %s" % json.dumps(l["at"])]
        if l.get("direction"):
            out += ["    direction: %s" % json.dumps(l["direction"])]
        out += ["    light:", "      wavelength: %g" % l["nm"], "      mask:"]
        if l.get("cone") is not None:
            out += ["        direction:", "          cone:", "            half-angle: %g" % l["cone"]]
        else:
            out += ["        direction:", "          isotropic:"]
    out += ["components:"]
    out += ["  dye:", "    luminophore:", "      absorption:", "        coefficient: %g" % p.get("dye", 2.0), "        spectrum:",
            "          name: lumogen-f-red-305", "          range: {min: 300, max: 1000, spacing: 4}",
            "      emission:", "        quantum-yield: %g" % p.get("qy", 0.9), "        spectrum:",
            "          name: lumogen-f-red-305", "          range: {min: 300, max: 1000, spacing: 4}"]
    out += ["  bg:", "    absorber:", "      coefficient: %g" % p.get("bg", 0.3)]
    out += ["  haze:", "    scatterer:", "      coefficient: %g" % p.get("haze", 1.0), "      quantum-yield: %g" % p.get("hqy", 0.9), "      spectrum:",
            "        name: fluro-red", "        range: {min: 300, max: 1000, spacing: 4}"]
    return "\n".join(out) + "\n"


def gen_scene(r):
    shape = r.choice(["box", "sphere", "cylinder"])
    comps = r.choice([["dye"], ["bg"], ["dye", "bg"], ["haze", "bg"], ["haze", "dye"], []])
    size = [round(r.uniform(1, 4), 2), round(r.uniform(1, 4), 2), round(r.uniform(0.5, 3), 2)]
    bodies = [dict(name="box", shape=shape, size=size, at=[0, 0, 0], n=r.choice([1.3, 1.5, 1.7]), components=comps)]
    if r.random() < 0.5:
        bodies.append(dict(name="ball", shape=r.choice(["sphere", "box"]), size=[0.4, 0.4, 0.4],
                           at=r.choice([[0, 0, 0], [8.0, 0, 0]]), n=r.choice([1.0, 1.4]),
                           components=r.choice([[], ["bg"], ["dye"]])))
        if bodies[1]["at"] == [0, 0, 0]:
            bodies[1]["parent"] = "box"
            if shape == "cylinder":
                bodies[0]["size"][1] = max(1.5, bodies[0]["size"][1])
            bodies[1]["size"] = [0.2, 0.2, 0.2]
    lights = []
    for i in range(r.choice([1, 1, 2, 3])):
        lights.append(dict(name="light%d" % i, at=[round(r.uniform(-1, 1), 2), round(r.uniform(-1, 1), 2), 6.0 + i],
                           direction=[0, 0, -1], nm=r.choice([450, 555, 600, 700]), cone=r.choice([5, 15, None])))
    return dict(bodies=bodies, lights=lights, dye=r.choice([0.5, 2.0, 8.0]), bg=r.choice([0.1, 1.0]), haze=r.choice([0.3, 2.0]),
                qy=r.choice([0.5, 0.95, 1.0]), hqy=r.choice([0.5, 1.0]))


def gen_sched(r):
    w = {}
    for k in ("main", "worker", "thread", "analyst"):
        w[k] = r.choice([1.0, 1.0, 0.1, 0.01, 10.0])
    return dict(seed=r.getrandbits(48), switch=r.choice([0.02, 0.1, 0.3, 0.6, 0.95]), early=r.choice([0.0, 0.005, 0.05, 0.2]), weights=w)


# ---------------------------------------------------------------------------

class Run:
    """Everything observable about one simulated command."""


def task_weights(w):
    return _W(w)


class _W(dict):
    def get(self, k, d=None):
        for p, v in self.items():
            if k.startswith(p):
                return v
        return d


def simulate(case, workdir, argv_extra=(), analysts=(), limit_time=3600.0, disk_ops=False, scene_path=None, main_fn=None,
             limit_steps=400000, record_disk=False):
    """Runs `pvtrace-cli simulate` (or main_fn) for a case in workdir."""
    global HOOK
    sc = case["sched"]
    ch = choice.Chooser(sc["seed"], case.get("choices"))
    sim = sched.Sim(ch, sc["switch"], sc["early"], limit_time, limit_steps=limit_steps, weights=_W(sc["weights"]))
    sim.cpus = case.get("cpus", 4)
    sim.queue_bound = case.get("queue_bound")
    hook = TracerHook(case)
    HOOK = hook
    M.np.random.seed(case.get("np_seed", 1) % (2 ** 32))
    random.seed(case.get("np_seed", 1))
    path = scene_path or os.path.join(workdir, "scene.yml")
    if not os.path.exists(path):
        with open(path, "w") as fp:
            fp.write(scene_yaml(case["scene"]))
    argv = ["simulate", path, "--rays", str(case["rays"])]
    if case.get("workers") is not None:
        argv += ["--workers", str(case["workers"])]
    if case.get("end_rays"):
        argv += ["--end-rays"]
    if case.get("seed") is not None:
        argv += ["--seed", str(case["seed"])]
    if case.get("zmq"):
        argv += ["--zmq", "tcp://127.0.0.1:6000", "--render-every", str(case.get("render_every", 10)),
                 "--render-max", str(case.get("render_max", 1))]
    argv += list(argv_extra)
    run = Run()
    run.argv = argv
    run.db = os.path.splitext(path)[0] + ".sqlite3"
    fault_arm(sim, case)
    sim.side_rpc = lambda proc, *a: sim.count("fault:" + a[1]) if a[0] == "fault" else None

    def sleeper(dt):
        s, t = sched.current()
        if s is not None and not s.over:
            s.count("db_busy_waits")
            _guard(lambda: s.sleep(dt))

    def opper(kind, n):
        s, t = sched.current()
        if s is not None and not s.over:
            _guard(lambda: s.point("disk"))

    def body():
        for i, a in enumerate(analysts):
            sim.spawn(lambda a=a, i=i: a(sim, run), "analyst#%d" % i, external=True)
        if main_fn is not None:
            return main_fn(sim, run)
        return M.climain.app(argv, standalone_mode=False)
    dfaults = [f for f in case.get("faults", []) if f["kind"] == "disk"]
    if dfaults or disk_ops or record_disk:
        disk.arm(workdir, keepdata=record_disk)
        dids = [(f, disk.add_fault(f)) for f in dfaults]
    disk.set_sleep(sleeper)
    if disk_ops:
        disk.set_op(opper)
    try:
        run.result, run.exc = sim.run(body)
    finally:
        disk.set_sleep(None)
        disk.set_op(None)
        if dfaults or disk_ops or record_disk:
            if record_disk:
                run.disk_ops = disk.records()
            for f, k in dids:
                if disk.fired(k):
                    sim.count("fault:disk_%s_%s" % ("short" if f.get("short") else f.get("err", "EIO"), "+".join(f["kinds"]).lower()), disk.fired(k))
            disk.disarm()
            disk.clear_faults()
        HOOK = None
        for p in getattr(sim, "procs", ()):
            p.stop()
    run.sim = sim
    run.stdout = "".join(sim.__dict__.get("_out", {}).get("main", []))
    run.ok_printed = any(l.strip() == "OK" for l in run.stdout.splitlines())
    run.failed = run.exc is not None or (isinstance(run.result, int) and not isinstance(run.result, bool) and run.result != 0)
    run.hook = hook
    run.records = list(hook.records)
    for pidx, rec in sim.__dict__.get("side_log", ()):
        if rec[0] == "ev":
            run.records.append(((rec[1], rec[2], pidx), rec[3]))
        elif rec[0] == "fault":
            sim.count("fault:" + rec[1])
    run.hang = sim.failure
    run.choices = ch.trimmed()
    run.progress = sim.__dict__.get("progress", [])
    run.vis = sim.__dict__.get("visualizers", [])
    return run


PENDING_ABORT = []


def _guard(fn):
    """Callbacks run under C code: exceptions cannot cross; keep interrupts pending."""
    s, t = sched.current()
    try:
        fn()
    except sched.SimAbort:
        # park this thread for ever: the run is over (never main: main is woken by raising)
        if t is not s.main:
            l = sched._real_lock()
            l.acquire()
            l.acquire()
    except BaseException as e:
        t.pending = e


def fault_arm(sim, case):
    """Installs the fault plan of a case into the simulation."""
    for f in case.get("faults", []):
        k = f["kind"]
        if k == "interrupt":
            def cb(s, t, what, f=f, st=[0]):
                if t is s.main and not s.over and not s.exited:
                    st[0] += 1
                    if st[0] == f["at"]:
                        if f.get("group"):
                            for p in s.__dict__.get("procs", ()):
                                p.doomed = True
                        s.count("fault:interrupt")
                        s.log("INTERRUPT")
                        raise KeyboardInterrupt()
            sim.on_point.append(cb)
        elif k == "manager_die":
            def cbq(q, what, f=f, st=[0]):
                if q.kind != "manager":
                    return
                st[0] += 1
                if st[0] == f["at"]:
                    sim.count("fault:manager_die")
                    for m in sim.managers:
                        m.die()
            sim.__dict__.setdefault("on_queue", []).append(cbq)
        elif k == "viewer":
            def cbv(vis, name, n, f=f):
                if n == f["at"]:
                    sim.count("fault:viewer")
                    raise RuntimeError("viewer connection lost")
            sim.__dict__.setdefault("on_viewer", []).append(cbv)
        elif k == "viewer_slow":
            def cbs(vis, name, n, f=f):
                if n % f["every"] == 0:
                    sim.count("fault:viewer_slow")
                    sim.sleep(f["delay"])
            sim.__dict__.setdefault("on_viewer", []).append(cbs)


def throws(run):
    """Recorded truth: {(task, ray ordinal): [event values...]} in trace order."""
    d = collections.OrderedDict()
    for task, rec in run.records:
        d.setdefault((task, rec[0]), []).append(rec[1:])
    return d


SURFACE = ("REFLECT", "TRANSMIT")


def is_end(ev):
    """Documented meaning of an end ray, written from the documentation: the ray is
    created, enters, is reflected from or leaves a node, is lost, or leaves."""
    kind, comp, hit, cont, adj = ev[:5]
    if kind in ("GENERATE", "EXIT", "NONRADIATIVE", "REACT", "KILL"):
        return True
    if kind == "REFLECT":
        return hit == adj
    if kind == "TRANSMIT":
        return hit == adj or hit == cont
    return False


def read_db(path):
    """[(throw_id, values)] in insertion order plus structural problems."""
    con = sqlite3.connect("file:%s?mode=ro" % path, uri=True)
    try:
        rays = con.execute("SELECT rowid, throw_id, x, y, z, i, j, k, wavelength, source, travelled, duration FROM ray ORDER BY rowid").fetchall()
        evs = con.execute("SELECT rowid, ray_id, kind, component, hit, container, adjacent, facet, ni, nj, nk FROM event ORDER BY rowid").fetchall()
    finally:
        con.close()
    return rays, evs


def join_db(rays, evs):
    """Rows paired ray<->event; returns (rows, problem)."""
    by = {}
    for e in evs:
        by.setdefault(e[1], []).append(e)
    rows = []
    for r in rays:
        es = by.pop(r[0], [])
        if len(es) != 1:
            return None, "ray row %d has %d event rows" % (r[0], len(es))
        rows.append((r[1], tuple(es[0][2:]) + tuple(r[2:])))
    if by:
        return None, "%d event rows refer to no ray row" % sum(map(len, by.values()))
    return rows, None
