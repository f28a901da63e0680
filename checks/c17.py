"""C17: the LSC's books account for every thrown ray, across repeats and faults."""
import builtins
import errno
import functools
import hashlib
import io
import json
import math
import sys

from dst import choice, draws, harness

PROPERTY = "C17"
LEVEL = "exploration"
RULE = ("one case = one random LSC and a history of simulate, show and report calls with failures and interrupts injected at chosen points, judged against a ledger kept "
        "from the rays as they were traced; non-trivial if at least one ray was booked; distinct by digest of the rays and the outcome of every call")
ASSUMPTIONS = ["lights lie inside the world; their names and those of the components differ; components and lights are added before the first simulate",
               "comparisons by facet are left out for a state with a ray recorded within 1e-4 of a size from a facet but not on it, or on an edge",
               "a simulate call that raises books all its rays or none; interrupts and lack of memory strike in a function called by pvtrace/device/lsc.py or between two events of a ray"]
COMPONENTS = dict(real=["pvtrace.device.lsc", "pvtrace.algorithm.photon_tracer, scene, geometry, material, light", "pandas"],
                  stubbed=["numpy's random source", "meshcat renderer", "standard output", "time.sleep"])
BATCH = 8
FACETS = ("left", "right", "near", "far", "top", "bottom")
EDGES = ("left", "right", "near", "far")
EVENTS = ("generate", "reflect", "transmit", "absorb", "nonradiative", "scatter", "emit", "exit", "react", "kill")


def prepare():
    draws.install()
    import pvtrace                                   # noqa: F401
    import pvtrace.device.lsc                        # noqa: F401
    from pvtrace import LSC
    import numpy as np
    with draws.use(draws.Adversary(1)):
        out, sys.stdout = sys.stdout, io.StringIO()
        try:
            x = np.arange(400, 801, dtype=float)
            l = LSC((1.0, 1.0, 1.0), wavelength_range=x)
            l.simulate(1)
            l.counts()
        except Exception:
            pass
        finally:
            sys.stdout = out


def budget(tier):
    return 4000 if tier == "quick" else 120000


# ---------------------------------------------------------------- generation

def gen(r, tier, i):
    size = [r.choice([5.0, 4.8, 1.0, 0.25, 10.0, r.uniform(0.1, 20)]) for _ in range(2)] + [r.choice([0.25, 1.0, 0.3, r.uniform(0.05, 3)])]
    comps = []
    for k in range(r.choice([0, 1, 1, 2, 3])):
        kind = r.choice(["luminophore", "luminophore", "absorber", "scatterer"])
        comps.append(dict(kind=kind, name="c%d" % k, coef=r.choice([0.0, 0.02, 0.5, 2.0, 10.0]) / min(size), flat=r.random() < 0.5, qy=r.choice([0.0, 0.5, 0.95, 1.0]),
                          centre=r.uniform(450, 650), phase=r.choice([None, None, "cone"])))
    lights = []
    for k in range(r.choice([0, 1, 1, 2, 3])):
        place = r.choice(["top", "top", "far-top", "inside", "edge-on", "below", "beside"])
        l, w, d = size
        loc = {"top": (0, 0, d / 2 + 0.01), "far-top": (0, 0, 4 * d), "inside": (0.1 * l, 0.2 * w, 0.1 * d), "edge-on": (1.5 * l, 0, 0), "below": (0, 0, -3 * d),
               "beside": r.choice([(0.5 * l, 3 * w, 0), (3 * l, 0.5 * w, 0.2 * d), (2 * l, -2 * w, 0.5 * d), (2 * l, 0.1 * w, -0.5 * d)])}[place]
        rot = {"top": "down", "far-top": "down", "inside": r.choice(["down", None]), "edge-on": "side", "below": None, "beside": r.choice(["down", None])}[place]
        lights.append(dict(name="L%d" % k, loc=[float(x) for x in loc], rot=rot, dir=r.choice([None, None, ["cone", r.choice([5.0, 20.0, 60.0])], "isotropic"]),
                           wave=r.choice([None, r.uniform(420, 700), "band"]), mask=r.choice([None, 0.2, 0.5, 0.5]) if place in ("top", "far-top", "below") else None))
    ops = []
    n_ops = r.choice([2, 3, 4, 6])
    for k in range(n_ops):
        x = r.random()
        if k == 0 and r.random() < 0.15:
            ops.append(dict(op="show"))
        if x < 0.6 or k == 0:
            n = r.choice([1, 2, 3, 5, 8, 12, 0])
            op = dict(op="simulate", n=n, emit=r.choice(["kT", "redshift", "full"]), progress=r.choice([None, None, "plain", "read"]), fault=None)
            if r.random() < 0.5:
                kind = r.choice(["light", "progress", "vis", "stdout", "event", "call", "call", "late", "late", "late"])
                f = dict(kind=kind, exc=r.choice(["KeyboardInterrupt", "MemoryError"]))
                if kind == "light":
                    f.update(at=r.randrange(3 * max(1, n)) + 1, exc=r.choice(["KeyboardInterrupt", "ValueError"]))
                elif kind in ("progress", "vis"):
                    f.update(at=r.randrange(max(1, n)) + 1)
                    if kind == "progress":
                        op["progress"] = op["progress"] or "plain"
                elif kind == "stdout":
                    f.update(at=r.randrange(4) + 1, exc="OSError")
                elif kind == "event":
                    f.update(at=r.choice([1, 2, 3, 5, 8, 13, 30]))
                elif kind == "call":
                    f.update(at=r.choice([r.randrange(1, 60), r.randrange(1, 300)]))
                else:
                    f.update(at=r.choice([r.randrange(1, 12), r.randrange(1, 40), r.randrange(1, 140), r.randrange(1, 400)]))
                op["fault"] = f
            ops.append(op)
        if r.random() < 0.7:
            ops.append(dict(op="read", seed=r.getrandbits(30)))
    ops.append(dict(op="read", seed=r.getrandbits(30)))
    return dict(size=size, n0=r.choice([1.0, 1.0, 1.3]), n1=r.choice([1.5, 1.5, 1.1, 2.0]), comps=comps, lights=lights, range=r.choice([None, [400, 800], [300, 1000]]),
                cells=r.choice([[], [], ["left"], ["near"], ["far", "right"], list(EDGES)]), twice=r.random() < 0.2, mirror=r.random() < 0.25,
                gap=r.choice([None, None, None, "specular", "lambertian"]), maxsteps=r.choice([1000, 60, 20, 8]) if comps or not lights else r.choice([60, 20, 8]),
                ops=ops, seed=r.getrandbits(40), extreme=r.choice([0, 0, 0, 0.02]))


def shrinks(c):
    for k, op in enumerate(c["ops"]):
        if op["op"] == "simulate":
            for n in (1, op["n"] // 2):
                if 0 < n < op["n"]:
                    yield dict(c, ops=c["ops"][:k] + [dict(op, n=n)] + c["ops"][k + 1:])
            if op["fault"]:
                yield dict(c, ops=c["ops"][:k] + [dict(op, fault=None)] + c["ops"][k + 1:])
            if op["progress"]:
                yield dict(c, ops=c["ops"][:k] + [dict(op, progress=None)] + c["ops"][k + 1:])
    for key in ("comps", "lights"):
        for k in range(len(c[key])):
            if len(c[key]) > 1:
                yield dict(c, **{key: c[key][:k] + c[key][k + 1:]})
    for key, v in (("cells", []), ("mirror", False), ("gap", None), ("extreme", 0), ("range", None), ("maxsteps", 8), ("twice", False)):
        if c[key] != v:
            yield dict(c, **{key: v})


# ---------------------------------------------------------------- the device

EXC = dict(KeyboardInterrupt=KeyboardInterrupt, MemoryError=MemoryError, ValueError=ValueError)


class Injected:
    """Arms the fault of one call; remembers whether it was raised."""

    def __init__(self, spec):
        self.spec = spec or {}
        self.kind = self.spec.get("kind")
        self.count = 0
        self.fired = None

    def hit(self, kind):
        if kind != self.kind or self.fired:
            return
        self.count += 1
        if self.count >= self.spec["at"]:
            self.fire()

    def fire(self):
        e = self.spec["exc"]
        self.fired = OSError(errno.ENOSPC, "No space left on device") if e == "OSError" else EXC[e]("injected")
        raise self.fired


class Out(io.StringIO):
    def __init__(self, run):
        super().__init__()
        self.run = run

    def write(self, s):
        self.run.fault.hit("stdout")
        return super().write(s)


class Vis:
    """Stands for the meshcat renderer."""

    def __init__(self, run, **kw):
        self.run = run

    def render(self, scene):
        self.run.rendered = scene

    def add_history(self, history, **kw):
        self.run.fault.hit("vis")
        self.run.shown.append([(r, e) for r, e, *_ in history])


class Ledger:
    """Entrance and exit row of every booked ray."""

    def __init__(self):
        self.rows = []


class Run:
    def __init__(self, case):
        import numpy as np
        import pvtrace.device.lsc as mod
        from pvtrace.algorithm import photon_tracer
        self.np, self.mod, self.tracer = np, mod, photon_tracer
        self.case = case
        self.out = harness.Outcome()
        self.fault = Injected(None)
        self.booked = None               # rows, None before the first success
        self.pending = []                # histories completed in the running call
        self.shown = []
        self.thrown = 0
        self.vis = False
        self.digest = hashlib.sha256()
        self.trace = []

    def note(self, *a):
        s = " ".join(str(x) for x in a)
        self.trace.append(s)
        self.digest.update(s.encode())

    # seams -------------------------------------------------------------
    def step_forward(self, scene, ray, *a, **kw):
        if not a:
            kw["maxsteps"] = min(kw.get("maxsteps", 1000), self.case["maxsteps"])
        h = []
        for info in self.real_step(scene, ray, *a, **kw):
            self.fault.hit("event")
            h.append(info)
            yield info
        self.pending.append(h)
        if len(self.pending) == self.thrown:
            self.late = True

    def profile(self, frame, event, arg):
        if event == "call":
            frame = frame.f_back
        elif event != "c_call":
            return
        if frame is not None and frame.f_code.co_filename == self.file:
            f = self.fault
            if f.kind == "call" or (f.kind == "late" and self.late):
                f.hit(f.kind)

    # building ----------------------------------------------------------
    def build(self):
        np, c = self.np, self.case
        from pvtrace import LSC
        from pvtrace.material.utils import cone, isotropic
        rng = None if c["range"] is None else np.arange(float(c["range"][0]), float(c["range"][1]) + 1)
        lsc = LSC(tuple(c["size"]), wavelength_range=rng, n0=c["n0"], n1=c["n1"])
        x = np.linspace(300.0, 1000.0, 141)
        # where each emission spectrum ends: nothing is emitted beyond, wherever it was absorbed
        self.top = {}
        for k in c["comps"]:
            coef = k["coef"] if k["flat"] else np.column_stack((x, k["coef"] * np.exp(-((x - k["centre"]) / 60) ** 2)))
            phase = functools.partial(cone, 1.0) if k["phase"] else None
            if k["kind"] == "luminophore":
                ems = np.column_stack((x, np.exp(-((x - k["centre"] - 50) / 40) ** 2)))
                self.top[k["name"]] = float(x[np.searchsorted(np.cumsum(ems[:, 1]), (1 - 1e-12) * ems[:, 1].sum()) - 1])
                lsc.add_luminophore(k["name"], coef, ems, k["qy"], phase)
            elif k["kind"] == "absorber":
                lsc.add_absorber(k["name"], coef)
            else:
                lsc.add_scatterer(k["name"], coef, phase)

        def seam(f):
            def g():
                self.fault.hit("light")
                return f()
            return g

        for l in c["lights"]:
            d = l["dir"]
            direction = None if d is None else isotropic if d == "isotropic" else functools.partial(cone, math.radians(d[1]))
            direction = None if direction is None else seam(direction)
            if l["wave"] == "band":
                wave = seam(lambda: 420.0 + 250.0 * np.random.uniform())
            else:
                wave = None if l["wave"] is None else seam(lambda v=l["wave"]: v)
            pos = None
            if l["mask"]:
                pos = seam(lambda m=l["mask"]: (np.random.uniform(-m, m) * c["size"][0], np.random.uniform(-m, m) * c["size"][1], 0.0))
            rot = {"down": (math.pi, (1, 0, 0)), "side": (-math.pi / 2, (0, 1, 0)), None: None}[l["rot"]]
            lsc.add_light(l["name"], tuple(l["loc"]), rotation=rot, direction=direction, wavelength=wave, position=pos)
        if c["cells"]:
            if c["twice"]:
                for f in c["cells"]:
                    lsc.add_solar_cell({f})
            else:
                lsc.add_solar_cell(set(c["cells"]))
        if c["mirror"]:
            lsc.add_back_surface_mirror()
        if c["gap"]:
            lsc.add_air_gap_mirror(lambertian=c["gap"] == "lambertian")
        self.lights = [l["name"] for l in c["lights"]] or ["Light"]
        self.comps = [k["name"] for k in c["comps"]] or ["Lumogen F Red 305", "Background"]
        return lsc

    # the ledger --------------------------------------------------------
    def facet(self, p):
        """name, None (not on the LSC) or "?" (too close to call)."""
        on, doubt = [], False
        half = [s / 2 for s in self.case["size"]]
        for k, (lo, hi) in enumerate((("left", "right"), ("near", "far"), ("bottom", "top"))):
            for name, v in ((lo, -half[k]), (hi, half[k])):
                d = abs(p[k] - v)
                if d <= 1e-9 * max(1.0, half[k]):
                    inside = [half[j] - abs(p[j]) for j in range(3) if j != k]
                    if min(inside) > 1e-4 * max(half):
                        on.append(name)
                    elif min(inside) >= -1e-4 * max(half):
                        doubt = True
                elif d <= 1e-4 * max(half) and all(half[j] - abs(p[j]) >= -1e-4 * max(half) for j in range(3) if j != k):
                    doubt = True
        if doubt or len(on) > 1:
            return "?"
        return on[0] if on else None

    def rows(self, h):
        first, last = h[1], h[-1]
        end = last[1].name
        if end == "EXIT":
            ray, ev = h[-2][0], h[-2][1].name
        elif end in ("NONRADIATIVE", "REACT", "ABSORB"):
            ray, ev = last[0], "ABSORB"
        else:
            ray, ev = last[0], end
        return [("first", first[0].source, self.facet(first[0].position), first[1].name.lower(), float(first[0].wavelength)),
                ("last", ray.source, self.facet(ray.position), ev.lower(), float(ray.wavelength))]

    def start(self, ray, k):
        """The k-th ray of a call must start as its light was placed and aimed."""
        c = self.case
        name = self.lights[k % len(self.lights)]
        if ray.source != name:
            return "ray %d starts from %r, the turn is that of %s" % (k, ray.source, name)
        l = c["lights"][k % len(self.lights)] if c["lights"] else dict(loc=[0.0, 0.0, 5 * c["size"][2]], rot="down", dir=["cone", 20.0], wave=None, mask=None)
        x, d = [float(a) - b for a, b in zip(ray.position, l["loc"])], [float(a) for a in ray.direction]
        # into the frame of the light
        if l["rot"] == "down":
            x, d = [x[0], -x[1], -x[2]], [d[0], -d[1], -d[2]]
        elif l["rot"] == "side":
            x, d = [x[2], x[1], -x[0]], [d[2], d[1], -d[0]]
        m = l["mask"] or 0.0
        tol = 1e-9 * max(1.0, *map(abs, l["loc"]), *c["size"])
        if abs(x[2]) > tol or abs(x[0]) > m * c["size"][0] + tol or abs(x[1]) > m * c["size"][1] + tol:
            return "ray %d of %s starts at %r of its light" % (k, name, x)
        if l["dir"] != "isotropic" and d[2] < math.cos(math.radians(l["dir"][1] if l["dir"] else 0.0)) - 1e-9:
            return "ray %d of %s starts along %r of its light" % (k, name, d)
        if l["wave"] == "band":
            if not 420.0 <= ray.wavelength <= 670.0:
                return "ray %d of %s has %r nm" % (k, name, ray.wavelength)
        elif ray.wavelength != (555.0 if l["wave"] is None else l["wave"]):
            return "ray %d of %s has %r nm" % (k, name, ray.wavelength)
        return None

    def passes(self, p, q):
        """From just below the LSC to a depth of its own thickness, within its outline?"""
        l, w, d = self.case["size"]
        tol = 1e-6 * d
        low, high = sorted((p[2], q[2]))
        if low > -d - tol or high < -d / 2 - tol:
            return False
        for z in (-d / 2, -d):
            f = min(1.0, max(0.0, (z - p[2]) / (q[2] - p[2])))
            if any(abs(a + f * (b - a)) > 0.499 * s for a, b, s in zip(p, q, (l, w))):
                return False
        return True

    def physics(self, h):
        c = self.case
        for a, b in zip(h, h[1:]):
            m = b[2] or {}
            ev = b[1].name
            if c["gap"] and self.passes(a[0].position, b[0].position):
                return "a ray went from %r to %r through the air gap mirror" % (a[0].position, b[0].position)
            if ev not in ("REFLECT", "TRANSMIT"):
                continue
            n = [float(x) for x in m["normal"]]
            d0, d1 = [float(x) for x in a[0].direction], [float(x) for x in b[0].direction]
            p = b[0].position
            if m["hit"] == "LSC":
                f = self.facet(p)
                if f == "?" or f is None:
                    continue
                if f in c["cells"]:
                    if ev != "TRANSMIT":
                        return "a ray was reflected by the solar cell on the %s facet" % f
                    if max(abs(x - y) for x, y in zip(d0, d1)) > 1e-9:
                        return "a ray was deflected from %s to %s on entering the solar cell on the %s facet" % (d0, d1, f)
                if f == "bottom" and c["mirror"] and ev != "REFLECT":
                    return "a ray went through the back surface mirror"
            if m["hit"] == "Air Gap Mirror":
                if ev != "REFLECT":
                    return "a ray went into the air gap mirror"
            if ev == "REFLECT":
                c0, c1 = sum(x * y for x, y in zip(d0, n)), sum(x * y for x, y in zip(d1, n))
                if c0 * c1 > 1e-12:
                    return "a ray reflected by %s goes on through it: direction %s before and %s after, normal %s" % (m["hit"], d0, d1, n)
                if not (m["hit"] == "Air Gap Mirror" and c["gap"] == "lambertian"):
                    want = [x - 2 * c0 * y for x, y in zip(d0, n)]
                    if max(abs(x - y) for x, y in zip(want, d1)) > 1e-9:
                        return "a ray reflected by %s leaves along %s instead of %s" % (m["hit"], d1, want)
        return None

    # reading -----------------------------------------------------------
    def read(self, lsc, seed, rows, where):
        """Compares the reports with `rows`; True if all agree."""
        np, v = self.np, self.out.violate
        r = choice.rng("read", seed)
        if rows is None:
            for name, f in (("counts", lsc.counts), ("spectrum", lsc.spectrum)):
                try:
                    f()
                except Exception:
                    continue
                v("before", "%s: %s reports though no simulate call has succeeded" % (where, name))
                return False
            return True
        doubt = any(x[2] == "?" for x in rows)
        if doubt:
            self.out.stat("states with a ray too close to a facet to call")
        queries = [dict(kind="first"), dict(kind="last"), dict(kind=None)]
        for _ in range(8):
            q = dict(kind=r.choice(["first", "last", None]))
            if r.random() < 0.6:
                q["facets"] = set(r.sample(FACETS, r.choice([1, 1, 2, 4])))
            if r.random() < 0.6:
                q["source"] = r.choice([r.choice(self.lights + self.comps), set(r.sample(self.lights + self.comps, 2)), set(self.comps), set(self.lights), "all"])
            if r.random() < 0.5:
                q["events"] = set(r.sample(("generate", "reflect", "transmit", "absorb", "kill", "scatter", "emit", "exit"), r.choice([1, 2, 3])))
            queries.append(q)
        for q in queries:
            if doubt and "facets" in q:
                continue
            want = sorted(x[4] for x in rows if self.match(x, q))
            got = sorted(float(x) for x in lsc.spectrum(**q))
            if got != want:
                v("spectrum", "%s: spectrum(%s) has %d rays %s, the rays traced give %d %s" % (where, self.show(q), len(got), got[:6], len(want), want[:6]))
                return False
        if r.random() < 0.15:
            for q in (dict(source="nobody"), dict(events={"nothing"}), dict(kind="middle"), dict(facets="left")):
                try:
                    lsc.spectrum(**q)
                except ValueError:
                    continue
                v("refusal", "%s: spectrum(%s) is answered" % (where, self.show(q)))
                return False
        names = set(lsc.component_names()), set(lsc.light_names())
        if names != (set(self.comps), set(self.lights)):
            v("names", "%s: components and lights are reported as %s" % (where, names))
            return False
        if doubt:
            return True

        def count(kind, f, sources, events=None):
            return sum(1 for x in rows if x[0] == kind and x[2] == f and x[1] in sources and (events is None or x[3] in events))

        ways = {"Solar In": ("first", self.lights, None), "Solar Out": ("last", self.lights, ("reflect", "transmit")),
                "Luminescent Out": ("last", self.comps, ("reflect", "transmit")), "Luminescent In": ("first", self.comps, None)}
        want = {k: {f: count(a, f, set(b), e) for f in FACETS} for k, (a, b, e) in ways.items()}
        for label, table in (("counts()", lsc.counts), ("counts() again", lsc.counts)):
            df = table()
            got = {k: {f: int(df[k][f]) for f in FACETS} for k in ways}
            for k in ways:
                if got[k] != want[k]:
                    v("counts", "%s: %s gives %s %s, the rays traced give %s" % (where, label, k, got[k], want[k]))
                    return False
            if r.random() < 0.5:
                break
        s = lsc.summary()
        lum = want["Luminescent Out"]
        incident = sum(want["Solar In"].values())
        collected = sum(lum[f] for f in self.case["cells"])
        total = sum(lum.values())
        lost = sum(1 for x in rows if x[0] == "last" and x[3] == "absorb" and x[1] in set(self.lights + self.comps))
        l, w, d = self.case["size"]
        cg = (l * w) / (2 * l * d + 2 * w * d)
        n = self.case["n1"]
        div = lambda a, b: a / b if b else math.nan if a == 0 else math.inf
        for k, x in (("Incident", incident), ("Optical Efficiency", div(collected, incident)), ("Waveguide Efficiency", div(collected, total)),
                     ("Non-radiative Loss (fraction):", div(lost, incident)), ("Geometric Concentration", cg), ("Refractive Index", n),
                     ("Waveguide Efficiency (Thermodynamic Prediction)", n * n / (cg + n * n))):
            y = float(s[k])
            if not (math.isnan(x) and math.isnan(y)) and x != y and not abs(x - y) <= 1e-12 * abs(x):
                v("summary", "%s: summary() gives %s %r, the rays traced give %r" % (where, k, y, x))
                return False
        if set(s["Cell Surfaces"]) != set(self.case["cells"]) or set(s["Components"]) != set(self.comps) or set(s["Lights"]) != set(self.lights):
            v("summary", "%s: summary() names cells %s, components %s and lights %s" % (where, s["Cell Surfaces"], s["Components"], s["Lights"]))
            return False
        return True

    def match(self, x, q):
        src = q.get("source", "all")
        src = set(self.lights + self.comps) if src == "all" else {src} if isinstance(src, str) else src
        return (q["kind"] in (None, x[0]) and x[1] in src and (not q.get("facets") or x[2] in q["facets"])
                and (q.get("events") is None or x[3] in q["events"]))

    @staticmethod
    def show(q):
        return ", ".join("%s=%s" % (k, sorted(x) if isinstance(x, set) else repr(x)) for k, x in sorted(q.items()))

    # the history -------------------------------------------------------
    def simulate(self, lsc, op, k):
        v = self.out.violate
        self.fault = f = Injected(op["fault"])
        self.pending, self.shown, self.thrown, self.late = [], [], op["n"], op["n"] == 0
        calls = []

        def progress(count):
            calls.append(count)
            f.hit("progress")
            if op["progress"] == "read" and count in (1, op["n"]):
                hold, self.fault = self.fault, Injected(None)
                self.read(lsc, count, self.booked, "call %d, in progress(%d)" % (k, count))
                self.fault = hold

        error = None
        try:
            if f.kind in ("call", "late"):
                sys.setprofile(self.profile)
            lsc.simulate(op["n"], progress=progress if op["progress"] else None, emit_method=op["emit"])
        except BaseException as e:
            error = e
        finally:
            sys.setprofile(None)
        if f.fired is not None:
            self.out.fault(f.kind if f.kind != "late" else "late call")
        self.fault = Injected(None)
        done = self.pending
        self.note("simulate", op["n"], op["emit"], "->", "ok" if error is None else type(error).__name__, "completed", len(done))
        for j, h in enumerate(done):
            why = self.start(h[0][0], j) or self.physics(h)
            if why:
                v("physics", "call %d: %s" % (k, why))
                return
            if op["emit"] == "redshift":
                for a, b in zip(h, h[1:]):
                    if b[1].name == "EMIT" and b[0].wavelength < min(a[0].wavelength, self.top.get(b[0].source, float(lsc.wavelength_range[-1]))) - 1e-9:
                        v("emission", "call %d: emission at %.3f nm after absorption at %.3f nm with emit_method redshift" % (k, b[0].wavelength, a[0].wavelength))
                        return
            self.digest.update(repr([(e[1].name, e[0].source, round(float(e[0].wavelength), 6), [round(float(x), 9) for x in e[0].position]) for e in h]).encode())
        rows = [x for h in done for x in self.rows(h)]
        if error is not None:
            if f.fired is None:
                if isinstance(error, NotImplementedError) and self.case["gap"] == "lambertian":
                    self.out.stat("calls refused for a side of the lambertian mirror")
                elif "multiple surfaces" in str(error) and self.case["extreme"]:
                    self.out.stat("calls refused for a ray on an edge")
                else:
                    if isinstance(error, Exception):
                        raise error
                    v("exception", "call %d: simulate raises %s" % (k, type(error).__name__))
                    return
            elif error is not f.fired and not isinstance(error, (type(f.fired), RuntimeError, OSError, ValueError)):
                raise error
        else:
            if f.fired is None:
                if len(done) != op["n"]:
                    v("rays", "call %d: simulate(%d) traced %d rays" % (k, op["n"], len(done)))
                    return
                for i, h in enumerate(done):
                    if h[0][0].source != self.lights[i % len(self.lights)]:
                        v("rays", "call %d: ray %d comes from %s instead of %s" % (k, i, h[0][0].source, self.lights[i % len(self.lights)]))
                        return
                if op["progress"] and calls != list(range(1, op["n"] + 1)):
                    v("progress", "call %d: progress was called with %s" % (k, calls))
                    return
                if self.vis:
                    want = [[(e[0], e[1]) for e in h] for h in done]
                    if self.shown != want:
                        v("shown", "call %d: %d of %d histories were given to the renderer, or not as traced" % (k, len(self.shown), len(want)))
                        return
        before, after = self.booked, (self.booked or []) + rows
        if error is None:
            self.booked = after
        elif len(done) == op["n"] and f.kind in ("late", "stdout", "call", "progress", "vis"):
            # the whole call or nothing of it
            try:
                got = len(lsc.spectrum(kind="first"))
            except ValueError:
                got = None
            now = None if before is None else len(before) // 2
            if got is not None and got != now and got == len(after) // 2:
                self.booked = after
        if error is not None:
            self.out.stat("failed calls")
        self.out.stat("rays", len(done))
        for h in done:
            self.out.stat("rays ending with " + h[-1][1].name)

    def main(self):
        out, mod, tr = self.out, self.mod, self.tracer
        self.file = mod.__file__
        self.real_step = tr.step_forward
        saved = [(tr, "step_forward", tr.step_forward), (mod, "MeshcatRenderer", mod.MeshcatRenderer), (mod.time, "sleep", mod.time.sleep)]
        tr.step_forward = self.step_forward
        mod.MeshcatRenderer = lambda **kw: Vis(self, **kw)
        mod.time.sleep = lambda s: None
        src = draws.Adversary(self.case["seed"], self.case["extreme"])
        stdout, sys.stdout = sys.stdout, Out(self)
        try:
            with draws.use(src), self.np.errstate(all="ignore"):
                lsc = self.build()
                for k, op in enumerate(self.case["ops"]):
                    if out.violation:
                        break
                    if op["op"] == "show":
                        lsc.show()
                        self.vis = True
                    elif op["op"] == "simulate":
                        self.simulate(lsc, op, k)
                    else:
                        self.note("read", self.read(lsc, op["seed"], self.booked, "after call %d" % k))
        finally:
            sys.stdout = stdout
            for o, a, f in saved:
                setattr(o, a, f)
        out.nontrivial = bool(self.booked)
        out.fp = out.distinct = self.digest.hexdigest()[:24]
        out.stat("calls", len(self.case["ops"]))
        out.stat("draws", src.count)
        out.trace = self.trace
        return out


def run(case):
    return Run(case).main()
