"""C15: every photon history is complete and physically consistent."""
import bisect
import hashlib
import json
import math

from dst import draws, engine, geom, harness, scenes

PROPERTY = "C15"
LEVEL = "exploration"
RULE = ("one case = the histories of a few rays of one random scene, traced by the Python tracer with a random source under the simulator (seeded, with extreme values and phases "
        "of the same value again and again) or by the engine, judged event by event against independent geometry and the rules of the statement; "
        "non-trivial if some history had an interaction; distinct by history digest")
ASSUMPTIONS = ["light starts inside the root shape; the scene measures between a tenth of a millimetre and twenty metres; spectra cover the wavelengths that occur, except that emission spectra may start later",
               "geometry is not judged from the point on where the line of flight comes within the ray caster's resolution (single precision, steps of 1e-4 of a shape's size) "
               "of an edge or grazes a surface"]
COMPONENTS = dict(real=["pvtrace.algorithm.photon_tracer, scene, geometry (trimesh/embree included), material, light", "pvtrace.engine (in engine cases)"],
                  stubbed=["numpy's random source"])
BATCH = 4
TERMINAL = ("EXIT", "KILL", "REACT", "NONRADIATIVE")


def prepare():
    draws.install()
    engine.load()


def budget(tier):
    return 6000 if tier == "quick" else 100000


def gen(r, tier, i):
    eng = r.random() < 0.15
    spec = scenes.scene(r, mesh=not eng)
    if r.random() < 0.3:
        scenes.stack(r, spec)
    if not eng:
        for m in spec["nodes"]:
            if m["inside"] >= 0 and r.random() < 0.15:
                m["surface"] = ["partial", r.choice([0.0, 1.0, 0.5, 0.9])]
            for c in m["comps"]:
                if r.random() < 0.12:
                    c["abs"] = 0.0
                if r.random() < 0.2:
                    c["hist"] = True
                    if isinstance(c["abs"], dict):      # a histogram's last edge lies outside the table
                        c["abs"]["range"] = [100.0, 2600.0]
                if c.get("ems") and r.random() < 0.4:
                    c["ems"]["range"] = [r.uniform(200, 800), 2000.0]
        k = r.choice([1.0] * 5 + [0.01, 0.1, 5.0, 20.0, 100.0])
        if k != 1.0:
            scenes.scale(spec, k)
    maxsteps = r.choice([1000, 200, 60, 60, 20, 5, 2, 1, 0])
    return dict(mode="engine" if eng else "python", spec=spec, rays=r.choice([2, 4, 8]), seed=r.getrandbits(40), npseed=r.getrandbits(31), maxsteps=maxsteps,
                maxpath=r.choice([None, None, None, 0.0, r.uniform(0, 30), r.uniform(0, 200)]) if not eng else None,
                emit=r.choice(["kT", "kT", "redshift", "full"]), extreme=r.choice([0, 0, 0.05, 0.3]), sticky=r.choice([0, 0, 0.03, 0.15]), cut=250, again=r.random() < 0.1)


def shrinks(c):
    for n in (1, c["rays"] // 2):
        if 0 < n < c["rays"]:
            yield dict(c, rays=n)
    for ms in (1, 5, 20):
        if ms < c["maxsteps"]:
            yield dict(c, maxsteps=ms)
    if c["sticky"]:
        yield dict(c, sticky=0)
    if c["extreme"]:
        yield dict(c, extreme=0)
    if c["maxpath"] is not None:
        yield dict(c, maxpath=None)
    for s in scenes.tidy(c["spec"]):
        yield dict(c, spec=s)


def brief(e):
    ray, ev, m = e
    m = m or {}
    return "%s hit=%s container=%s adjacent=%s component=%s pos=%s dir=%s nm=%.9g d=%.12g t=%.12g source=%s" % (
        ev.name, m.get("hit"), m.get("container"), m.get("adjacent"), m.get("component"), tuple(round(float(x), 9) for x in ray.position),
        tuple(round(float(x), 9) for x in ray.direction), ray.wavelength, ray.travelled, ray.duration, ray.source)


class Table:
    """Coefficient of a component at a wavelength, from the spec."""

    def __init__(self, c):
        self.c = c
        self.hist = c.get("hist")
        self.t = scenes._table(c["abs"]).tolist() if isinstance(c["abs"], dict) else None
        e = c.get("ems")
        self.ems = scenes._table(e)[:, 0].tolist() if e else None

    def __call__(self, nm):
        if self.t is None:
            return float(self.c["abs"])
        xs, ys = [p[0] for p in self.t], [p[1] for p in self.t]
        if self.hist:
            return max(ys[min(len(ys) - 1, max(0, k))] for k in (bisect.bisect_left(xs, nm), bisect.bisect_right(xs, nm) - 1))
        return geom.interp(nm, xs, ys)


class Judge:
    def __init__(self, spec, maxsteps, maxpath, emit):
        self.world = geom.World(spec)
        self.size = self.world.size
        self.tables = {c["name"]: (Table(c), m["name"]) for m in spec["nodes"] for c in m["comps"]}
        self.lights = {l["name"] for l in spec["lights"]}
        self.maxsteps, self.maxpath, self.emit = maxsteps, math.inf if maxpath is None else maxpath, emit
        self.judged = self.skipped = 0

    def history(self, h, complete=True):
        """None, or what is wrong."""
        if not h or h[0][1].name != "GENERATE":
            return "starts with %s instead of GENERATE" % (h[0][1].name if h else "nothing")
        ray = h[0][0]
        if ray.travelled != 0 or ray.duration != 0:
            return "starts with distance %r and time %r" % (ray.travelled, ray.duration)
        if ray.source not in self.lights:
            return "starts with source %r" % (ray.source,)
        exact = True            # does the independent geometry still apply?
        steps = 0
        k = 0
        while k + 1 < len(h):
            a, e = h[k], h[k + 1]
            if h[k][1].name in TERMINAL:
                return "goes on after %s with %s" % (h[k][1].name, brief(e))
            why, exact = self.step(a, e, exact, steps)
            if why:
                return "event %d (%s after %s): %s" % (k + 1, e[1].name, a[1].name, why)
            if e[1].name in ("EMIT", "SCATTER", "NONRADIATIVE", "REACT", "REFLECT", "TRANSMIT", "EXIT"):
                steps += 1
            k += 1
        self.exact = exact
        if complete and h[-1][1].name not in TERMINAL:
            if exact and self.start_clear(h[-1][0]):
                return "ends with %s" % brief(h[-1])
        return None

    def start_clear(self, ray):
        return self.world.clear(list(map(float, ray.position)), list(map(float, ray.direction)), 1e-3 * self.size)

    def step(self, a, e, exact, steps):
        w = self.world
        r0, e0, m0 = a
        r1, e1, m1 = e
        n0, n1 = e0.name, e1.name
        m1 = m1 or {}
        p0, d0 = [float(x) for x in r0.position], [float(x) for x in r0.direction]
        p1, d1 = [float(x) for x in r1.position], [float(x) for x in r1.direction]
        nums = p1 + d1 + [float(r1.wavelength), float(r1.travelled), float(r1.duration)]
        if not all(map(math.isfinite, nums)):
            if exact and self.start_clear(r0):
                return "not a number: %s" % brief(e), exact
            return None, False
        if abs(math.sqrt(geom.dot(d1, d1)) - 1) > 1e-6:
            return "direction %r is no unit vector" % (d1,), exact
        if n1 == "GENERATE":
            return "a second generation", exact
        if r1.travelled < r0.travelled - 1e-12 or r1.duration < r0.duration * (1 - 1e-15) - 1e-30:
            return "distance or time goes back: %s, then %s" % (brief(a), brief(e)), exact
        over = steps >= self.maxsteps or r0.travelled > self.maxpath
        follow = n1 in ("EMIT", "SCATTER", "NONRADIATIVE", "REACT")
        if (n0 == "ABSORB") != follow:
            return "not an event that can follow", exact
        if follow:
            c, table = m0.get("component"), None
            if m1.get("component") != c or m1.get("container") != m0.get("container"):
                return "component %r in %r, absorbed by %r in %r" % (m1.get("component"), m1.get("container"), c, m0.get("container")), exact
            t, _ = self.tables[c]
            kind = t.c["kind"]
            allowed = {"Absorber": ("NONRADIATIVE",), "Reactor": ("REACT",), "Scatterer": ("SCATTER", "NONRADIATIVE"), "Luminophore": ("EMIT", "NONRADIATIVE")}[kind]
            qy = t.c.get("qy", 0)
            if t.c.get("tau_rad") and t.c.get("tau_nr"):
                qy = t.c["tau_nr"] / (t.c["tau_nr"] + t.c["tau_rad"])
            if n1 not in allowed or (n1 == "NONRADIATIVE" and qy >= 1 and kind not in ("Absorber", "Reactor")) or (n1 in ("EMIT", "SCATTER") and qy <= 0):
                return "%s by a %s of quantum yield %r" % (n1, kind, qy), exact
            if geom.sub(p0, p1) != [0, 0, 0] and max(map(abs, geom.sub(p0, p1))) > 1e-9 * self.size:
                return "position moves from %r to %r" % (p0, p1), exact
            if r1.travelled != r0.travelled:
                return "distance changes from %r to %r" % (r0.travelled, r1.travelled), exact
            tau = t.c.get("tau_rad") if n1 == "EMIT" else t.c.get("tau_nr") if n1 == "NONRADIATIVE" else None
            if not tau and r1.duration != r0.duration:
                return "time changes from %r to %r without a lifetime" % (r0.duration, r1.duration), exact
            if tau and r1.duration - r0.duration > 60 * tau:
                return "delay of %r with a lifetime of %r" % (r1.duration - r0.duration, tau), exact
            if n1 == "EMIT":
                x = t.ems
                if not x[0] - 1e-9 <= r1.wavelength <= x[-1] + 1e-9:
                    return "emission at %r nm, the spectrum covers %r to %r" % (r1.wavelength, x[0], x[-1]), exact
                gap = (x[1] - x[0]) if t.hist else 0.0
                limit = {"kT": 1240.0 / (1240.0 / r0.wavelength + 1.5 * geom.KB * 300.0), "redshift": r0.wavelength, "full": 0.0}[self.emit]
                if r1.wavelength < min(limit * (1 - 1e-9), x[-1]) - gap * 1e-9 and r1.wavelength > x[0] + 1e-9:
                    return "emission at %r nm after absorption at %r nm with method %s" % (r1.wavelength, r0.wavelength, self.emit), exact
            elif r1.wavelength != r0.wavelength:
                return "wavelength changes from %r to %r" % (r0.wavelength, r1.wavelength), exact
            if n1 in ("EMIT", "SCATTER"):
                if r1.source != c:
                    return "source %r" % (r1.source,), exact
            elif r1.source != r0.source:
                return "source changes from %r to %r" % (r0.source, r1.source), exact
            if n1 in ("NONRADIATIVE", "REACT") and d1 != d0:
                return "direction changes", exact
            return None, exact
        if n1 == "KILL":
            if not over:
                return "killed after %d steps of %r and a distance of %r of %r" % (steps, self.maxsteps, r0.travelled, self.maxpath), exact
            if p1 != p0 or d1 != d0 or r1.travelled != r0.travelled or r1.duration != r0.duration or r1.wavelength != r0.wavelength or r1.source != r0.source:
                return "the killed ray is not the ray before: %s, then %s" % (brief(a), brief(e)), exact
            if exact and self.start_clear(r0):
                c = w.container(geom.along(p0, d0, self.nudge(p0, d0)))
                if c is None or m1.get("container") != c.name:
                    return "killed in %r, it is in %r" % (m1.get("container"), c and c.name), exact
            return None, exact
        if over:
            return "over the limits: %d steps of %r and a distance of %r of %r" % (steps, self.maxsteps, r0.travelled, self.maxpath), exact
        # a move
        L = r1.travelled - r0.travelled
        move = geom.sub(p1, p0)
        want = [x * L for x in d0]
        if max(map(abs, geom.sub(move, want))) > 1e-9 * self.size + 1e-12 * abs(r1.travelled):
            return "moves by %r, not by %r along %r" % (move, L, d0), exact
        if r1.wavelength != r0.wavelength or r1.source != r0.source:
            return "wavelength or source changes on the way: %s, then %s" % (brief(a), brief(e)), exact
        if n1 in ("ABSORB", "EXIT") and max(map(abs, geom.sub(d0, d1))) > 0:
            return "direction changes from %r to %r" % (d0, d1), exact
        if not exact or not self.start_clear(r0):
            self.skipped += 1
            return None, False
        self.judged += 1
        eps = 1e-9 * self.size
        ahead = w.ahead(p0, d0, eps)
        inside = w.container(geom.along(p0, d0, self.nudge(p0, d0)))
        if inside is None or not ahead:
            return None, False
        t, body = ahead[0]
        tol = 1e-8 * self.size
        dt = r1.duration - r0.duration
        if abs(dt - L * inside.n / geom.C) > 1e-9 * L * inside.n / geom.C + 4e-16 * r1.duration + tol / geom.C:
            return "%r in %r s in %s of index %r" % (L, dt, inside.name, inside.n), exact
        if m1.get("container") != inside.name:
            return "in %r, it is in %r" % (m1.get("container"), inside.name), exact
        if n1 == "ABSORB":
            if L > t + tol:
                return "absorbed after %r, %s is hit after %r" % (L, body.name, t), exact
            c = m1.get("component")
            if c not in self.tables or self.tables[c][1] != inside.name:
                return "absorbed by %r, which is not in %s" % (c, inside.name), exact
            if not self.tables[c][0](r0.wavelength) > 0:
                return "absorbed by %r, which does not absorb %r nm" % (c, r0.wavelength), exact
            return None, exact
        if abs(L - t) > tol:
            return "reaches %r after %r, the first surface is %s after %r" % (m1.get("hit"), L, body.name, t), exact
        here = [b for x, b in ahead if x < t + eps]         # more than one where surfaces touch
        if m1.get("hit") not in [b.name for b in here]:
            return "on the surface of %r, the geometry has %s there" % (m1.get("hit"), body.name), exact
        body = w.byname[m1["hit"]]
        if n1 == "EXIT":
            if body.i != 0:
                return "exit through %s" % body.name, exact
            if m1.get("adjacent") is not None:
                return "exit into %r" % (m1.get("adjacent"),), exact
            return None, exact
        if body.i == 0:
            return "at the outer surface", exact
        other = w.container(geom.along(p1, d0, self.nudge(p1, d0)))
        if other is None:
            return None, False
        if m1.get("adjacent") != other.name:
            return "adjacent %r, the geometry has %s" % (m1.get("adjacent"), other.name), exact
        n, off, edge = body.normal(p1)
        if off > tol:
            return "%r away from the surface of %s" % (off, body.name), exact
        if "normal" in m1:
            got = [float(x) for x in m1["normal"]]
            if max(map(abs, geom.sub(got, n))) > 1e-6:
                return "normal %r, the geometry has %r" % (got, n), exact
        s = body.surface
        if n1 == "REFLECT":
            if s == "null" or (s != "fresnel" and s[1] <= 0):
                return "reflected by a surface that does not reflect", exact
            want = geom.reflect(d0, n)
        else:
            if s not in ("null", "fresnel") and s[1] >= 1:
                return "transmitted by a mirror", exact
            want = d0
            if s == "fresnel":
                want = geom.refract(d0, n, inside.n, other.n)
                if want is None:
                    c = abs(geom.dot(d0, n))
                    if (1 - c * c) * (inside.n / other.n) ** 2 > 1 + 1e-6:
                        return "transmitted beyond the critical angle", exact
                    return None, False
        if max(map(abs, geom.sub(d1, want))) > 2e-5 if s == "fresnel" and n1 == "TRANSMIT" else max(map(abs, geom.sub(d1, want))) > 1e-7:
            return "direction %r becomes %r, not %r" % (d0, d1, want), exact
        return None, exact

    def nudge(self, p, d):
        """A little way ahead, less than half of the way to the next surface."""
        ts = [t for t, _ in self.world.ahead(p, d, 1e-9 * self.size)]
        return min([1e-4 * self.size] + [t / 2 for t in ts[:1]])


def run(c):
    o = harness.Outcome()
    o.nontrivial = False
    j = Judge(c["spec"], c["maxsteps"], c["maxpath"], c["emit"])
    o.sample = dict(mode=c["mode"], rays=c["rays"], nodes=len(c["spec"]["nodes"]), maxsteps=c["maxsteps"], maxpath=c["maxpath"])
    if c["mode"] == "engine":
        engine_case(c, o, j)
    else:
        python_case(c, o, j)
    o.stat("moves_judged", j.judged)
    o.stat("moves_near_edges", j.skipped)
    return o


def python_case(c, o, j):
    from pvtrace.algorithm import photon_tracer as tracer
    scene = scenes.build(c["spec"])
    src = draws.Adversary(c["seed"], c["extreme"], c["sticky"])
    kw = dict(maxsteps=c["maxsteps"], maxpathlength=math.inf if c["maxpath"] is None else c["maxpath"], emit_method=c["emit"])
    log = []
    with draws.use(src):
        rays = list(scene.emit(c["rays"]))
    if len(rays) != c["rays"]:
        o.violate("count", "%d rays for %d" % (len(rays), c["rays"]))
    for i, ray in enumerate(rays):
        h = []
        err = None
        src = draws.Adversary("%d/%d" % (c["seed"], i), c["extreme"], c["sticky"])
        with draws.use(src):
            g = tracer.step_forward(scene, ray, **kw)
            try:
                while len(h) < 2 * c["cut"]:
                    h.append(next(g))
            except StopIteration:
                g = None
            except Exception as e:
                err, g = e, None
        o.fault("extreme_draws", src.extremes)
        o.fault("repeated_draws", src.stuck)
        o.stat("draws", src.count)
        o.stat("rays")
        for e in h:
            o.stat("events_" + e[1].name)
        o.nontrivial |= len(h) > 2
        log.append([brief(e) for e in h])
        why = j.history(h, complete=g is None and err is None)
        if why is None and err is not None and j.exact and j.start_clear(h[-1][0]):
            why = "fails after %s: %s: %s" % (brief(h[-1]), type(err).__name__, str(err)[:200])
        if why is None and len(h) > 2 * c["maxsteps"] + 2:
            why = "%d events with a limit of %d steps" % (len(h), c["maxsteps"])
        if why:
            o.trace = log[-1][-8:]
            o.violate("history", "ray %d %s" % (i, why))
            break
        if c["again"] and err is None and g is None:
            with draws.use(draws.Adversary("%d/%d" % (c["seed"], i), c["extreme"], c["sticky"])):
                try:
                    f = tracer.follow(scene, ray, **kw)
                except Exception as e:
                    o.violate("follow", "follow fails where step_forward does not: %r" % e)
                    break
            if [(brief((r, e, None))) for r, e in f] != [brief((r, e, None)) for r, e, _ in h]:
                o.violate("follow", "ray %d: follow has %d events, step_forward %d" % (i, len(f), len(h)))
                break
    o.fp = o.distinct = hashlib.sha256(repr(log).encode()).hexdigest()[:16]


def engine_case(c, o, j):
    engine.config(engine.SERIAL)
    scene = scenes.build(c["spec"])
    rec = draws.Adversary(c["npseed"], c["extreme"], c["sticky"])
    with draws.use(rec):
        res = engine.M.api.simulate(scene, c["rays"], seed=c["seed"], workers=1, maxsteps=c["maxsteps"], max_events=2 * c["maxsteps"] + 8, emit_method=c["emit"])
    hs = list(res.histories())
    o.fp = o.distinct = engine.digest(res.data)
    o.stat("engine_rays", len(hs))
    if len(hs) != c["rays"]:
        o.violate("count", "%d histories for %d rays" % (len(hs), c["rays"]))
    for i, h in enumerate(hs):
        o.nontrivial |= len(h) > 2
        why = j.history(h)
        if why:
            o.trace = [brief(e) for e in h[-8:]]
            o.violate("engine", "ray %d of the engine %s" % (i, why))
            break
