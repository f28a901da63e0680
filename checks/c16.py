"""C16: the compiled engine follows the same physics as the Python tracer."""
import json
import math

from dst import choice, draws, engine, geom, harness, scenes

PROPERTY = "C16"
LEVEL = "exploration"
RULE = ("one case = one random scene traced by the engine, every step of every history repeated by the Python tracer from the same state with the same random numbers; "
        "emission compared with the same draws; now and then a scene the engine cannot represent; non-trivial if at least one history had an interaction; distinct by history digest")
ASSUMPTIONS = ["both tracers consume their random numbers in the same order (they do today), so that one simulated stream drives both",
               "a difference is not judged where the line of flight comes within the Python tracer's resolution (its ray caster works in single precision and steps over 1e-4 of a "
               "shape's size) of an edge, grazes a surface, or at index-matched interfaces where the number of draws is decided by rounding",
               "where a spectrum does not cover a wavelength the Python tracer fails and the engine takes the nearest value (known findings); the ray is judged up to there"]
COMPONENTS = dict(real=["pvtrace.engine (compiler, emit, kernel compiled from the current source)", "pvtrace.algorithm.photon_tracer and everything below it"],
                  stubbed=["numpy's random source (one simulated stream for both)", "OpenMP runtime (serial schedule)"])
BATCH = 4


def prepare():
    draws.install()
    engine.load()


def budget(tier):
    return 3600 if tier == "quick" else 40000


BAD = ["mesh", "delegate", "surface-subclass", "phase-function", "phase-subclass", "scale", "no-material", "hist-absorption", "hist-emission", "component", "component-subclass",
       "geometry-subclass", "no-root-geometry", "emit-method", "mask-subclass", "light-subclass"]


def gen(r, tier, i):
    if r.random() < 0.04:
        return dict(mode="refuse", spec=scenes.scene(r, shapes=2, lights=1, exotic=False), bad=r.choice(BAD), rays=6, npseed=r.getrandbits(31))
    spec = scenes.scene(r)
    k = r.choice([1.0] * 6 + [0.1, 10.0, 100.0])
    if k != 1.0:
        scenes.scale(spec, k)
    if r.random() < 0.08:           # tables that do not cover every wavelength
        for m in spec["nodes"]:
            for x in m["comps"]:
                if isinstance(x["abs"], dict) and r.random() < 0.7:
                    x["abs"]["range"] = r.choice([(300.0, 900.0), (450.0, 650.0), (100.0, 600.0), (520.0, 2000.0)])
                if "ems" in x and r.random() < 0.5:
                    t = x["ems"]
                    t["range"] = (t["centre"] - r.choice([0.5, 1.0, 2.0]) * t["width"], t["centre"] + r.choice([0.5, 1.0, 2.0]) * t["width"])
    if r.random() < 0.85:           # index-matched interfaces leave the number of draws to rounding
        for k, m in enumerate(spec["nodes"]):
            if k and m["surface"] == "fresnel":
                m["n"] += 0.01 * k
    return dict(mode="trace", spec=spec, rays=r.choice([4, 10, 20]), seed=r.choice([0, 1, 2 ** 31, r.getrandbits(40)]), npseed=r.getrandbits(31), emit=r.choice(["kT", "kT", "redshift", "full"]),
                maxsteps=r.choice([1000, 300, 60, 5, 1]), free=r.random() < 0.3)


def shrinks(c):
    if c["mode"] == "trace":
        for n in (1, c["rays"] // 2):
            if 0 < n < c["rays"]:
                yield dict(c, rays=n)
        for ms in (1, 5, 20):
            if ms < c["maxsteps"]:
                yield dict(c, maxsteps=ms)
        for s in scenes.tidy(c["spec"]):
            yield dict(c, spec=s)


class At(draws.Source):
    def __init__(self, stream, pos):
        super().__init__()
        self.stream, self.pos = stream, pos

    def draw(self):
        s = self.stream
        while len(s[1]) <= self.pos:
            s[1].append(s[0].draw())
        self.pos += 1
        return s[1][self.pos - 1]


def brief(e):
    ray, ev, m = e
    m = m or {}
    return "%s hit=%s container=%s adjacent=%s component=%s pos=%s dir=%s nm=%.9g d=%.12g t=%.12g" % (
        ev.name, m.get("hit"), m.get("container"), m.get("adjacent"), m.get("component"), tuple(round(float(x), 9) for x in ray.position),
        tuple(round(float(x), 9) for x in ray.direction), ray.wavelength, ray.travelled, ray.duration)


def far(a, b, scale):
    return max(abs(float(x) - float(y)) for x, y in zip(a, b)) > scale


def differ(p, k, size, tol=1e-7):
    """What differs between the Python tracer's event and the engine's."""
    a, e, m = p
    b, f, q = k
    m = m or {}
    if e.name != f.name:
        return "event %s, the Python tracer has %s" % (f.name, e.name)
    if e.name != "KILL":
        for key in ("hit", "container", "adjacent", "component"):
            if m.get(key) != q.get(key):
                return "%s of %s is %r, the Python tracer has %r" % (key, e.name, q.get(key), m.get(key))
    elif m.get("container") != q.get("container"):
        return "container of KILL is %r, the Python tracer has %r" % (q.get("container"), m.get("container"))
    if not far(a.position, b.position, tol * size) is True and not all(map(math.isfinite, list(b.position) + list(b.direction))):
        return "not a number in %s" % e.name
    if far(a.position, b.position, tol * size):
        return "position of %s is %r, the Python tracer has %r" % (e.name, b.position, tuple(map(float, a.position)))
    if far(a.direction, b.direction, tol):
        return "direction of %s is %r, the Python tracer has %r" % (e.name, b.direction, tuple(map(float, a.direction)))
    if abs(a.wavelength - b.wavelength) > 1e-6:
        return "wavelength of %s is %r, the Python tracer has %r" % (e.name, b.wavelength, float(a.wavelength))
    if abs(a.travelled - b.travelled) > tol * max(size, abs(a.travelled)):
        return "distance of %s is %r, the Python tracer has %r" % (e.name, b.travelled, float(a.travelled))
    if abs(a.duration - b.duration) > 1e-7 * abs(a.duration) + tol * size / geom.C:
        return "time of %s is %r, the Python tracer has %r" % (e.name, b.duration, float(a.duration))
    if a.source != b.source:
        return "source of %s is %r, the Python tracer has %r" % (e.name, b.source, a.source)
    if "normal" in m and far(m["normal"], q["normal"], 1e-7):
        return "normal of %s is %r, the Python tracer has %r" % (e.name, q["normal"], tuple(map(float, m["normal"])))
    return None


def step(c, scene, ray, maxsteps, source, tracer):
    """The events of one interaction of the Python tracer, or the exception."""
    g = tracer.step_forward(scene, ray, maxsteps=maxsteps, emit_method=c["emit"])
    next(g)
    out = []
    with draws.use(source):
        try:
            out.append(next(g))
            if out[0][1].name == "ABSORB":
                out.append(next(g))
        except StopIteration:
            pass
        except Exception as e:
            return out, e
    return out, None


def run(c):
    o = harness.Outcome()
    o.nontrivial = False
    engine.config(engine.SERIAL)
    if c["mode"] == "refuse":
        o.sample = dict(refuse=c["bad"])
        refuse(c, o)
        return o
    import numpy as np
    from pvtrace.algorithm import photon_tracer as tracer
    o.sample = dict(rays=c["rays"], nodes=len(c["spec"]["nodes"]), emit=c["emit"], maxsteps=c["maxsteps"])
    scene = scenes.build(c["spec"])
    world = geom.World(c["spec"])
    rec = draws.Recording(c["npseed"])
    with draws.use(rec):
        res = engine.M.api.simulate(scene, c["rays"], seed=c["seed"], workers=1, maxsteps=c["maxsteps"], max_events=2 * c["maxsteps"] + 8, emit_method=c["emit"])
    hs = list(res.histories())
    o.fp = o.distinct = engine.digest(res.data)
    if len(hs) != c["rays"]:
        o.violate("count", "%d histories for %d rays" % (len(hs), c["rays"]))
        return o
    emission(c, o, scene, rec, hs)
    for i, h in enumerate(hs):
        if o.violation:
            break
        follow(c, o, scene, world, tracer, i, h)
        if c["free"] and not o.violation:
            free(c, o, scene, world, tracer, i, h)
    if getattr(o, "outside", None) and not o.violation:
        o.violate("known-range", o.outside[1], key=o.outside[0])
    return o


def outside(c, got, nm):
    """(key, component) of the spectrum of the container that has no value for this wavelength."""
    meta = got[0][2] or {}
    for m in c["spec"]["nodes"]:
        if m["name"] != meta.get("container"):
            continue
        for x in m["comps"]:
            lo, hi = (x["abs"].get("range") or (100.0, 2000.0)) if isinstance(x["abs"], dict) else (-math.inf, math.inf)
            if not lo <= nm <= hi:
                return "table-range", x["name"]
            if "ems" in x and x["name"] == meta.get("component") and got[0][1].name == "ABSORB" and c["emit"] != "full":
                if c["emit"] == "kT":
                    nm = 1240.0 / (1240.0 / nm + 1.5 * 1.380649e-23 / 1.60217662e-19 * 300.0)
                if nm > (x["ems"].get("range") or (100.0, 2000.0))[1] * (1 - 1e-12):
                    return "emission-range", x["name"]
    return None


def matched(c, world, e):
    """Was this an index-matched Fresnel interface?"""
    m = e[2]
    if e[1].name not in ("REFLECT", "TRANSMIT") or not m.get("adjacent"):
        return False
    return world.byname[m["hit"]].surface == "fresnel" and world.byname[m["container"]].n == world.byname[m["adjacent"]].n


def margin(world):
    return 1e-3 * world.size


def follow(c, o, scene, world, tracer, i, h):
    stream = (draws.Xoshiro(c["seed"] + i), [])
    places = {0}
    k, steps = 0, 0
    if not h or h[0][1].name != "GENERATE":
        o.violate("history", "history of ray %d starts with %s" % (i, brief(h[0]) if h else "nothing"))
        return
    while True:
        ray = h[k][0]
        got = h[k + 1:k + (3 if k + 1 < len(h) and h[k + 1][1].name == "ABSORB" else 2)]
        after, why, first = set(), None, None
        for p in sorted(places):
            s = At(stream, p)
            want, err = step(c, scene, ray, c["maxsteps"] - steps, s, tracer)
            d = None
            if err is not None:
                d = "the Python tracer fails: %s: %s" % (type(err).__name__, err)
            elif len(want) != len(got):
                d = "%d events, the Python tracer has %s" % (len(got), [brief(x) for x in want])
            else:
                for x, y in zip(want, got):
                    d = d or differ(x, y, world.size)
            if d is None:
                after.add(s.pos)
                if matched(c, world, got[-1]) if got else False:
                    after |= {max(p, s.pos - 1), s.pos + 1}
                    o.stat("index_matched_interfaces")
            elif first is None:
                first = d, want, err
        o.stat("steps")
        for x in got:
            o.stat("events_" + x[1].name)
        if not after and isinstance(first[2], ValueError) and "range" in str(first[2]) and got and outside(c, got, ray.wavelength):
            # the Python tracer refuses a wavelength a spectrum does not cover; the engine takes the nearest value
            o.stat("wavelengths_outside_a_table")
            key, name = outside(c, got, ray.wavelength)
            o.outside = key, "ray %d of %r nm is traced on although component %s has no value for this wavelength; the Python tracer fails: %s" % (i, ray.wavelength, name, first[2])
            return
        if not after:
            pos, d = [float(x) for x in ray.position], [float(x) for x in ray.direction]
            if not all(map(math.isfinite, pos + d)):
                o.violate("nan", "ray %d event %d: %s" % (i, k, brief(h[k])))
            elif not world.clear(pos, d, margin(world)):
                o.stat("undecided_near_edges")
            elif len(places) > 1 and first[0] == "":
                pass
            else:
                o.trace = ["engine: " + brief(x) for x in h[max(0, k - 2):k + 3]] + ["python: " + brief(x) for x in first[1]]
                o.violate("differs", "ray %d, step %d after %s: %s" % (i, steps, h[k][1].name, first[0]))
            return
        places = after
        steps += 1
        o.nontrivial = True
        if not got:
            return
        k += len(got)
        if got[-1][1].name in ("EXIT", "KILL", "REACT", "NONRADIATIVE"):
            if k != len(h) - 1:
                o.violate("history", "ray %d goes on after %s" % (i, brief(h[k])))
            return
        if k == len(h) - 1 and steps >= c["maxsteps"] + 2:
            o.violate("history", "ray %d ends with %s" % (i, brief(h[k])))
            return


def free(c, o, scene, world, tracer, i, h):
    """The Python tracer from start to end."""
    s = draws.Xoshiro(c["seed"] + i)
    k = 0
    with draws.use(s):
        g = tracer.step_forward(scene, h[0][0], maxsteps=c["maxsteps"], emit_method=c["emit"])
        while True:
            try:
                e = next(g)
            except StopIteration:
                if k != len(h):
                    o.violate("differs", "ray %d: the Python history has %d events, the engine's %d" % (i, k, len(h)))
                return
            except Exception:
                return
            if k >= len(h):
                o.violate("differs", "ray %d: the engine's history ends after %d events, the Python tracer goes on with %s" % (i, k, brief(e)))
                return
            d = differ(e, h[k], world.size, 1e-8)
            if d:
                # from here on only rounding may have decided; the stepwise comparison is the judge
                o.stat("free_runs_drifted")
                if k == 0:
                    o.violate("differs", "ray %d: %s" % (i, d))
                return
            if matched(c, world, h[k]):
                return
            k += 1
            o.stat("free_running_events")


def emission(c, o, scene, rec, hs):
    """The engine's starting rays against Light.emit fed the same numbers."""
    lights = list(scene.light_nodes)
    if any(l.get("custom") for l in c["spec"]["lights"]):
        for i, h in enumerate(hs):
            if h and h[0][0].source != lights[i % len(lights)].light.name:
                o.violate("emission", "ray %d comes from %r" % (i, h[0][0].source))
        return
    it = iter(rec.calls)
    for j, node in enumerate(lights):
        rows = list(range(j, c["rays"], len(lights)))
        if not rows:
            continue
        l = c["spec"]["lights"][j]
        n = (1 if l["wavelength"] and l["wavelength"][0] == "spectrum" else 0) + (0 if l["position"] is None else dict(rect=2, circle=2, cube=3)[l["position"][0]]) + (0 if l["direction"] is None else 2)
        cols = []
        for _ in range(n):
            col = next(it, None)
            if col is None or len(col) != len(rows):
                o.stat("emission_not_comparable")
                return
            cols.append(col)
        for m, row in enumerate(rows):
            tape = draws.Tape([col[m] for col in cols])
            with draws.use(tape):
                try:
                    ray = next(iter(node.emit(1))).representation(node, scene.root)
                except IndexError:
                    o.stat("emission_not_comparable")
                    return
            got = hs[row][0][0]
            o.stat("emitted_rays_compared")
            if far(ray.position, got.position, 1e-9) or far(ray.direction, got.direction, 1e-9) or abs(ray.wavelength - got.wavelength) > 1e-9 or ray.source != got.source:
                o.violate("emission", "ray %d of light %s starts as pos=%s dir=%s nm=%s source=%s, Light.emit with the same draws gives pos=%s dir=%s nm=%s source=%s" % (
                    row, node.name, got.position, got.direction, got.wavelength, got.source, tuple(map(float, ray.position)), tuple(map(float, ray.direction)), ray.wavelength, ray.source))
                return


# ---------------------------------------------------------------------------

def refuse(c, o):
    """A scene outside the engine's subset: an error, or the Python tracer's behaviour."""
    import numpy as np
    from pvtrace.engine.compiler import UnsupportedSceneError
    from pvtrace.geometry.box import Box
    from pvtrace.geometry.sphere import Sphere
    from pvtrace.light import light as L
    from pvtrace.material import component as C
    from pvtrace.material.surface import FresnelSurfaceDelegate, Surface
    from pvtrace.material.utils import Cone, isotropic
    scene = scenes.build(c["spec"])
    nodes = [n for n in [scene.root] + list(scene.root.descendants) if n.geometry is not None]
    node = nodes[-1]
    mat = node.geometry.material
    light = scene.light_nodes[0]
    emit = "kT"
    calls = []
    b = c["bad"]
    if b == "mesh":
        node.geometry = scenes.make_shape(dict(kind="mesh", solid="octahedron", radius=scenes.inner(c["spec"]["nodes"][len(nodes) - 1]["shape"])), mat)
    elif b == "delegate":
        class Mirror(FresnelSurfaceDelegate):
            def reflectivity(self, *a):
                return 1.0
        mat.surface = Surface(Mirror())
    elif b == "surface-subclass":
        class Opaque(Surface):
            def is_reflected(self, *a):
                return True
        mat.surface = Opaque()
    elif b == "phase-function":
        mat.components = [C.Scatterer(1.0, phase_function=lambda: np.array([0.0, 0.0, 1.0]))]
    elif b == "phase-subclass":
        class Fixed(Cone):
            def __call__(self):
                return np.array([0.0, 0.0, 1.0])
        mat.components = [C.Scatterer(1.0, phase_function=Fixed(0.5))]
    elif b == "scale":
        node.pose = node.pose @ np.diag([1.2, 1.0, 1.0, 1.0])
    elif b == "no-material":
        node.geometry._material = None
    elif b == "hist-absorption":
        mat.components = [C.Absorber(np.column_stack((np.linspace(100, 2000, 20), np.linspace(1, 2, 20))), hist=True)]
    elif b == "hist-emission":
        x = np.column_stack((np.linspace(100, 2000, 20), np.linspace(1, 2, 20)))
        mat.components = [C.Luminophore(x, emission=x, hist=True)]
    elif b == "component":
        class Own(C.Component):
            def coefficient(self, nm):
                return 1.0
        mat.components = [Own()]
    elif b == "component-subclass":
        class Red(C.Luminophore):
            def emit(self, ray, **kw):
                from dataclasses import replace
                return replace(ray, wavelength=1234.5)
        x = np.column_stack((np.linspace(100, 2000, 20), np.linspace(1, 2, 20)))
        mat.components = [Red(x, emission=x)]
    elif b == "geometry-subclass":
        class Holed(Sphere):
            def intersections(self, *a):
                return ()
        node.geometry = Holed(0.3, material=mat)
    elif b == "no-root-geometry":
        scene.root.geometry = None
    elif b == "emit-method":
        emit = "boltzmann"
    elif b == "mask-subclass":
        class Shifted(L.RectangularMask):
            def __call__(self):
                return (0.125, 0.25, 0.0)
        light.light.position = Shifted(0.01, 0.01)
        calls = "position"
    elif b == "light-subclass":
        class Twin(L.Light):
            def emit(self, num_rays=None):
                for ray in super().emit(num_rays):
                    from dataclasses import replace
                    yield replace(ray, wavelength=321.0)
        light.light = Twin()
        calls = "wavelength"
    o.stat("refusals_" + b)
    o.fp = o.distinct = b
    o.nontrivial = True
    np.random.seed(c["npseed"])
    try:
        res = engine.M.api.simulate(scene, c["rays"], seed=1, workers=1, emit_method=emit)
    except Exception as e:
        if not isinstance(e, (UnsupportedSceneError, ValueError, TypeError, NotImplementedError)):
            o.violate("refusal", "%s: %s: %s" % (b, type(e).__name__, e))
        return
    if calls:       # may be supported: then it must be honoured
        for h in res.histories():
            ray = h[0][0]
            if calls == "wavelength" and ray.wavelength != 321.0:
                o.violate("refusal", "a light whose emit() makes rays of 321 nm is traced with %r nm" % ray.wavelength)
            elif calls == "position" and far(ray.position, light.point_to_node((0.125, 0.25, 0.0), scene.root), 1e-9):
                o.violate("refusal", "a position delegate of its own class is traced as its base class")
        return
    o.violate("refusal", "a scene with %s, which the engine cannot represent, is traced instead of refused" % b)
