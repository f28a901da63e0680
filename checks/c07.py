"""C07: engine recorders count every ray event, sampled or not."""
import math

from dst import choice, engine, harness, scenes

PROPERTY = "C07"
LEVEL = "exploration"
RULE = ("one case = one random scene with recorders; the recorder results of an engine run are compared with a reference evaluation over the complete histories of all "
        "rays, then again under other thread schedules while fewer or no histories are kept and while recorders are added or removed; non-trivial if a recorder "
        "counted a ray; distinct by results and thread switches")
ASSUMPTIONS = ["no ray exceeds the event budget (the budget is chosen from the step limit)", "histogram ranges are half open",
               "values within rounding distance of a bin edge, and interactions within 2e-5 of a cylinder's rim, may fall on either side",
               "the OpenMP runtime is simulated, see C06"]
COMPONENTS = dict(real=["pvtrace.engine (api, compiler, emit, recorder, tally, kernel compiled from the current _kernel.pyx)", "numpy"],
                  stubbed=["OpenMP runtime (simulated team and scheduler)", "clock", "cpu_count"])
BATCH = 4


def prepare():
    engine.load()


def budget(tier):
    return 4000 if tier == "quick" else 100000


def gen(r, tier, i):
    c = dict(spec=scenes.scene(r, recorders=r.choice([1, 2, 4, 8, 12])), rays=r.choice([1, 10, 65, 130, 200]), seed=r.getrandbits(30), npseed=r.getrandbits(31),
             maxsteps=r.choice([200, 200, 200, 40, 3]), emit=r.choice(["kT", "kT", "redshift", "full"]))
    n = len(c["spec"]["recorders"])
    c["runs"] = []
    for _ in range(r.choice([2, 3])):
        q = dict(workers=r.choice([1, 2, 3, 8]), schedule=engine.gen_schedule(r), record_every=r.choice([0, 0, 1, 2, 5, 1000]),
                 small=r.random() < 0.3, keep=None)
        if r.random() < 0.6:
            q["keep"] = sorted(r.sample(range(n), r.randint(1, n)), key=lambda x: r.random())
            q["extra"] = [dict(scenes.recorder(r, "x%d" % j, None, k == 0, c["spec"]["nodes"][k]["shape"]), node=k)
                          for j, k in enumerate(r.randrange(len(c["spec"]["nodes"])) for _ in range(r.choice([0, 1, 3])))]
        c["runs"].append(q)
    return c


def shrinks(c):
    for i in range(len(c["runs"])):
        yield dict(c, runs=c["runs"][:i] + c["runs"][i + 1:])
    for n in (c["rays"] // 2, c["rays"] - 1):
        if n > 0:
            yield dict(c, rays=n)
    for i, q in enumerate(c["runs"]):
        if q["keep"] is not None:
            yield dict(c, runs=c["runs"][:i] + [dict(q, keep=None)] + c["runs"][i + 1:])
        if q["workers"] != 1:
            yield dict(c, runs=c["runs"][:i] + [dict(q, workers=1)] + c["runs"][i + 1:])
    if not any(q["keep"] is not None for q in c["runs"]):
        for s in scenes.tidy(c["spec"]):
            if s["recorders"]:
                yield dict(c, spec=s)


# ---- the reference -------------------------------------------------------

class Geo:
    """World pose, shape and normals of a node, from the spec alone."""

    def __init__(self, m):
        import numpy as np
        self.c = np.array(m["centre"], dtype=float)
        self.R = np.eye(3)
        if m.get("rot"):
            a, (x, y, z) = m["rot"]
            n = math.sqrt(x * x + y * y + z * z)
            x, y, z = x / n, y / n, z / n
            K = np.array([[0, -z, y], [z, 0, -x], [-y, x, 0]])
            self.R = np.eye(3) + math.sin(a) * K + (1 - math.cos(a)) * (K @ K)
        self.s = m["shape"]

    def local(self, p):
        return self.R.T @ (p - self.c)

    def normal(self, p):
        """(world normal at the world point, sure)"""
        import numpy as np
        q = self.local(p)
        s = self.s
        sure = True
        if s["kind"] == "sphere":
            n = q / np.linalg.norm(q)
        elif s["kind"] == "box":
            d = np.abs(np.abs(q) - np.array(s["size"]) / 2)
            k = int(np.argmin(d))
            sure = np.sort(d)[1] > 1e-9
            n = np.zeros(3)
            n[k] = math.copysign(1.0, q[k])
        else:
            h = s["length"] / 2
            end = abs(abs(q[2]) - h)
            side = abs(math.hypot(q[0], q[1]) - s["radius"])
            tol = 1e-7 + 3e-5 * h
            if end <= tol and side <= tol:
                sure = False
            if end <= side:
                n = np.array([0, 0, math.copysign(1.0, q[2])])
            else:
                n = np.array([q[0], q[1], 0.0]) / math.hypot(q[0], q[1])
            if not sure or (end <= tol) != (end <= side):
                sure = False
        return self.R @ n, sure


def matches(rec, name, ev, m):
    e = rec["event"]
    if e == "entering":
        return ev == "TRANSMIT" and m["hit"] == name and m["adjacent"] == name
    if e == "escaping":
        return ev == "TRANSMIT" and m["hit"] == name and m["container"] == name
    if e == "reflected":
        return ev == "REFLECT" and m["hit"] == name and m["container"] != name
    if e == "exit":
        return ev == "EXIT" and m["hit"] == name
    return ev == {"lost": "NONRADIATIVE", "reacted": "REACT", "killed": "KILL"}[e] and m["container"] == name


EPS = dict(wavelength=1e-9, angle=3e-7, duration=1e-22, pathlength=1e-9, x=1e-9, y=1e-9, z=1e-9)


class Ref:
    def __init__(self, spec, rec):
        self.rec = rec
        self.m = spec["nodes"][rec["node"]]
        self.geo = Geo(self.m)
        self.rays = self.crossings = self.unsure = 0
        self.values = []

    def ray(self, history):
        import numpy as np
        seen = False
        prev = None
        for ray, ev, m in history:
            if matches(self.rec, self.m["name"], ev.name, m):
                p = np.array(ray.position)
                surface = self.rec["event"] in ("entering", "escaping", "reflected", "exit")
                angle = 0.0
                if surface:
                    n, sure = self.geo.normal(p)
                    if not sure:
                        self.unsure += 1
                    if self.rec.get("axis"):
                        v = np.zeros(3)
                        v[self.rec["axis"][0]] = self.rec["axis"][1]
                        f = self.geo.R @ v
                        off = max(abs(f - n)) - self.rec["atol"]
                        if abs(off) < 1e-8:
                            self.unsure += 1
                        if off > 0:
                            prev = ray
                            continue
                    d = np.array((ray if self.rec["event"] == "exit" else prev).direction)
                    angle = math.acos(min(1.0, abs(float(d @ n))))
                self.crossings += 1
                if not seen:
                    seen = True
                    self.rays += 1
                    q = self.geo.local(p)
                    self.values.append(dict(wavelength=ray.wavelength, angle=angle, duration=ray.duration, pathlength=ray.travelled, x=q[0], y=q[1], z=q[2]))
            prev = ray

    def compare(self, res):
        """What is wrong with a RecorderResult, or None."""
        import numpy as np
        if self.unsure:
            return None
        if res.rays != self.rays:
            return "counts %d rays instead of %d" % (res.rays, self.rays)
        if res.crossings != self.crossings:
            return "counts %d crossings instead of %d" % (res.crossings, self.crossings)
        for p in ("wavelength", "angle", "duration", "pathlength"):
            x = np.array([v[p] for v in self.values])
            got = (res.mean(p), res.std(p), res.error(p))
            if not self.rays:
                if not all(math.isnan(g) for g in got):
                    return "has a mean, deviation or error %r of %s without rays" % (got, p)
                continue
            scale = float(np.max(np.abs(x))) + 1e-300
            tol = 1e-9 * scale + (1e-6 if p == "angle" else 0)
            if abs(got[0] - x.mean()) > tol:
                return "has mean %s %r instead of %r" % (p, got[0], x.mean())
            vt = 1e-8 * scale * scale + (1e-6 if p == "angle" else 0)
            if abs(got[1] ** 2 - x.var()) > vt:
                return "has deviation of %s %r instead of %r" % (p, got[1], x.std())
            if abs(got[2] - got[1] / math.sqrt(self.rays)) > 1e-9 * abs(got[1]) + 1e-30:
                return "has error of %s %r instead of %r" % (p, got[2], got[1] / math.sqrt(self.rays))
        for i, h in enumerate(self.rec["hists"]):
            axes = [h["a"]] + ([h["b"]] if h.get("b") else [])
            out = res.histogram(i)
            if len(out) != len(axes) + 1:
                return "histogram %d has %d axes" % (i, len(out) - 1)
            for e, a in zip(out, axes):
                if len(e) != a[3] + 1 or not np.allclose(e, [a[1] + (a[2] - a[1]) * k / a[3] for k in range(a[3] + 1)], rtol=1e-12, atol=1e-12 * abs(a[2])):
                    return "histogram %d has edges %s" % (i, np.asarray(e).tolist())
            got = np.asarray(out[-1])
            want = np.zeros([a[3] for a in axes], dtype=int)
            if got.shape != want.shape:
                return "histogram %d has shape %s instead of %s" % (i, got.shape, want.shape)
            loose = 0
            for v in self.values:
                idx = []
                vague = False
                for p, lo, hi, n in axes:
                    x = v[p]
                    b = [math.floor((y - lo) / (hi - lo) * n) for y in (x - EPS[p], x, x + EPS[p])]
                    vague |= b[0] != b[2]
                    idx.append(b[1])
                if vague:
                    loose += 1
                elif all(0 <= k < a[3] for k, a in zip(idx, axes)):
                    want[tuple(idx)] += 1
            d = got - want
            if (d < 0).any() or d.sum() > loose:
                k = tuple(int(z) for z in np.argwhere((d < 0) | (d > 0))[0])
                return "histogram %d (%s) holds %d in bin %s instead of %d" % (i, " and ".join("%s from %s to %s in %d" % tuple(a) for a in axes), got[k], k, want[k])
        return None


def view(res):
    out = {}
    for name, x in res.recorders.items():
        out[name] = (x.rays, x.crossings, [[y.tolist() for y in x.histogram(i)] for i in range(len(x.spec.histograms))],
                     [x.mean(p) for p in ("wavelength", "angle", "duration", "pathlength")], [x.std(p) for p in ("wavelength", "angle", "duration", "pathlength")])
    return out


def near(a, b, angle=0.0):
    """Equal up to the order of summation (and to rounding of acos near 1)."""
    if a[:3] != b[:3]:
        return False
    for i in range(4):
        m, n, s, t = a[3][i], b[3][i], a[4][i], b[4][i]
        if m != m or n != n:
            if m == m or n == n:
                return False
            continue
        e = angle if i == 1 else 0.0
        if abs(m - n) > 1e-9 * abs(m) + e or abs(s * s - t * t) > 1e-8 * (m * m + s * s) + e:
            return False
    return True


def run(c):
    import numpy as np
    o = harness.Outcome()
    spec = c["spec"]

    def trace(scene, workers, record, events):
        np.random.seed(c["npseed"])
        return engine.M.api.simulate(scene, c["rays"], seed=c["seed"], workers=workers, maxsteps=c["maxsteps"], max_events=events, emit_method=c["emit"], record_every=record)
    budget = 2 * c["maxsteps"] + 6
    scene = scenes.build(spec)
    engine.config(engine.SERIAL)
    ref = trace(scene, 1, 1, budget)
    o.fp = engine.digest(ref.data)
    hs = list(ref.histories())
    o.sample = dict(rays=c["rays"], nodes=len(spec["nodes"]), recorders=[(q["event"], len(q["hists"]), bool(q.get("axis"))) for q in spec["recorders"]],
                    runs=[(q["workers"], q["record_every"], q["keep"] is not None) for q in c["runs"]])
    base = view(ref)
    if set(base) != {q["name"] for q in spec["recorders"]}:
        o.violate("names", "recorders %s for the recorders %s" % (sorted(base), [q["name"] for q in spec["recorders"]]))
        return o
    some = 0
    for q in spec["recorders"]:
        x = Ref(spec, q)
        for h in hs:
            x.ray(h)
        bad = x.compare(ref.recorders[q["name"]])
        if bad:
            o.violate("tally", "recorder %s (%s of %s) %s" % (q["name"], q["event"], x.m["name"], bad))
            return o
        some += x.rays
        o.stat("recorders")
        o.stat("rays_counted", x.rays)
        o.stat("crossings", x.crossings)
        o.stat("recorders_left_out_as_ambiguous", int(bool(x.unsure)))
    py = engine.M.tally(scene, hs)
    for name, x in py.items():
        a = ref.recorders[name]
        if (a.rays, a.crossings) != (x.rays, x.crossings) or not near(viewone(a), viewone(x), 1e-6):
            if not any(edgy(spec, q, hs) for q in spec["recorders"] if q["name"] == name):
                o.violate("python-tally", "tally_histories gives %r for recorder %s, the engine %r" % (viewone(x)[:3], name, viewone(a)[:3]))
                return o
    o.nontrivial = some > 0
    fps = [o.fp]
    kept = [[flat(e) for e in h] for h in hs]
    for q in c["runs"]:
        recs = spec["recorders"] if q["keep"] is None else [spec["recorders"][i] for i in q["keep"]] + q["extra"]
        sc = scenes.build(spec, recs)
        engine.config(q["schedule"])
        # unrecorded rays need no budget; with none recorded a tiny one must do
        res = trace(sc, q["workers"], q["record_every"], 2 if q["small"] and q["record_every"] == 0 else budget)
        st = engine.stats()
        fps.append(st["hash"])
        o.fp = o.distinct = "%x" % choice.derive(*fps)
        o.stat("runs")
        o.fault("preempted_thread", st["preemptions"])
        o.fault("stalled_thread", int(q["schedule"]["stall"] >= 0))
        o.fault("smaller_team", int(q["schedule"]["team"] > 0))
        o.fault("recorders_changed", int(q["keep"] is not None))
        o.fault("histories_dropped", int(q["record_every"] != 1))
        v = view(res)
        for x in recs:
            if x["name"] in base and not near(base[x["name"]], v[x["name"]]):
                o.violate("depends", "recorder %s (%s) depends on %s: %r instead of %r" % (
                    x["name"], x["event"], "other recorders" if q["keep"] is not None and q["record_every"] == 1 else "how many histories are kept (every %d)" % q["record_every"],
                    v[x["name"]][:2], base[x["name"]][:2]))
                return o
        want = [h for i, h in enumerate(kept) if q["record_every"] and i % q["record_every"] == 0]
        got = [[flat(e) for e in h] for h in res.histories()]
        if got != want:
            o.violate("histories", "the histories kept (every %d) are not those rays' histories of the full run" % q["record_every"])
            return o
    return o


def viewone(x):
    return (x.rays, x.crossings, [[list(y.tolist()) for y in x.histogram(i)] for i in range(len(x.spec.histograms))],
            [x.mean(p) for p in ("wavelength", "angle", "duration", "pathlength")], [x.std(p) for p in ("wavelength", "angle", "duration", "pathlength")])


def edgy(spec, q, hs):
    """Whether rounding may move a value of this recorder across an edge."""
    x = Ref(spec, q)
    for h in hs:
        x.ray(h)
    if x.unsure:
        return True
    for h in q["hists"]:
        for p, lo, hi, n in [h["a"]] + ([h["b"]] if h.get("b") else []):
            for v in x.values:
                if math.floor((v[p] - EPS[p] - lo) / (hi - lo) * n) != math.floor((v[p] + EPS[p] - lo) / (hi - lo) * n):
                    return True
    return False


def flat(e):
    ray, ev, m = e
    return (ray.position, ray.direction, ray.wavelength, ray.travelled, ray.duration, ray.source, ev.name, sorted(m.items()))
