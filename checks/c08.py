"""C08: a streamed engine run is the same run in instalments."""
from checks import c07
from dst import choice, engine, harness, scenes

PROPERTY = "C08"
LEVEL = "exploration"
RULE = ("one case = one scene streamed with a random bundle size while the consumer pauses, abandons, repeats or interleaves streams and other runs, every bundle under "
        "its own thread schedule, compared with one run of all rays; non-trivial with more than one bundle; distinct by results and thread switches")
ASSUMPTIONS = ["the engine draws starting rays from NumPy's global generator, so streams of random lights are compared with a single run of the very starting rays "
               "they used; lights without randomness are compared directly", "histories are compared when all are kept (or the bundle size is a multiple of the interval)",
               "the OpenMP runtime is simulated, see C06"]
COMPONENTS = dict(real=["pvtrace.engine (api, compiler, emit, kernel compiled from the current _kernel.pyx)", "numpy"],
                  stubbed=["OpenMP runtime (simulated team and scheduler)", "clock", "cpu_count"])
BATCH = 4


def prepare():
    engine.load()


def budget(tier):
    return 6000 if tier == "quick" else 100000


ACTIONS = ["nothing", "nothing", "draw", "other_run", "second_stream", "abandoned_stream", "read"]


def gen(r, tier, i):
    spec = scenes.scene(r, recorders=r.choice([0, 1, 3, 6]), lights=r.choice([1, 1, 2, 3, 4]))
    fixed = r.random() < 0.6
    if fixed:
        for l in spec["lights"]:
            l.pop("custom", None)
            l["position"] = l["direction"] = None
            if l["wavelength"] and l["wavelength"][0] == "spectrum":
                l["wavelength"] = ["const", 500.0 + r.uniform(-80, 200)]
    n = r.choice([0, 1, 2, 7, 40, 64, 65, 100, 200])
    b = r.choice([1, 2, 3, 5, 7, 13, 64, 100, 1000])
    if n > 1 and r.random() < 0.7:
        b = r.randint(max(1, n // 14), n - 1)
    if n > 60:
        b = max(b, 5)
    c = dict(spec=spec, fixed=fixed, rays=n, bundle=b, seed=r.choice([0, 1, 77, r.getrandbits(30), 2 ** 31 - 2]), npseed=r.getrandbits(31),
             maxsteps=r.choice([300, 300, 30]), emit=r.choice(["kT", "kT", "redshift", "full"]), record_every=r.choice([1, 1, 1, 0, b]))
    c["ops"] = [r.choice(ACTIONS) for _ in range(12)]
    c["stop"] = r.choice([None, None, 1, 2, 5])
    c["schedules"] = [dict(engine.gen_schedule(r), workers=r.choice([1, 2, 3, 8])) for _ in range(3)]
    return c


def shrinks(c):
    for n in (c["rays"] // 2, c["rays"] - 1):
        if n > 0:
            yield dict(c, rays=n)
    if c["stop"]:
        yield dict(c, stop=None)
    if len(c["schedules"]) > 1:
        yield dict(c, schedules=[dict(engine.SERIAL, workers=1)])
    if c["record_every"] != 1:
        yield dict(c, record_every=1)
    for s in scenes.tidy(c["spec"]):
        yield dict(c, spec=s)


KEYS = ("rec_distinct", "rec_crossings", "rec_sums", "rec_bins")


def tallies(res):
    import numpy as np
    return {name: (x.rays, x.crossings, [np.array(x.histogram(i)[-1]) for i in range(len(x.spec.histograms))],
                   [x.rays * (x.mean(p) if x.rays else 0.0) for p in ("wavelength", "angle", "duration", "pathlength")]) for name, x in res.recorders.items()}


def plus(a, b):
    if a is None:
        return b
    return {k: (a[k][0] + b[k][0], a[k][1] + b[k][1], [x + y for x, y in zip(a[k][2], b[k][2])], [x + y for x, y in zip(a[k][3], b[k][3])]) for k in b}


def differ(a, b):
    import numpy as np
    if set(a) != set(b):
        return "recorders %s / %s" % (sorted(a), sorted(b))
    for k in a:
        if a[k][:2] != b[k][:2]:
            return "recorder %s: %s rays and crossings instead of %s" % (k, b[k][:2], a[k][:2])
        for x, y in zip(a[k][2], b[k][2]):
            if not np.array_equal(x, y):
                return "recorder %s: histogram %s instead of %s" % (k, y.tolist(), x.tolist())
        if not np.allclose(a[k][3], b[k][3], rtol=1e-9, atol=1e-28):
            return "recorder %s: sums %s instead of %s" % (k, b[k][3], a[k][3])
    return None


def image(res):
    """Everything a user can read from a result."""
    return ([[c07.flat(e) for e in h] for h in res.histories()], repr(c07.view(res)), res.num_rays, list(res.sources), engine.digest(res.data))


def run(c):
    import numpy as np
    o = harness.Outcome()
    api = engine.M.api
    kw = dict(seed=c["seed"], maxsteps=c["maxsteps"], max_events=2 * c["maxsteps"] + 6, emit_method=c["emit"])
    scene = scenes.build(c["spec"])
    other = scenes.build(c["spec"])
    r = choice.rng(c["npseed"], "act")
    o.sample = dict(rays=c["rays"], bundle=c["bundle"], lights=len(c["spec"]["lights"]), fixed=c["fixed"], stop=c["stop"], actions=c["ops"][:4])
    fps = []
    k = [0]

    def schedule():
        s = c["schedules"][k[0] % len(c["schedules"])]
        k[0] += 1
        engine.config(s)
        return s["workers"]

    def account():
        st = engine.stats()
        fps.append(st["hash"])
        o.fault("preempted_thread", st["preemptions"])

    def stream(n=None, record=None, sc=None, seed=None):
        return api.simulate_stream(sc or scene, c["rays"] if n is None else n, bundle=c["bundle"], workers=c["schedules"][0]["workers"],
                                   record_every=c["record_every"] if record is None else record, **dict(kw, **({} if seed is None else dict(seed=seed))))
    np.random.seed(c["npseed"])
    done = 0
    tot = None
    kept = []
    prefix = []
    ended = False
    it = stream()
    second = None
    i = 0
    while True:
        schedule()
        try:
            res, traced = next(it)
        except StopIteration:
            ended = True
            break
        account()
        want = min(c["bundle"], c["rays"] - done)
        if want <= 0 or res.num_rays != want or traced != done + want:
            o.violate("progress", "bundle %d of a stream of %d rays in bundles of %d has %d rays and reports %d so far" % (i + 1, c["rays"], c["bundle"], res.num_rays, traced))
            return o
        done = traced
        tot = plus(tot, tallies(res))
        prefix.append((done, tot))
        kept.append((res, image(res)))
        a = c["ops"][i] if i < len(c["ops"]) else "nothing"
        i += 1
        o.fault(a, int(a != "nothing"))
        if a == "draw":
            np.random.uniform(size=r.randint(1, 50))
        elif a == "other_run":
            schedule()
            api.simulate(other, r.choice([1, 70]), workers=2, **kw)
        elif a == "second_stream":
            if second is None:
                second = stream(sc=other, seed=c["seed"] + 1)
            schedule()
            next(second, None)
        elif a == "abandoned_stream":
            t = stream()
            schedule()
            next(t, None)
            t.close()
        elif a == "read":
            list(res.histories()), res.event_counts(), res.recorders
        if c["stop"] and i >= c["stop"]:
            it.close()
            break
    o.stat("bundles", i)
    o.nontrivial = i > 1
    if ended and done != c["rays"]:
        o.violate("progress", "a stream of %d rays in bundles of %d ended after %d" % (c["rays"], c["bundle"], done))
        return o
    for j, (res, im) in enumerate(kept):
        if image(res) != im:
            o.violate("changed", "what bundle %d delivered changed afterwards" % (j + 1))
            return o
    o.fp = o.distinct = "%x" % choice.derive(fps, [im[4] for _, im in kept])
    if not done:
        return o
    # the same rays in one run
    single_scene = scene
    sources = [s for _, im in kept for s in im[3]]
    lights = [l["name"] for l in c["spec"]["lights"]]
    if sources != [lights[x % len(lights)] for x in range(done)]:
        o.violate("lights", "the rays of the stream come from the lights %s...: every ray's light is the next one of %s" % (sources[:12], lights))
        return o
    every = c["record_every"]
    if not c["fixed"]:
        if every == 1:
            start = [h[0][0] for res, im in kept for h in res.histories()]
            for x in range(min(len(start), 400)):
                if not plausible(c["spec"]["lights"][x % len(lights)], start[x]):
                    o.violate("emission", "starting ray %d (%s) cannot come from %s" % (x, start[x], lights[x % len(lights)]))
                    return o
            single_scene = scenes.replay_lights(scenes.build(c["spec"]), start)
        else:
            return o
    np.random.seed(c["npseed"] ^ 5)
    engine.config(engine.SERIAL)
    one = api.simulate(single_scene, done, workers=1, record_every=1, **kw)
    hs = [[c07.flat(e) for e in h] for h in one.histories()]
    if every:
        got = [h for _, im in kept for h in im[0]]
        want = [h for x, h in enumerate(hs) if (x % c["bundle"]) % every == 0]
        if not c["fixed"]:
            want = [[f[:5] + (lights[x % len(lights)] if f[5] == "replay" else f[5],) + f[6:] for f in h] for x, h in enumerate(want)]
        if got != want:
            x = next((j for j, (g, w) in enumerate(zip(got, want)) if g != w), min(len(got), len(want)))
            o.violate("histories", "history %d of the stream (bundles of %d) differs from the single run: %s / %s" % (
                x, c["bundle"], [e[6] for e in got[x]][:9] if x < len(got) else None, [e[6] for e in want[x]][:9] if x < len(want) else None))
            return o
    for m, t in prefix:
        if m != done and (m not in (prefix[0][0], prefix[len(prefix) // 2][0]) or not c["fixed"]):
            continue
        res = one
        if m != done:
            np.random.seed(c["npseed"] ^ 9)
            res = api.simulate(single_scene, m, workers=1, record_every=0, **kw)
        d = differ(tallies(res), t)
        o.stat("prefixes_compared")
        if d:
            o.violate("totals", "after %d of %d rays in bundles of %d: %s" % (m, c["rays"], c["bundle"], d))
            return o
    return o


def plausible(l, ray):
    """Whether the light can have emitted this ray: its wavelength and place."""
    import math
    w = l["wavelength"]
    if l.get("custom") != "wavelength":
        if w is None and ray.wavelength != 555.0 or w and w[0] == "const" and ray.wavelength != w[1]:
            return False
    d = math.dist(ray.position, l["centre"])
    p = l["position"]
    if l.get("custom") == "position":
        return d < 0.2
    reach = 0.0 if p is None else math.hypot(p[1], p[2]) if p[0] == "rect" else p[1] if p[0] == "circle" else math.hypot(*p[1:])
    return d <= reach + 1e-9
