"""C06: engine results do not depend on threads or their interleaving."""
import json

from dst import choice, engine, harness, scenes

PROPERTY = "C06"
LEVEL = "exploration"
RULE = ("one case = one random scene traced serially and then under several seeded thread schedules of the compiled kernel (team size, chunk assignment, "
        "preemptions at instrumented memory accesses, stalled threads, another run in between); non-trivial if a schedule switched threads inside the tracing loop; "
        "distinct by the hash of the switches")
ASSUMPTIONS = ["the OpenMP runtime is simulated: team threads are coroutines, preempted at memory accesses the compiler instruments and at runtime calls; "
               "memory is sequentially consistent", "the kernel is compiled with -O2 and instrumentation instead of -O3",
               "a run that happens in the middle of another one is itself serial"]
COMPONENTS = dict(real=["pvtrace.engine (api, compiler, emit, kernel compiled from the current _kernel.pyx)", "numpy"],
                  stubbed=["OpenMP runtime (simulated team and scheduler)", "clock", "cpu_count"])
BATCH = 4


def prepare():
    engine.load()


def budget(tier):
    return 2600 if tier == "quick" else 60000


def gen(r, tier, i):
    c = dict(spec=scenes.scene(r, recorders=r.choice([0, 1, 3, 8])), rays=r.choice([1, 2, 63, 64, 65, 130, 200, 400]), seed=r.choice([0, 1, 12345, r.getrandbits(30)]),
             npseed=r.getrandbits(31), max_events=r.choice([1024, 1024, 64, 3]), maxsteps=r.choice([1000, 1000, 40, 5]),
             emit=r.choice(["kT", "kT", "redshift", "full"]), record_every=r.choice([1, 1, 1, 3, 7, 0]), cpus=r.choice([1, 2, 8]))
    c["runs"] = [dict(workers=r.choice([2, 2, 3, 4, 8, 16, None]), schedule=engine.gen_schedule(r), other=r.randint(1, 30000) if r.random() < 0.2 else None)
                 for _ in range(r.choice([2, 3, 4]))]
    c["alone"] = r.random() < 0.15 and c["rays"] <= 130
    return c


TERMINAL = ("EXIT", "KILL", "REACT", "NONRADIATIVE")


def shrinks(c):
    for i in range(len(c["runs"])):
        if len(c["runs"]) > 1:
            yield dict(c, runs=c["runs"][:i] + c["runs"][i + 1:])
    for n in (c["rays"] // 2, c["rays"] - 1):
        if n > 0:
            yield dict(c, rays=n)
    for i, q in enumerate(c["runs"]):
        for k, v in (("gap", 0), ("conflict", 0), ("stall", -1), ("maxpre", q["schedule"]["maxpre"] // 2)):
            if q["schedule"][k] != v:
                yield dict(c, runs=c["runs"][:i] + [dict(q, schedule=dict(q["schedule"], **{k: v}))] + c["runs"][i + 1:])
        if q["other"]:
            yield dict(c, runs=c["runs"][:i] + [dict(q, other=None)] + c["runs"][i + 1:])
        if q["workers"] != 2:
            yield dict(c, runs=c["runs"][:i] + [dict(q, workers=2)] + c["runs"][i + 1:])
    for s in scenes.tidy(c["spec"]):
        yield dict(c, spec=s)


def trace(c, scene, workers, record=None):
    import numpy as np
    np.random.seed(c["npseed"])
    return engine.M.api.simulate(scene, c["rays"], seed=c["seed"], workers=workers, maxsteps=c["maxsteps"], max_events=c["max_events"],
                                 emit_method=c["emit"], record_every=c["record_every"] if record is None else record)


def public(res):
    """The result as a user reads it."""
    out = []
    for h in res.histories():
        out.append([(ray.position, ray.direction, ray.wavelength, ray.travelled, ray.duration, ray.source, ev.name, sorted(m.items())) for ray, ev, m in h])
    rec = {}
    for name, x in res.recorders.items():
        rec[name] = (x.rays, x.crossings, [[y.tolist() for y in x.histogram(i)] for i in range(len(x.spec.histograms))])
    return out, rec, {e.name: n for e, n in res.event_counts().items()}, res.num_rays, res.num_recorded, res.recorded_indices.tolist()


def run(c):
    o = harness.Outcome()
    engine.M.cpus = c["cpus"]
    scene = scenes.build(c["spec"])
    engine.config(engine.SERIAL)
    ref = trace(c, scene, 1)
    before = engine.digest(ref.data)
    pub = public(ref)
    o.sample = dict(rays=c["rays"], nodes=len(c["spec"]["nodes"]), recorders=len(c["spec"]["recorders"]), max_events=c["max_events"],
                    runs=[dict(workers=q["workers"], other_run=bool(q["other"]), **q["schedule"]) for q in c["runs"]])
    want = (c["rays"] + c["record_every"] - 1) // c["record_every"] if c["record_every"] else 0
    if ref.num_rays != c["rays"] or ref.num_recorded != want or len(pub[0]) != want:
        o.violate("count", "a serial run of %d rays, keeping every %d-th, gives %d rays and %d histories" % (c["rays"], c["record_every"], ref.num_rays, len(pub[0])))
        return o
    for j, h in enumerate(pub[0]):
        if not h or h[0][6] != "GENERATE" or any(x[6] == "GENERATE" for x in h[1:]) or (h[-1][6] not in TERMINAL):
            o.violate("lost", "the history of recorded ray %d is %s" % (j, [x[6] for x in h][:10]))
            return o
    fps = [before]
    o.fp = before
    o.nontrivial = False
    o.trace = []
    other = dict(c, npseed=c["npseed"] ^ 1, rays=min(c["rays"], 70), seed=c["seed"] + 7)
    other_ref = None
    for q in c["runs"]:
        got = []
        hook = None
        if q["other"]:
            if other_ref is None:
                engine.config(engine.SERIAL)
                other_ref = trace(other, scene, 1)
            hook = lambda: got.append(trace(other, scenes.build(c["spec"]), 1))
        engine.config(q["schedule"], hook, q["other"] or -1)
        res = trace(c, scene, q["workers"])
        st = engine.stats()
        fps.append(st["hash"])
        o.fp = o.distinct = "%x" % choice.derive(*fps)
        o.stat("thread_switches", st["switches"])
        o.stat("preemptions", st["preemptions"])
        o.stat("preemptions_at_conflicts", st["conflict_preemptions"])
        o.stat("memory_accesses", st["accesses"])
        o.stat("max_team", max(0, st["max_threads"] - o.stats.get("max_team", 0)))
        o.fault("preempted_thread", st["preemptions"])
        o.fault("stalled_thread", int(q["schedule"]["stall"] >= 0))
        o.fault("smaller_team", int(q["schedule"]["team"] > 0))
        o.fault("run_inside_run", len(got))
        if st["switches"] > 2 and st["max_threads"] > 1:
            o.nontrivial = True
        d = engine.same(ref.data, res.data)
        if d is None:
            p = public(res)
            for name, x, y in zip(("histories", "recorders", "event counts", "number of rays", "number recorded", "recorded indices"), pub, p):
                if x != y:
                    d = "%s differ" % name
                    break
        if d:
            o.trace = engine.log()
            o.violate("threads", "with workers=%s (team of %d, %d switches) the result differs from the serial run: %s" % (q["workers"], st["max_threads"], st["switches"], d))
            return o
        for g in got:
            d = engine.same(other_ref.data, g.data)
            if d:
                o.trace = engine.log()
                o.violate("runs", "a run made while another was under way differs from the same run alone: %s" % d)
                return o
    engine.config(engine.SERIAL)
    again = trace(c, scene, 1)
    d = engine.same(ref.data, again.data)
    if d:
        o.violate("repeat", "the serial run repeated gives another result: %s" % d)
        return o
    if engine.digest(ref.data) != before:
        o.violate("aliased", "a result changed while later runs were made")
        return o
    if c["alone"]:
        alone(c, o, ref)
    return o


def alone(c, o, ref):
    """Every ray traced alone gives its history of the common run."""
    import numpy as np
    scene = scenes.build(c["spec"])
    full = trace(c, scene, 1, record=1)
    hs = list(full.histories())
    start = [h[0][0] for h in hs]
    replay = scenes.replay_lights(scenes.build(c["spec"]), start)
    tot = None
    i = 0
    for res, done in engine.M.api.simulate_stream(replay, c["rays"], bundle=1, seed=c["seed"], workers=1, maxsteps=c["maxsteps"], max_events=c["max_events"],
                                                  emit_method=c["emit"]):
        h = list(res.histories())
        if len(h) != 1 or done != i + 1:
            o.violate("alone", "a bundle of one ray gives %d histories, %d rays so far instead of %d" % (len(h), done, i + 1))
            return
        if [plain(x, True) for x in h[0]] != [plain(x, True) for x in hs[i]]:
            o.violate("alone", "ray %d traced alone has another history than in the bundle: %r / %r" % (i, brief(h[0]), brief(hs[i])))
            return
        part = {k: np.array(v) for k, v in res.data.items() if k.startswith("rec_")}
        tot = part if tot is None else {k: tot[k] + part[k] for k in tot}
        i += 1
    o.stat("rays_traced_alone", i)
    if i != c["rays"]:
        o.violate("alone", "a stream of %d rays ended after %d" % (c["rays"], i))
        return
    d = engine.same({k: np.array(v) for k, v in full.data.items() if k.startswith("rec_")}, tot)
    if d:
        o.violate("alone", "the recorder totals of the rays traced alone differ from those of the common run: %s" % d)


def plain(x, anysource):
    ray, ev, m = x
    src = ray.source
    if anysource and src is not None and (src == "replay" or src.startswith("light")):
        src = "light"
    return (ray.position, ray.direction, ray.wavelength, ray.travelled, ray.duration, src, ev.name, sorted(m.items()))


def brief(h):
    return [(ev.name, m.get("hit"), m.get("component")) for _, ev, m in h][:8]
