"""C04: Scene.simulate across processes gives n complete independent histories or raises."""
import os

from checks import pipecommon as pc
from dst import harness, pipeline

PROPERTY = "C04"
LEVEL = "exploration"
RULE = ("one case = one to three calls of Scene.simulate(n, workers=w) on a generated scene under seeded schedules (two different schedules with the same "
        "NumPy seed are compared), optionally with a worker that raises or is killed at a chosen event; non-trivial if worker processes took part or a "
        "fault fired; distinct by schedule fingerprint")
ASSUMPTIONS = pc.ASSUMPTIONS
COMPONENTS = pc.COMPONENTS
BATCH = 4
LIMIT = 120.0
TERMINAL = ("EXIT", "NONRADIATIVE", "REACT", "KILL")


def prepare():
    pipeline.load()


def budget(tier):
    return 2400 if tier == "quick" else 80000


def gen(r, tier, i):
    c = pc.gen_case(r, tier, 16)
    c["seed"] = None
    c["workers"] = r.choice([None, 1, 2, 2, 3, 3, 4, 5])
    c["rays"] = r.choice([0, 1, 2, 5, 7, 9, 12, r.randint(2, 16)])
    c["end_rays"] = False
    c["max_events"] = 5000
    c["sched2"] = pipeline.gen_sched(r)
    c["cpus2"] = c["cpus"] if c["workers"] is None else r.choice([1, 2, 4, 6, 8])
    c["calls"] = r.choice([1, 1, 2])
    if r.random() < 0.35:
        c["calls"] = 1
        c["faults"] = [dict(kind=r.choice(["worker_raise", "worker_kill"]), task=r.randint(0, 3), at=r.choice([1, 1, 2, 3, r.randint(1, 12), r.randint(1, 40)]),
                            exc=r.choice(["ValueError", "MemoryError", "TraceError"]))]
    elif r.random() < 0.15:
        c["seed"] = r.randint(0, 1000)
    return c


shrinks = pc.shrink_case


def histories(hs):
    out = []
    for h in hs:
        out.append(tuple((e.name,) + tuple(float(x) for x in r.position) + tuple(float(x) for x in r.direction) +
                         (float(r.wavelength), r.source, float(r.travelled), float(r.duration)) for r, e in h))
    return out


def go(case, d, sched, cpus):
    path = os.path.join(d, "scene.yml")
    if not os.path.exists(path):
        with open(path, "w") as fp:
            fp.write(pipeline.scene_yaml(case["scene"]))

    def main(sim, run):
        from pvtrace.cli.parse import parse
        scene = parse(path)
        out = []
        for k in range(case["calls"]):
            out.append(histories(scene.simulate(case["rays"], workers=case["workers"], seed=case["seed"])))
        return out
    return pipeline.simulate(dict(case, sched=sched, cpus=cpus), d, main_fn=main)


def run(case):
    o = harness.Outcome()
    d = os.environ["DST_SCRATCH"]
    r = go(case, d, case["sched"], case["cpus"])
    pc.fill(o, r)
    fired = sum(o.faults.values())
    procs = len(getattr(r.sim, "procs", ()))
    o.nontrivial = procs > 0 or fired > 0
    o.sample = dict(pc.describe(case), fired=dict(o.faults), processes=procs)
    n = case["rays"]
    multi = procs > 0
    if r.hang:
        o.violate("hang", "Scene.simulate never returns (faults fired: %s): %s" % (dict(o.faults), r.hang[1]))
        return o
    if r.exc is not None:
        o.stat("raised")
        if not fired:
            workers = case["workers"] or max(1, case["cpus"] // 2)
            if case["seed"] is not None and workers > 1 and n >= workers and isinstance(r.exc, ValueError):
                o.stat("refused_seed")
                return o
            o.violate("spurious", "Scene.simulate(%d, workers=%s) failed without any fault: %r" % (n, case["workers"], r.exc))
        return o
    if case["seed"] is not None and multi and n >= (case["workers"] or 0):
        o.violate("seed", "one fixed seed was accepted for several processes")
    if fired:
        o.violate("swallowed", "a worker failed (%s) but Scene.simulate returned %s histories for %d rays" % (
            dict(o.faults), [len(x) for x in r.result], n))
        return o
    o.stat("histories", sum(len(x) for x in r.result))
    truth = [tuple(v) for v in pipeline.throws(r).values()]
    for hs in r.result:
        if len(hs) != n:
            o.violate("count", "%d histories for %d rays with %s workers" % (len(hs), n, case["workers"]))
            return o
        for h in hs:
            kinds = [e[0] for e in h]
            if not kinds or kinds[0] != "GENERATE" or kinds[-1] not in TERMINAL or any(k in TERMINAL for k in kinds[:-1]):
                o.violate("incomplete", "a returned history is not complete: %s" % kinds)
                return o
    flat = [h for hs in r.result for h in hs]
    want = sorted(repr([(e[0],) + e[9:] for e in h]) for h in truth)
    got = sorted(repr(list(h)) for h in flat)
    if want != got:
        o.violate("content", "the %d returned histories are not the %d traced ones" % (len(got), len(want)))
        return o
    if case["seed"] is None or len(r.result) == 1:
        if len(set(flat)) != len(flat):
            o.violate("streams", "%d of %d histories are identical to another one: the random streams of workers or calls repeat" % (
                len(flat) - len(set(flat)), len(flat)))
            return o
    elif r.result[0] != r.result[1]:
        o.violate("seed", "two calls with seed=%d give different histories" % case["seed"])
    if case["faults"]:
        return o
    r2 = go(case, d, case["sched2"], case["cpus2"])
    o.stat("steps", r2.sim.steps)
    o.sim_time += r2.sim.now - r2.sim.t0
    if r2.hang or r2.exc is not None:
        o.violate("hang" if r2.hang else "spurious", "under another schedule: %r" % (r2.hang or r2.exc,))
    elif r2.result != r.result:
        o.violate("schedule", "the histories depend on the schedule or the number of CPUs although NumPy's seed is the same (%d workers asked for)" % (case["workers"] or 0))
    if r2.sim.fingerprint() != r.sim.fingerprint():
        o.stat("pairs_with_different_schedule")
    return o
