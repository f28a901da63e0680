"""Shared by the checks of the simulate/analyse pipeline."""
import collections
import os

from dst import choice, disk, harness, pipeline, sched

COMPONENTS = {
    "real": ["pvtrace.cli (commands, recorder thread, sqlite schema)", "pvtrace.scene.Scene.simulate and worker functions in forked processes",
             "photon tracer, materials, geometry (in 'real' and 'augment' runs)", "sqlite3", "pickling of scenes and results"],
    "stub": ["multiprocessing pool/manager/queue, threads, events, sleep and clocks (simulated, same blocking semantics)",
             "meshcat viewer (records commands)", "event streams in 'stub' runs (synthetic histories fed through the real worker function)"],
}
ASSUMPTIONS = [
    "preemption happens at queue, lock, event, sleep, process, viewer and file operations; code between two such points is atomic",
    "a managed queue is FIFO and its put returns after the item is queued, as in multiprocessing.managers",
]


def gen_case(r, tier, max_rays=24):
    workers = r.choice([None, 1, 1, 2, 2, 3, 4, 5])
    rays = r.choice([0, 1, 2, 3, 5, 8, 12, r.randint(1, max_rays)])
    c = dict(
        scene=pipeline.gen_scene(r), rays=rays, workers=workers, cpus=r.choice([1, 2, 4, 6, 8]),
        end_rays=r.random() < 0.35, seed=None, np_seed=r.getrandbits(31),
        tracer=r.choice(["real", "augment", "stub", "stub", "stub"]),
        queue_bound=r.choice([None, None, 1, 2, 7]),
        sched=pipeline.gen_sched(r), faults=[],
    )
    if workers == 1 and r.random() < 0.5:
        c["seed"] = r.randint(0, 1000)
    return c


def shrink_case(case):
    """Simpler cases, biggest steps first."""
    def w(**kw):
        c = dict(case)
        c.update(kw)
        return c
    if case["rays"] > 1:
        yield w(rays=case["rays"] // 2)
        yield w(rays=case["rays"] - 1)
    if case.get("zmq"):
        yield w(zmq=False)
    if case["end_rays"]:
        yield w(end_rays=False)
    if case["workers"] is None:
        yield w(workers=2)
    elif case["workers"] > 1:
        yield w(workers=case["workers"] - 1)
    if case["queue_bound"]:
        yield w(queue_bound=None)
    if case["tracer"] != "stub":
        yield w(tracer="stub")
    if len(case["scene"]["bodies"]) > 1:
        s = dict(case["scene"], bodies=case["scene"]["bodies"][:1])
        yield w(scene=s)
    if len(case["scene"]["lights"]) > 1:
        s = dict(case["scene"], lights=case["scene"]["lights"][:1])
        yield w(scene=s)


def fill(o, run):
    sim = run.sim
    o.fp = sim.fingerprint()
    o.choices = run.choices
    o.sim_time = sim.now - sim.t0
    o.stat("steps", sim.steps)
    o.stat("context_switches", sim.switches)
    for k, v in sim.counters.items():
        if k.startswith("fault:"):
            o.fault(k[6:], v)
        else:
            o.stat(k, v)
    for q in sim.__dict__.get("queues", ()):
        if hasattr(q, "puts"):
            o.stat("queue_puts", q.puts)
            o.stat("max_queue_depth", 0)
            o.stats["max_queue_depth"] = max(o.stats["max_queue_depth"], q.peak)
    procs = getattr(sim, "task_procs", [])
    if len(procs) != len(set(procs)):
        o.stat("runs_with_one_process_taking_several_tasks")
    o.trace = sim.events[-1500:]


def describe(case):
    return dict(rays=case["rays"], workers=case["workers"], cpus=case["cpus"], end_rays=case["end_rays"], tracer=case["tracer"],
                queue_bound=case["queue_bound"], switch=case["sched"]["switch"], faults=case.get("faults"))


def expected_rows(case, run):
    """Multiset of per-throw sequences that must be in the database."""
    out = []
    for key, evs in pipeline.throws(run).items():
        if case["end_rays"]:
            evs = [e for e in evs if pipeline.is_end(e)]
        out.append((key, tuple(evs)))
    return out


def check_complete(o, case, run, prefix_ok=False):
    """The database against the traced truth (C01's main clause)."""
    try:
        rays, evs = pipeline.read_db(run.db)
    except Exception as e:
        o.violate("unreadable", "database cannot be read after the run: %r" % (e,))
        return
    rows, problem = pipeline.join_db(rays, evs)
    if problem:
        o.violate("torn", problem)
        return
    by = collections.OrderedDict()
    for throw, vals in rows:
        by.setdefault(throw, []).append(vals)
    exp = expected_rows(case, run)
    got = collections.Counter(tuple(v) for v in by.values())
    want = collections.Counter(e for _, e in exp)
    if got != want:
        missing = want - got
        extra = got - want
        nexp = sum(len(e) for _, e in exp)
        o.violate("content", "database differs from what was traced: %d rows for %d events; %d throws traced, %d recorded; %d histories missing, %d unexpected; e.g. %s" % (
            len(rows), nexp, len(exp), len(by), sum(missing.values()), sum(extra.values()), first_diff(exp, by)))
        return
    ids = sorted(by)
    if ids != list(range(len(exp))):
        o.violate("throw-ids", "throw ids are %s for %d thrown rays" % (ids[:20], len(exp)))


def first_diff(exp, by):
    got = [tuple(v) for v in by.values()]
    for key, e in exp:
        if e not in got:
            return "the %d events %s of throw %s" % (len(e), [x[0] for x in e], key)
    for k, v in by.items():
        if tuple(v) not in [e for _, e in exp]:
            return "throw id %s holds %s" % (k, [x[0] for x in v])
    return "a history recorded twice"
