"""C01: every traced event reaches the database exactly once under its own throw."""
import os

from checks import pipecommon as pc
from dst import harness, pipeline

PROPERTY = "C01"
LEVEL = "exploration"
RULE = ("one case = one run of the real `simulate` command on a generated scene with generated ray/worker/end-rays settings under a seeded "
        "schedule; non-trivial if at least two rays were thrown and at least one context switch happened while events were in flight; "
        "distinct by schedule fingerprint (every scheduling decision and queue operation)")
ASSUMPTIONS = pc.ASSUMPTIONS
COMPONENTS = pc.COMPONENTS
BATCH = 4


def prepare():
    pipeline.load()


def budget(tier):
    return 1400 if tier == "quick" else 60000


def gen(r, tier, i):
    c = pc.gen_case(r, tier)
    if r.random() < 0.15:
        c["zmq"] = True
        c["render_every"] = r.choice([1, 2, 10])
        c["render_max"] = r.choice([1, 2, 5])
        c["scene"]["bodies"] = [b for b in c["scene"]["bodies"]]
    c["preexisting"] = r.random() < 0.2
    return c


shrinks = pc.shrink_case


def run(case):
    o = harness.Outcome()
    d = os.environ["DST_SCRATCH"]
    extra = []
    if case.get("preexisting"):
        p = os.path.join(d, "scene.sqlite3")
        import sqlite3
        con = sqlite3.connect(p)
        con.execute("CREATE TABLE ray (old)")
        con.execute("INSERT INTO ray VALUES (1)")
        con.commit()
        con.close()
        extra = ["--overwrite"]
    r = pipeline.simulate(case, d, extra)
    pc.fill(o, r)
    o.nontrivial = case["rays"] >= 2 and r.sim.switches > 3
    o.sample = dict(pc.describe(case), events=len(r.records), steps=r.sim.steps)
    o.stat("events", len(r.records))
    if r.hang:
        o.violate("hang", "the command did not end: %s" % (r.hang[1],))
        return o
    if r.failed or not r.ok_printed:
        o.violate("failed", "the command failed without any fault: %r %s" % (r.exc, getattr(r.sim, "thread_errors", "")))
        return o
    n = len(pipeline.throws(r))
    if n != case["rays"]:
        o.violate("rays", "%d rays thrown instead of %d" % (n, case["rays"]))
    pc.check_complete(o, case, r)
    if r.progress:
        p = r.progress[-1]
        if max(p["pos"]) > case["rays"] or p["pos"][-1] != case["rays"]:
            o.violate("progress", "progress went %s of %d rays" % (p["pos"][-5:], case["rays"]))
        if any(b < a for a, b in zip(p["pos"], p["pos"][1:])):
            o.violate("progress", "progress went backwards: %s" % p["pos"])
    return o
