"""C03: the simulate command always ends, and never claims success after a loss."""
import os
import sqlite3

from checks import pipecommon as pc
from dst import harness, pipeline, sched

PROPERTY = "C03"
LEVEL = "exploration"
RULE = ("one case = one run of the real `simulate` command under a seeded schedule with zero to three injected faults (tracer exception, worker kill, "
        "queue manager death, disk error / full disk / short write at the n-th file operation, database held locked by another program, viewer failure, "
        "user interrupt); non-trivial if a configured fault fired, or the case is a fault-free control; distinct by schedule fingerprint")
ASSUMPTIONS = pc.ASSUMPTIONS + ["an injected interrupt is delivered to the main thread at an interception point"]
COMPONENTS = pc.COMPONENTS
BATCH = 4
LIMIT = 120.0


def prepare():
    pipeline.load()


def budget(tier):
    return 1600 if tier == "quick" else 60000


def gen_fault(r, c):
    k = r.choice(["worker_raise", "worker_kill", "manager_die", "disk", "disk", "disk", "lock", "interrupt", "viewer"])
    if k == "worker_raise":
        return dict(kind=k, task=r.randint(0, 3), at=r.choice([1, 2, 3, r.randint(1, 20), r.randint(1, 60)]),
                    exc=r.choice(["ValueError", "MemoryError", "TraceError"]))
    if k == "worker_kill":
        return dict(kind=k, task=r.randint(0, 3), at=r.choice([1, 2, r.randint(1, 30)]))
    if k == "manager_die":
        return dict(kind=k, at=r.choice([1, 2, r.randint(1, 40), r.randint(1, 300)]))
    if k == "interrupt":
        return dict(kind=k, at=r.choice([r.randint(1, 10), r.randint(5, 30), r.randint(1, 60)]), group=r.random() < 0.5)
    if k == "viewer":
        c["zmq"] = True
        c["render_every"] = r.choice([1, 2])
        c["render_max"] = r.choice([1, 3])
        return dict(kind=k, at=r.choice([1, 2, r.randint(1, 40)]))
    if k == "lock":
        return dict(kind=k, start=r.choice([0.0, 0.00005, 0.0005, 0.3]), hold=r.choice([0.05, 2.0, 4.0, 20.0]), mode=r.choice(["EXCLUSIVE", "IMMEDIATE", "READ"]))
    # file operations of one event's transaction number about twenty
    kinds = r.choice([["WRITE"], ["WRITE"], ["FSYNC"], ["OPEN"], ["UNLINK"], ["TRUNC"], ["WRITE", "FSYNC", "OPEN"], ["READ"]])
    f = dict(kind="disk", kinds=kinds, nth=r.choice([r.randint(1, 30), r.randint(20, 120), r.randint(40, 400)]),
             err=r.choice(["ENOSPC", "EIO", "EDQUOT", "EACCES", "EROFS"]), sticky=r.random() < 0.5)
    if kinds == ["WRITE"] and r.random() < 0.3:
        f["short"] = r.choice([1, 50, 99])
    if r.random() < 0.4:
        f["path"] = r.choice(["-journal", ".sqlite3"])
    return f


def gen(r, tier, i):
    c = pc.gen_case(r, tier, 10)
    c["rays"] = max(1, c["rays"])
    n = r.choice([0, 1, 1, 1, 1, 1, 2, 3])
    c["faults"] = [gen_fault(r, c) for _ in range(n)]
    return c


shrinks = pc.shrink_case


def locker(f):
    def actor(sim, run):
        sim.sleep(f["start"])
        if not os.path.exists(run.db):
            sim.wait(lambda: os.path.exists(run.db), 5.0, "wait for database")
        try:
            con = sqlite3.connect(run.db, isolation_level=None)
            try:
                if f["mode"] == "READ":
                    con.execute("BEGIN")
                    con.execute("SELECT count(*) FROM ray").fetchall()
                else:
                    con.execute("BEGIN " + f["mode"])
                sim.count("fault:lock_%s_%gs" % (f["mode"].lower(), f["hold"]))
                sim.log("LOCK", f["mode"], f["hold"])
                sim.sleep(f["hold"])
            finally:
                con.close()
        except sqlite3.Error:
            pass
    return actor


def run(case):
    o = harness.Outcome()
    d = os.environ["DST_SCRATCH"]
    actors = [locker(f) for f in case["faults"] if f["kind"] == "lock"]
    r = pipeline.simulate(case, d, analysts=actors)
    pc.fill(o, r)
    nf = sum(o.faults.values())
    o.nontrivial = nf > 0 or not case["faults"]
    o.sample = dict(pc.describe(case), fired=dict(o.faults), ended="hang" if r.hang else "failed" if r.failed else "ok")
    o.stat("ended_failed" if r.failed else "ended_ok")
    if nf and not r.failed:
        o.stat("survived_faults")
    kinds = "+".join(sorted(set(f["kind"] for f in case["faults"]))) or "none"
    if r.hang:
        o.violate("hang", "the command never ends after faults %s: %s" % (dict(o.faults), r.hang[1]), key="hang:" + kinds)
        return o
    if not r.failed and not r.ok_printed:
        o.violate("silent", "the command returned success without printing OK")
        return o
    if r.ok_printed and not r.failed:
        n = len(pipeline.throws(r))
        if n != case["rays"]:
            o.violate("false-ok", "OK although only %d of %d rays were thrown (faults %s)" % (n, case["rays"], dict(o.faults)), key="false-ok:" + kinds)
        else:
            pc.check_complete(o, case, r)
            if o.violation:
                o.violation = ("false-ok", "OK printed but " + o.violation[1] + " (faults %s)" % dict(o.faults))
                o.key = "false-ok:" + kinds
    elif r.ok_printed and r.failed:
        pass
    if not nf and r.failed:
        o.violate("spurious", "the command failed though no fault occurred: %r" % (r.exc,))
    return o
