"""C02: after a kill or power loss at any instant the database is a clean prefix."""
import os
import random
import shutil
import sqlite3

from checks import pipecommon as pc
from dst import disk, harness, pipeline

PROPERTY = "C02"
LEVEL = "fault_enumeration"
RULE = ("one case = one run of the real `simulate` command on a recorded disk; the disk is then rebuilt as after a process kill at every (long runs: a seeded "
        "sample of) recorded file operation and as after power losses that lose or tear unsynced writes, and each rebuilt database is opened and judged; some "
        "runs also suffer disk errors, and in some the command is run again with --overwrite on a rebuilt disk; non-trivial if at least one crash state lies "
        "strictly inside a transaction; distinct by schedule fingerprint")
ASSUMPTIONS = pc.ASSUMPTIONS + [
    "a kill keeps every executed file operation and nothing else",
    "a power loss keeps data written before the file's last fsync, keeps, loses or tears (512-byte sectors) later writes, and keeps directory operations as a "
    "prefix that includes everything before the directory's last fsync",
]
COMPONENTS = pc.COMPONENTS
BATCH = 2
LIMIT = 150.0
POINTS = {"quick": 60, "thorough": 100000}


def prepare():
    pipeline.load()


def budget(tier):
    return 2000 if tier == "quick" else 30000


def gen(r, tier, i):
    c = pc.gen_case(r, tier, 9)
    c["rays"] = r.choice([1, 2, 3, 4, 6, 9])
    c["tracer"] = r.choice(["stub", "stub", "stub", "augment"])
    c["cut_seed"] = r.getrandbits(32)
    c["points"] = POINTS[tier]
    c["rerun"] = r.random() < 0.3
    c["preexisting"] = r.random() < 0.3
    if r.random() < 0.25:
        from checks.c03 import gen_fault
        f = gen_fault(r, c)
        while f["kind"] not in ("disk", "worker_raise", "interrupt"):
            f = gen_fault(r, c)
        c["faults"] = [f]
        c["zmq"] = False
    return c


def shrinks(case):
    if case["rerun"]:
        yield dict(case, rerun=False)
    if case["preexisting"]:
        yield dict(case, preexisting=False)
    yield from pc.shrink_case(case)


def open_rows(path):
    """(rows, problem) of a rebuilt database."""
    con = sqlite3.connect(path)
    try:
        try:
            ic = con.execute("PRAGMA integrity_check").fetchall()
        except sqlite3.DatabaseError as e:
            return None, "cannot be opened: %s" % e
        if ic != [("ok",)]:
            return None, "fails the integrity check: %s" % (ic[:2],)
        tables = {r[0] for r in con.execute("SELECT name FROM sqlite_master WHERE type='table'")}
        if not {"ray", "event"} <= tables:
            n = sum(con.execute("SELECT COUNT(*) FROM %s" % t).fetchone()[0] for t in tables & {"ray", "event"})
            return ([], None) if n == 0 else (None, "has only the tables %s, with rows" % sorted(tables))
    finally:
        con.close()
    rays, evs = pipeline.read_db(path)
    return pipeline.join_db(rays, evs)


def check_prefix(rows, exp):
    """None or why the rows are not a prefix of what was traced."""
    by = {}
    for t, v in rows:
        by.setdefault(t, []).append(v)
    if sorted(by) != list(range(len(by))):
        return "throw ids %s have gaps" % sorted(by)
    left = [list(e) for _, e in exp]
    # longest first: each recorded throw must be a prefix of its own traced throw
    for t, v in sorted(by.items(), key=lambda x: -len(x[1])):
        for k, e in enumerate(left):
            if e[:len(v)] == v:
                del left[k]
                break
        else:
            return "throw %d, recorded as %s, is not the beginning of any traced history" % (t, [x[0] for x in v])
    return None


def run(case):
    o = harness.Outcome()
    d = os.path.join(os.environ["DST_SCRATCH"], "live")
    os.makedirs(d)
    extra = []
    initial = {}
    db = os.path.join(d, "scene.sqlite3")
    if case["preexisting"]:
        con = sqlite3.connect(db)
        con.execute("CREATE TABLE ray (old)")
        con.execute("CREATE TABLE event (old)")
        con.commit()
        con.close()
        with open(db, "rb") as fp:
            initial = {os.path.realpath(db): fp.read()}
        extra = ["--overwrite"]
    r = pipeline.simulate(case, d, extra, record_disk=True)
    pc.fill(o, r)
    ops = r.disk_ops
    fired = sum(o.faults.values())
    disk_fault = any(k.startswith("disk") for k in o.faults)    # an operation that failed may or may not have taken effect
    o.sample = dict(pc.describe(case), operations=len(ops), fired=dict(o.faults))
    if r.hang:
        o.violate("hang", "%s" % (r.hang[1],))
        return o
    if r.failed and not fired:
        o.violate("failed", "the command failed without any fault: %r" % (r.exc,))
        return o
    exp = pc.expected_rows(case, r)
    if not r.failed:
        pc.check_complete(o, case, r)
        if o.violation:
            return o
    final, problem = (None, None)
    if os.path.exists(db) and not (r.failed and initial and not replaced(ops, os.path.realpath(db))):
        final, problem = open_rows(db)
    if problem:
        o.violate("torn", "after the command ended (%s) the database %s" % ("failed after %s" % dict(o.faults) if r.failed else "OK", problem))
        return o
    final = final or []
    why = check_prefix(final, exp)
    if why:
        o.violate("not-prefix", "after the command ended: " + why)
        return o
    rnd = random.Random(case["cut_seed"])
    root = os.path.realpath(d)
    cut = os.path.join(os.environ["DST_SCRATCH"], "cut")
    n = len(ops)
    points = list(range(1, n + 1))
    if len(points) > case["points"]:
        points = sorted(set(rnd.sample(points[:-1], case["points"] - 1) + [n]))
    else:
        o.stat("runs_with_every_kill_point")
    best = 0
    inside = 0
    old = bool(initial)
    inc = disk.Incremental(ops, initial)
    rerun_at = rnd.choice(points) if case["rerun"] and points else None
    for k in points:
        inc.advance(k)
        for power in (None, 1) if rnd.random() < 0.5 else (None,):
            shutil.rmtree(cut, ignore_errors=True)
            os.makedirs(cut)
            st = inc.state if power is None else disk.crash(ops, k, initial, random.Random("%s/%s" % (case["cut_seed"], k)))
            st.materialise(root, cut)
            what = "%s after file operation %d of %d (%r)" % ("a kill" if power is None else "a power loss", k, n, ops[k - 1])
            o.stat("power_states" if power else "kill_states")
            p = os.path.join(cut, "scene.sqlite3")
            if os.path.exists(p + "-journal"):
                inside += 1
            rerun = power is None and k == rerun_at
            if rerun:
                keep = cut + ".rerun"
                shutil.copytree(cut, keep)
            if os.path.exists(p):
                if initial and not replaced(ops[:k], os.path.realpath(db)):
                    rows, problem = [], None       # still the old database
                elif initial and power:
                    rows, problem = open_rows_old(p)
                else:
                    rows, problem = open_rows(p)
                if problem:
                    o.violate("torn", "after %s the database %s" % (what, problem))
                    return o
                if rows != final[:len(rows)] and not (disk_fault and rows[:len(final)] == final and not check_prefix(rows, exp)):
                    o.violate("not-prefix", "after %s the database holds %d rows that are not the first %d recorded" % (what, len(rows), len(rows)))
                    return o
                if power is None:
                    if len(rows) < best and not disk_fault:
                        o.violate("lost", "after %s %d rows are left although %d were committed before" % (what, len(rows), best))
                        return o
                    best = max(best, len(rows))
            elif power is None and best:
                o.violate("lost", "after %s the database file is gone" % what)
                return o
            if rerun:
                again(o, case, keep, what)
                shutil.rmtree(keep, ignore_errors=True)
                if o.violation:
                    return o
    if not r.failed and best != len(final):
        o.violate("lost", "OK was printed, but after a kill only %d of %d rows are left" % (best, len(final)))
    o.nontrivial = inside > 0
    o.stat("states_inside_a_transaction", inside)
    return o


def replaced(ops, path):
    return any(x.kind == disk.K["UNLINK"] and x.path == path for x in ops)


def open_rows_old(p):
    """A power loss may also bring back the previous, unrelated database."""
    con = sqlite3.connect(p)
    try:
        try:
            cols = [x[1] for x in con.execute("PRAGMA table_info(ray)")]
        except sqlite3.DatabaseError:
            cols = []
    finally:
        con.close()
    return ([], None) if cols == ["old"] else open_rows(p)


def again(o, case, where, what):
    """The same command with --overwrite on the rebuilt disk."""
    c = dict(case, faults=[], np_seed=case["np_seed"] + 1, rays=min(4, case["rays"]))
    sc = os.path.join(where, "scene.yml")
    if os.path.exists(sc):
        os.unlink(sc)
    r = pipeline.simulate(c, where, ["--overwrite"])
    o.stat("reruns")
    if os.path.exists(os.path.join(where, "scene.sqlite3-journal")):
        o.stat("reruns_leaving_a_journal")
    if r.failed or r.hang:
        o.violate("rerun", "running again with --overwrite after %s fails: %r %r" % (what, r.exc, r.hang))
        return
    pc.check_complete(o, c, r)
    if o.violation:
        o.violation = ("rerun", "running again with --overwrite after %s: %s" % (what, o.violation[1]))
