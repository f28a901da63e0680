"""C05: count, spectrum and time commands report what the recorded events imply."""
import contextlib
import csv
import io
import json
import os
import sqlite3

from checks import pipecommon as pc
from dst import harness, pipeline, sched

PROPERTY = "C05"
LEVEL = "exploration"
RULE = ("one case = one run of the real `simulate` command with zero to three concurrent analysis clients (other programs reading the same database, preempted at "
        "every database file operation), followed by a battery of generated questions, and in some cases a second run that records end rays only; non-trivial "
        "if at least one answer was not empty; distinct by schedule fingerprint")
ASSUMPTIONS = pc.ASSUMPTIONS + ["a client that finds the database locked for longer than SQLite's five-second wait may fail with that error"]
COMPONENTS = pc.COMPONENTS
BATCH = 4
LIMIT = 120.0

KINDS = {"reflected": ("REFLECT", 3), "entering": ("TRANSMIT", 3), "escaping": ("TRANSMIT", 2),
         "lost": ("NONRADIATIVE", None), "reacted": ("REACT", None), "killed": ("KILL", None)}


def prepare():
    pipeline.load()


def budget(tier):
    return 1300 if tier == "quick" else 50000


def gen_query(r):
    q = dict(cmd=r.choice(["count", "spectrum", "time"]), what=r.choice(list(KINDS)),
             node=r.choice(["box", "box", "ball", "world", "rod", "it's", "nowhere"]))
    if q["what"] in ("reflected", "entering", "escaping"):
        if r.random() < 0.5:
            n = r.choice([(0, 0, 1), (0, 0, -1), (1, 0, 0), (0, 1, 0), (0.6, 0.8, 0), (0, None, None), (None, 0, None), (None, None, 1), (None, None, 0),
                          (0.6, None, 0), (0.9, None, None), (0.6000005, None, None), (0.600002, 0.8, None)])
            for k, v in zip(("nx", "ny", "nz"), n):
                if v is not None:
                    q[k] = float(v)
            if r.random() < 0.4:
                q["atol"] = r.choice([1e-6, 1e-9, 1e-2, 0.5, 0.0])
        if r.random() < 0.3:
            q["facet"] = r.choice(["top", "left", "bottom"])
    if r.random() < 0.3:
        q["source"] = r.choice(["light0", "light1", "dye", "haze", "light", "nobody"])
    if q["cmd"] != "count":
        q["output"] = r.choice(["csv", "csv", "json", "plot"])
    return q


def gen(r, tier, i):
    c = pc.gen_case(r, tier, 16)
    c["seed"] = None
    c["tracer"] = r.choice(["augment", "stub", "stub", "stub"])
    c["odd_names"] = True
    c["clients"] = [[gen_query(r) for _ in range(r.randint(1, 4))] for _ in range(r.choice([0, 0, 1, 1, 2, 3]))]
    c["client_start"] = [r.choice([0.0, 0.00002, 0.0001, r.uniform(0, 0.0003)]) for _ in c["clients"]]
    if c["clients"]:
        c["rays"] = r.randint(4, 16)
        c["sched"]["weights"]["analyst"] = r.choice([0.3, 1.0, 3.0, 10.0])
        c["sched"]["switch"] = r.choice([0.05, 0.1, 0.3, 0.6])
    c["queries"] = [gen_query(r) for _ in range(25)]
    c["twice"] = r.random() < 0.3
    return c


def shrinks(case):
    yield from pc.shrink_case(case)
    if len(case["queries"]) > 1:
        h = len(case["queries"]) // 2
        yield dict(case, queries=case["queries"][:h])
        yield dict(case, queries=case["queries"][h:])
    if case["clients"]:
        yield dict(case, clients=case["clients"][:-1])
    if case["twice"]:
        yield dict(case, twice=False)


def argv_of(q, db):
    a = [q["cmd"], q["what"]]
    for k in ("nx", "ny", "nz", "atol"):
        if k in q:
            a.append("--%s=%r" % (k, q[k]))
    for k in ("facet", "source", "output"):
        if k in q:
            a += ["--" + k, q[k]]
    return a + ["--", q["node"], db]


def matches(q, v):
    """v: event values (kind, component, hit, container, adjacent, facet, normal, ...)."""
    kind, col = KINDS[q["what"]]
    if v[0] != kind:
        return False
    if col is None:
        if v[3] != q["node"]:
            return False
    else:
        if v[2] != q["node"] or v[{3: 4, 2: 3}[col]] != q["node"]:
            return False
        for k, x in zip(("nx", "ny", "nz"), v[6:9]):
            if k in q and (x is None or not abs(q[k] - x) <= q.get("atol", 1e-6)):
                return False
        if "facet" in q and v[5] != q["facet"]:
            return False
    if "source" in q and v[16] != q["source"]:
        return False
    return True


def reference(q, rows):
    hits = [(t, v) for t, v in rows if matches(q, v)]
    if q["cmd"] == "count":
        return len({t for t, _ in hits})
    return sorted({(t, v[15] if q["cmd"] == "spectrum" else v[18]) for t, v in hits})


def parse(q, text):
    text = text.strip()
    if q["cmd"] == "count":
        return int(text)
    if not text:
        return []
    col = "nanometers" if q["cmd"] == "spectrum" else "seconds"
    if q["output"] == "csv":
        rows = list(csv.reader(io.StringIO(text)))
        if rows[0] != ["", col]:
            raise ValueError("unexpected header %s" % rows[0])
        return sorted((int(a), float(b)) for a, b in rows[1:])
    if q["output"] == "json":
        d = json.loads(text)
        if list(d) != [col]:
            raise ValueError("unexpected columns %s" % list(d))
        return sorted((int(a), float(b)) for a, b in d[col].items())
    return None


def close(a, b):
    return abs(a - b) <= 1e-9 * abs(a) + (1e-14)


def same(q, got, want):
    if got is None:     # a plot: only that it was drawn
        return True
    if q["cmd"] == "count":
        return got == want
    if len(got) != len(want):
        return False
    if q["output"] == "csv":
        return got == want
    return all(g[0] == w[0] and close(w[1], g[1]) for g, w in zip(got, want))


def ask(q, db, out):
    """Runs the command; returns (answer, error).  `out` takes the text printed."""
    err = None
    try:
        rc = pipeline.M.climain.app(argv_of(q, db), standalone_mode=False)
        if isinstance(rc, int) and rc:
            err = RuntimeError("exit code %r" % rc)
    except sched.SimAbort:
        raise
    except Exception as e:
        err = e
    text = out()
    if err is not None:
        return None, err
    try:
        return parse(q, text), None
    except Exception as e:
        return None, ValueError("unparsable answer %r: %s" % (text[:200], e))


def known_duplicate_json(q, err, rows):
    """The listed finding: JSON cannot show a throw with several values."""
    if q.get("output") != "json" or not isinstance(err, ValueError) or "unique" not in str(err):
        return False
    ids = [t for t, _ in reference(q, rows)]
    return len(ids) != len(set(ids))


def client(case, k, queries, log):
    def actor(sim, run):
        for q in queries:
            sim.sleep(case["client_start"][k])
            sim.wait(lambda: sim.exited or os.path.exists(run.db), None, "wait for the database")
            if not os.path.exists(run.db):
                return

            def size():
                for _ in range(3):
                    try:
                        con = sqlite3.connect(run.db)
                        try:
                            return con.execute("SELECT COUNT(*) FROM event").fetchone()[0]
                        finally:
                            con.close()
                    except sqlite3.OperationalError as e:
                        if "no such table" in str(e):
                            return None
                        if "locked" not in str(e):
                            raise
                return None
            before = size()
            tries = 0
            while before is None and tries < 20 and not sim.exited:
                sim.sleep(0.00005)
                before = size()
                tries += 1
            if before is None:
                continue
            buf = sim.__dict__.setdefault("_out", {}).setdefault("analyst#%d" % k, [])
            mark = len(buf)
            ans = ask(q, run.db, lambda: "".join(buf[mark:]))
            log.append((k, q, before, size(), ans))
            sim.count("concurrent_queries")
    return actor


def run(case):
    o = harness.Outcome()
    d = os.environ["DST_SCRATCH"]
    log = []
    if case.get("odd_names"):
        pipeline.STUB_NODES = ["world", "box", "ball", "rod", "it's"]
    r = pipeline.simulate(case, d, analysts=[client(case, k, qs, log) for k, qs in enumerate(case["clients"])], disk_ops=bool(case["clients"]))
    pc.fill(o, r)
    o.sample = dict(pc.describe(case), concurrent=len(log), twice=case["twice"])
    if r.hang:
        o.violate("hang", "simulate with analysis running: %s" % (r.hang[1],))
        return o
    if r.failed:
        if case["clients"] and "locked" in repr(r.exc):
            o.stat("recorder_starved")
            o.nontrivial = False
            return o
        o.violate("failed", "simulate failed: %r" % (r.exc,))
        return o
    for t in r.sim.tasks:
        if t.external and t.error is not None:
            raise t.error
    rows, problem = pipeline.join_db(*pipeline.read_db(r.db))
    if problem:
        o.violate("torn", problem)
        return o
    some = 0
    for k, q, a, b, (ans, err) in log:
        if err is not None:
            if "locked" in str(err):
                o.stat("client_found_database_locked")
                continue
            if known_duplicate_json(q, err, rows):
                o.stat("json_duplicates")
                continue
            o.violate("error", "during the run `%s` failed: %r" % (" ".join(argv_of(q, "DB")), err))
            return o
        hi = len(rows) if b is None else b
        if not any(same(q, ans, reference(q, rows[:n])) for n in range(a, hi + 1)):
            o.violate("snapshot", "during the run `%s` answered %r, which no snapshot between %d and %d recorded events gives (%r .. %r)" % (
                " ".join(argv_of(q, "DB")), ans, a, hi, reference(q, rows[:a]), reference(q, rows[:hi])))
            return o
        if a != hi:
            o.stat("queries_overlapping_writes")
        some += bool(ans)
    for q in case["queries"]:
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
            ans, err = ask(q, r.db, buf.getvalue)
        want = reference(q, rows)
        o.stat("queries")
        if err is not None:
            if known_duplicate_json(q, err, rows):
                o.stat("json_duplicates")
                o.known = True
                continue
            o.violate("error", "`%s` failed: %r" % (" ".join(argv_of(q, "DB")), err))
            return o
        if not same(q, ans, want):
            o.violate("answer", "`%s` answered %r, the recorded events give %r" % (" ".join(argv_of(q, "DB")), brief(ans), brief(want)))
            return o
        some += bool(want)
        o.stat("nonempty_answers", int(bool(want)))
    o.nontrivial = some > 0
    if case["twice"] and not case["clients"]:
        d2 = os.path.join(d, "second")
        os.makedirs(d2)
        r2 = pipeline.simulate(dict(case, end_rays=not case["end_rays"]), d2)
        if r2.failed or r2.hang:
            o.violate("failed", "second run: %r %r" % (r2.exc, r2.hang))
            return o
        rows2, problem = pipeline.join_db(*pipeline.read_db(r2.db))
        if problem:
            o.violate("torn", problem)
            return o
        o.stat("end_ray_pairs")
        for q in case["queries"]:
            if q.get("output") == "plot":
                continue
            buf = io.StringIO()
            with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(io.StringIO()):
                ans, err = ask(q, r2.db, buf.getvalue)
            if err is not None:
                if known_duplicate_json(q, err, rows2):
                    continue
                o.violate("error", "`%s` failed on the second recording: %r" % (" ".join(argv_of(q, "DB")), err))
                return o
            want = reference(q, rows)
            a = ans if q["cmd"] == "count" else groups(ans)
            b = want if q["cmd"] == "count" else groups(want)
            if q["cmd"] != "count" and q["output"] == "json":
                ok = len(a) == len(b) and all(len(x) == len(y) and all(close(p, s) for p, s in zip(x, y)) for x, y in zip(a, b))
            else:
                ok = a == b
            if not ok:
                o.violate("end-rays", "`%s` answers %r on the %s recording but %r on the %s recording of the same rays" % (
                    " ".join(argv_of(q, "DB")), brief(b), kindname(case["end_rays"]), brief(a), kindname(not case["end_rays"])))
                return o
    if getattr(o, "known", False):
        o.violate("known-json", "--output json fails when a ray has several values", key="json-duplicate-throws")
    return o


def kindname(end):
    return "end-rays" if end else "full"


def brief(x):
    return x if not isinstance(x, list) or len(x) < 12 else "%s... (%d)" % (x[:12], len(x))


def groups(rows):
    by = {}
    for t, v in rows:
        by.setdefault(t, []).append(v)
    return sorted(sorted(v) for v in by.values())
