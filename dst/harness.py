"""Runs a check: many seeded cases in forked children, minimisation, replay,
known findings, evidence.

A check is a module with
  PROPERTY, LEVEL, RULE, ASSUMPTIONS, COMPONENTS
  prepare()            once, before forking (imports, builds)
  budget(tier)         -> number of cases
  gen(rng, tier, i)    -> case (JSON-able dict)
  run(case)            -> Outcome
  shrinks(case)        -> iterator of simpler cases (optional)
"""
import errno
import hashlib
import importlib
import json
import os
import pickle
import select
import shutil
import signal
import struct
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("DST_REPO", "/repo")
CACHE = os.path.join(HERE, ".cache")
PY = "/opt/venv/bin/python"

_real_time = time.time
_real_sleep = time.sleep
_real_fork = os.fork
_real_getpid = os.getpid


class Outcome:
    """violation: None or (class, message).  fp: fingerprint of the run.
    stats: numeric counters.  faults: {kind: fired}.  choices: schedule taken."""

    def __init__(self):
        self.violation = None
        self.fp = ""
        self.stats = {}
        self.faults = {}
        self.choices = None
        self.sim_time = 0.0
        self.nontrivial = True
        self.distinct = None
        self.sample = None
        self.trace = None
        self.key = None          # identity of a violation, for known findings

    def violate(self, cls, msg, key=None):
        if self.violation is None:
            self.violation = (cls, msg)
            self.key = key or cls

    def stat(self, k, n=1):
        self.stats[k] = self.stats.get(k, 0) + n

    def fault(self, k, n=1):
        if n:
            self.faults[k] = self.faults.get(k, 0) + n


def scratch_root():
    base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
    return base


def make_scratch():
    return tempfile.mkdtemp(prefix="dst-", dir=scratch_root())


# ---------------------------------------------------------------------------
# running cases in forked children

def _child(mod, cases, wfd, scratch):
    """Runs cases one after another, writing one frame per case."""
    try:
        signal.signal(signal.SIGINT, signal.SIG_DFL)
        os.setpgid(0, 0)
    except OSError:
        pass
    for idx, case in cases:
        try:
            d = os.path.join(scratch, "run")
            shutil.rmtree(d, ignore_errors=True)
            os.makedirs(d)
            os.environ["DST_SCRATCH"] = d
            t0 = _real_perf()
            out = mod.run(case)
            out.stats["_wall"] = _real_perf() - t0
            res = ("ok", idx, out)
        except BaseException as e:
            out = blame(e)
            res = ("ok", idx, out) if out else ("error", idx, traceback.format_exc())
        b = pickle.dumps(res)
        b = struct.pack("<q", len(b)) + b
        while b:
            n = os.write(wfd, b)
            b = b[n:]
    os._exit(0)


_real_perf = time.perf_counter


def blame(e):
    """An exception raised by the code under test, where its check expects none, is a violation; one of the check itself is not."""
    if not isinstance(e, Exception):
        return None
    repo = os.path.join(os.path.realpath(os.environ.get("DST_REPO", "/repo")), "pvtrace") + os.sep
    for f in reversed(traceback.extract_tb(e.__traceback__)):
        path = os.path.realpath(f.filename)
        if path.startswith(HERE + os.sep):
            return None
        if path.startswith(repo):
            o = Outcome()
            o.violate("exception", "%s:%d raises %s: %s" % (os.path.relpath(path, repo), f.lineno, type(e).__name__, str(e)[:300]))
            o.fp = "exception"
            return o
    return None


class Runner:
    def __init__(self, mod, jobs=8, batch=1, limit=150.0):
        self.mod, self.jobs, self.batch, self.limit = mod, jobs, batch, limit
        self.scratch = make_scratch()

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def map(self, cases, stop=None, deadline=None):
        """cases: iterator of (idx, case).  Yields (idx, case, status, payload) as
        they complete; status in ok / error / timeout."""
        it = iter(cases)
        live = {}
        slot_free = list(range(self.jobs))
        exhausted = False
        while True:
            while not exhausted and slot_free and not (stop and stop()) and not (deadline and _real_time() > deadline):
                chunk = []
                for _ in range(self.batch):
                    try:
                        chunk.append(next(it))
                    except StopIteration:
                        exhausted = True
                        break
                if not chunk:
                    break
                slot = slot_free.pop()
                sd = os.path.join(self.scratch, "s%d" % slot)
                os.makedirs(sd, exist_ok=True)
                r, w = os.pipe()
                sys.stdout.flush()
                sys.stderr.flush()
                pid = _real_fork()
                if pid == 0:
                    try:
                        os.close(r)
                        for l in live.values():
                            os.close(l["r"])
                        _child(self.mod, chunk, w, sd)
                    finally:
                        os._exit(1)
                os.close(w)
                live[r] = dict(r=r, pid=pid, chunk=list(chunk), buf=b"", slot=slot, t=_real_time())
            if not live:
                if exhausted or (stop and stop()) or (deadline and _real_time() > deadline):
                    return
                continue
            ready, _, _ = select.select(list(live), [], [], 1.0)
            now = _real_time()
            for r in list(live):
                l = live[r]
                closed = False
                if r in ready:
                    try:
                        x = os.read(r, 1 << 20)
                    except OSError:
                        x = b""
                    if not x:
                        closed = True
                    l["buf"] += x
                    while len(l["buf"]) >= 8:
                        n, = struct.unpack("<q", l["buf"][:8])
                        if len(l["buf"]) < 8 + n:
                            break
                        status, idx, payload = pickle.loads(l["buf"][8:8 + n])
                        l["buf"] = l["buf"][8 + n:]
                        _, case = l["chunk"].pop(0)
                        l["t"] = now
                        yield idx, case, status, payload
                if not closed and l["chunk"] and now - l["t"] > self.limit:
                    idx, case = l["chunk"].pop(0)
                    self._kill(l["pid"])
                    closed = True
                    rest = l["chunk"]
                    l["chunk"] = []
                    yield idx, case, "timeout", "no result after %.0f s of real time" % self.limit
                    for i, c in rest:
                        yield i, c, "skipped", ""
                if closed:
                    os.close(r)
                    del live[r]
                    self._kill(l["pid"])
                    try:
                        _, st = os.waitpid(l["pid"], 0)
                    except OSError:
                        st = 0
                    slot_free.append(l["slot"])
                    if l["chunk"]:
                        idx, case = l["chunk"].pop(0)
                        yield idx, case, "crash", "process ended with status %d" % st
                        for i, c in l["chunk"]:
                            yield i, c, "skipped", ""

    @staticmethod
    def _kill(pid):
        for f in (os.killpg, os.kill):
            try:
                f(pid, signal.SIGKILL)
            except OSError:
                pass

    def one(self, case, limit=None):
        old, self.limit = self.limit, limit or self.limit
        try:
            for idx, c, status, payload in self.map([(0, case)]):
                return status, payload
        finally:
            self.limit = old
        return "error", "no result"


def classify(mod, status, payload):
    """-> (violation or None, harness error or None)"""
    if status == "ok":
        return payload.violation, None
    if status == "timeout":
        return ("no-progress", "the run did not end: " + payload), None
    if status == "crash":
        return ("crash", "the code under test brought its process down: " + payload), None
    return None, payload


# ---------------------------------------------------------------------------
# minimisation

def minimise(mod, runner, case, cls, outcome, seconds=60.0, log=lambda *a: None):
    end = _real_time() + seconds
    best = json.loads(json.dumps(case))
    if outcome is not None and outcome.choices is not None:
        best["choices"] = list(outcome.choices)
    best_out = None
    tries = 0
    slow = 30.0

    def fails(c):
        nonlocal tries, best_out
        if _real_time() > end or tries > 400:
            return False
        tries += 1
        status, payload = runner.one(c, slow)
        v, err = classify(mod, status, payload)
        if v and v[0] == cls:
            best_out = payload if status == "ok" else None
            return True
        return False

    if not fails(best):
        return case, outcome, tries

    def shrink_list(key, neutral=None):
        nonlocal best
        xs = best.get(key)
        if not xs:
            return False
        changed = False
        n = len(xs)
        size = max(1, n // 2)
        while size >= 1:
            i = 0
            while i < len(best[key]):
                cur = best[key]
                if neutral is None:
                    cand = cur[:i] + cur[i + size:]
                else:
                    if all(x == neutral for x in cur[i:i + size]):
                        i += size
                        continue
                    cand = cur[:i] + [neutral] * len(cur[i:i + size]) + cur[i + size:]
                    while cand and cand[-1] == neutral:
                        cand.pop()
                c = dict(best)
                c[key] = cand
                if fails(c):
                    best = c
                    changed = True
                    if neutral is not None:
                        i += size
                else:
                    i += size
                if _real_time() > end:
                    return changed
            size //= 2
        return changed

    again = True
    rounds = 0
    while again and rounds < 4 and _real_time() < end:
        again = False
        rounds += 1
        for key in ("faults", "ops"):
            if isinstance(best.get(key), list):
                again |= shrink_list(key)
        if hasattr(mod, "shrinks"):
            progress = True
            while progress and _real_time() < end:
                progress = False
                for c in mod.shrinks(best):
                    if fails(c):
                        best = c
                        progress = again = True
                        break
        if best.get("choices"):
            again |= shrink_list("choices", 0)
    # final run for the report
    status, payload = runner.one(best, slow)
    v, _ = classify(mod, status, payload)
    if v and v[0] == cls:
        return best, (payload if status == "ok" else None), tries
    return case, outcome, tries


# ---------------------------------------------------------------------------
# known findings

def known_findings(prop):
    path = os.path.join(HERE, "known-findings.json")
    if not os.path.exists(path):
        return []
    with open(path) as fp:
        return [f for f in json.load(fp)["findings"] if f["property"] == prop and f.get("status") == "known"]


def tree_hash(paths):
    h = hashlib.sha256()
    for p in sorted(paths):
        with open(p, "rb") as fp:
            h.update(p.encode() + b"\0" + fp.read())
    return h.hexdigest()[:16]


# ---------------------------------------------------------------------------

def main(mod, argv):
    prop = mod.PROPERTY
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    replay = None
    count = None
    jobs = int(os.environ.get("DST_JOBS", "8"))
    trace = self_test = False
    i = 0
    while i < len(argv):
        a = argv[i]
        if a == "--replay":
            replay = argv[i + 1]
            i += 1
        elif a == "--cases":
            count = int(argv[i + 1])
            i += 1
        elif a == "--seed":
            seed = int(argv[i + 1])
            i += 1
        elif a == "--tier":
            tier = argv[i + 1]
            i += 1
        elif a == "--selftest":
            self_test = True
        elif a == "--trace":
            trace = True
        i += 1
    if self_test:
        return selftest(mod, seed, tier, count or 40)
    print("dst: property=%s seed=%d tier=%s" % (prop, seed, tier), flush=True)
    t0 = _real_time()
    try:
        mod.prepare()
    except BuildFailure as e:
        print("harness: %s" % e)
        return 2
    known = known_findings(prop)
    runner = Runner(mod, jobs, getattr(mod, "BATCH", 4), getattr(mod, "LIMIT", 150.0))
    try:
        if replay:
            return do_replay(mod, runner, replay, trace)
        return explore(mod, runner, seed, tier, count, known, t0)
    finally:
        runner.close()


class BuildFailure(Exception):
    pass


def do_replay(mod, runner, path, trace):
    with open(path) as fp:
        rec = json.load(fp)
    status, payload = runner.one(rec["case"], 600)
    v, err = classify(mod, status, payload)
    if err:
        print("harness error:\n" + err)
        return 2
    if trace and status == "ok" and payload.trace:
        print("\n".join(payload.trace))
    if v:
        same = v[0] == rec["class"]
        print("replay: %s: %s" % v)
        if status == "ok":
            print("replay: fingerprint %s (%s)" % (payload.fp, "as recorded" if payload.fp == rec.get("fingerprint") else "recorded " + str(rec.get("fingerprint"))))
        print("VIOLATION property=%s replay=%s%s" % (mod.PROPERTY, path, "" if same else " (class differs from the recorded %s)" % rec["class"]))
        return 1
    print("replay: no violation")
    return 0


def gen_cases(mod, seed, tier, n):
    from .choice import rng
    for i in range(n):
        c = mod.gen(rng(mod.PROPERTY, seed, i), tier, i)
        c["case_seed"] = [mod.PROPERTY, seed, i]
        yield i, c


def explore(mod, runner, seed, tier, count, known, t0):
    prop = mod.PROPERTY
    n = count or mod.budget(tier)
    wall = float(os.environ.get("DST_WALL", "420" if tier == "quick" else str(getattr(mod, "THOROUGH_WALL", 3600))))
    deadline = t0 + wall
    agg = dict(runs=0, faults={}, stats={}, sim_time=0.0, fps=set(), distinct=set(), nontrivial=0, samples=[])
    found = []
    knownhits = {}
    errors = []
    skipped = 0
    stop = lambda: len(found) >= 1 or len(errors) >= 3
    t1 = _real_time()
    for idx, case, status, payload in runner.map(gen_cases(mod, seed, tier, n), stop, deadline):
        if status == "skipped":
            skipped += 1
            continue
        v, err = classify(mod, status, payload)
        if status in ("timeout", "crash"):
            # confirm alone with a longer limit before believing it
            status, payload = runner.one(case, getattr(mod, "LIMIT", 150.0) * 1.5)
            v, err = classify(mod, status, payload)
        if err:
            errors.append(err)
            continue
        agg["runs"] += 1
        if status == "ok":
            o = payload
            for k, x in o.faults.items():
                agg["faults"][k] = agg["faults"].get(k, 0) + x
            for k, x in o.stats.items():
                if k.startswith("max_"):
                    agg["stats"][k] = max(agg["stats"].get(k, 0), x)
                else:
                    agg["stats"][k] = agg["stats"].get(k, 0) + x
            agg["sim_time"] += o.sim_time
            agg["fps"].add(o.fp)
            if o.nontrivial:
                agg["nontrivial"] += 1
                agg["distinct"].add(o.distinct or o.fp)
            if o.sample and len(agg["samples"]) < 5:
                agg["samples"].append(dict(case_seed=case["case_seed"], sample=o.sample))
        if v:
            hit = match_known(known, v, payload if status == "ok" else None)
            if hit:
                knownhits.setdefault(hit["id"], [hit, 0])[1] += 1
            else:
                found.append((idx, case, v, payload if status == "ok" else None))
    wall_s = _real_time() - t0
    search_s = max(1e-9, _real_time() - t1)
    rc = 0
    replay_path = None
    if found:
        found.sort(key=lambda f: f[0])
        idx, case, v, o = found[0]
        print("violation in run %d: %s: %s" % (idx, v[0], v[1]), flush=True)
        small, so, tries = minimise(mod, runner, case, v[0], o, seconds=min(90.0, max(20.0, deadline - _real_time())))
        os.makedirs(os.path.join(HERE, "replays"), exist_ok=True)
        replay_path = os.path.join(HERE, "replays", "%s-%d-%d.json" % (prop, seed, idx))
        so = so or o
        rec = dict(property=prop, seed=seed, run=idx, **{"class": v[0]}, message=(so.violation[1] if so and so.violation else v[1]),
                   fingerprint=so.fp if so else None, case=small, minimised_in_runs=tries,
                   original_case=case if small is not case else None,
                   trace=(so.trace or [])[-400:] if so else None)
        with open(replay_path, "w") as fp:
            json.dump(rec, fp, indent=1, default=str)
        print("minimised in %d runs: %s" % (tries, rec["message"]))
        print("VIOLATION property=%s replay=%s" % (prop, replay_path), flush=True)
        rc = 1
    elif errors:
        print("harness error (not a verdict):\n" + errors[0])
        rc = 2
    if rc == 0 and agg["runs"] == 0:
        print("harness error: nothing ran")
        rc = 2
    for f in known:
        n = knownhits.get(f["id"], (f, 0))[1]
        print("KNOWN-FINDING: property=%s %s%s" % (prop, f["what"], " (seen %d times in this run)" % n if n else ""))
    evidence(mod, seed, tier, agg, wall_s, search_s, len(found), skipped, len(errors), n if False else None, sum(x[1] for x in knownhits.values()))
    print("dst: %d runs in %.1f s, %d distinct schedules/histories, %d violations, faults %s" % (
        agg["runs"], wall_s, len(agg["distinct"]), len(found), json.dumps(agg["faults"], sort_keys=True)))
    return rc


def match_known(known, v, outcome):
    key = outcome.key if outcome is not None else v[0]
    for f in known:
        if f["match"]["class"] == v[0] and (f["match"].get("key") is None or f["match"]["key"] == key):
            return f
    return None


def evidence(mod, seed, tier, agg, wall, search, violations, skipped, errors, _, known):
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    cov = dict(
        evaluations=agg["runs"],
        distinct_nontrivial=len(agg["distinct"]),
        rule=mod.RULE,
        samples=agg["samples"] or [{"note": "no sample kept"}],
        exhaustive=False,
        runs_per_hour=int(agg["runs"] / search * 3600),
        seeds_per_hour=int(agg["runs"] / search * 3600),
        simulated_seconds=round(agg["sim_time"], 3),
        faults_injected=agg["faults"],
        distinct_schedules=len(agg["fps"]),
        counters={k: (round(x, 3) if isinstance(x, float) else x) for k, x in sorted(agg["stats"].items()) if not k.startswith("_")},
        components=mod.COMPONENTS,
        known_finding_hits=known,
        skipped_after_stop=skipped,
        harness_errors=errors,
    )
    ev = dict(property=mod.PROPERTY, tier=tier, seed=seed, level=mod.LEVEL, coverage=cov,
              assumptions=mod.ASSUMPTIONS, wall_s=round(wall, 2), violations=violations)
    with open(os.path.join(HERE, "evidence", mod.PROPERTY + ".json"), "w") as fp:
        json.dump(ev, fp, indent=1, default=str)


def selftest(mod, seed, tier, n):
    """Determinism: every case twice at different job counts; also prints a digest
    so that separate interpreters (other PYTHONHASHSEED) can be compared."""
    mod.prepare()
    seen = {}
    bad = 0
    for jobs, batch in ((8, 1), (3, 4)):
        r = Runner(mod, jobs, batch, 300)
        try:
            for idx, case, status, payload in r.map(gen_cases(mod, seed, tier, n)):
                if status != "ok":
                    print("selftest: case %d: %s %s" % (idx, status, payload))
                    bad += 1
                    continue
                k = (payload.fp, payload.violation and payload.violation[0], payload.choices)
                if idx in seen and seen[idx] != k:
                    bad += 1
                    print("selftest: case %d differs: %s / %s" % (idx, seen[idx][:2], k[:2]))
                seen[idx] = k
        finally:
            r.close()
    # replay of the recorded choices must give the same fingerprint
    h = hashlib.sha256(repr(sorted((i, k[0], k[1]) for i, k in seen.items())).encode()).hexdigest()[:16]
    print("selftest: %s: %d cases twice, %d differences, digest %s" % (mod.PROPERTY, len(seen), bad, h))
    return 1 if bad else 0
