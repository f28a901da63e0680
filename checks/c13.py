"""C13: every studio run ends with one answer, and faults do not outlive it."""
import yaml

from checks import c10, c11, studiocommon as sc
from dst import docs, harness

PROPERTY = "C13"
LEVEL = "exploration"
RULE = ("one case = one simulated life of the studio server whose tabs send well-formed, senseless and malformed messages, stall and leave at any instant while the engine "
        "fails at chosen bundles; every run request must get exactly one end of the right kind, other clients must be served, and after a disconnect at most one further "
        "bundle of that connection may be computed; non-trivial if a fault, a refused run or a departure during a run happened; distinct by the order of messages")
ASSUMPTIONS = sc.ASSUMPTIONS + ["values that can be read as numbers in more than one way (\"5\", 2.5, true) may be accepted or refused"]
COMPONENTS = sc.COMPONENTS
BATCH = 8
LIMIT = 60.0
prepare = sc.prepare
shrinks = sc.shrinks

WEIRD = {
    "rays": ["abc", "12", None, -1, -5, 0, 1.5, float("nan"), float("inf"), [], {}, True, [3], "", -2 ** 70],
    "bundle": [0, -1, -64, "x", "7", None, 2.5, 0.5, float("nan"), float("-inf"), [1], {"a": 1}, False, -2 ** 70],
    "seed": ["x", "5", -1, 1.5, float("nan"), [], {}, True, 2 ** 63, 2 ** 64, 2 ** 70, -2 ** 63],
    "record_every": ["x", "3", -1, -1000, None, 1.5, float("nan"), float("inf"), [], {}, True, 2 ** 40],
    "max_paths": ["x", "3", -1, None, 1.5, float("nan"), float("inf"), [], {}, False, 2 ** 70],
}


def budget(tier):
    return 2500 if tier == "quick" else 80000


def weird(r, args):
    for _ in range(r.choice([1, 1, 1, 2])):
        k = r.choice(list(WEIRD))
        args[k] = r.choice(WEIRD[k])
    if r.random() < 0.1:
        args[r.choice(["", "extra", "cmd2"])] = r.choice([None, 1, [1]])
    return args


def gen(r, tier, i):
    files = {"a.csv": docs.csv(r)} if r.random() < 0.2 else {}
    q = r.random()
    spec = docs.document(r, list(files), masks=0.2)
    if r.random() < 0.12:
        for k in [k for k, v in spec["nodes"].items() if "light" in v]:
            del spec["nodes"][k]            # nothing to simulate
    c = dict(files=files, text=docs.render(r, spec), world=sc.gen_world(r), faults=[])
    if q < 0.08:
        c["text"] = docs.broken(r, list(files))[0]
    elif q < 0.14:
        c["text"] = None
    n = r.choice([1, 1, 2, 2, 3])
    c["clients"] = [sc.gen_ws(r, k, runs=r.choice([1, 2, 3, 5]), leave=0.4, junk=0.4) for k in range(n)]
    sc.unique_totals(c["clients"])
    for cl in c["clients"]:
        for x in list(cl["script"]):
            if x["do"] == "run" and x["args"].get("rays") and x["args"]["rays"] < 900000 and r.random() < 0.25:
                weird(r, x["args"])
            if x["do"] in ("run", "stop") and r.random() < 0.08:
                cl["script"].insert(cl["script"].index(x), dict(wait=0.0, do="stall", seconds=r.choice([0.3, 5.0, 100.0])))
    if r.random() < 0.5:
        c["clients"].append(sc.gen_http(r, 0, spec, files, r.randint(1, 5), cut=0.15, wild=0.3, bad=0.3))
    if r.random() < 0.35:
        c["faults"] = [dict(kind="engine", nth=k, error=r.choice(["RuntimeError", "MemoryError", "ValueError", "KeyError", "OSError"]))
                       for k in sorted(r.sample(range(1, 12), r.choice([1, 1, 2])))]
    return c


def run(c):
    o = harness.Outcome()
    s = sc.session(c)
    sc.fill(o, s)
    judge_session(c, s, o)
    return o


def scenes(c, s, q):
    """'yes' / 'no' / 'maybe': was there a scene that can be simulated between the request and the end of a run?"""
    files = dict(c["files"])
    first = docs.judge_text(c["text"], files) if c.get("text") is not None else False
    vs = c10.versions(c, s)
    end = q.end["seq"] if q.end else 1 << 60
    cand = c10.candidates(vs, q.seq, end)
    if not cand:
        return "no"
    out = set()
    if first is not True and not any(v.answered and v.answered < q.seq for v in vs if v.invoked):
        if first is False:
            out.add("no")       # perhaps no document was accepted yet
        else:
            out.add("maybe")
    for v in cand:
        j = docs.judge_text(v.text, v.files)
        if j is not True:
            out.add("maybe")
            continue
        out.add("yes" if any("light" in n for n in yaml.safe_load(v.text)["nodes"].values()) else "no")
    return out.pop() if len(out) == 1 else "maybe"


def judge_session(c, s, o):
    o.nontrivial = any(k in s.faults for k in ("malformed_message", "send_after_disconnect")) or s.engine_calls < 0
    fired = sum(n for k, n in s.faults.items() if k.startswith("engine_"))
    errors = excused = 0
    if not s.quiet:
        o.violate("endless", "the server does not come to rest: %s" % s.loop.out_of_budget)
        return
    for e in s.history:
        if e["kind"] == "sent" and e["bad"]:
            o.violate("unreadable", "a message to %s is not JSON a browser can read (%s)" % (e["conn"], e["bad"][0]))
            return
        if e["kind"] in ("handler-end", "server-close") and (sc.left(s, e["conn"]) is None or sc.left(s, e["conn"]) > e["seq"]):
            o.violate("closed", "the server ends connection %s although its client has not left (%s)" % (e["conn"], e.get("error") or e.get("code")))
            return
    for name, (reqs, problem) in sorted(sc.run_histories(s).items()):
        away = sc.gone(s, name)
        left = sc.left(s, name)
        early = left is not None and left <= s.history[s.mid - 1]["seq"]
        if problem and ("belongs to no run" in problem or "unknown" in problem):
            o.violate("extra", "connection %s gets %s" % (name, problem))
            return
        if problem:
            continue                    # C09's business
        for q in reqs:
            kind = sc.classify(q.args)
            o.stat("runs_" + kind)
            if kind == "bad":
                o.nontrivial = True
            if q.end is None:
                if early:
                    if q.started is not None or away is not None:
                        o.nontrivial = True
                    excused += 1
                    continue
                o.violate("no-end", "connection %s: the run %s has no end although nothing is left to happen" % (name, show(q)))
                return
            m = q.end["message"]
            alive = away is None or q.end["seq"] < away
            if q.stopped is not None or not alive:
                excused += 1
            if m["type"] == "error":
                errors += 1
                o.stat("runs_ended_with_error")
                if not isinstance(m.get("message"), str) or not m["message"].strip():
                    o.violate("no-reason", "connection %s: the run %s ends with an error without a reason: %s" % (name, show(q), m))
                    return
                if kind == "good" and alive and not fired and scenes(c, s, q) == "yes":
                    o.violate("wrong-error", "connection %s: the run %s, which nothing prevents, ends with the error %r" % (name, show(q), m["message"][:200]))
                    return
            elif kind == "bad" and q.stopped is None and alive:
                o.violate("wrong-done", "connection %s: the senseless run %s ends as done" % (name, show(q)))
                return
            elif q.stopped is None and alive:
                if q.total != 0 and scenes(c, s, q) == "no":
                    o.violate("wrong-done", "connection %s: the run %s of no scene, or one without lights, ends as done" % (name, show(q)))
                    return
                n = q.messages[-1]["message"]["traced"] if q.messages else 0
                if kind == "good" and n != q.total:
                    o.violate("short", "connection %s: the run %s is done after %s rays" % (name, show(q), n))
                    return
        if away is not None:
            later = [j for j in s.loop.jobs_started if j.conn == name and j.seq > away]
            if len(later) > 1:
                o.violate("outlives", "%d further jobs of connection %s are started after the server knew its client had left" % (len(later), name))
                return
    if fired:
        o.nontrivial = True
        if errors < fired - excused:
            o.violate("hidden", "the engine failed %d times but only %d runs end with an error" % (fired, errors))
            return
    for x in c11.operations(c, s):
        if x.pending:
            o.violate("unanswered", "%s is never answered" % x)
            return
    if s.left_behind:
        o.violate("waiting", "the clients %s wait for ever" % s.left_behind)
        return
    if not s.clean:
        o.violate("endless", "the server does not come to rest after its clients have left: %s" % s.loop.out_of_budget)
        return
    if s.stray_tasks:
        o.violate("outlives", "%d tasks are left after all clients have gone: %s" % (len(s.stray_tasks), str(s.stray_tasks[0])[:200]))


def show(q):
    return str({k: v for k, v in q.args.items() if k != "cmd"})
