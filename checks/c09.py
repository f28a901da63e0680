"""C09: studio runs never mix."""
from checks import studiocommon as sc
from dst import docs, harness

PROPERTY = "C09"
LEVEL = "exploration"
RULE = ("one case = one simulated life of the studio server with 1-3 browser tabs that start, stop and restart runs (also before the previous one ended), with "
        "seeded delays of network, pool jobs and sends, suspended jobs, slow clients, malformed messages, disconnects and document edits; the messages of every "
        "connection are matched against the runs it asked for; non-trivial if a connection had two runs asked for before the first one ended, or a stop during a run; "
        "distinct by the order of messages")
ASSUMPTIONS = sc.ASSUMPTIONS
COMPONENTS = sc.COMPONENTS
BATCH = 8
LIMIT = 60.0
prepare = sc.prepare
shrinks = sc.shrinks


def budget(tier):
    return 2500 if tier == "quick" else 60000


def gen(r, tier, i):
    files = {"a.csv": docs.csv(r)} if r.random() < 0.3 else {}
    spec = docs.document(r, list(files), masks=0.1)
    c = dict(files=files, text=docs.render(r, spec), world=sc.gen_world(r), faults=[])
    n = r.choice([1, 1, 1, 2, 2, 3])
    c["clients"] = [sc.gen_ws(r, k, runs=r.choice([1, 2, 3, 5]), leave=0.15, junk=0.1) for k in range(n)]
    if r.random() < 0.3:
        c["clients"].append(sc.gen_http(r, 0, spec, files, r.randint(1, 4), kinds=("put", "patch", "patch", "get"), cut=0.0))
    if r.random() < 0.15:
        c["faults"].append(dict(kind="engine", nth=r.randint(1, 8), error=r.choice(["RuntimeError", "MemoryError", "ValueError"])))
    sc.unique_totals(c["clients"])
    return c


def run(c):
    o = harness.Outcome()
    s = sc.session(c)
    sc.fill(o, s)
    o.nontrivial = False
    for name, (reqs, problem) in sorted(sc.run_histories(s).items()):
        if problem:
            o.violate("mixed", "connection %s gets %s" % (name, problem))
            return o
        for i, q in enumerate(reqs):
            if i and (reqs[i - 1].end is None or reqs[i - 1].end["seq"] > q.seq):
                o.nontrivial = True
                o.stat("runs_queued")
            if q.stopped and q.started and q.started["seq"] < q.stopped and (q.end is None or q.end["seq"] > q.stopped):
                o.nontrivial = True
                o.stat("stops_during_run")
            o.stat("runs")
        # stops
        for seq in sorted({q.stopped for q in reqs if q.stopped}):
            late = [e for q in reqs if q.seq < seq for e in q.messages if e["seq"] > seq]
            if len(late) > 1:
                o.violate("stop", "connection %s: %d bundles of runs asked for before a stop are reported after the stop was received (%s)"
                          % (name, len(late), ", ".join("%s of %s" % (e["message"]["traced"], e["message"]["total"]) for e in late[:5])))
                return o
        away = sc.gone(s, name)
        for q in reqs:
            if q.stopped is None and q.end is not None and (away is None or q.end["seq"] < away) and q.end["message"]["type"] == "done" and sc.classify(q.args) == "good":
                n = q.messages[-1]["message"]["traced"] if q.messages else 0
                if n != q.total:
                    o.violate("cancelled", "connection %s: the run of %d rays, not stopped since it was asked for, is done after %d rays" % (name, q.total, n))
                    return o
            if away is None or away > s.history[s.mid - 1]["seq"]:
                if q.end is None:
                    o.violate("unended", "connection %s: the run of %s rays has no end although nothing is left to happen" % (name, q.total))
                    return o
    if not s.quiet:
        o.violate("endless", "the server does not come to rest: %s" % s.loop.out_of_budget)
    return o
