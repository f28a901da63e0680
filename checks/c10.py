"""C10: a studio run reports on the document it started with."""
import json
import os

from checks import studiocommon as sc
from dst import docs, engine, harness

PROPERTY = "C10"
LEVEL = "exploration"
RULE = ("one case = one simulated life of the studio server in which browser tabs run the scene while other clients replace and patch the document, validly or not, "
        "upload, save and run; every message of every run is compared with an undisturbed engine run, made afterwards through the command line's parser, of a document "
        "version that was current between the request and the start of the run; non-trivial if an accepted edit fell between the request and the end of a run; distinct "
        "by the order of messages")
ASSUMPTIONS = sc.ASSUMPTIONS + ["documents whose lights draw random positions or directions, and runs without a seed, are judged by invariants only (their random numbers "
                                "come from numpy's global generator)"]
COMPONENTS = sc.COMPONENTS
BATCH = 8
LIMIT = 60.0
prepare = sc.prepare
shrinks = sc.shrinks


def budget(tier):
    return 1200 if tier == "quick" else 40000


def gen(r, tier, i):
    files = {"a.csv": docs.csv(r), "b.csv": docs.csv(r)} if r.random() < 0.3 else {}
    spec = docs.document(r, list(files), masks=0.08)
    c = dict(files=files, text=docs.render(r, spec), world=sc.gen_world(r), faults=[])
    if r.random() < 0.05:
        c["text"] = docs.broken(r, list(files))[0]
    n = r.choice([1, 1, 2])
    c["clients"] = [sc.gen_ws(r, k, runs=r.choice([1, 2, 3, 4]), leave=0.05, junk=0.05) for k in range(n)]
    for k in range(r.choice([1, 1, 2])):
        c["clients"].append(sc.gen_http(r, k, spec, files, r.randint(1, 8), kinds=("put", "put", "patch", "patch", "patch", "get", "upload"), cut=0.0, wild=0.1))
    if r.random() < 0.1:
        c["faults"].append(dict(kind="engine", nth=r.randint(1, 8), error=r.choice(["RuntimeError", "MemoryError", "ValueError"])))
    sc.unique_totals(c["clients"])
    return c


class Version:
    def __init__(self, text, files, invoked, answered):
        self.text, self.files, self.invoked, self.answered = text, files, invoked, answered
        self.scene = None
        self.why = None
        self.cache = {}

    def load(self, k):
        if self.scene is None:
            from pvtrace.cli.parse import parse
            d = os.path.join(os.environ["DST_SCRATCH"], "ref%d" % k)
            os.makedirs(d, exist_ok=True)
            for n, t in self.files.items():
                with open(os.path.join(d, n), "w") as fp:
                    fp.write(t)
            with open(os.path.join(d, "scene.yml"), "w") as fp:
                fp.write(self.text)
            self.scene = parse(os.path.join(d, "scene.yml"))
            self.spec = __import__("yaml").safe_load(self.text)
        return self.scene

    def reference(self, args, upto):
        """The messages of an undisturbed run of this version, bundle by bundle."""
        key = json.dumps(args, sort_keys=True)
        ref = self.cache.setdefault(key, Reference(self.scene, args))
        return ref.upto(upto)


class Reference:
    def __init__(self, scene, args):
        self.scene, self.args = scene, args
        self.compiled = engine.M.api.compile_scene(scene)
        self.total = args.get("rays", 100000)
        self.bundle = args.get("bundle", 25000)
        self.every = args.get("record_every", 1000)
        self.max_paths = args.get("max_paths", 200)
        self.traced = 0
        self.acc = {}
        self.paths = 0
        self.out = []

    def upto(self, n):
        import numpy as np
        while len(self.out) < n and self.traced < self.total:
            m = min(self.bundle, self.total - self.traced)
            res = engine.M.api.simulate(self.scene, m, seed=self.args["seed"] + self.traced, start=self.traced, record_every=self.every)
            self.traced += m
            recs = {}
            for name, x in res.recorders.items():
                a = self.acc.setdefault(name, dict(rays=0, crossings=0, wavelength=0.0, angle=0.0, hists=None))
                a["rays"] += x.rays
                a["crossings"] += x.crossings
                r = res.compiled.recorder_names.index(name)
                a["wavelength"] += res.data["rec_sums"][r, 0, 0]
                a["angle"] += res.data["rec_sums"][r, 1, 0]
                hs = [np.asarray(x.histogram(i)[-1]) for i in range(len(x.spec.histograms))]
                a["hists"] = hs if a["hists"] is None else [p + q for p, q in zip(a["hists"], hs)]
                k = max(a["rays"], 1)
                recs[name] = dict(rays=a["rays"], crossings=a["crossings"], mean_wavelength=a["wavelength"] / k, mean_angle=a["angle"] / k,
                                  hists=[(h.ravel().tolist(), list(h.shape)) for h in a["hists"]])
            paths = []
            if self.paths < self.max_paths:
                # the first recorded rays, as far as they fit
                for h in list(res.histories())[:self.max_paths - self.paths]:
                    if len(h) >= 2:
                        paths.append((np.array([x[0].position for x in h]), np.array([x[0].wavelength for x in h])))
                self.paths += len(paths)
            self.out.append((self.traced, recs, paths))
        return self.out[:n]


def versions(c, s):
    """The document versions in the order of their edits; each with the interval of time in which it became current."""
    files = dict(c["files"])
    out = []
    if c.get("text") is not None and docs.judge_text(c["text"], files) is not False:
        out.append(Version(c["text"], dict(files), 0, 0))
    for e in s.history:
        if e["kind"] != "response":
            continue
        name, n = e["op"]
        x = [cl for cl in c["clients"] if cl["name"] == name][0]["script"][n]
        if x["do"] == "upload" and x.get("body") is None and e["status"] == 200:
            files[e["json"]["saved"]] = x["content"]
        if x["do"] in ("put", "patch") and e["status"] == 200:
            text = x["text"] if x["do"] == "put" else e["json"]["text"]
            out.append(Version(text, dict(files), e["invoked"], e["answered"]))
    return out


def candidates(vs, asked, started):
    """Versions that may have been current at some moment between the request and the start of a run."""
    out = []
    for v in vs:
        if v.invoked > started:
            continue
        if any(w is not v and w.invoked > v.answered and w.answered < asked for w in vs):
            continue
        out.append(v)
    return out


def invariants(q, names):
    """None, or what is wrong with a run whose random numbers are not known."""
    total, bundle = q.args.get("rays", 100000), q.args.get("bundle", 25000)
    traced = 0
    last = {}
    for e in q.messages:
        m = e["message"]
        n = m["traced"]
        if n != min(traced + bundle, total):
            return "a bundle ends at ray %d, the one before at %d, bundles have %d rays" % (n, traced, bundle)
        traced = n
        if set(m["recorders"]) not in names:
            return "a bundle reports the recorders %s" % sorted(m["recorders"])
        for k, x in m["recorders"].items():
            if not 0 <= x["rays"] <= min(n, x["crossings"]):
                return "recorder %s has %d rays and %d crossings after %d rays" % (k, x["rays"], x["crossings"], n)
            p = last.get(k)
            if p and (x["rays"] < p["rays"] or x["crossings"] < p["crossings"] or x["rays"] > p["rays"] + bundle):
                return "recorder %s goes from %d to %d rays in a bundle of %d" % (k, p["rays"], x["rays"], bundle)
            if p:
                for a, b in zip(p["histograms"], x["histograms"]):
                    if any(u > v for u, v in zip(a["values"], b["values"])):
                        return "a histogram of recorder %s decreases" % k
            last[k] = x
        for pth in m["paths"]:
            if len(pth["points"]) != len(pth["wavelengths"]) or len(pth["points"]) < 2:
                return "a path has %d points and %d wavelengths" % (len(pth["points"]), len(pth["wavelengths"]))
    if sum(len(e["message"]["paths"]) for e in q.messages) > max(0, q.args.get("max_paths", 200)):
        return "more paths than asked for"
    return None


def tallied(spec):
    """Recorders on nodes with a shape; those on lights have nothing to record."""
    return {k: x for k, x in docs.recorders(spec).items() if "light" not in spec["nodes"][x[0]["node"]]}


def meta_problem(meta, spec):
    recs = tallied(spec)
    if set(meta) != set(recs):
        return "it announces the recorders %s, the document has %s" % (sorted(meta), sorted(recs))
    for k, (x, _) in recs.items():
        y = meta[k]
        if y["node"] != x["node"] or y["event"] != x["event"]:
            return "it announces recorder %s of %s for %s" % (k, y["node"], y["event"])
        want = docs.histogram_model(x)
        if len(want) != len(y["histograms"]):
            return "it announces %d histograms of %s" % (len(y["histograms"]), k)
        for a, b in zip(want, y["histograms"]):
            if a[0] != b["kind"]:
                return "recorder %s: kinds differ" % k
            for edges, (lo, hi, n) in ((b["edges"], a[2]),) if a[0] == "hist" else ((b["edges_a"], a[3]), (b["edges_b"], a[4])):
                if len(edges) != n + 1 or any(abs(e - (lo + (hi - lo) * i / n)) > 1e-9 * max(abs(lo), abs(hi)) for i, e in enumerate(edges)):
                    return "recorder %s: the edges of a histogram are %s" % (k, edges[:5])
            if a[0] == "hist" and b["prop"] != a[1] or a[0] == "heatmap" and (b["prop_a"], b["prop_b"]) != (a[1], a[2]):
                return "recorder %s: properties differ" % k
    return None


def compare(q, v):
    """None, or how the messages of a run differ from the undisturbed run of version v."""
    import numpy as np
    p = meta_problem(q.started["message"]["histograms"], v.spec)
    if p:
        return p
    try:
        ref = v.reference(q.args, len(q.messages))
    except ValueError as e:
        return "the engine refuses it: %s" % e
    if len(ref) < len(q.messages):
        return "it has %d bundles, expected %d" % (len(q.messages), len(ref))
    for (traced, recs, paths), e in zip(ref, q.messages):
        m = e["message"]
        if m["traced"] != traced:
            return "a bundle ends at ray %d instead of %d" % (m["traced"], traced)
        if set(m["recorders"]) != set(recs):
            return "a bundle reports the recorders %s, expected %s" % (sorted(m["recorders"]), sorted(recs))
        for k, x in recs.items():
            y = m["recorders"][k]
            for f in ("rays", "crossings"):
                if y[f] != x[f]:
                    return "after %d rays recorder %s has %s %s, expected %s" % (traced, k, y[f], f, x[f])
            for f in ("mean_wavelength", "mean_angle"):
                if abs(y[f] - x[f]) > 1e-9 * max(1.0, abs(x[f])):
                    return "after %d rays recorder %s has %s %s, expected %s" % (traced, k, f, y[f], x[f])
            got = [(h["values"], h.get("shape", [len(h["values"])])) for h in y["histograms"]]
            if got != x["hists"]:
                return "after %d rays a histogram of recorder %s differs" % (traced, k)
        if len(m["paths"]) != len(paths):
            return "the bundle up to ray %d has %d paths, expected %d" % (traced, len(m["paths"]), len(paths))
        for a, (pts, wl) in zip(m["paths"], paths):
            if np.shape(a["points"]) != pts.shape or np.abs(np.array(a["points"]) - pts).max() > 1e-6 or np.shape(a["wavelengths"]) != wl.shape \
                    or np.abs(np.array(a["wavelengths"]) - wl).max() > 0.0051:
                return "a path of the bundle up to ray %d differs" % traced
    return None


def run(c):
    o = harness.Outcome()
    s = sc.session(c)
    sc.fill(o, s)
    o.nontrivial = False
    engine.config(engine.SERIAL)
    vs = versions(c, s)
    import contextlib
    import io
    with contextlib.redirect_stdout(io.StringIO()):
        judge_runs(c, s, vs, o)
    return o


def judge_runs(c, s, vs, o):
    for name, (reqs, problem) in sorted(sc.run_histories(s).items()):
        if problem:
            continue                    # C09's business
        for q in reqs:
            if q.started is None or sc.classify(q.args) != "good":
                continue
            o.stat("runs")
            end = q.end["seq"] if q.end else s.history[-1]["seq"]
            if any(q.seq < v.answered < end for v in vs):
                o.nontrivial = True
                o.stat("edits_during_run", sum(q.seq < v.answered < end for v in vs))
            cand = candidates(vs, q.seq, q.started["seq"])
            why = []
            ok = False
            random_ = q.args.get("seed") is None
            names = []
            for k, v in enumerate(cand):
                try:
                    v.load(vs.index(v))
                except Exception as e:
                    why.append("the version cannot be parsed: %r" % e)
                    continue
                names.append(set(tallied(v.spec)))
                random_ |= docs.random_light(v.spec)
            if not random_:
                for v in cand:
                    if v.scene is None:
                        continue
                    w = compare(q, v)
                    if w is None:
                        ok = True
                        break
                    why.append(w)
                o.stat("runs_compared_exactly")
            else:
                w = invariants(q, names)
                ok = w is None
                why.append(w)
                o.stat("runs_judged_by_invariants")
            if not ok:
                o.violate("report", "connection %s, run of %s rays: %s%s" % (name, q.total, why[-1] if why else "no version was current",
                                                                            " (and matches none of the %d versions that were current when it started)" % len(cand) if len(cand) > 1 else ""))
                return
            away = sc.gone(s, name)
            if q.end is not None and q.end["message"]["type"] == "done" and q.stopped is None and (away is None or q.end["seq"] < away):
                n = q.messages[-1]["message"]["traced"] if q.messages else 0
                if n != q.total:
                    o.violate("total", "connection %s: the run of %s rays is done after %s" % (name, q.total, n))
                    return
