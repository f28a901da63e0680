"""C11: document edits are applied as asked or not at all."""
import json
import os

import yaml

from checks import studiocommon as sc
from dst import docs, harness

PROPERTY = "C11"
LEVEL = "exploration"
RULE = ("one case = one simulated life of the studio server with several clients replacing, patching, reading, saving and uploading at the same time, on a disk that may "
        "fail; a linearisation of the answered requests is searched for, in which every answer is the one a sequential model of the document and its folder gives; "
        "non-trivial if requests overlapped, one was refused, cut off or met a disk fault; distinct by the order of requests and answers")
ASSUMPTIONS = sc.ASSUMPTIONS + ["for documents and edits the model cannot judge (unusual values) only atomicity is required, not the verdict"]
COMPONENTS = sc.COMPONENTS
BATCH = 8
LIMIT = 60.0
prepare = sc.prepare
shrinks = sc.shrinks


def budget(tier):
    return 2000 if tier == "quick" else 80000


def gen(r, tier, i):
    files = {k: docs.csv(r) for k in ("a.csv", "b.csv") if r.random() < 0.4}
    spec = docs.document(r, list(files))
    c = dict(files=files, text=docs.render(r, spec), world=sc.gen_world(r), faults=[], clients=[])
    q = r.random()
    if q < 0.06:
        c["text"] = docs.broken(r, list(files))[0]
    elif q < 0.1:
        c["text"] = None
    n = r.choice([1, 1, 2, 2, 3])
    for k in range(n):
        c["clients"].append(sc.gen_http(r, k, spec, files, r.randint(1, 9 if n < 3 else 5), kinds=("put", "patch", "patch", "patch", "patch", "get", "save", "upload"),
                                        wild=r.choice([0.1, 0.3]), cut=0.06))
    if r.random() < 0.2:
        c["clients"].append(sc.gen_ws(r, 0, runs=2, leave=0.2, junk=0.1))
        sc.unique_totals(c["clients"])
    if r.random() < 0.35:
        c["faults"] = [sc.gen_disk(r) for _ in range(r.choice([1, 1, 2]))]
    c["clients"].append(dict(kind="http", name="last", wait=3000.0, script=[dict(wait=0.0, do="get", chunks=1)] +
                             ([dict(wait=0.0, do="save", chunks=1)] if r.random() < 0.5 else [])))
    return c


class Op:
    def __init__(self, client, n, x, inv):
        self.client, self.n, self.x, self.inv = client, n, x, inv
        self.res = float("inf")
        self.status = self.json = None
        self.pending = True
        self.gone = False

    def __str__(self):
        return "%s/%d %s" % (self.client, self.n, self.x["do"])


def operations(c, s):
    scripts = {x["name"]: x["script"] for x in c["clients"]}
    out = {}
    for e in s.history:
        if e["kind"] == "invoke":
            name, n = e["op"]
            out[e["op"]] = Op(name, n, scripts[name][n], e["seq"])
        elif e["kind"] == "response":
            o = out[e["op"]]
            o.pending = False
            o.res = e["answered"] or e["seq"]
            o.status, o.json, o.gone = e["status"], e["json"], e["gone"]
    return list(out.values())


class State:
    """What the model knows: document text, whether it has been parsed, files beside the document, document on disk."""
    __slots__ = ("text", "parsed", "files", "disk", "key")

    def __init__(self, text, parsed, files, disk):
        self.text, self.parsed, self.files, self.disk = text, parsed, files, disk
        self.key = (text, parsed, tuple(sorted(files.items())), disk)

    def but(self, **k):
        d = dict(text=self.text, parsed=self.parsed, files=self.files, disk=self.disk)
        d.update(k)
        return State(**d)


class Model:
    def __init__(self, c, s):
        self.opened = c.get("text") is not None
        self.disk_fault = any(k.startswith("disk") for k in s.faults)
        self.cache = {}

    def judge_text(self, text, files):
        k = ("j", text, tuple(sorted(files.items())))
        if k not in self.cache:
            self.cache[k] = docs.judge_text(text, files)
        return self.cache[k]

    def spec(self, text):
        k = ("s", text)
        if k not in self.cache:
            try:
                self.cache[k] = yaml.safe_load(text)
            except yaml.YAMLError:
                self.cache[k] = None
        return self.cache[k]

    def seen(self, st):
        """Files a document can refer to."""
        return st.files if self.opened else {}

    def step(self, o, st):
        """(possible next states, None) or ([], why the answer is wrong)."""
        if o.gone and o.x["do"] == "save":      # has no content to wait for
            return ([st, st.but(disk=st.text)] if self.opened else [st]), None
        if o.gone:
            return [st], None           # never came in whole
        f = getattr(self, o.x["do"])
        if o.pending:
            # not answered: it may or may not have happened
            return [st], None
        return f(o, st)

    def accepted(self, o, st, text):
        if not isinstance(o.json, dict) or "scene" not in o.json:
            return "the answer is %s" % str(o.json)[:200]
        j = self.judge_text(text, self.seen(st))
        if j is False:
            return "an invalid document is accepted"
        if j is True:
            p = docs.payload_problem(o.json["scene"], self.spec(text))
            if p:
                return "the scene of the answer is not the document's: " + p
        return None

    def put(self, o, st):
        malformed = o.x.get("body") is not None
        if o.status == 200:
            if malformed:
                return [], "a malformed request is accepted"
            p = self.accepted(o, st, o.x["text"])
            return ([], p) if p else ([st.but(text=o.x["text"], parsed=True)], None)
        if not 400 <= o.status < 600:
            return [], "the status is %s" % o.status
        if not malformed and not self.disk_fault and self.judge_text(o.x["text"], self.seen(st)) is True:
            return [], "a valid document is refused: %s %s" % (o.status, o.json)
        return [st], None

    def patch(self, o, st):
        k = ("p", o.client, o.n, st.text, st.parsed)
        if k not in self.cache:
            spec = self.spec(st.text)
            try:
                self.cache[k] = ("model",) + docs.apply_patch(spec, spec if st.parsed else None, o.x["args"])
            except docs.Reject as e:
                self.cache[k] = ("reject", str(e), None)
            except docs.Unknown:
                self.cache[k] = ("unknown", None, None)
        kind, model, approx = self.cache[k]
        if o.status == 200:
            text = o.json.get("text") if isinstance(o.json, dict) else None
            if not isinstance(text, str):
                return [], "the answer has no text"
            if kind == "reject":
                return [], "an edit that does not fit the document is accepted (%s)" % model
            if kind == "model":
                p, got = docs.resolve(model, approx, text)
                if p:
                    return [], "the document after the edit is not the one asked for: " + p
            p = self.accepted(o, st, text)
            return ([], p) if p else ([st.but(text=text, parsed=True)], None)
        if not 400 <= o.status < 600:
            return [], "the status is %s" % o.status
        if kind == "model" and not self.disk_fault:
            m = docs.copy.deepcopy(model)
            for path, a in approx.items():
                m["nodes"][path[1]]["location"] = [round(v, 6) for v in a.v]
            if docs.judge(m, self.seen(st)) is True:
                return [], "a valid edit is refused: %s %s" % (o.status, o.json)
        return [st], None

    def get(self, o, st):
        if o.status != 200 or not isinstance(o.json, dict) or "text" not in o.json:
            return [], "reading the document gives %s %s" % (o.status, str(o.json)[:100])
        if o.json["text"] != st.text:
            return [], "the document read is not the current one"
        return [st], None

    def save(self, o, st):
        if o.status == 200:
            return ([st.but(disk=st.text)], None) if self.opened else ([], "saved although no file was opened")
        if not 400 <= o.status < 600:
            return [], "the status is %s" % o.status
        if self.opened and not self.disk_fault:
            return [], "saving fails without reason: %s %s" % (o.status, o.json)
        return ([st, st.but(disk=st.text)] if self.disk_fault and self.opened and st.disk != st.text else [st]), None

    def upload(self, o, st):
        malformed = o.x.get("body") is not None
        name = os.path.basename(o.x["name"])
        allowed = name.lower().endswith((".csv", ".txt"))
        plain = allowed and name == o.x["name"] and not name.startswith(".")
        new = st.but(files=dict(st.files, **{name: o.x["content"]}))
        if o.status == 200:
            if malformed or not allowed or not self.opened:
                return [], "a file of this kind must be refused"
            if not isinstance(o.json, dict) or o.json.get("saved") != name:
                return [], "the answer is %s" % str(o.json)[:100]
            return [new], None
        if not 400 <= o.status < 600:
            return [], "the status is %s" % o.status
        if not malformed and plain and self.opened and not self.disk_fault:
            return [], "a proper file is refused: %s %s" % (o.status, o.json)
        return ([st, new] if self.disk_fault and self.opened and allowed and not malformed else [st]), None


def linearise(ops, model, starts, final):
    """(None or the failure, number of visited states)."""
    by = {}
    for o in ops:
        by.setdefault(o.client, []).append(o)
    names = sorted(by)
    lists = [sorted(by[n], key=lambda o: o.n) for n in names]
    best = [-1, ["nothing"]]
    seen = set()
    stack = [((0,) * len(lists), st) for st in starts]
    visited = 0
    while stack:
        heads, st = stack.pop()
        if (heads, st.key) in seen:
            continue
        seen.add((heads, st.key))
        visited += 1
        todo = [l[h] for l, h in zip(lists, heads) if h < len(l)]
        depth = sum(heads)
        if not todo:
            why = final(st)
            if why is None:
                return None, visited
            if depth > best[0]:
                best = [depth, []]
            best[1].append(why)
            continue
        first = min(o.res for o in todo)
        for i, o in enumerate(todo):
            if o.inv > first:
                continue                # another request was answered before this one was made
            k = names.index(o.client)
            nexts, why = model.step(o, st)
            if why:
                if depth > best[0]:
                    best = [depth, []]
                if depth == best[0]:
                    best[1].append("%s: %s" % (o, why))
            h = heads[:k] + (heads[k] + 1,) + heads[k + 1:]
            for n in nexts:
                stack.append((h, n))
    return "; or ".join(sorted(set(best[1]))[:3]), visited


def listing(folder):
    out = {}
    for base, dirs, names in os.walk(folder):
        for n in names:
            p = os.path.join(base, n)
            with open(p, "rb") as fp:
                out[os.path.relpath(p, folder)] = fp.read()
    return out


def run(c):
    o = harness.Outcome()
    s = sc.session(c, record_disk=True)
    sc.fill(o, s)
    ops = operations(c, s)
    if any(x.pending for x in ops) or not s.quiet:
        o.stat("unanswered")
        o.nontrivial = False
        return o                        # C13's business
    m = Model(c, s)
    text = c["text"] or ""
    verdict = docs.judge_text(text, c["files"]) if c["text"] is not None else False
    starts = [State(text, p, dict(c["files"]), c["text"]) for p in ((True, False) if verdict is None else (verdict,))]
    if m.disk_fault and verdict is not False:
        starts.append(State(text, False, dict(c["files"]), c["text"]))      # may not have found its spectra
    got = listing(s.folder)
    unlinks = any(f["kind"] == "disk" and "UNLINK" in f["plan"]["kinds"] for f in c["faults"])

    def final(st):
        want = {k: v.encode() for k, v in st.files.items()}
        if st.disk is not None:
            want["scene.yml"] = st.disk.encode()
        for k in want:
            if k not in got:
                return "in the end the file %s is missing" % k
            if got[k] != want[k]:
                return "in the end the file %s has other content than the last one accepted" % k
        extra = sorted(set(got) - set(want))
        if extra and not (unlinks and m.disk_fault):
            return "in the end there are unexpected files %s" % extra
        return None
    why, visited = linearise(ops, m, starts, final)
    o.stat("requests", len(ops))
    o.stat("model_states", visited)
    for x in ops:
        o.stat("%s_%s" % (x.x["do"], "cut" if x.gone else "accepted" if x.status == 200 else "refused"))
    overlap = any(a.client != b.client and a.inv < b.res and b.inv < a.res for a in ops for b in ops)
    o.nontrivial = overlap or m.disk_fault or any(x.gone or x.status != 200 for x in ops)
    if why:
        o.violate("not-linearisable", "no order of the requests explains their answers: " + why)
        return o
    outside = {k for k in listing(os.path.dirname(s.folder)) if not k.startswith("doc" + os.sep)}
    if outside:
        o.violate("strays", "files are left outside the document's folder: %s" % sorted(outside)[:5])
    return o
