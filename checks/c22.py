"""C22: the studio page shows one version and its own run, whatever the network does."""
import asyncio
import copy
import hashlib
import json
import math
import os
import re

import yaml

from checks import studiocommon as sc
from dst import docs, harness, page as simpage, web as simweb

PROPERTY = "C22"
LEVEL = "exploration"
RULE = ("one case = one user's session on the real page (app.js with three.js in a simulated browser) against the real studio server: edits through inspector, editor, gizmo and "
        "file drop, runs and stops, while requests and answers are delayed, overtake each other or get lost, the connection breaks or the disk fails; afterwards the page is "
        "compared with a freshly loaded one, the server's document with the edits made one after another, and all along the run display with the messages that arrived; "
        "non-trivial if a request was delayed past another action, lost or refused, or a run's messages arrived; distinct by what passed between page and server")
ASSUMPTIONS = sc.ASSUMPTIONS + ["the page is the only editor of its document", "what was typed into the editor and not applied may be replaced as a whole by the text of a later accepted edit (undo brings it back)",
                                "an edit whose answer was lost may stay unseen until the next accepted one", "layout, drawing to the screen and CodeMirror are stubs; user actions are the page's own events"]
COMPONENTS = dict(real=sc.COMPONENTS["real"] + ["pvtrace/studio/static/app.js, index.html, three.js, OrbitControls and TransformControls (node)"],
                  stubbed=sc.COMPONENTS["stubbed"] + ["browser (small DOM, fetch, WebSocket, timers, canvas, WebGL, CodeMirror)"])
BATCH = 6
LIMIT = 60.0


def prepare():
    sc.prepare()


def budget(tier):
    return 900 if tier == "quick" else 40000


# ---------------------------------------------------------------------------
# generation

NUMBERS = ["0.5", "1", "1.25", "2", "0.75", "3", "0.1", "1.5", "12.5", "450", "0", "-1", ""]


def action(r, c, files):
    q = r.random()
    if q < 0.10:
        return dict(do="segment", segment=r.choice(["nodes", "nodes", "components", "recorders", "recorders", "view"]))
    if q < 0.16:
        return dict(do="item", k=r.randrange(8))
    if q < 0.46:
        return dict(do="field", k=r.randrange(8), pick=r.randrange(8), text=r.choice(NUMBERS), unit=r.choice([0.0, 0.3, 0.5, 1.0]))
    if q < 0.52:
        return dict(do="add", k=r.randrange(6))
    if q < 0.55:
        return dict(do="action", k=r.randrange(4))
    if q < 0.57:
        return dict(do="chip", k=r.randrange(4))
    if q < 0.66:
        w = r.random()
        text = docs.render(r, docs.document(r, files)) if w < 0.7 else docs.broken(r, files)[0] if w < 0.85 else None
        return dict(do="type", text=text, more="# note %d\n" % r.randrange(1000))
    if q < 0.73:
        return dict(do="click", id="apply")
    if q < 0.76:
        return dict(do="click", id="save")
    if q < 0.84:
        return dict(do="click", id="run")
    if q < 0.86:
        return dict(do="click", id="stop")
    if q < 0.89:
        return dict(do="check", id=r.choice(["reactive", "reactive", "realtime"]), on=r.random() < 0.6)
    if q < 0.91:
        return dict(do="drop", name=r.choice(["a.csv", "b.csv", "new.txt", "x.py", None]), content=docs.csv(r))
    if q < 0.93:
        return dict(do="pick", k=r.randrange(8))
    if q < 0.95:
        return dict(do="hover", k=r.randrange(4), fx=r.choice([0.0, 0.37, 0.5, 0.999]), fy=r.choice([0.0, 0.41, 0.9]), leave=r.random() < 0.3)
    if q < 0.95 + 0.005:
        return dict(do="input", id="rays", value=r.choice(["5", "60", "400"]))
    if q < 0.96:
        return dict(do="input", id="layer-event", value=r.choice(["all", "escaping", "entering", "lost"]))
    if q < 0.97:
        return dict(do="input", id="isolate", value=r.choice(["", "slab0", "ball0", "lamp0", "nothing"]))
    if q < 0.98:
        return dict(do="click", id="doc-toggle")
    if q < 0.99:
        return dict(do="cut")
    return dict(do="reload")


def gen(r, tier, i):
    files = {k: docs.csv(r) for k in ("a.csv", "b.csv") if r.random() < 0.3}
    doc = docs.document(r, list(files))
    boxes = [n for n, s in doc["nodes"].items() if "box" in s]
    if boxes and r.random() < 0.4:      # a face with a heatmap
        n = r.choice(boxes)
        w, d = (round(v / 2, 3) or 0.5 for v in doc["nodes"][n]["box"]["size"][:2])
        doc.setdefault("recorders", {})["face"] = {"node": n, "event": r.choice(["entering", "reflected", "escaping"]), "facet": [0, 0, r.choice([1, -1])],
                                                   "histograms": {"wavelength": [300, 900, 5], "position": ["x", "y", [-w, w, r.choice([2, 3, 5])], [-d, d, r.choice([2, 4])]]}}
    c = dict(files=files, text=docs.render(r, doc), world=sc.gen_world(r), faults=[], clients=[])
    c["world"]["drop"] = 0.0
    q = r.random()
    if q < 0.04:
        c["text"] = docs.broken(r, list(files))[0]
    elif q < 0.08:
        c["text"] = None
    wait = lambda: r.choice([0.0, 0.0, 0.0, 0.01, 0.1, 0.5, 2.0]) * r.random()
    s = []
    if r.random() < 0.7:
        s.append(dict(wait=0.0, a=dict(do="rest")))
    s.append(dict(wait=0.0, a=dict(do="input", id="rays", value=str(r.choice([1, 7, 40, 200, 200, 1000, 60000, "", "x"])))))
    s.append(dict(wait=0.0, a=dict(do="input", id="record-every", value=str(r.choice([1, 3, 50, 500])))))
    if s[-2]["a"]["value"] in ("60000", "", "x"):
        s[-1]["a"]["value"] = "500"
    if r.random() < 0.25:
        s.append(dict(wait=0.0, a=dict(do="check", id="reactive", on=True)))
    if r.random() < 0.15:
        s.append(dict(wait=0.0, a=dict(do="check", id="realtime", on=True)))
    n = r.choice([3, 6, 10, 16])
    while n > 0:
        n -= 1
        if r.random() < 0.08:       # a drag
            s.append(dict(wait=wait(), a=dict(do="segment", segment="nodes")))
            s.append(dict(wait=0.0, a=dict(do="item", k=r.randrange(8))))
            s.append(dict(wait=wait(), a=dict(do="grab")))
            for _ in range(r.choice([1, 2, 4])):
                s.append(dict(wait=r.choice([0.01, 0.1, 0.2, 0.4]), a=dict(do="pull", to=[round(r.uniform(-4, 4), 3) for _ in range(3)])))
            if r.random() < 0.25:       # and back
                s.append(dict(wait=r.choice([0.01, 0.2, 0.4]), a=dict(do="pull", to=None)))
            s.append(dict(wait=wait(), a=dict(do="release")))
        elif r.random() < 0.08:     # the recorders' own face overlays and plots
            s.append(dict(wait=wait(), a=dict(do="segment", segment="recorders")))
            s.append(dict(wait=0.0, a=dict(do="item", k=r.randrange(8))))
            s.append(dict(wait=0.0, a=dict(do="click", id="run")))
            if r.random() < 0.5:        # another one, of another size
                s.append(dict(wait=r.choice([0.1, 1.0, 4.0]), a=dict(do="input", id="rays", value=str(r.choice([3, 20, 100, 700])))))
                s.append(dict(wait=0.0, a=dict(do="click", id="run")))
            for _ in range(r.choice([0, 1, 4])):
                s.append(dict(wait=r.choice([0.5, 3.0]), a=dict(do="hover", k=r.randrange(4), fx=r.random() * 0.999, fy=r.random() * 0.999, leave=False)))
        elif r.random() < 0.06:     # components attached and detached in a hurry
            s.append(dict(wait=wait(), a=dict(do="segment", segment="nodes")))
            s.append(dict(wait=0.0, a=dict(do="item", k=r.randrange(8))))
            for _ in range(r.choice([2, 3, 4])):
                s.append(dict(wait=wait(), a=dict(do="field", label="attach", k=0, pick=r.randrange(8), text="", unit=0.0) if r.random() < 0.5 else dict(do="chip", k=r.randrange(4))))
        else:
            s.append(dict(wait=wait(), a=action(r, c, list(files))))
            if r.random() < 0.1:
                s.append(dict(wait=0.0, a=dict(do="rest")))
    f = dict(slow=r.choice([0.0, 0.0, 0.2, 0.5]), slow_time=r.choice([0.3, 2.0, 10.0]), request_lost=0.0, answer_lost=0.0, connection_refused=0.0)
    if r.random() < 0.3:
        f["request_lost"] = r.choice([0.05, 0.2, 0.5])
    if r.random() < 0.15:
        f["answer_lost"] = r.choice([0.05, 0.2])
    if r.random() < 0.2:
        f["connection_refused"] = 0.5
        s.insert(r.randrange(len(s) + 1), dict(wait=wait(), a=dict(do="cut")))
    if r.random() < 0.15:
        c["faults"] = [sc.gen_disk(r)]
    if c["faults"] or c["text"] is None:
        for _ in range(2):
            s.insert(r.randrange(len(s) + 1), dict(wait=wait(), a=dict(do="click", id="save")))
    c["clients"] = [dict(kind="page", name="page", wait=0.0, script=s, net=f)]
    return c


def shrinks(c):
    cl = c["clients"][0]
    s = cl["script"]
    put = lambda t, **k: dict(c, clients=[dict(cl, script=t, **k)])
    n = len(s)
    while n:
        for i in range(0, len(s), n):
            yield put(s[:i] + s[i + n:])
        n //= 2
    for k, v in cl["net"].items():
        if v and k != "slow_time":
            yield put(s, net=dict(cl["net"], **{k: 0.0}))
    for i in range(len(c["faults"])):
        yield dict(c, faults=c["faults"][:i] + c["faults"][i + 1:])
    for i, x in enumerate(s):
        if x["wait"]:
            yield put(s[:i] + [dict(x, wait=0.0)] + s[i + 1:])
    w = c["world"]
    for k, v in (("yield_rate", 0.0), ("block", 0.0), ("latency", 0.0), ("pool", 12)):
        if w[k] != v:
            yield dict(c, world=dict(w, **{k: v}))
    yield from sc.shrink_doc(c)


# ---------------------------------------------------------------------------
# what a user's action asks for

def js_float(t):
    m = re.match(r"\s*[-+]?(\d+\.?\d*|\.\d+)(e[-+]?\d+)?", t, re.I)
    return float(m.group(0)) if m else 0.0


def path_of(segment, item, label, spec=None):
    """(possible paths, is it a list)."""
    n = ["nodes", item]
    t = {"location": [n + ["location"]], "direction": [n + ["direction"]], "size": [n + ["box", "size"]], "radius": [n + ["sphere", "radius"], n + ["cylinder", "radius"]],
         "length": [n + ["cylinder", "length"]], "refr. index": [n + [g, "material", "refractive-index"] for g in docs.GEOMS], "record": [n + ["record"]], "parent": [n + ["parent"]],
         "attach": [n + [g, "material", "components"] for g in docs.GEOMS], "λ (nm)": [n + ["light", "wavelength"]], "cone (°)": [n + ["light", "mask", "direction", "cone", "half-angle"]]}
    if segment == "nodes":
        return t.get(label)
    if segment == "components":
        return {"coefficient": [["components", item, k, "coefficient"] for k in ("absorber", "scatterer", "reactor", "luminophore")],
                "abs. coeff": [["components", item, "luminophore", "absorption", "coefficient"]], "q. yield": [["components", item, "luminophore", "emission", "quantum-yield"]]}.get(label)
    return None


def asked(entry):
    """None, or a test for the body of the request this action must lead to."""
    a, i = entry["a"], entry["info"] or {}
    do = a["do"]
    if do == "field" and i.get("label"):
        seg, item, label = i["segment"], i["item"], i["label"]
        if seg == "recorders" and label in ("event", "facet"):
            want = i["value"] if label == "event" else [js_float(v) for v in i["values"]]
            return "update of %s of recorder %s to %s" % (label, item, want), lambda u, b: b.get("op") == "update-recorder" and b.get("recorder") == item and b.get("changes", {}).get(label) == want
        paths = path_of(seg, item, label)
        if not paths:
            return None
        if i["kind"] == "number":
            v = [js_float(x) for x in i["values"]]
            want = v if label in ("location", "direction", "size") else v[0]
        else:
            want = i["value"]
        if label == "attach":
            if not want:
                return None
            return "attachment of %s to %s" % (want, item), lambda u, b: b.get("op") == "set" and b.get("path") in paths and want in (b.get("value") or [])
        return "change of %s of %s to %s" % (label, item, want), lambda u, b: b.get("op") == "set" and b.get("path") in paths and b.get("value") == want
    if do == "add":
        if i.get("option") and i["segment"] == "nodes":
            return "new %s" % i["option"], lambda u, b: b.get("op") == "add-node" and b.get("kind") == i["option"]
        if i.get("option") and i["segment"] == "recorders":
            return "new recorder on %s" % i["option"], lambda u, b: b.get("op") == "add-recorder" and b.get("node") == i["option"]
        if i["segment"] == "components":
            return "new component", lambda u, b: b.get("op") == "add-component"
    if do == "action" and i.get("button") == "delete":
        op, key = {"nodes": ("delete-node", "node"), "components": ("delete-component", "component"), "recorders": ("delete-recorder", "recorder")}[i["segment"]]
        return "deletion of %s" % i["item"], lambda u, b: b.get("op") == op and b.get(key) == i["item"]
    if do == "chip" and i.get("detach"):
        paths = path_of("nodes", i["item"], "attach")
        return "detachment of %s from %s" % (i["chip"], i["item"]), lambda u, b: b.get("op") == "set" and b.get("path") in paths and i["chip"] not in b.get("value", [i["chip"]])
    if do == "click" and a["id"] in ("apply", "save"):
        typed = entry.get("typed")
        return "applying the text", lambda u, b: u == "/api/document" and "text" in b and typed in (None, b["text"])
    if do == "drop" and a["name"] is not None:
        return "upload of %s" % a["name"], lambda u, b: u == "/api/upload" and b.get("name") == a["name"] and b.get("content") == a["content"]
    return None


# ---------------------------------------------------------------------------
# the session

class PageSession(sc.Session):
    def client(self, c):
        if c["kind"] == "page":
            return self.page_client(c)
        return super().client(c)

    def trouble(self, cls, text):
        self.problems.append((cls, text))

    def open(self, name, net, storage=None, calm=False):
        p = simpage.Page(self.loop, self.web, name, net, storage, calm)
        p.watch = lambda kind, e, q: self.watch(p, kind, e, q)
        p.run = None
        p.was_open = False
        p.rendered = 0          # seq of the last accepted edit the page has seen
        p.relaid = 0            # of the last that may have laid out the scene anew
        p.realtime = False
        return p

    async def page_client(self, c):
        await asyncio.sleep(c["wait"])
        self.unfinished.add(c["name"])
        self.pages = []
        k = 0
        p = self.open("page0", c["net"])
        self.pages.append(p)
        held = False
        for x in c["script"] + [dict(wait=0.0, a=dict(do="release"))]:
            await asyncio.sleep(x["wait"])
            a = x["a"]
            if held and a["do"] not in ("pull", "release", "cut"):
                self.acted(p, p.act(do="release"))      # the pointer is elsewhere now
            if a["do"] == "release" and not held:
                continue
            if a["do"] != "cut":
                held = a["do"] in ("grab", "pull")
            if a["do"] == "rest":
                await self.rest(p)
            elif a["do"] == "cut":
                p.note("cut")
                p.cut()
            elif a["do"] == "reload":
                await self.rest(p)
                if p.waiting:
                    continue
                p.note("reload")
                p.close()
                k += 1
                p = self.open("page%d" % k, c["net"], p.storage)
                self.pages.append(p)
            else:
                if a["do"] == "type":
                    if a["text"] is None:
                        a = dict(a, text=(p.dump() or {}).get("text", "") + a["more"])
                elif a["do"] == "check" and a["id"] == "realtime" and a["on"]:
                    p.realtime = True
                before = p.dump()["text"] if a["do"] == "click" else None
                e = p.act(**a)
                typed = [x for x in p.log if x["kind"] == "act" and x["a"]["do"] == "type"]
                if before is not None and typed and typed[-1]["a"]["text"] == before and not any(
                        x["seq"] > typed[-1]["seq"] and x is not e and (x["kind"] == "act" and x["a"].get("id") in ("apply", "save") or x["kind"] == "fetch" and x["method"] == "PUT") for x in p.log):
                    e["typed"] = before     # not yet handed in
                self.acted(p, e)
        p.calm = True
        self.unfinished.discard(c["name"])

    async def rest(self, p):
        for _ in range(40):
            if not p.waiting:
                return
            await asyncio.sleep(0.25)

    # -- checks while it runs --------------------------------------------------
    def acted(self, p, e):
        a, i = e["a"], e["info"] or {}
        after = [x for x in p.log if x["seq"] > e["seq"]]
        if a["do"] == "click" and a["id"] in ("run", "stop") and p.connected:
            sent = [json.loads(x["data"]) for x in after if x["kind"] == "ws-send"]
            if not any(m.get("cmd") == a["id"] for m in sent):
                self.trouble("button", "the %s button sends %s" % (a["id"], sent))
            if a["id"] == "run" and sent:
                self.check_run_request(p, sent)
        if a["do"] == "hover":
            self.check_hover(p, a, i)

    def check_run_request(self, p, sent):
        v = {}
        for x in p.log:
            if x["kind"] == "act" and x["a"]["do"] == "input":
                v[x["a"]["id"]] = x["a"]["value"]
        for m in sent:
            if m.get("cmd") == "run":
                for key, ident, default, first in (("rays", "rays", 100000, "500000"), ("record_every", "record-every", 500, "500")):
                    t = re.match(r"\s*[-+]?\d+", v.get(ident, first))
                    want = (int(t.group(0)) if t else 0) or default
                    if m.get(key) != want:
                        self.trouble("button", "a run is asked for with %s %r, the page says %r" % (key, m.get(key), v.get(ident, first)))

    def check_hover(self, p, a, i):
        if i.get("segment") != "recorders" or not p.run or i.get("item") not in p.run["recorders"] or i.get("hidden") or a.get("leave"):
            return
        hs, meta = p.run["recorders"][i["item"]]["histograms"], p.run["meta"][i["item"]]["histograms"]
        k = a["k"] % len(hs) if hs else 0
        if not hs or meta[k].get("prop") == "angle":
            return
        v = hs[k]["values"]
        fx = a["fx"] * 299.9 / 300
        if meta[k]["kind"] == "heatmap":
            na, nb = hs[k]["shape"]
            fy = 1 - a["fy"] * 99.9 / 100
            want = v[min(na - 1, int(fx * na)) * nb + min(nb - 1, int(fy * nb))]
        else:
            want = v[min(len(v) - 1, int(fx * len(v)))]
        m = re.search(r"(\d+)(?: ± \d+)? rays", i["info"])
        self.stats["hovers"] = self.stats.get("hovers", 0) + 1
        if not m or int(m.group(1)) != want or i["item"] not in i["info"]:
            self.trouble("plot", "the readout of histogram %d of %s says %r, the bin has %d" % (k, i["item"], i["info"], want))

    def watch(self, p, kind, e, q):
        b = p.brief
        if b is None or self.problems:
            return
        if kind == "ws" and e is not None:
            if e["what"] == "open":
                p.was_open = True
            if e["what"] == "message":
                self.run_message(p, json.loads(e["data"]), b)
        if p.was_open and not p.connected and "err" not in b["status"]["cls"]:
            self.trouble("status", "the connection is lost and the page says %r" % b["status"]["text"])
        if kind == "ws" and e is not None and e["what"] == "open" and "err" in b["status"]["cls"]:
            self.trouble("status", "the connection is made and the page says %r" % b["status"]["text"])
        if kind == "answer" and q["method"] != "GET":
            try:
                body = json.loads(q["body"]) if q["body"] else {}
            except ValueError:
                body = {}
            move = body.get("op") == "move" and p.realtime
            js = e.get("json") if e["kind"] == "answer" else None
            if q["url"] in ("/api/document", "/api/patch"):
                p.relaid = e["seq"]     # accepted or (what was displaced put back) refused
            bad = e["kind"] == "failed" or not isinstance(js, dict) or "error" in js or e["status"] != 200
            if bad:
                p.failed = True
                if not move and ("err" not in b["doc"]["cls"] or not b["doc"]["text"].strip()):
                    self.trouble("silent", "%s %s %s and the page says %r" % (q["method"], q["url"], "gets no answer" if e["kind"] == "failed" else "is answered with %s" % e["status"], b["doc"]["text"]))
                elif not move and isinstance(js, dict) and isinstance(js.get("error"), str) and js["error"].strip() not in b["doc"]["text"]:
                    self.trouble("silent", "the answer %r is shown as %r" % (js["error"][:200], b["doc"]["text"][:200]))
            elif not move:
                if "err" in b["doc"]["cls"]:
                    self.trouble("silent", "%s %s is accepted and the page says %r" % (q["method"], q["url"], b["doc"]["text"]))
                if q["url"] in ("/api/document", "/api/patch"):
                    p.rendered = e["seq"]
                if q["url"] == "/api/patch" and b["reactive"] and p.connected and not any(x["kind"] == "ws-send" and '"run"' in x["data"] and x["seq"] > e["seq"] for x in p.log):
                    self.trouble("reactive", "an edit is accepted in reactive mode and no run is asked for")

    def run_message(self, p, m, b):
        t = m.get("type")
        if t == "started":
            p.run = dict(total=m["total"], meta=m["histograms"], recorders={}, paths=[], traced=0, at=None, done=False)
        elif p.run is None:
            return
        elif t == "bundle":
            p.run["recorders"] = m["recorders"]
            p.run["traced"] = m["traced"]
            p.run["paths"] += [x for x in m["paths"] if len(x["points"]) > 1]
            p.run["at"] = p.log[-1]["seq"]
        elif t == "done":
            p.run["done"] = True
        elif t == "error":
            if m.get("message", "").strip() not in b["doc"]["text"] or "err" not in b["doc"]["cls"]:
                self.trouble("silent", "the run's error %r is shown as %r" % (m.get("message"), b["doc"]["text"]))
            return
        self.stats["run_messages"] = self.stats.get("run_messages", 0) + 1
        try:
            pc = float(b["progress"].rstrip("%"))
        except ValueError:
            pc = None
        want = 100.0 if t == "done" else 100.0 * p.run["traced"] / p.run["total"] if p.run["total"] else 0.0
        if pc is None or abs(pc - want) > 0.06:
            self.trouble("progress", "after %s (%s of %s) the progress is %r" % (t, p.run["traced"], p.run["total"], b["progress"]))
        if b["segment"] == "recorders" and b["item"]:
            data = p.run["recorders"].get(b["item"])
            why = self.statistics(b["item"], data, b["hints"]) if data else None
            if not why and b["plots"] != (len(data["histograms"]) if data else 0):
                why = "%s has %d plots, the run %d histograms" % (b["item"], b["plots"], len(data["histograms"]) if data else 0)
            self.stats["live_plots"] = self.stats.get("live_plots", 0) + (data is not None)
            if why:
                self.trouble("plot", "after %s: %s" % (t, why))
        n = min(400, len(p.run["paths"]))
        if b["lines"] != n:
            self.trouble("paths", "after %s the view holds %d paths, the run has sent %d" % (t, b["lines"], n))

    # -- when everything has been answered ---------------------------------------
    def now(self, coro):
        out = []

        async def go():
            out.append(await coro)
        self.loop.create_task(go())
        self.quiet = self.loop.settle() and self.quiet
        return out[0] if out else None

    def walk(self, p):
        """Everything the page says about its document."""
        p.act(do="input", id="isolate", value="")
        p.act(do="input", id="layer-event", value="all")
        out = {}
        for seg in ("recorders", "components", "nodes"):
            p.act(do="segment", segment=seg)
            d = p.dump(True)
            out[seg] = d["items"]
            for k in range(min(7, len(d["items"]))):
                x = p.act(do="item", k=k)
                d = p.dump(True)
                name = d["items"][k]
                out[seg + "/" + name] = dict(item=d["item"], fields=d["fields"], chips=d["chips"], buttons=d["buttons"], hints=d["hints"] if seg != "recorders" else None, canvases=d["canvases"] if seg == "recorders" else None,
                                             statistics=d["hints"] if seg == "recorders" else None)
        p.act(do="segment", segment="nodes")
        if out["nodes"]:
            p.act(do="item", k=len(out["nodes"]) - 1)
        d = p.dump(True)
        for k in ("text", "nodes", "objects", "lines", "storage", "gizmo"):
            out["@" + k] = d[k]
        # and its layers
        if d["nodes"]:
            p.act(do="input", id="isolate", value=d["nodes"][-1])
        p.act(do="input", id="layer-event", value="escaping")
        out["@layers"] = p.dump(True)["objects"]
        p.act(do="input", id="isolate", value="")
        p.act(do="input", id="layer-event", value="all")
        return out

    def at_rest(self):
        import pvtrace.studio.server as server
        if self.record_disk:
            self.heal_disk()
        if not self.quiet or not getattr(self, "pages", None) or self.unfinished:
            return
        for p in self.pages:
            for where, x in p.errors:
                self.trouble("exception", "an exception leaves the page's code (%s): %s" % (where, x))
        p = self.pages[-1]
        if self.problems or p.waiting:
            return
        if not p.connected:
            self.trouble("reconnect", "the page has not come back to the server")
            return
        d = p.dump()
        if "err" in d["status"]["cls"] and d["status"]["text"] == "disconnected":
            self.trouble("status", "connected, and the page says %r" % d["status"]["text"])
        final = self.now(self.web.request(("final", 0), "GET", "/api/document"))["json"]["text"]
        self.check_order(server, final)
        if self.problems:
            return
        mine = self.walk(p)
        fresh = self.open("fresh", {}, dict(mine["@storage"]), calm=True)
        self.quiet = self.loop.settle() and self.quiet
        other = self.walk(fresh)
        scene = None
        for x in fresh.log:
            if x["kind"] == "answer" and isinstance(x["json"], dict) and "scene" in x["json"]:
                scene = x["json"]["scene"]
        fresh.close()
        for q in (p, fresh):
            for where, x in q.errors:
                self.trouble("exception", "an exception leaves the page's code (%s): %s" % (where, x))
        if self.problems:
            return
        excused = self.excuse()
        self.stats["excused" if excused else "compared"] = 1
        if not excused:
            self.compare(mine, other, final)
        if not self.problems and scene is not None:
            self.check_scene(other, scene, final)
        if not self.problems:
            self.check_display(p, mine)

    def excuse(self):
        """Was an edit's answer lost (or an edit refused by the disk) after the last one the page has seen?"""
        p = self.pages[-1]
        bodies = {x["id"]: x for x in p.log if x["kind"] == "fetch"}
        arrived = {x["id"]: x for x in p.log if x["kind"] == "arrive"}
        for x in p.log:
            if x["kind"] == "answer" and x["seq"] > p.rendered and x["status"] >= 400 and any(k.startswith("disk_") for k in self.faults):
                return True         # refused for the disk's sake: now a freshly loaded page would get it accepted
            if x["kind"] != "failed" or x["seq"] < p.rendered:
                continue
            q = bodies[x["id"]]
            if q["url"] not in ("/api/document", "/api/patch"):
                continue
            if q["method"] == "GET":
                return True
            if x["reached"] and arrived[x["id"]]["status"] == 200:
                return True
            if p.realtime and "move" in (q["body"] or ""):
                return True
        loads = [x for x in p.log if x["kind"] in ("answer", "failed") and bodies[x["id"]]["url"] == "/api/document"]
        return bool(loads) and p.rendered == 0 and any(x["kind"] == "failed" for x in loads)     # never got its document

    def compare(self, mine, other, final):
        p = self.pages[-1]
        if mine["@text"] != final:
            typed = [x for x in p.log if x["kind"] == "act" and x["a"]["do"] == "type"]
            # typed and not yet applied: nothing that was accepted since the typing has that text or brought another one
            ok = bool(typed) and typed[-1]["a"]["text"] == mine["@text"]
            if ok:
                bodies = {x["id"]: x for x in p.log if x["kind"] == "fetch"}
                for x in p.log:
                    if x["kind"] == "answer" and x["seq"] > typed[-1]["seq"] and x["status"] == 200 and bodies[x["id"]]["url"] == "/api/patch" and not p.realtime:
                        ok = False
            if not ok:
                self.trouble("stale", "the editor shows %s, the server's document is %s" % (short(mine["@text"]), short(final)))
                return
        for k in sorted(set(mine) | set(other)):
            if k in ("@text", "@lines", "@storage"):
                continue
            a, b = mine.get(k), other.get(k)
            if k in ("@objects", "@layers"):
                a, b = objects(a), objects(b)
                if [x[:6] for x in a] == [x[:6] for x in b] and all(near(x, y) for x, y in zip(a, b)):
                    continue
            if isinstance(a, dict) and isinstance(b, dict):
                a, b = ({q: w for q, w in x.items() if q not in ("canvases", "statistics")} for x in (a, b))
            if a != b:
                if k in ("@objects", "@layers"):
                    only = lambda x, y: [z for z in x if z not in y][:2]
                    a, b = only(a, b), only(b, a)
                self.trouble("stale", "%s shows %s, a freshly loaded page shows %s" % (k, short(a), short(b)))
                return

    def check_order(self, server, final):
        """The server's document against the page's edits made one after another."""
        edits, gone, lost = [], set(), []
        for p in self.pages:
            for x in p.log:
                if x["kind"] == "failed" and not x["reached"]:
                    gone.add((p.name, x["id"]))
        for p in self.pages:
            arrived = {x["id"]: x for x in p.log if x["kind"] == "arrive"}
            for x in p.log:
                if x["kind"] == "fetch" and x["method"] != "GET" and x["url"] != "/api/save" and (p.name, x["id"]) not in gone:
                    edits.append((x, arrived.get(x["id"])))
                    if not any(y["kind"] == "answer" and y["id"] == x["id"] for y in p.log):
                        lost.append(x)
            # every action has its request, in order
            fetches = [x for x in p.log if x["kind"] == "fetch" and x["method"] != "GET"]
            used = set()
            for e in p.log:
                if e["kind"] != "act":
                    continue
                want = asked(e)
                if want is None:
                    if e["a"]["do"] == "release" and (e["info"] or {}).get("node") and self.dragged(p, e):
                        node, to = e["info"]["node"], e["info"]["to"]
                        want = "move of %s" % node, lambda u, b: b.get("op") == "move" and b.get("node") == node and all(abs(s - t) < 1e-9 for s, t in zip(b["world_position"], to))
                    else:
                        continue
                for x in fetches:
                    try:
                        body = json.loads(x["body"]) if x["body"] else {}
                    except ValueError:
                        body = {}
                    if x["seq"] > e["seq"] and x["id"] not in used and want[1](x["url"], body):
                        if x["url"] not in ("/api/document", "/api/upload"):
                            used.add(x["id"])
                        i = e["info"] or {}
                        if i.get("label") == "attach" or i.get("detach"):
                            x["list"] = (body["path"], i.get("chip"), i.get("value"))
                        break
                else:
                    self.trouble("dropped", "the user's %s leads to no request" % want[0])
                    return
        if any(y is None for x, y in edits):
            return
        if any(k.startswith("disk_") for k in self.faults):     # refused for the disk's sake, perhaps
            edits = [(x, y) for x, y in edits if y["status"] < 400]
        folder = os.path.join(os.path.dirname(self.folder), "again")
        os.makedirs(folder, exist_ok=True)
        for name, text in self.case["files"].items():
            with open(os.path.join(folder, name), "w") as fp:
                fp.write(text)
        doc = os.path.join(folder, "scene.yml")
        if self.case.get("text") is not None:
            with open(doc, "w") as fp:
                fp.write(self.case["text"])
        app = server.create_app(doc if self.case.get("text") is not None else None)
        web = simweb.Web(app, self.loop, simweb.Net(self.loop, self.rng, (0.0, 0.0)))

        async def again():
            unseen = False      # an edit made of which the page was not told
            for k, (x, y) in enumerate(edits):
                if "list" in x and not unseen:
                    path, chip, value = x["list"]
                    at = yaml.safe_load((await web.request(("again", -2 - k), "GET", "/api/document"))["json"]["text"])
                    for q in path:
                        at = at.get(q) if isinstance(at, dict) else None
                    sent = json.loads(x["body"])["value"]
                    if at is not None and value not in at and chip in [None] + at and sent != [q for q in at if q != chip] + [value] * bool(value):
                        return "%s of %s sets the components to %s, they were %s" % ("detachment" if chip else "attachment", chip or value, sent, at)
                r = await web.request(("again", k), x["method"], x["url"], None if x["body"] is None else x["body"].encode())
                if x["url"] in ("/api/document", "/api/patch") and r["status"] == 200:
                    unseen = any(x is z for z in lost) or unseen and (x["url"] == "/api/document" or '"move"' in (x["body"] or ""))     # answers which may not replace what is shown
                if r["status"] != y["status"]:
                    return "%s %s %s was answered with %s; made in turn it gets %s" % (x["method"], x["url"], short(x["body"]), y["status"], r["status"])
            r = await web.request(("again", -1), "GET", "/api/document")
            if r["json"]["text"] != final:
                return "the server's document is %s; the user's edits in turn give %s" % (short(final), short(r["json"]["text"]))
        why = self.now(again())
        self.stats["edits"] = self.stats.get("edits", 0) + len(edits)
        if why:
            self.trouble("order", why)

    def dragged(self, p, e):
        """Was the object released elsewhere than where it was grabbed, by an undisturbed drag?"""
        start = None
        for x in p.log:
            if x["seq"] >= e["seq"]:
                break
            if x["kind"] == "act" and x["a"]["do"] == "grab" and (x["info"] or {}).get("node"):
                start, pulls = x, []
            elif start and x["kind"] == "act" and x["a"]["do"] == "pull" and (x["info"] or {}).get("to"):
                pulls.append(x)
            elif start and x["kind"] in ("answer", "act", "failed"):
                start = None
        if not start or not pulls or start["info"]["node"] != e["info"]["node"]:
            return False
        return pulls[-1]["a"]["to"] is not None     # else it was pulled back

    def check_scene(self, shown, scene, text):
        """A freshly loaded page against the server's own description of the scene."""
        spec = yaml.safe_load(text)
        have = [o for o in shown["@objects"] if o["kind"] in ("node", "light")]
        want = [("node", x) for x in scene["nodes"]] + [("light", x) for x in scene["lights"]]
        names = sorted((o["kind"], o["name"]) for o in have)
        if names != sorted((k, x["name"]) for k, x in want):
            self.trouble("scene", "the view holds %s, the scene has %s" % (names, sorted((k, x["name"]) for k, x in want)))
            return
        for kind, x in want:
            o = next(o for o in have if o["kind"] == kind and o["name"] == x["name"])
            m = x["matrix"]
            if any(abs(a - b) > 1e-5 for a, b in zip(o["pos"], m[12:15])):
                self.trouble("scene", "%s is shown at %s, it is at %s" % (x["name"], o["pos"], m[12:15]))
            qx, qy, qz, qw = o["quat"]
            z = (2 * (qx * qz + qw * qy), 2 * (qy * qz - qw * qx), 1 - 2 * (qx * qx + qy * qy))
            if any(abs(a - b) > 1e-4 for a, b in zip(z, m[8:11])):
                self.trouble("scene", "%s points along %s, it should be %s" % (x["name"], z, m[8:11]))
            if kind == "node":
                w, h, d, rad, top = o["par"]
                got = dict(box=[w, h, d], sphere=[rad], cylinder=[h, top]).get(x["type"])
                if got is not None and (None in got or any(abs(a - b) > 1e-9 for a, b in zip(got, x["params"]))):
                    self.trouble("scene", "%s %s is shown with %s, it has %s" % (x["type"], x["name"], got, x["params"]))
        if sorted(shown["@nodes"]) != sorted(x["name"] for x in scene["nodes"] if not x.get("root")):
            self.trouble("scene", "the list of nodes is %s" % shown["@nodes"])
        if shown["nodes"] != list(spec["nodes"]) or shown["components"] != list(spec.get("components") or {}):
            self.trouble("scene", "the inspector lists %s and %s" % (shown["nodes"], shown["components"]))
        for k, v in shown.items():
            if "/" not in k or not isinstance(v, dict):
                continue
            seg, item = k.split("/", 1)
            for f in v["fields"]:
                for path in path_of(seg, item, f["label"]) or []:
                    at = spec
                    for s in path:
                        at = at.get(s) if isinstance(at, dict) else None
                    if at is None or f["label"] == "attach":
                        continue
                    got = f["values"] if isinstance(at, list) else f["values"][0]
                    if isinstance(at, (list, int, float)) and not isinstance(at, bool):
                        l, g = (at, got) if isinstance(at, list) else ([at], [got])
                        if len(l) != len(g) or any(abs(float(a) - js_float(b)) > 1e-6 for a, b in zip(l, g)):
                            self.trouble("scene", "%s of %s is shown as %s, it is %s" % (f["label"], item, got, at))
                    elif got != at:
                        self.trouble("scene", "%s of %s is shown as %r, it is %r" % (f["label"], item, got, at))

    def statistics(self, name, data, hints):
        text = " | ".join(hints)
        n = [re.search(r"(\d[\d,.\u00a0\u202f]*) " + q, text) for q in ("rays", "crossings")]
        if any(not q or re.sub(r"\D", "", q.group(1)) != str(data[k]) for q, k in zip(n, ("rays", "crossings"))):
            return "%s shows %r, the run has %d rays and %d crossings" % (name, text, data["rays"], data["crossings"])
        m = re.search(r"(-?[\d.]+) nm", text), re.search(r"(-?[\d.]+)°", text)
        for q, v in zip(m, (data["mean_wavelength"], math.degrees(data["mean_angle"]))):
            if not q or abs(float(q.group(1)) - v) > 0.051:
                return "%s shows %r, the run has means of %.2f nm and %.2f°" % (name, text, data["mean_wavelength"], math.degrees(data["mean_angle"]))
        return None

    def check_display(self, p, mine):
        run = p.run
        if run is None:
            if mine["@lines"]:
                self.trouble("paths", "paths of no run are shown")
            return
        for line, path in zip(mine["@lines"], run["paths"]):
            flat = [c for q in path["points"] for c in q]
            if len(flat) != len(line["p"]) or any(abs(a - b) > 1e-4 * max(1.0, abs(b)) for a, b in zip(line["p"], flat)):
                self.trouble("paths", "a path is shown as %s, the run sent %s" % (short(line["p"]), short(flat)))
                return
            if len(line["c"]) != len(line["p"]):
                self.trouble("paths", "a path has colours for %d of %d points" % (len(line["c"]) / 3, len(line["p"]) / 3))
                return
        top = max([1] + [v for x in run["recorders"].values() for h in x["histograms"] if h.get("shape") for v in h["values"]])
        for k, v in mine.items():
            if not k.startswith("recorders/"):
                continue
            name = k.split("/", 1)[1]
            data = run["recorders"].get(name)
            if data is None:
                if v["canvases"]:
                    self.trouble("plot", "plots of %s are shown, the run has none" % name)
                    return
                continue
            why = self.statistics(name, data, v["statistics"])
            if why:
                self.trouble("plot", why)
                return
            if len(v["canvases"]) != len(data["histograms"]):
                self.trouble("plot", "%s has %d plots, the run %d histograms" % (name, len(v["canvases"]), len(data["histograms"])))
                return
            for canvas, h, meta in zip(v["canvases"], data["histograms"], run["meta"][name]["histograms"]):
                why = None
                if meta["kind"] == "heatmap":
                    why = heat(canvas["image"], h, top)
                elif meta["prop"] != "angle":
                    why = bars(canvas["ops"], h["values"], canvas["h"])
                self.stats["plots"] = self.stats.get("plots", 0) + 1
                if why:
                    self.trouble("plot", "the plot of %s: %s" % (name, why))
                    return
        # the faces, unless they were laid out anew since the last bundle
        if run["at"] is not None and run["at"] > p.relaid:
            for ob in mine["@objects"]:
                if ob["kind"] == "recorder" and ob["mapped"] and ob["name"] in run["recorders"]:
                    hs = [h for h in run["recorders"][ob["name"]]["histograms"] if h.get("shape")]
                    why = heat(ob["data"], hs[0], top) if hs else None
                    self.stats["faces"] = self.stats.get("faces", 0) + 1
                    if why:
                        self.trouble("plot", "the face of %s: %s" % (ob["name"], why))
                        return


def short(x, n=300):
    t = x if isinstance(x, str) else json.dumps(x)
    return repr(t) if len(t) <= n else "%r (%d characters, %s)" % (t[:n], len(t), hashlib.sha256(t.encode()).hexdigest()[:8])


def objects(l):
    out = [[o["type"], o["geom"], str(o["kind"]), str(o["name"]), o["visible"], o["mapped"], o["opacity"] or 0.0, o["emissive"] or 0] + [0.0 if x is None else x for x in o["par"]] + (o["e"] or []) + o["pos"] + o["quat"] for o in l]
    return sorted(out, key=lambda x: (x[:4], [round(v, 3) if isinstance(v, float) else v for v in x[6:]]))


def near(a, b):
    return len(a) == len(b) and a[:6] == b[:6] and all(abs(x - y) <= 3e-6 for x, y in zip(a[6:], b[6:]))


def bars(ops, values, height):
    if len(ops) != len(values):
        return "%d bars for %d bins" % (len(ops), len(values))
    hs = [o[5] for o in ops]
    if any(b[2] <= a[2] for a, b in zip(ops, ops[1:])):
        return "bars are not in order"
    top = max([1] + values)
    for h, v in zip(hs, values):
        if abs(h / (height - 4) - v / top) > 0.02:
            return "a bin of %d (highest %d) has a bar of %.1f of %d" % (v, top, h, height)
    return None


def heat(image, h, top):
    if image is None:
        return "nothing is drawn"
    na, nb = h["shape"]
    if (image["w"], image["h"]) != (na, nb):
        return "an image of %dx%d for %dx%d bins" % (image["w"], image["h"], na, nb)
    seen = []
    for ia in range(na):
        for ib in range(nb):
            k = ((nb - 1 - ib) * na + ia) * 4
            seen.append((h["values"][ia * nb + ib], sum(image["d"][k:k + 3]), image["d"][k + 3]))
    seen.sort()
    for a, b in zip(seen, seen[1:]):
        if b[1] < a[1] - 3 or (a[0] == b[0] and abs(a[1] - b[1]) > 3):
            return "%d rays are darker than %d" % (b[0], a[0])
    if seen and seen[0][0] == 0 and seen[0][1] > 160:
        return "an empty bin is bright"
    if seen and seen[-1][0] == top and top > 1 and seen[-1][1] < 505:
        return "the fullest bin of the run is dark"
    if any(s[2] != 255 for s in seen):
        return "bins are left out"
    return None


def run(c):
    o = harness.Outcome()
    s = PageSession(c, os.path.join(os.environ["DST_SCRATCH"], "doc"), bool(c["faults"]))
    s.disk_faults = []
    s.stats = {}
    s.run()
    sc.fill(o, s)
    lines = []
    where = os.environ["DST_SCRATCH"]
    for p in getattr(s, "pages", []):
        for e in p.log:
            lines.append("%.4f %s %s" % (e["t"], p.name, {k: (short(v.replace(where, "SCRATCH") if isinstance(v, str) else json.loads(json.dumps(v).replace(where, "SCRATCH")), 160) if isinstance(v, (str, dict, list)) else v) for k, v in e.items() if k not in ("t", "seq")}))
    o.trace = lines
    o.fp = hashlib.sha256(("\n".join(lines) + o.fp).encode()).hexdigest()[:16]
    for k, v in s.stats.items():
        o.stat(k, v)
    for p in getattr(s, "pages", []):
        for e in p.log:
            if e["kind"] == "act":
                o.stat("act_" + e["a"]["do"])
            elif e["kind"] in ("answer", "failed"):
                o.stat(e["kind"] + "s")
    o.nontrivial = bool(s.stats.get("run_messages") or s.faults or s.stats.get("edits", 0) > 1)
    o.sample = dict(script=[x["a"]["do"] for x in c["clients"][0]["script"]], fired=dict(s.faults), stats=s.stats)
    if s.problems:
        o.violate(s.problems[0][0], s.problems[0][1])
    elif not s.quiet:
        o.stat("not_quiet")
    return o
