"""The studio server, simulated: the real FastAPI application, its websocket
handler, run tasks and engine on an event loop in virtual time, with browsers
that edit, save, upload, run, stop and leave."""
import asyncio
import contextlib
import io
import itertools
import json
import os
import random
import sys
import tempfile
import time
import types

from dst import choice, disk, docs, engine, harness, loop as simloop, web as simweb

ASSUMPTIONS = ["the server's protocol layer (uvicorn) and the network are simulated at the ASGI interface; sends to a client that has gone raise OSError or, in other runs (half-open connections), vanish",
               "pool jobs run one at a time and are suspended only at calls of pvtrace functions inside them",
               "the compiled engine itself runs serially here (C06 varies its threads)"]
COMPONENTS = dict(real=["pvtrace.studio.server (create_app, endpoints, websocket handler, run tasks, patching)", "pvtrace.cli.parse", "pvtrace.engine",
                        "fastapi/starlette", "asyncio tasks and futures", "ruamel.yaml", "libc file operations in a scratch folder"],
                  stubbed=["event loop clock and timers", "thread pool", "network and browsers", "OpenMP runtime (serial)", "temporary names", "clock"])


def prepare():
    engine.load()
    import fastapi  # noqa
    import pvtrace.studio.server  # noqa
    import ruamel.yaml  # noqa
    import pvtrace.cli.parse  # noqa
    import importlib
    import pkgutil
    import pvtrace
    for m in pkgutil.walk_packages(pvtrace.__path__, "pvtrace."):
        if m.name.split(".")[-1] in ("__main__", "build"):
            continue
        try:
            importlib.import_module(m.name)
        except Exception:
            pass  # optional parts may want packages that are not installed
    simloop.patch_threads()


# ---------------------------------------------------------------------------
# generation

def gen_times(r):
    """How long things take in this run."""
    return dict(pool=[0.0, r.choice([0.0, 0.01, 1.0])], slice=[0.004, r.choice([0.004, 0.05, 0.5, 3.0])], handover=[0.0, r.choice([0.0, 0.001, 0.2])])


def gen_world(r):
    return dict(times=gen_times(r), yield_rate=r.choice([0.0, 0.002, 0.02, 0.2]), pool=r.choice([1, 2, 12, 12]), latency=r.choice([0.0, 0.002, 0.05, 0.5]),
                block=r.choice([0.0, 0.0, 0.1, 0.5]), block_time=r.choice([0.01, 0.5, 5.0]), drop=r.choice([0.0, 0.0, 0.0, 0.05, 2.0]), seed=r.getrandbits(48))


def gen_run(r, k, big=False):
    """A well-formed run request; the number of rays identifies it."""
    bundle = r.choice([1, 2, 5, 10, 25, 64])
    nb = r.choice([1, 1, 2, 3, 4, 6])
    rays = bundle * nb - r.choice([0, 0, 1, bundle // 2])
    rays = max(1, rays)
    a = dict(cmd="run", rays=rays, bundle=bundle, record_every=r.choice([1, 1, 2, 5, 1000, 0]), max_paths=r.choice([0, 1, 3, 50, 200]))
    if r.random() < 0.8:
        a["seed"] = r.choice([0, 1, 7, 12345, 2 ** 31 - 1, 2 ** 40])
    elif r.random() < 0.5:
        a["seed"] = None
    if big:
        a["rays"], a["bundle"] = 1000000, r.choice([1, 3, 10])
    if r.random() < 0.1:
        del a["max_paths"]
    if r.random() < 0.1:
        del a["record_every"]
    return a


def unique_totals(scripts):
    """Makes the number of rays differ between all runs of a case."""
    seen = set()
    for s in scripts:
        for x in s["script"]:
            if x["do"] == "run" and isinstance(x["args"].get("rays"), int) and x["args"]["rays"] > 0:
                while x["args"]["rays"] in seen:
                    x["args"]["rays"] += 1
                seen.add(x["args"]["rays"])


JUNK = ["", "{", "[1, 2]", "null", "3", "\"run\"", "{}", "{\"cmd\": null}", "{\"cmd\": \"fly\"}", "{\"cmd\": [\"run\"]}", "{\"cmd\": {\"run\": 1}}", "\u0000", "[" * 2000, "{\"rays\": 5}", "binary"]


def gen_ws(r, k, runs=3, leave=0.2, junk=0.1):
    """One browser tab with a socket."""
    s = []
    wait = lambda: r.choice([0.0, 0.0, 0.01, 0.1, 0.5, 2.0]) * r.random()
    for i in range(r.randint(1, runs)):
        big = r.random() < 0.12         # a run nobody waits for
        if r.random() < 0.5:
            s.append(dict(wait=wait(), do="stop"))          # the Run button stops first
            s.append(dict(wait=0.0, do="run", args=gen_run(r, k, big)))
        else:
            s.append(dict(wait=wait(), do="run", args=gen_run(r, k, big)))
        q = r.random()
        if big:
            if r.random() < 0.5:
                s.append(dict(wait=0.0, do="messages", n=r.randint(1, 4)))
            s.append(dict(wait=0.2 * wait(), do="stop" if r.random() < 0.8 else "leave"))
            if s[-1]["do"] == "leave":
                return dict(kind="ws", name="ws%d" % k, wait=wait(), script=s)
        elif q < 0.3:
            s.append(dict(wait=wait(), do="ends"))
        elif q < 0.5:
            s.append(dict(wait=0.0, do="messages", n=r.randint(1, 4)))
        if r.random() < 0.3:
            s.append(dict(wait=wait(), do="stop"))
        if r.random() < junk:
            s.append(dict(wait=wait(), do="junk", text=r.choice(JUNK)))
    if r.random() < leave:
        cut = r.randint(0, len(s))
        while cut and s[cut - 1]["do"] not in ("run", "stop"):
            cut -= 1
        s = s[:cut] + [dict(wait=wait(), do="leave")]
    return dict(kind="ws", name="ws%d" % k, wait=wait(), script=s)


def gen_http(r, k, spec, files, n, kinds=("put", "patch", "patch", "get", "save", "upload"), wild=0.2, cut=0.05, bad=0.15):
    s = []
    cur = spec
    wait = lambda: r.choice([0.0, 0.0, 0.01, 0.1, 0.5, 2.0]) * r.random()
    again = []
    for i in range(n):
        op = r.choice(kinds)
        if again:
            op = "patch"
        x = dict(wait=wait(), do=op, chunks=r.choice([1, 1, 1, 2, 3, 6]))
        if op == "put":
            if r.random() < bad:
                x["text"], x["what"] = docs.broken(r, list(files))
                if r.random() < 0.5:
                    again = [r.choice(["move", "update-auto", "add"])]      # needs what the refused document must not have touched
                if r.random() < 0.1:
                    x["body"] = r.choice(["[]", "{}", "{\"text\": 5}", "{\"text\": null}", "nonsense", "", "{\"text\": \"a\", "])
            else:
                cur = docs.document(r, list(files) if r.random() < 0.7 else [])
                x["text"] = docs.render(r, cur)
        elif op == "patch":
            x["args"] = docs.patch(r, cur, list(files), wild, again.pop() if again else None)
            if x["args"].get("op") in ("add-node", "add-recorder", "add-face-recorders", "add-component") and r.random() < 0.4:
                again = ["delete" if r.random() < 0.3 else x["args"]]
            try:
                new, ap = docs.apply_patch(cur, cur, x["args"])
                for path, a in ap.items():
                    new["nodes"][path[1]]["location"] = [round(v, 6) for v in a.v]
                if docs.judge(new, files) is not False:
                    cur = new
            except (docs.Reject, docs.Unknown):
                pass
        elif op == "upload":
            x["name"] = r.choice(["a.csv", "a.csv", "b.csv", "new.txt", "UP.CSV"]) if r.random() > wild else r.choice(["x.py", "", ".csv", "../up.csv", "@/out/abs.csv", "sub/n.csv", "scene.yml"])
            x["content"] = docs.csv(r) if r.random() < 0.9 else r.choice(["", "junk", "a,b\n1,2\n", "é€\n"])
            if r.random() < 0.05:
                x["body"] = r.choice(["{\"name\": 5, \"content\": \"\"}", "{\"name\": \"q.csv\"}", "[1]", "{\"name\": \"q.csv\", \"content\": null}"])
            if r.random() < 0.7 and x["name"] in ("a.csv", "b.csv"):
                files = dict(files)
                files.setdefault(x["name"], x["content"])
        if r.random() < cut and op in ("put", "patch", "upload", "save"):
            x["cut"] = r.randint(0, x["chunks"] - 1)
        s.append(x)
    return dict(kind="http", name="http%d" % k, wait=wait(), script=s)


def gen_disk(r):
    """A disk fault for edits, saves and uploads."""
    kinds = r.choice([["WRITE"], ["WRITE"], ["FSYNC"], ["RENAME"], ["OPEN"], ["READ"], ["UNLINK"], ["WRITE", "FSYNC", "OPEN"], ["WRITE", "FSYNC", "OPEN", "RENAME"]])
    f = dict(kinds=kinds, nth=r.choice([1, 1, 2, 3, r.randint(1, 12), r.randint(1, 40)]), count=r.choice([1, 1, 2, 5]),
             err=r.choice(["ENOSPC", "EIO", "EDQUOT", "EACCES", "EROFS"]), sticky=r.random() < 0.2)
    if kinds == ["WRITE"] and r.random() < 0.5:
        f["short"] = r.choice([1, 50, 99])
        f["sticky"] = r.random() < 0.5
    if r.random() < 0.2:
        f["path"] = r.choice([".csv", ".yml", ".pvtrace-"])
    return dict(kind="disk", plan=f)


# ---------------------------------------------------------------------------
# simulation

class EngineFault(RuntimeError):
    pass


class Session:
    """One simulated life of the server."""

    def __init__(self, case, folder, record_disk=False):
        self.case = case
        self.folder = folder
        self.problems = []
        w = case["world"]
        self.rng = choice.rng("studio", w["seed"])
        self.loop = simloop.SimLoop(self.rng, w["times"], w["yield_rate"], pool=w["pool"])
        self.net = simweb.Net(self.loop, self.rng, (0.0, w["latency"]), w["block"], (0.0, w["block_time"]), w["drop"])
        self.doc = os.path.join(folder, "scene.yml")
        os.makedirs(folder, exist_ok=True)
        self.tmp = os.path.join(os.path.dirname(folder), "tmp")
        os.makedirs(self.tmp, exist_ok=True)
        for name, text in case["files"].items():
            with open(os.path.join(folder, name), "w") as fp:
                fp.write(text)
        if case.get("text") is not None:
            with open(self.doc, "w") as fp:
                fp.write(case["text"])
        os.makedirs(os.path.join(os.path.dirname(folder), "out"), exist_ok=True)
        self.sockets = {}
        self.engine_calls = 0
        self.faults = {}
        self.unfinished = set()
        self.record_disk = record_disk
        self.ends = {}
        self.marks = []             # (what, client, n, number of disk operations so far)

    def fault(self, k, n=1):
        self.faults[k] = self.faults.get(k, 0) + n

    # -- environment -----------------------------------------------------------
    @contextlib.contextmanager
    def environment(self):
        import numpy as np
        import pvtrace.studio.server as server
        import pvtrace.engine
        loop = self.loop
        import threading
        locks = (threading.Lock, threading.RLock)
        threading.Lock, threading.RLock = simloop.Lock, simloop.RLock
        saved = (time.perf_counter, time.time, time.monotonic, tempfile.tempdir, tempfile._name_sequence, sys.stdout, engine.M.kernel.trace_bundle)
        clock = lambda: loop.now
        time.perf_counter = time.time = time.monotonic = clock
        tempfile.tempdir = self.tmp
        tempfile._name_sequence = ("t%06d" % i for i in itertools.count())
        sys.stdout = io.StringIO()
        real = engine.M.kernel.trace_bundle
        plan = {f["nth"]: f for f in self.case.get("faults", []) if f["kind"] == "engine"}

        def trace_bundle(*a, **k):
            self.engine_calls += 1
            f = plan.get(self.engine_calls)
            if f is not None:
                self.fault("engine_" + f["error"])
                raise {"RuntimeError": EngineFault("simulated engine failure"), "MemoryError": MemoryError(), "ValueError": ValueError(""),
                       "KeyError": KeyError("k"), "OSError": OSError(5, "simulated")}[f["error"]]
            return real(*a, **k)
        engine.M.kernel.trace_bundle = trace_bundle
        np.random.seed(self.case["world"]["seed"] & 0x7fffffff)
        engine.config(engine.SERIAL)
        cwd = os.getcwd()
        os.chdir(self.tmp)
        try:
            yield
        finally:
            os.chdir(cwd)
            threading.Lock, threading.RLock = locks
            (time.perf_counter, time.time, time.monotonic, tempfile.tempdir, tempfile._name_sequence, sys.stdout, engine.M.kernel.trace_bundle) = saved

    # -- clients -----------------------------------------------------------------
    async def ws_client(self, c):
        loop = self.loop
        await asyncio.sleep(c["wait"])
        s = self.sockets[c["name"]] = self.web.connect(c["name"])
        await s.accepted.wait()
        self.unfinished.add(c["name"])
        n = 0
        asked = 0
        for x in c["script"]:
            await asyncio.sleep(x["wait"])
            do = x["do"]
            tag = dict(x, n=n, conn=c["name"])
            n += 1
            if s.ended or s.closed is not None:
                break
            if do == "run":
                s.send_json(x["args"], tag)
                asked += 1
            elif do == "stop":
                s.send_json({"cmd": "stop"}, tag)
            elif do == "junk":
                self.fault("malformed_message")
                if x["text"] == "binary":
                    s.send_bytes(b"\x00\xff\xfe", tag)
                else:
                    s.send_text(x["text"], tag)
            elif do == "messages":
                have = self.count_sent(c["name"])
                while self.count_sent(c["name"]) < have + x["n"] and self.count_ends(c["name"]) < asked and not s.ended:
                    await s.received.wait()
            elif do == "ends":
                while self.count_ends(c["name"]) < asked and not s.ended:
                    await s.received.wait()
            elif do == "stall":
                s.stall_until = loop.now + x["seconds"]
            elif do == "leave":
                s.leave(notice=x.get("notice"))
                break
        self.unfinished.discard(c["name"])

    def count_sent(self, name):
        return sum(1 for e in self.web.history if e["kind"] == "sent" and e["conn"] == name)

    def count_ends(self, name):
        return sum(1 for e in self.web.history if e["kind"] == "sent" and e["conn"] == name and isinstance(e["message"], dict) and e["message"].get("type") in ("done", "error"))

    PATHS = {"put": ("PUT", "/api/document"), "get": ("GET", "/api/document"), "patch": ("POST", "/api/patch"), "save": ("POST", "/api/save"), "upload": ("POST", "/api/upload"),
             "index": ("GET", "/")}

    async def http_client(self, c):
        await asyncio.sleep(c["wait"])
        self.unfinished.add(c["name"])
        for n, x in enumerate(c["script"]):
            await asyncio.sleep(x["wait"])
            method, path = self.PATHS[x["do"]]
            body = None
            if x["do"] == "put":
                body = {"text": x["text"]}
            elif x["do"] == "patch":
                body = x["args"]
            elif x["do"] == "upload":
                body = {"name": x["name"].replace("@", os.path.dirname(self.folder)), "content": x["content"]}
            if x.get("body") is not None:
                body = x["body"].encode()
            await asyncio.sleep(self.net.delay())
            if self.record_disk:
                self.marks.append(("invoke", c["name"], n, disk.count()))
            await self.web.request((c["name"], n), method, path, body, x.get("chunks", 1), x.get("cut"))
        self.unfinished.discard(c["name"])

    def heal_disk(self):
        for f, k in self.disk_faults:
            n = disk.fired(k)
            if n:
                self.fault("disk_%s_%s" % (f["kinds"][0].lower(), f.get("err", "EIO") if not f.get("short") else "short"), n)
        disk.clear_faults()
        self.disk_faults = []

    def client(self, c):
        return self.ws_client(c) if c["kind"] == "ws" else self.http_client(c)

    def at_rest(self):
        """Everything asked for has been done; nobody has left yet."""

    # -- the run --------------------------------------------------------------------
    def run(self):
        import pvtrace.studio.server as server
        loop = self.loop
        asyncio.set_event_loop(None)
        with self.environment():
            self.app = server.create_app(self.doc if self.case.get("text") is not None else None)
            self.web = simweb.Web(self.app, loop, self.net)
            self.web.on_response = self.on_response
            if self.record_disk:
                disk.arm(self.folder)
                for f in self.case.get("faults", []):
                    if f["kind"] == "disk":
                        f = dict(f["plan"])
                        self.disk_faults.append((f, disk.add_fault(f)))
            try:
                tasks = []
                for c in self.case["clients"]:
                    tasks.append(loop.create_task(self.client(c)))
                self.quiet = loop.settle()
                self.left_behind = sorted(self.unfinished)
                self.at_rest()
                self.mid = len(self.web.history)
                # everybody leaves
                for s in self.sockets.values():
                    s.leave()
                self.clean = loop.settle() if not loop.out_of_budget else False
                own = set(tasks)
                self.stray_tasks = [t for t in asyncio.all_tasks(loop) if t not in own and not t.done()]
            finally:
                if self.record_disk:
                    self.heal_disk()
                    disk.disarm()
                    self.ops = disk.records()
                loop.shutdown()
        self.history = self.web.history
        for k, v in self.net.faults.items():
            self.fault(k, v)
        if loop.suspended:
            self.fault("suspended_job", loop.suspended)
        return self

    disk_faults = None

    def on_response(self, op, out):
        if self.record_disk:
            self.marks.append(("answer", op[0], op[1], disk.count()))


def session(case, record_disk=False):
    folder = os.path.join(os.environ["DST_SCRATCH"], "doc")
    s = Session(case, folder, record_disk)
    s.disk_faults = []
    return s.run()


def fill(o, s):
    o.faults.update(s.faults)
    o.sim_time = s.loop.now - s.loop.t0
    lines = [describe(e) for e in s.history]
    o.trace = lines
    o.sample = dict(clients=[[x["kind"]] + [y.get("do") or y["a"]["do"] for y in x["script"]] for x in s.case["clients"]], fired=dict(s.faults), history=[l[:160] for l in lines[:15]])
    import hashlib
    h = hashlib.sha256("\n".join("%.6f %s" % (e["t"], l) for e, l in zip(s.history, lines)).encode()).hexdigest()[:16]
    o.fp = h
    o.distinct = hashlib.sha256("\n".join(order(e) for e in s.history).encode()).hexdigest()[:16]
    o.stat("messages", sum(e["kind"] == "sent" for e in s.history))
    o.stat("engine_jobs", len(s.loop.jobs_started))
    o.stat("suspensions", s.loop.suspended)


def order(e):
    k = e["kind"]
    if k == "sent":
        m = e["message"]
        return "%s< %s" % (e["conn"], (m.get("type"), m.get("traced"), m.get("total")) if isinstance(m, dict) else "?")
    if k == "delivered":
        m = e["message"]
        return "%s> %s" % (e["conn"], m.get("do") if isinstance(m, dict) else m)
    if k in ("invoke", "response"):
        return "%s %s %s" % (k, e["op"], e.get("status"))
    return "%s %s" % (k, e.get("conn"))


def describe(e):
    k = e["kind"]
    if k == "sent":
        m = e["message"]
        if isinstance(m, dict):
            m = {q: v for q, v in m.items() if q not in ("histograms", "recorders", "paths")}
        return "%.4f %s <- %s" % (e["t"], e["conn"], json.dumps(m)[:200])
    if k == "delivered":
        m = e["message"]
        if isinstance(m, dict):
            m = m.get("args") or m.get("text") or m["do"]
        return "%.4f %s -> %s" % (e["t"], e["conn"], json.dumps(m)[:200])
    if k == "invoke":
        return "%.4f %s: %s %s" % (e["t"], e["op"], e["method"], e["path"])
    if k == "response":
        j = e["json"]
        return "%.4f %s: %s %s" % (e["t"], e["op"], e["status"], (j.get("error") if isinstance(j, dict) else None) or "")
    return "%.4f %s %s" % (e["t"], k, {q: v for q, v in e.items() if q not in ("kind", "t", "seq")})


# ---------------------------------------------------------------------------
# shrinking

def shrinks(c):
    cl = c["clients"]
    for i in range(len(cl)):
        if len(cl) > 1:
            yield dict(c, clients=cl[:i] + cl[i + 1:])
    for i, x in enumerate(cl):
        for j in range(len(x["script"])):
            yield dict(c, clients=cl[:i] + [dict(x, script=x["script"][:j] + x["script"][j + 1:])] + cl[i + 1:])
    w = c["world"]
    for k, v in (("yield_rate", 0.0), ("block", 0.0), ("latency", 0.0), ("drop", 0.0), ("pool", 12)):
        if w[k] != v:
            yield dict(c, world=dict(w, **{k: v}))
    for k in ("pool", "slice", "handover"):
        if w["times"][k][1]:
            yield dict(c, world=dict(w, times=dict(w["times"], **{k: [0.0, 0.0]})))
    for i, x in enumerate(cl):
        if x["wait"]:
            yield dict(c, clients=cl[:i] + [dict(x, wait=0.0)] + cl[i + 1:])
        for j, y in enumerate(x["script"]):
            put = lambda z: dict(c, clients=cl[:i] + [dict(x, script=x["script"][:j] + [z] + x["script"][j + 1:])] + cl[i + 1:])
            if y["wait"]:
                yield put(dict(y, wait=0.0))
            if y.get("chunks", 1) > 1 and y.get("cut") is None:
                yield put(dict(y, chunks=1))
            if y.get("cut") is not None:
                z = dict(y)
                del z["cut"]
                yield put(z)
    yield from shrink_doc(c)


def shrink_doc(c):
    import yaml
    try:
        spec = yaml.safe_load(c["text"])
        if docs.judge(spec, c["files"]) is not True:
            return
    except Exception:
        return
    for s in smaller(spec):
        if docs.judge(s, c["files"]) is True:
            yield dict(c, text=yaml.safe_dump(s, sort_keys=False))


def smaller(spec):
    import copy
    for sec in ("recorders", "nodes", "components"):
        for k in list(spec.get(sec) or {}):
            s = copy.deepcopy(spec)
            del s[sec][k]
            if not s[sec]:
                del s[sec]
            yield s
    for k, v in spec["nodes"].items():
        for q in ("record", "direction", "parent"):
            if q in v:
                s = copy.deepcopy(spec)
                del s["nodes"][k][q]
                yield s
        for g in docs.GEOMS:
            if g in v and "components" in v[g].get("material", {}):
                s = copy.deepcopy(spec)
                del s["nodes"][k][g]["material"]["components"]
                yield s


# ---------------------------------------------------------------------------
# reading a history

def conns(s):
    """name -> entries of that connection in order"""
    out = {}
    for e in s.history:
        if e.get("conn"):
            out.setdefault(e["conn"], []).append(e)
    return out


class RunRequest:
    def __init__(self, e):
        self.tag = e["message"]
        self.args = self.tag["args"]
        self.seq = e["seq"]
        self.t = e["t"]
        self.stopped = None         # seq of a stop delivered after the request
        self.started = None
        self.messages = []          # entries
        self.end = None

    @property
    def total(self):
        return self.args.get("rays")


def classify(args):
    """'good': must run to its end.  'bad': must be refused.  'either': no claim."""
    def integer(v):
        if isinstance(v, bool) or v is None or isinstance(v, (list, dict)):
            return "bad" if not isinstance(v, bool) else "either"
        if isinstance(v, int):
            return "ok"
        if isinstance(v, float):
            return "either" if abs(v) < 1e9 else "bad"
        if isinstance(v, str):
            try:
                int(v)
                return "either"
            except ValueError:
                return "bad"
        return "bad"
    kinds = []
    for k in ("rays", "bundle", "record_every", "max_paths"):
        if k in args:
            q = integer(args[k])
            if q == "ok":
                v = args[k]
                if k == "rays" and v < 0 or k == "bundle" and v < 1:
                    q = "bad"
                elif k in ("record_every", "max_paths") and v < 0:
                    q = "either"
            kinds.append(q)
    seed = args.get("seed")
    if seed is not None:
        q = integer(seed) if args.get("rays") != 0 else "either"        # of no rays
        if q == "ok" and not 0 <= seed < 2 ** 62:
            q = "either"
        kinds.append(q)
    if "bad" in kinds:
        return "bad"
    if "either" in kinds:
        return "either"
    return "good"


def run_histories(s):
    """name -> (requests, problem): the messages of each connection sorted to the
    runs that were asked for.  `problem` is why they are not a sequence of runs."""
    out = {}
    for name, entries in conns(s).items():
        reqs = []
        head = 0
        problem = None
        loose = []
        for e in entries:
            k = e["kind"]
            if k == "delivered":
                m = e["message"]
                if isinstance(m, dict) and m["do"] == "run":
                    reqs.append(RunRequest(e))
                elif isinstance(m, dict) and m["do"] == "stop":
                    for q in reqs:
                        if q.stopped is None:
                            q.stopped = e["seq"]
            elif k == "sent" and problem is None:
                m = e["message"]
                t = m.get("type") if isinstance(m, dict) else None
                cur = reqs[head] if head < len(reqs) else None
                if t not in ("started", "bundle", "done", "error"):
                    problem = "an unknown message: %s" % str(m)[:100]
                elif cur is None:
                    problem = "a message %s that belongs to no run: every run asked for so far has had its end" % t
                elif t == "started":
                    if cur.started is not None:
                        problem = "a second started message before the end of the run of %s rays" % cur.total
                    elif classify(cur.args) == "good" and m.get("total") != cur.total:
                        problem = "a run of %s rays starts where the run of %s rays is next" % (m.get("total"), cur.total)
                    cur.started = e
                elif t == "bundle":
                    if cur.started is None:
                        problem = "a bundle (of a run of %s rays) before the start of the run of %s rays" % (m.get("total"), cur.total)
                    elif m.get("total") != cur.started["message"].get("total"):
                        problem = "a bundle of a run of %s rays among the messages of the run of %s rays" % (m.get("total"), cur.total)
                    else:
                        last = cur.messages[-1]["message"]["traced"] if cur.messages else 0
                        if not isinstance(m.get("traced"), int) or not last < m["traced"] <= m["total"]:
                            problem = "a bundle with %s of %s rays traced after one with %s" % (m.get("traced"), m.get("total"), last)
                    cur.messages.append(e)
                else:
                    if t == "done" and cur.started is None and cur.stopped is None and classify(cur.args) == "good":
                        problem = "the run of %s rays is done before it started" % cur.total
                    cur.end = e
                    head += 1
        out[name] = (reqs, problem)
    return out


def scene_less(case):
    """Does the server start without a scene?"""
    return case.get("text") is None or docs.judge_text(case["text"], case["files"]) is not True


def gone(s, name):
    """seq at which the server learnt that the client of a connection has gone, or None."""
    for e in s.history:
        if e.get("conn") == name and (e["kind"] == "send-failed" or e["kind"] == "delivered" and e["message"] == "websocket.disconnect"):
            return e["seq"]
    return None


def left(s, name):
    for e in s.history:
        if e.get("conn") == name and e["kind"] == "left":
            return e["seq"]
    return None
