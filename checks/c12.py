"""C12: saving and uploading replace files all-or-nothing."""
import os
import random

from checks import c11, studiocommon as sc
from dst import disk, docs, harness

PROPERTY = "C12"
LEVEL = "fault_enumeration"
RULE = ("one case = one simulated life of the studio server whose clients edit, save and upload on a recorded disk that may fail; the folder is rebuilt as after a process "
        "kill at every disk operation and as after power losses that lose or tear unsynced writes, and every file must be one whole content that was current; "
        "non-trivial if a crash state lies inside a replacement or a disk fault hit one; distinct by the order of requests and answers")
ASSUMPTIONS = sc.ASSUMPTIONS + [
    "a kill keeps every executed file operation and nothing else",
    "a power loss keeps data written before the file's last fsync, keeps, loses or tears (512-byte sectors) later writes, and keeps directory operations as a prefix that "
    "includes everything before the directory's last fsync",
    "after a crash a leftover temporary file (hidden name) may remain; after a failed request only if removing it failed as well",
    "if the replacement itself succeeded and only a later operation failed (flushing the directory), either content may be found",
]
COMPONENTS = sc.COMPONENTS
BATCH = 8
LIMIT = 60.0
prepare = sc.prepare
shrinks = sc.shrinks


def budget(tier):
    return 2500 if tier == "quick" else 100000


def gen(r, tier, i):
    files = {k: docs.csv(r) for k in ("a.csv", "b.csv") if r.random() < 0.6}
    spec = docs.document(r, [])
    c = dict(files=files, text=docs.render(r, spec), world=sc.gen_world(r), faults=[], clients=[], cut_seed=r.getrandbits(32))
    if r.random() < 0.15:
        # larger than any buffer
        c["text"] += "\n" + "# padding %d\n" % i * r.choice([100, 1000, 20000])
    n = r.choice([1, 1, 2, 3])
    for k in range(n):
        cl = sc.gen_http(r, k, spec, files, r.randint(1, 6), kinds=("put", "patch", "save", "save", "save", "upload", "upload", "upload") if k == 0 else ("save", "upload", "upload", "get"),
                         wild=r.choice([0.0, 0.2]), cut=0.04, bad=0.05)
        for x in cl["script"]:
            if x["do"] == "upload":
                q = r.random()
                if q < 0.1:
                    x["content"] = x["content"] * r.choice([50, 400])
                elif q < 0.2:
                    x["content"] = ""
                elif q < 0.25:
                    x["content"] = x["content"][:20] + "\ud800" + x["content"][20:]      # cannot be written
        c["clients"].append(cl)
    if r.random() < 0.5:
        c["faults"] = [sc.gen_disk(r) for _ in range(r.choice([1, 1, 1, 2]))]
    return c


class Write:
    """One request to replace a file."""

    def __init__(self, path, contents, start, end, ok, op):
        self.path, self.contents, self.start, self.end, self.ok, self.op = path, contents, start, end, ok, op


def writes(c, s, ops):
    """The replacements of a session, with the numbers of disk operations before and after them."""
    start, end = {}, {}
    for what, name, n, k in s.marks:
        (start if what == "invoke" else end)[name, n] = k
    versions = [(0, 0, c["text"])]
    for o in ops:
        if o.status == 200 and o.x["do"] == "put":
            versions.append((o.inv, o.res, o.x["text"]))
        elif o.status == 200 and o.x["do"] == "patch" and isinstance(o.json, dict):
            versions.append((o.inv, o.res, o.json["text"]))
    out = []
    for o in ops:
        if o.x["do"] not in ("save", "upload") or (o.client, o.n) not in start:
            continue
        a, b = start[o.client, o.n], end.get((o.client, o.n))
        if o.x["do"] == "save":
            texts = [t for inv, res, t in versions if inv < o.res and not any(res < i2 and r2 < o.inv for i2, r2, _ in versions)]
            path = "scene.yml"
        else:
            if o.gone or o.x.get("body") is not None:
                continue
            texts = [o.x["content"]]
            path = os.path.basename(o.x["name"])
        raw = []
        for t in texts:
            try:
                raw.append(t.encode())
            except UnicodeEncodeError:
                pass
        out.append(Write(path, raw, a, b, o.status == 200, o))
    return out


def allowed(ws, path, initial, k):
    """Contents a file may have after k disk operations (None: absent)."""
    mine = [w for w in ws if w.path == path and w.start <= k]
    acked = [w for w in mine if w.ok and w.end is not None and w.end <= k]
    over = lambda w: any(v is not w and v.start >= (w.end if w.end is not None else 1 << 60) for v in acked)
    out = [x for w in mine if not over(w) for x in w.contents]
    if not acked:
        out.append(initial)
    return out


def run(c):
    o = harness.Outcome()
    initial = {k: v.encode() for k, v in c["files"].items()}
    initial["scene.yml"] = c["text"].encode()
    s = sc.session(c, record_disk=True)
    sc.fill(o, s)
    ops = c11.operations(c, s)
    o.nontrivial = False
    if any(x.pending for x in ops) or not s.quiet:
        o.stat("unanswered")
        return o                        # C13's business
    ws = writes(c, s, ops)
    rec = s.ops
    root = os.path.realpath(s.folder)
    replaced = {}
    for i, x in enumerate(rec):
        if x.err == 0 and x.kind in (disk.K["RENAME"], disk.K["LINK"]):
            replaced.setdefault(os.path.relpath(x.path2, root), []).append(i)
    faults = any(k.startswith("disk") for k in s.faults)
    unlink_failed = any("unlink" in k for k in s.faults)
    full = disk.Incremental(rec, {os.path.join(root, k): v for k, v in initial.items()})
    full.advance(len(rec))
    if contents(full.state, root) != c11.listing(s.folder):
        o.stat("disk_model_disagrees")      # an operation the recorder does not know: nothing can be said
        return o
    # what each request did, at its answer
    live = disk.Incremental(rec, {os.path.join(root, k): v for k, v in initial.items()})
    for w in sorted((w for w in ws if w.end is not None), key=lambda w: w.end):
        live.advance(w.end)
        have = contents(live.state, root)
        others = [v for v in ws if v is not w and v.path == w.path and v.start < w.end and (v.end is None or v.end > w.start)]
        now = have.get(w.path)
        o.stat("replacements" if w.ok else "failed_replacements")
        if w.ok:
            if now not in w.contents and not any(now in v.contents for v in others):
                o.violate("not-saved", "%s was answered as successful but the file %s" % (w.op, shape(now)))
                return o
        else:
            o.nontrivial |= faults
            inside = any(w.start <= i < w.end for i in replaced.get(w.path, ()))
            ok = allowed([v for v in ws if v is not w or inside], w.path, initial.get(w.path), w.end)
            if now not in ok:
                o.violate("damaged", "%s failed (%s) and left the file %s" % (w.op, w.op.status, shape(now)))
                return o
            if not others and not unlink_failed:
                stray = sorted(k for k in have if k not in initial and not any(v.path == k and v.start < w.end for v in ws if v.ok or v is not w or inside))
                if stray and len([v for v in ws if v.start <= w.end and (v.end is None or v.end >= w.end)]) == 1:
                    o.violate("strays", "%s failed (%s) and left %s behind" % (w.op, w.op.status, stray))
                    return o
    # crashes
    rnd = random.Random(c["cut_seed"])
    inc = disk.Incremental(rec, {os.path.join(root, k): v for k, v in initial.items()})
    names = set(initial) | {w.path for w in ws}
    inside = 0
    for k in range(1, len(rec) + 1):
        inc.advance(k)
        inside += any(w.start < k and (w.end is None or k < w.end) for w in ws)
        for power in (False, True, True):
            st = inc.state if not power else disk.crash(rec, k, {os.path.join(root, q): v for q, v in initial.items()}, random.Random("%s/%s/%s" % (c["cut_seed"], k, rnd.random())))
            o.stat("power_states" if power else "kill_states")
            have = contents(st, root)
            what = "%s after disk operation %d of %d (%r)" % ("a power loss" if power else "a kill", k, len(rec), rec[k - 1])
            for q in sorted(names):
                ok = allowed(ws, q, initial.get(q), k)
                if have.get(q) not in ok:
                    o.violate("power" if power else "kill", "%s the file %s %s, which is neither the previous nor the new content" % (what, q, shape(have.get(q))))
                    return o
    o.stat("states_inside_a_replacement", inside)
    o.nontrivial |= inside > 0
    return o


def contents(st, root):
    return {os.path.relpath(p, root): bytes(st.inodes.get(f, b"")) for p, f in st.names.items() if p.startswith(root)}


def shape(b):
    if b is None:
        return "does not exist"
    return "is empty" if not b else "holds %d bytes starting with %r" % (len(b), b[:30])
