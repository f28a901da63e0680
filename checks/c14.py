"""C14: the live view shows whole single-ray histories and stays bounded."""
import collections
import os

from checks import pipecommon as pc
from dst import harness, pipeline

PROPERTY = "C14"
LEVEL = "exploration"
RULE = ("one case = one run of the real `simulate` command with --zmq under a seeded schedule, with a viewer that may be slow or fail and workers that may "
        "fail; non-trivial if at least one history was drawn; distinct by schedule fingerprint")
ASSUMPTIONS = pc.ASSUMPTIONS + ["the viewer is a stub that keeps the tree of named objects the commands produce; one viewer command is atomic"]
COMPONENTS = pc.COMPONENTS
BATCH = 4
SHORT = 1.0


def prepare():
    pipeline.load()


def budget(tier):
    return 4000 if tier == "quick" else 100000


def gen(r, tier, i):
    c = pc.gen_case(r, tier, 40)
    c["rays"] = max(2, c["rays"])
    c["zmq"] = True
    c["render_every"] = r.choice([1, 1, 1, 2, 3, 10])
    c["render_max"] = r.choice([1, 1, 2, 3, 5, 20])
    c["faults"] = []
    if r.random() < 0.3:
        c["faults"].append(dict(kind="viewer_slow", every=r.choice([1, 5, 20]), delay=r.choice([0.001, 0.2, 3.0])))
    if r.random() < 0.15:
        c["faults"].append(dict(kind="viewer", at=r.randint(1, 120)))
    if r.random() < 0.15:
        c["faults"].append(dict(kind="worker_raise", task=r.randint(0, 2), at=r.randint(1, 60), exc="ValueError"))
    return c


shrinks = pc.shrink_case


def close(a, b):
    return all(abs(float(x) - float(y)) < 1e-9 * max(1.0, abs(float(x))) for x, y in zip(a, b))


def colour_of(nm):
    from pvtrace.light.utils import wavelength_to_hex_int
    return wavelength_to_hex_int(nm)


POS, DIR, NM = slice(9, 12), slice(12, 15), 15


def segments(evs):
    """What drawing this event sequence must show: per step the start, the allowed ends, the
    colour and whether a marker is set."""
    out = []
    last = evs[-1][9:]
    for a, b in zip(evs, evs[1:]):
        ends = [b[POS]]
        if b[9:] == last:
            ends = [tuple(p + SHORT * d for p, d in zip(a[POS], a[DIR]))]
            if b is not evs[-1]:
                ends.append(b[POS])
        out.append((a[POS], ends, colour_of(a[NM]), a[0] == "TRANSMIT"))
    return out


def is_scene(path):
    return bool(path) and " | " in path[0]


def parse_view(o, case, run, partial_ok):
    """Commands -> list of drawn histories [(throw key, paths)] in drawing order."""
    vis = run.vis[0]
    truth = collections.OrderedDict()
    for key, evs in pipeline.throws(run).items():
        if case["end_rays"]:
            evs = [e for e in evs if pipeline.is_end(e)]
        if len(evs) > 1:
            truth[key] = segments(evs)
    by_start = collections.defaultdict(list)
    for k, segs in truth.items():
        by_start[tuple(round(x, 7) for x in segs[0][0])].append(k)
    items = []          # drawn objects in order
    for c in vis.cmds:
        if c[0] == "set_object" and not is_scene(c[1]):
            kind = type(c[2]).__name__
            if kind == "Line":
                g = c[2].geometry.position
                items.append(["line", c[1], tuple(g[:, 0]), tuple(g[:, 1]), c[2].material.color])
            else:
                items.append(["marker", c[1], None, None, getattr(c[3], "color", None)])
        elif c[0] == "set_transform" and not is_scene(c[1]):
            for it in items:
                if it[0] == "marker" and it[1] == c[1]:
                    it[2] = tuple(c[2][:3, 3])
    drawn = []
    used = set()
    i = 0

    def match(k, i):
        """items consumed when history k is drawn from item i, or the reason it is not."""
        j = i
        for start, ends, col, mark in truth[k]:
            if j >= len(items):
                return ("end", j)
            it = items[j]
            if it[0] != "line" or not close(it[2], start) or not any(close(it[3], e) for e in ends) or it[4] != col:
                return ("differs", j)
            j += 1
            if mark:
                if j >= len(items):
                    return ("end", j)
                it = items[j]
                if it[0] != "marker" or (it[2] is not None and not close(it[2], start)) or (it[2] is None and j + 1 < len(items)):
                    return ("differs", j)
                j += 1
        return ("ok", j)
    while i < len(items):
        it = items[i]
        if it[0] != "line":
            o.violate("stray", "a marker at %s belongs to no drawn history" % (it[1],))
            return None, items
        cand = by_start.get(tuple(round(float(x), 7) for x in it[2]), [])
        best = None
        bad = None
        for k in cand:
            what, j = match(k, i)
            if what == "ok" and (best is None or (k not in used, j) > (best[0] not in used, best[1])):
                best = (k, j)
            elif what == "end" and partial_ok:
                best = best or (k, j)
            elif bad is None or j > bad:
                bad = j
        if best is None:
            o.violate("mixed", "what is drawn from %s on is not the event sequence of one thrown ray (differs at object %d of %d; line %s)" % (
                it[1], (bad if bad is not None else i) - i, len(items) - i, items[min(bad if bad is not None else i, len(items) - 1)][:4]))
            return None, items
        k, j = best
        if k in used:
            o.violate("twice", "the history of throw %s is drawn twice" % (k,))
            return None, items
        used.add(k)
        drawn.append((k, i, j))
        i = j
    return drawn, items


def check_view(o, case, run, faulty):
    if not run.vis:
        return
    vis = run.vis[0]
    drawn, items = parse_view(o, case, run, faulty)
    if drawn is None:
        return
    o.stat("histories_drawn", len(drawn))
    o.stat("markers_drawn", sum(1 for it in items if it[0] == "marker"))
    owner = {}
    for h, (k, i, j) in enumerate(drawn):
        for x in range(i, j):
            if items[x][1] in owner:
                o.violate("reused", "two histories share the name %s in the view" % (items[x][1],))
                return
            owner[items[x][1]] = h
    # replay: how many histories are in view after every command
    tree = set()
    present = collections.Counter()
    limit = case["render_max"]
    newest = -1
    scene_paths = set()
    remaining = [j - i for _, i, j in drawn]
    for n, c in enumerate(vis.cmds):
        if c[0] == "set_object":
            if is_scene(c[1]):
                scene_paths.add(c[1])
                continue
            h = owner[c[1]]
            if c[1] not in tree:
                tree.add(c[1])
                present[h] += 1
            remaining[h] -= 1
            if h > newest:
                # the previous history is complete: now the bound must hold for it
                live = sorted(x for x in present if present[x] and x < h)
                if len(live) > limit:
                    o.violate("unbounded", "%d histories in view with --render-max %d" % (len(live), limit))
                    return
                want = list(range(max(0, h - limit), h))
                if [x for x in want if x not in live] and not faulty:
                    # one fewer is fine only if room was already made for the one being drawn
                    if live != list(range(max(0, h - limit + 1), h)) or limit == 1 and False:
                        o.violate("dropped", "histories %s in view before number %d is drawn, the newest %d expected" % (live, h, limit))
                        return
                newest = h
        elif c[0] == "delete":
            p = c[1]
            for x in [x for x in tree if x[:len(p)] == p]:
                tree.discard(x)
                present[owner[x]] -= 1
            gone = [x for x in scene_paths if x[:len(p)] == p]
            if gone:
                o.violate("scene-removed", "removing a history removed scene objects %s" % gone)
                return
        live = [h for h in present if present[h]]
        if len(live) > limit + 1:
            o.violate("unbounded", "%d histories in view with --render-max %d (command %d of %d)" % (len(live), limit, n, len(vis.cmds)))
            return
        for h in live:
            full = drawn[h][2] - drawn[h][1]
            if present[h] < full and h < newest and h < max(live):
                # partly removed: must be the oldest one, in the course of removal
                if h != min(live):
                    o.violate("partial", "history %d is partly removed while older ones remain" % h)
                    return
    if run.failed:
        return
    live = sorted(h for h in present if present[h])
    if len(live) > limit:
        o.violate("unbounded", "%d histories in view at the end with --render-max %d" % (len(live), limit))
        return
    want = list(range(max(0, len(drawn) - limit), len(drawn)))
    if live != want:
        o.violate("dropped", "histories %s of %d in view at the end with --render-max %d" % (live, len(drawn), limit))
        return
    for h in live:
        if present[h] != drawn[h][2] - drawn[h][1]:
            o.violate("partial", "history %d is left in view with %d of %d objects" % (h, present[h], drawn[h][2] - drawn[h][1]))
            return
    check_selection(o, case, run, drawn)


def check_selection(o, case, run, drawn):
    """Which rays: every k-th throw id, and the first of each worker."""
    rays, evs = pipeline.read_db(run.db)
    rows, problem = pipeline.join_db(rays, evs)
    if problem:
        return
    by = collections.OrderedDict()
    for t, vals in rows:
        by.setdefault(t, []).append(vals)
    ids = {}
    for t, v in by.items():
        ids.setdefault(tuple(v), []).append(t)
    truth = pc.expected_rows(case, run)
    tid = {}
    for key, e in truth:
        l = ids.get(tuple(e))
        if not l or len(l) > 1:
            return          # ambiguous content: another check's business
        tid[key] = l[0]
    order = {}
    for key, e in truth:
        order.setdefault(key[0], []).append(key)
    every = case["render_every"]
    allowed, required = set(), set()
    for task, keys in order.items():
        for n, key in enumerate(keys):
            if (tid[key] + 1) % every == 0 or n == 0:
                allowed.add(key)
                if n + 1 < len(keys):
                    required.add(key)
    long = {k for k, e in truth if len(e) > 1}
    got = {k for k, _, _ in drawn}
    if got - allowed:
        k = sorted(got - allowed)[0]
        o.violate("selection", "throw %d was drawn with --render-every %d" % (tid[k], every))
    elif (required & long) - got:
        k = sorted((required & long) - got)[0]
        o.violate("selection", "throw %d was not drawn with --render-every %d" % (tid[k], every))


def run(case):
    o = harness.Outcome()
    d = os.environ["DST_SCRATCH"]
    r = pipeline.simulate(case, d)
    pc.fill(o, r)
    hard = [f for f in case["faults"] if f["kind"] != "viewer_slow"]
    o.sample = dict(pc.describe(case), render_every=case["render_every"], render_max=case["render_max"])
    if r.hang:
        o.violate("hang", "the command did not end: %s" % (r.hang[1],))
        return o
    if r.failed and not hard:
        o.violate("failed", "the command failed without any fault: %r" % (r.exc,))
        return o
    check_view(o, case, r, r.failed)
    o.nontrivial = o.stats.get("histories_drawn", 0) > 0
    return o
