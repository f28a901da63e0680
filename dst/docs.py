"""Small scene documents for studio, an independent judgement of them, and an
independent model of the structured edits (plain dicts, no pvtrace code)."""
import copy
import json
import math
import re

import yaml

EVENTS = ("entering", "escaping", "reflected", "lost", "reacted", "killed", "exit")
VOLUME = ("lost", "reacted", "killed")
PROPS = ("wavelength", "angle", "duration", "pathlength", "x", "y", "z")
NAME = re.compile(r"[a-zA-Z0-9._-]+\Z")
GEOMS = ("box", "cylinder", "sphere", "mesh")
NAMED = ("lumogen-f-red-305", "fluro-red")


class Unknown(Exception):
    """The model makes no claim about this document."""


class Reject(Exception):
    """The model says the edit must be refused."""


# ---------------------------------------------------------------------------
# generation

def spectrum(r, files):
    if files and r.random() < 0.4:
        return {"file": r.choice(files)}
    return {"name": r.choice(NAMED), "range": {"min": 400, "max": 900, "spacing": r.choice([10, 20, 50])}}


def component(r, files, kind=None):
    kind = kind or r.choice(["absorber", "absorber", "scatterer", "luminophore", "luminophore"])
    if kind == "absorber":
        c = {"coefficient": r.choice([0.1, 1, 1.5, 3.0])}
        if r.random() < 0.3:
            c["spectrum"] = spectrum(r, files)
            if r.random() < 0.3:
                del c["coefficient"]
        return {"absorber": c}
    if kind == "scatterer":
        c = {"coefficient": r.choice([0.2, 1.0, 2])}
        if r.random() < 0.3:
            c["spectrum"] = spectrum(r, files)
        if r.random() < 0.4:
            c["quantum-yield"] = r.choice([0.5, 0.9, 1.0])
        if r.random() < 0.4:
            c["phase-function"] = r.choice([{"isotropic": None}, {"henyey-greenstein": {"g": 0.4}}, {"cone": {"half-angle": 20}}])
        return {"scatterer": c}
    return {"luminophore": {"absorption": {"coefficient": r.choice([0.5, 2, 5.0]), "spectrum": spectrum(r, files)},
                            "emission": {"quantum-yield": r.choice([0.3, 0.95, 1.0]), "phase-function": "isotropic",
                                         "spectrum": {"name": r.choice(NAMED), "range": {"min": 400, "max": 900, "spacing": 20}}}}}


def material(r, comps):
    m = {"refractive-index": r.choice([1.0, 1.5, 1.33, 2.0])}
    if comps and r.random() < 0.8:
        m["components"] = r.sample(comps, r.randint(1, min(2, len(comps))))
    return m


def shape(r, comps, size=1.0):
    k = r.choice(["box", "box", "sphere", "cylinder"])
    s = lambda: round(size * r.uniform(0.3, 1.0), r.choice([1, 3])) or size
    if k == "box":
        return {"box": {"size": [s(), s(), s()], "material": material(r, comps)}}
    if k == "sphere":
        return {"sphere": {"radius": s() / 2, "material": material(r, comps)}}
    return {"cylinder": {"length": s(), "radius": s() / 2, "material": material(r, comps)}}


def recorder(r, node, spec):
    e = r.choice(EVENTS)
    rec = {"node": node, "event": e}
    if e not in VOLUME and r.random() < 0.3:
        rec["facet"] = r.choice([[0, 0, 1], [0.0, 0.0, -1.0], [1, 0, 0]])
        if r.random() < 0.3:
            rec["atol"] = r.choice([1e-6, 0.5])
    if r.random() < 0.8:
        h = {}
        for p in r.sample(PROPS, r.randint(1, 2)):
            h[p] = hist_range(r, p)
        if r.random() < 0.3:
            a, b = r.sample(("x", "y", "z"), 2)
            h["position"] = [a, b, [-1.0, 1.0, 4], [-1, 1, 3]]
        rec["histograms"] = h
    return rec


def hist_range(r, p):
    return {"wavelength": [400, 900, r.choice([5, 20])], "angle": [0.0, 1.5708, 6], "duration": [0.0, 1e-8, 5], "pathlength": [0, 20, 4]}.get(p, [-1.0, 1.0, 4])


def document(r, files=(), lights=None, masks=0.15):
    """A valid spec."""
    files = list(files)
    comps = {}
    for i in range(r.choice([0, 1, 2, 3])):
        comps[r.choice(["dye", "bg", "c", "absorber"]) + "-%d" % i] = component(r, files)
    names = list(comps)
    nodes = {"world": {"sphere": {"radius": r.choice([10.0, 12, 25.5]), "material": {"refractive-index": 1.0}}}}
    if r.random() < 0.1:
        nodes["world"] = {"box": {"size": [20, 20.0, 24], "material": {"refractive-index": 1.0}}}
    n = r.choice([0, 1, 1, 2, 3])
    for i in range(n):
        name = r.choice(["slab", "ball", "rod", "x"]) + "%d" % i
        if r.random() < 0.15:
            name = "%s-%d" % (r.choice(["box", "sphere", "cylinder"]), i + 1)
        s = shape(r, names, 2.0)
        s["location"] = [round(3.0 * (i - 1), 2), r.choice([0, 0.0, 0.25]), r.choice([0.0, 0.5, -1])]
        if r.random() < 0.3:
            s["parent"] = "world"
        if r.random() < 0.2:
            s["direction"] = r.choice([[1, 0, 0], [0.0, 0.6, 0.8], [0, 0, -1], [0.36, 0.48, 0.8]])
        if r.random() < 0.4:
            s["record"] = r.random() < 0.8
        nodes[name] = s
        if "box" in s and r.random() < 0.35:
            inner = shape(r, names, min(s["box"]["size"]) * 0.6)
            inner["parent"] = name
            if r.random() < 0.5:
                inner["location"] = [0.01, 0, -0.02]
            if r.random() < 0.3:
                inner["direction"] = r.choice([[0, 1, 0], [0.6, 0.0, 0.8]])
            nodes["in-" + name] = inner
            if r.random() < 0.4:
                core = shape(r, names, min(s["box"]["size"]) * 0.1)
                core["parent"] = "in-" + name
                core["location"] = [0.02, 0.01, 0]
                nodes["core-" + name] = core
    for i in range(r.choice([1, 1, 1, 2]) if lights is None else lights):
        l = {"wavelength": r.choice([450, 555, 600.5, 620.0])}
        m = {}
        if r.random() < masks:
            if r.random() < 0.7:
                m["direction"] = r.choice([{"cone": {"half-angle": 22.5}}, {"isotropic": None}, {"lambertian": None}, {"henyey-greenstein": {"g": 0.5}}])
            if r.random() < 0.4:
                m["position"] = r.choice([{"rect": [0.5, 0.25]}, {"circle": 0.4}, {"cube": [0.1, 0.1, 0.1]}])
            if r.random() < 0.3:
                m["wavelength"] = r.choice([{"nanometers": 500}, {"spectrum": spectrum(r, [])}])
        if m:
            l["mask"] = m
        node = {"location": [round(3.0 * r.choice([-1, 0, 1]) + r.choice([0, 0.1]), 2), 0.05, 4.0], "direction": r.choice([[0, 0, -1], [0, 0, -1], [0.0, 0.0, -2.0], [0.1, 0.0, -1.0]]),
                "light": l}
        if r.random() < 0.3:
            node["parent"] = "world"
        nodes["lamp%d" % i] = node
    spec = {"version": "1.0", "nodes": nodes}
    if comps:
        spec["components"] = comps
    recs = {}
    geo = [k for k in nodes if "light" not in nodes[k]]
    for i in range(r.choice([0, 1, 2, 3])):
        node = r.choice(geo)
        name = "rec%d" % i
        if r.random() < 0.25:
            name = "%s-%s" % (r.choice(geo), r.choice(["escaping-1", "escaping-2", "escaping-3", "top", "west", "lost", "escaping"]))
        recs[name] = recorder(r, node, nodes[node])
    if recs:
        spec["recorders"] = recs
    return spec


def random_light(spec):
    """Does emission involve random numbers?"""
    return any("mask" in n["light"] and n["light"]["mask"] for n in spec["nodes"].values() if "light" in n)


def render(r, spec):
    """YAML text of a spec, in varying style and with comments."""
    spec = {k: spec[k] for k in (r.sample(list(spec), len(spec)) if r.random() < 0.3 else list(spec))}
    flow = r.choice([None, False, False, True]) if r.random() < 0.9 else False
    text = yaml.safe_dump(spec, sort_keys=False, default_flow_style=flow, width=r.choice([60, 100, 1000]))
    if r.random() < 0.3:
        text = "# a scene\n" + text
    if not flow and r.random() < 0.4:
        lines = text.split("\n")
        out = []
        for l in lines:
            if re.match(r"(nodes|components|recorders):$", l) and r.random() < 0.6:
                out.append("")
                out.append("# section")
            out.append(l)
        text = "\n".join(out)
    if r.random() < 0.1:
        text = text.replace('"1.0"', "'1.0'")
    if r.random() < 0.1:
        text = text.rstrip("\n")
    return text


def csv(r):
    n = r.randint(3, 12)
    s = ",wavelength,value\n"
    for i in range(n):
        s += "%d,%s,%s\n" % (i, 400.0 + 500.0 * i / (n - 1), round(r.uniform(0.05, 1.0), 4))
    if r.random() < 0.2:
        s += "\n"
    return s


BROKEN = ("yaml", "list", "empty", "text", "no-version", "version", "no-nodes", "no-world", "component", "parent", "file", "mesh", "nan", "inf", "negative", "index",
          "extra", "event", "rec-node", "facet", "hist", "prop", "bins", "two-shapes", "name", "no-shape", "cycle", "volume-facet", "section", "null-nodes")


def broken(r, files=()):
    """(text, what) of a document every reading of the format refuses."""
    spec = document(r, files)
    what = r.choice(BROKEN + ("nan", "inf", "nan", "inf"))
    nodes = spec["nodes"]
    world = nodes["world"]
    wshape = world.get("sphere") or world.get("box")
    if what == "yaml":
        return render(r, spec) + "\nbad: [1, 2\n", what
    if what == "list":
        return "- 1\n- 2\n", what
    if what == "empty":
        return r.choice(["", "\n", "# nothing\n"]), what
    if what == "text":
        return "hello", what
    if what == "no-version":
        del spec["version"]
    elif what == "version":
        spec["version"] = r.choice(["2.0", 1.0, "", None])
    elif what == "no-nodes":
        del spec["nodes"]
    elif what == "null-nodes":
        spec["nodes"] = None
    elif what == "no-world":
        nodes["earth"] = nodes.pop("world")
    elif what == "component":
        wshape["material"]["components"] = ["missing"]
    elif what == "parent":
        nodes[r.choice([k for k in nodes if k != "world"])]["parent"] = "nowhere"
    elif what == "file":
        spec.setdefault("components", {})["fc"] = {"absorber": {"coefficient": 1.0, "spectrum": {"file": "nothing-there.csv"}}}
    elif what == "mesh":
        nodes["m"] = {"mesh": {"file": "nothing-there.stl", "material": {"refractive-index": 1.5}}}
    elif what == "nan":
        r.choice(list(nodes.values()))["location"] = [0.0, float("nan"), 0.0]
    elif what == "inf":
        nodes["world"] = {"sphere": {"radius": float("inf"), "material": {"refractive-index": 1.0}}}
    elif what == "negative":
        nodes["world"] = {"sphere": {"radius": -1.0, "material": {"refractive-index": 1.0}}}
    elif what == "index":
        wshape["material"]["refractive-index"] = r.choice([0.5, "glass", None])
    elif what == "extra":
        r.choice(list(nodes.values()))["colour"] = "red"
    elif what == "event":
        spec.setdefault("recorders", {})["rx"] = {"node": "world", "event": "bouncing"}
    elif what == "rec-node":
        spec.setdefault("recorders", {})["rx"] = {"node": "nowhere", "event": "exit"}
    elif what == "facet":
        spec.setdefault("recorders", {})["rx"] = {"node": "world", "event": "exit", "facet": [0, 1]}
    elif what == "hist":
        spec.setdefault("recorders", {})["rx"] = {"node": "world", "event": "exit", "histograms": {"wavelength": [900, 400, 10]}}
    elif what == "prop":
        spec.setdefault("recorders", {})["rx"] = {"node": "world", "event": "exit", "histograms": {"colour": [400, 900, 10]}}
    elif what == "bins":
        spec.setdefault("recorders", {})["rx"] = {"node": "world", "event": "exit", "histograms": {"wavelength": [400, 900, 0]}}
    elif what == "two-shapes":
        world["cylinder"] = {"length": 1.0, "radius": 1.0, "material": {"refractive-index": 1.0}}
    elif what == "name":
        nodes["a b"] = {"light": {"wavelength": 500}}
    elif what == "no-shape":
        nodes["void"] = {"location": [0, 0, 0]}
    elif what == "cycle":
        b = lambda p: {"parent": p, "sphere": {"radius": 1.0, "material": {"refractive-index": 1.0}}}
        nodes["cyc-a"], nodes["cyc-b"] = b("cyc-b"), b("cyc-a")
    elif what == "volume-facet":
        spec.setdefault("recorders", {})["rx"] = {"node": "world", "event": "lost", "facet": [0, 0, 1]}
    elif what == "section":
        spec["components"] = []
    return yaml.safe_dump(spec, sort_keys=False), what


# ---------------------------------------------------------------------------
# judgement

def num(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def finite_everywhere(v):
    if isinstance(v, float):
        return math.isfinite(v)
    if isinstance(v, dict):
        return all(finite_everywhere(x) for x in v.values())
    if isinstance(v, list):
        return all(finite_everywhere(x) for x in v)
    return True


def plain(v):
    if isinstance(v, dict):
        return all(isinstance(k, str) for k in v) and all(plain(x) for x in v.values())
    if isinstance(v, list):
        return all(plain(x) for x in v)
    return v is None or isinstance(v, (str, int, float, bool))


def need(cond, why):
    if not cond:
        raise Reject(why)


def known(cond):
    if not cond:
        raise Unknown()


def vec3(v, what, nonzero=False):
    need(isinstance(v, list) and all(num(x) for x in v), what)
    known(len(v) == 3 and all(abs(x) < 1e6 for x in v))
    known(not nonzero or sum(x * x for x in v) > 1e-12)


def check_spectrum(s, files):
    need(isinstance(s, dict), "spectrum")
    if "file" in s:
        need(set(s) == {"file"} and isinstance(s["file"], str), "spectrum")
        known("/" not in s["file"])
        need(s["file"] in files, "missing file")
        known(well_formed_csv(files[s["file"]]))
        return
    need("name" in s and "range" in s and set(s) <= {"name", "range"}, "spectrum")
    need(s["name"] in NAMED, "unknown spectrum")
    q = s["range"]
    need(isinstance(q, dict) and set(q) == {"min", "max", "spacing"} and all(num(x) for x in q.values()), "range")
    known(300 <= q["min"] and q["min"] + 5 * q["spacing"] <= q["max"] <= 1200 and q["spacing"] >= 1 and q["max"] >= 700)


def well_formed_csv(text):
    rows = [l for l in text.split("\n") if l.strip()]
    return len(rows) >= 4 and all(len(x.split(",")) == 3 for x in rows)


def check_phase(p):
    known(isinstance(p, dict) and len(p) == 1)
    k, v = next(iter(p.items()))
    need(k in ("isotropic", "lambertian", "henyey-greenstein", "cone"), "direction")
    if k in ("isotropic", "lambertian"):
        need(v is None, "direction")
    elif k == "cone":
        need(isinstance(v, dict) and set(v) == {"half-angle"}, "cone")
        known(num(v["half-angle"]) and 0 < v["half-angle"] < 90)
    else:
        need(isinstance(v, dict) and set(v) == {"g"} and num(v["g"]) and -1 <= v["g"] <= 1, "g")
        known(abs(v["g"]) < 0.99)
    return k


def check_component(c, files):
    need(isinstance(c, dict), "component")
    kinds = [k for k in ("luminophore", "scatterer", "absorber") if k in c]
    need(len(kinds) == 1, "component kind")
    known(set(c) == set(kinds))
    k = kinds[0]
    v = c[k]
    need(isinstance(v, dict), "component")
    if k == "luminophore":
        known(set(v) == {"absorption", "emission"} and isinstance(v["absorption"], dict) and isinstance(v["emission"], dict))
        known(set(v["absorption"]) <= {"coefficient", "spectrum"} and v["absorption"])
        check_coefficient(v["absorption"])
        if "spectrum" in v["absorption"]:
            check_spectrum(v["absorption"]["spectrum"], files)
        known(set(v["emission"]) <= {"quantum-yield", "phase-function", "spectrum"} and "spectrum" in v["emission"])
        check_spectrum(v["emission"]["spectrum"], files)
        known(v["emission"].get("phase-function", "isotropic") == "isotropic")
        if "quantum-yield" in v["emission"]:
            q = v["emission"]["quantum-yield"]
            need(num(q) and 0 <= q <= 1, "quantum-yield")
        return
    extra = {"quantum-yield", "phase-function"} if k == "scatterer" else set()
    need(set(v) <= {"coefficient", "spectrum", "hist"} | extra, "component keys")
    known("hist" not in v)
    need("coefficient" in v or "spectrum" in v, "component")
    check_coefficient(v)
    if "spectrum" in v:
        check_spectrum(v["spectrum"], files)
    if "quantum-yield" in v:
        q = v["quantum-yield"]
        need(num(q) and 0 <= q <= 1, "quantum-yield")
    if "phase-function" in v:
        known(check_phase(v["phase-function"]) != "lambertian")


def check_coefficient(v):
    if "coefficient" in v:
        need(num(v["coefficient"]) and v["coefficient"] >= 0, "coefficient")
        known(v["coefficient"] < 1e6)


def check_material(m, comps):
    need(isinstance(m, dict) and "refractive-index" in m, "material")
    n = m["refractive-index"]
    need(num(n) and n >= 1, "refractive-index")
    known(set(m) <= {"refractive-index", "components"})
    c = m.get("components", [])
    need(isinstance(c, list) and all(isinstance(x, str) for x in c), "components")
    need(all(x in comps for x in c), "missing component")
    known(len(set(c)) == len(c))


def check_node(name, s, nodes, comps, files):
    need(isinstance(s, dict), "node")
    need(set(s) <= {"parent", "location", "direction", "record", "light"} | set(GEOMS), "node keys")
    kinds = [k for k in GEOMS + ("light",) if k in s]
    need(len(kinds) == 1, "one shape")
    k = kinds[0]
    v = s[k]
    need(isinstance(v, dict), "shape")
    if k == "box":
        need("size" in v and "material" in v, "box")
        vec3(v["size"], "size")
        known(all(x > 1e-3 for x in v["size"]) and set(v) == {"size", "material"})
    elif k == "sphere":
        need("radius" in v and "material" in v, "sphere")
        need(num(v["radius"]) and v["radius"] >= 0, "radius")
        known(1e-3 < v["radius"] < 1e6 and set(v) == {"radius", "material"})
    elif k == "cylinder":
        need("radius" in v and "material" in v and "length" in v, "cylinder")
        need(num(v["radius"]) and v["radius"] >= 0 and num(v["length"]) and v["length"] >= 0, "cylinder")
        known(1e-3 < v["radius"] < 1e6 and 1e-3 < v["length"] < 1e6 and set(v) == {"radius", "length", "material"})
    elif k == "mesh":
        need("file" in v and "material" in v and isinstance(v["file"], str), "mesh")
        raise Reject("mesh")            # not in the engine, whether the file is there or not
    else:
        known(set(v) <= {"wavelength", "mask"})
        if "wavelength" in v:
            need(num(v["wavelength"]), "wavelength")
            known(300 <= v["wavelength"] <= 1200)
        if "mask" in v:
            m = v["mask"]
            need(isinstance(m, dict), "mask")
            known(set(m) <= {"direction", "position", "wavelength"})
            if "direction" in m:
                check_phase(m["direction"])
            if "position" in m:
                p = m["position"]
                known(isinstance(p, dict) and len(p) == 1)
                q, w = next(iter(p.items()))
                known((q == "rect" and isinstance(w, list) and len(w) == 2 and all(num(x) and x > 0 for x in w)) or (q == "circle" and num(w) and w > 0)
                      or (q == "cube" and isinstance(w, list) and len(w) == 3 and all(num(x) and x > 0 for x in w)))
            if "wavelength" in m:
                w = m["wavelength"]
                known(isinstance(w, dict) and len(w) == 1)
                if "nanometers" in w:
                    known(num(w["nanometers"]) and 300 <= w["nanometers"] <= 1200)
                else:
                    known("spectrum" in w)
                    check_spectrum(w["spectrum"], files)
    if k != "light":
        check_material(v["material"], comps)
    if "location" in s:
        vec3(s["location"], "location")
    if "direction" in s:
        vec3(s["direction"], "direction", nonzero=True)
    if "parent" in s and s["parent"] is not None:
        need(isinstance(s["parent"], str), "parent")
        if name != "world":
            need(s["parent"] in nodes, "unknown parent")
        known(name != "world")
    if name == "world":
        known(k != "light")
    if "record" in s:
        need(isinstance(s["record"], bool), "record")
        known(not (s["record"] and k == "light"))


def check_recorder(n, s, nodes):
    need(isinstance(s, dict), "recorder")
    need(set(s) <= {"node", "event", "facet", "atol", "histograms"} and "node" in s and "event" in s, "recorder keys")
    need(isinstance(s["node"], str) and s["node"] in nodes, "recorder node")
    known("light" not in nodes[s["node"]])
    need(s["event"] in EVENTS, "event")
    if "facet" in s:
        need(isinstance(s["facet"], list) and len(s["facet"]) == 3 and all(num(x) for x in s["facet"]), "facet")
        need(s["event"] not in VOLUME, "facet of a volume event")
    if "atol" in s:
        need(num(s["atol"]), "atol")
    if "histograms" in s:
        need(isinstance(s["histograms"], dict), "histograms")
        for p, v in s["histograms"].items():
            need(isinstance(v, list), "histogram")
            if p == "position":
                need(len(v) == 4, "heatmap")
                known(all(isinstance(x, list) for x in v[2:]) and all(isinstance(x, str) for x in v[:2]))
                for q, w in zip(v[:2], v[2:]):
                    check_hist(q, w)
            else:
                check_hist(p, v)


def check_hist(p, v):
    need(len(v) == 3, "histogram")
    known(all(num(x) for x in v))
    need(p in PROPS, "property")
    need(v[1] > v[0], "histogram range")
    need(v[2] >= 1, "bins")
    known(isinstance(v[2], int) and v[2] <= 10000)


def judge(spec, files):
    """True: valid.  False: invalid.  None: no claim.  `files`: name -> content beside the document."""
    try:
        need(isinstance(spec, dict), "mapping")
        need(finite_everywhere(spec), "not a number")
        known(plain(spec))
        need("version" in spec and spec["version"] == "1.0", "version")
        known(set(spec) <= {"version", "nodes", "components", "recorders"})
        need("nodes" in spec and isinstance(spec["nodes"], dict) and "world" in spec["nodes"], "nodes")
        nodes = spec["nodes"]
        comps = spec.get("components", {})
        need(isinstance(comps, dict), "components")
        recs = spec.get("recorders", {})
        need(isinstance(recs, dict), "recorders")
        for group in (nodes, comps, recs):
            for k in group:
                known(k != "builtin")
                need(NAME.match(k), "name")
        unknown = False

        def each(f, *a):
            nonlocal unknown
            try:
                f(*a)
            except Unknown:
                unknown = True
        for c in comps.values():
            each(check_component, c, files)
        for k, s in nodes.items():
            each(check_node, k, s, nodes, comps, files)
        for k, s in recs.items():
            each(check_recorder, k, s, nodes)
        # parents must lead to the world
        for k in nodes:
            seen, p = set(), k
            while p != "world":
                need(p not in seen, "cycle")
                seen.add(p)
                q = nodes[p].get("parent") if isinstance(nodes[p], dict) else None
                p = q if q is not None else "world"
                if not isinstance(p, str) or p not in nodes:
                    break
        for k, s in nodes.items():
            par = s.get("parent")
            if par and par in nodes and "light" in nodes[par] and "light" not in s:
                unknown = True
        if unknown:
            return None
        return True
    except Reject:
        return False
    except Unknown:
        return None


def judge_text(text, files):
    try:
        return judge(yaml.safe_load(text), files)
    except yaml.YAMLError:
        return False


# ---------------------------------------------------------------------------
# what a document describes

def mul(a, b):
    return [[sum(a[i][k] * b[k][j] for k in range(4)) for j in range(4)] for i in range(4)]


def pose(s):
    m = [[1.0, 0, 0, 0], [0, 1.0, 0, 0], [0, 0, 1.0, 0], [0, 0, 0, 1.0]]
    if s.get("direction"):
        d = [float(x) for x in s["direction"]]
        l = math.sqrt(sum(x * x for x in d))
        x, y, z = [v / l for v in d]
        if z < -1 + 1e-9:
            m[0][0], m[2][2] = -1.0, -1.0
        else:
            k = 1 / (1 + z)
            r = [[1 - x * x * k, -x * y * k, x], [-x * y * k, 1 - y * y * k, y], [-x, -y, z]]
            for i in range(3):
                for j in range(3):
                    m[i][j] = r[i][j]
    for i, v in enumerate(s.get("location") or [0, 0, 0]):
        m[i][3] = float(v)
    return m


def world_matrix(spec, name):
    """From the node's frame to that of the world node."""
    nodes = spec["nodes"]
    m = pose({})
    for _ in range(len(nodes) + 1):
        if name == "world":
            break
        m = mul(pose(nodes[name]), m)
        name = nodes[name].get("parent") or "world"
    else:
        raise Reject("parents in a circle")
    return m


def to_local(m, p):
    """Inverse of a rigid matrix applied to a point."""
    d = [p[i] - m[i][3] for i in range(3)]
    return [sum(m[i][j] * d[i] for i in range(3)) for j in range(3)]


def auto(name, s):
    out = {name + "-lost": {"node": name, "event": "lost", "histograms": {"wavelength": [300.0, 1000.0, 100]}}}
    spectra = {"wavelength": [300.0, 1000.0, 100], "angle": [0.0, 1.5708, 18]}
    if "box" not in s:
        out[name + "-escaping"] = {"node": name, "event": "escaping", "histograms": spectra}
        return out
    for label, facet, pos in faces(s):
        out["%s-%s" % (name, label)] = {"node": name, "event": "escaping", "facet": facet, "histograms": dict(spectra, position=pos)}
    return out


def faces(s):
    size = [float(x) for x in s["box"]["size"]]
    for label, axis, sign in (("top", 2, 1), ("bottom", 2, -1), ("east", 0, 1), ("west", 0, -1), ("north", 1, 1), ("south", 1, -1)):
        u, v = [i for i in range(3) if i != axis]
        bins = lambda i: max(10, min(60, int(size[i] * 10)))
        facet = [0, 0, 0]
        facet[axis] = sign
        yield label, facet, ["xyz"[u], "xyz"[v], [-size[u] / 2, size[u] / 2, bins(u)], [-size[v] / 2, size[v] / 2, bins(v)]]


def recorders(spec):
    """name -> (spec entry, came from record: true)"""
    out = {k: (v, False) for k, v in (spec.get("recorders") or {}).items()}
    for name, s in spec["nodes"].items():
        if s.get("record"):
            for k, v in auto(name, s).items():
                out.setdefault(k, (v, True))
    return out


def histogram_model(rec):
    out = []
    for p, v in (rec.get("histograms") or {}).items():
        if p == "position":
            out.append(("heatmap", v[0], v[1], [float(v[2][0]), float(v[2][1]), v[2][2]], [float(v[3][0]), float(v[3][1]), v[3][2]]))
        else:
            out.append(("hist", p, [float(v[0]), float(v[1]), v[2]]))
    return out


def same_matrix(flat, m, tol=1e-9):
    return len(flat) == 16 and all(abs(flat[4 * j + i] - m[i][j]) <= tol * max(1.0, abs(m[i][j])) for i in range(4) for j in range(4))


def payload_problem(p, spec):
    """None, or how a scene answer disagrees with the document."""
    if not isinstance(p, dict) or set(p) < {"nodes", "lights", "recorders", "spec"}:
        return "it has the keys %s" % (sorted(p) if isinstance(p, dict) else p)
    if not same(p["spec"], spec):
        return "its spec is %s" % json.dumps(p["spec"])[:300]
    nodes = spec["nodes"]
    geo = {k: v for k, v in nodes.items() if "light" not in v}
    got = {x["name"]: x for x in p["nodes"]}
    if len(got) != len(p["nodes"]) or set(got) != set(geo):
        return "it describes the nodes %s, the document has %s" % ([x["name"] for x in p["nodes"]], sorted(geo))
    for k, s in geo.items():
        x = got[k]
        kind = [q for q in GEOMS if q in s][0]
        v = s[kind]
        want = {"box": lambda: v["size"], "sphere": lambda: [v["radius"]], "cylinder": lambda: [v["length"], v["radius"]]}[kind]()
        if x["type"] != kind or len(x["params"]) < len(want) or any(abs(a - b) > 1e-12 * max(1, abs(b)) for a, b in zip(x["params"], want)):
            return "node %s is %s %s, the document says %s %s" % (k, x["type"], x["params"], kind, want)
        if x["root"] != (k == "world"):
            return "node %s: root is %s" % (k, x["root"])
        if abs(x["refractive_index"] - v["material"]["refractive-index"]) > 1e-12:
            return "node %s has refractive index %s" % (k, x["refractive_index"])
        if not same(x["spec"], s):
            return "the entry of node %s is %s" % (k, json.dumps(x["spec"])[:200])
        if not same_matrix(x["matrix"], world_matrix(spec, k)):
            return "node %s is placed at %s, the document says %s" % (k, x["matrix"], world_matrix(spec, k))
    lights = {k: v for k, v in nodes.items() if "light" in v}
    got = {x["name"]: x for x in p["lights"]}
    if len(got) != len(p["lights"]) or set(got) != set(lights):
        return "it describes the lights %s, the document has %s" % ([x["name"] for x in p["lights"]], sorted(lights))
    for k, s in lights.items():
        if not same(got[k]["spec"], s):
            return "the entry of light %s is %s" % (k, json.dumps(got[k]["spec"])[:200])
        if not same_matrix(got[k]["matrix"], world_matrix(spec, k)):
            return "light %s is placed at %s, the document says %s" % (k, got[k]["matrix"], world_matrix(spec, k))
    recs = recorders(spec)
    got = {x["name"]: x for x in p["recorders"]}
    if len(got) != len(p["recorders"]) or set(got) != set(recs):
        return "it describes the recorders %s, the document has %s" % (sorted(got), sorted(recs))
    for k, (s, a) in recs.items():
        x = got[k]
        f = [float(v) for v in s["facet"]] if s.get("facet") is not None else None
        if x["node"] != s["node"] or x["event"] != s["event"] or x["facet"] != f or x["auto"] != a:
            return "recorder %s is %s, the document says %s (automatic: %s)" % (k, {q: x[q] for q in ("node", "event", "facet", "auto")}, s, a)
        h = []
        for y in x["histograms"]:
            h.append(("heatmap", y["prop_a"], y["prop_b"], y["range_a"], y["range_b"]) if y["kind"] == "heatmap" else ("hist", y["prop"], y["range"]))
        if h != histogram_model(s):
            return "recorder %s has the histograms %s, the document says %s" % (k, h, histogram_model(s))
    return None


def same(a, b):
    """Equal including the difference between 1, 1.0 and true; order of keys aside."""
    if isinstance(a, dict) and isinstance(b, dict):
        return set(a) == set(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, list) and isinstance(b, list):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, bool) or isinstance(b, bool) or a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    # JSON may write 1.0 as 1.0; large floats as integers
    return num(a) and num(b) and a == b and (isinstance(a, int) == isinstance(b, int) or abs(a) >= 1e15)


# ---------------------------------------------------------------------------
# structured edits

SNIPPETS = {
    "box": {"location": [0.0, 0.0, 0.0], "box": {"size": [1.0, 1.0, 1.0], "material": {"refractive-index": 1.5}}},
    "sphere": {"location": [0.0, 0.0, 0.0], "sphere": {"radius": 0.5, "material": {"refractive-index": 1.5}}},
    "cylinder": {"location": [0.0, 0.0, 0.0], "cylinder": {"length": 1.0, "radius": 0.5, "material": {"refractive-index": 1.5}}},
    "light": {"location": [0.0, 0.0, 2.0], "direction": [0.0, 0.0, -1.0], "light": {"wavelength": 555, "mask": {"direction": {"cone": {"half-angle": 20}}}}},
}


def fresh(existing, stem):
    i = 1
    while "%s-%d" % (stem, i) in existing:
        i += 1
    return "%s-%d" % (stem, i)


class Approx:
    """A location the model knows only up to rounding."""

    def __init__(self, v):
        self.v = v


def apply_patch(spec, scene, p):
    """The spec after a structured edit.  `scene`: the spec the parsed scene stands for (None: nothing parsed).
    Returns (new spec, {path: Approx}).  Raises Reject or Unknown."""
    if not isinstance(spec, dict):
        raise Reject("not a mapping")
    known(plain(spec))
    d = copy.deepcopy(spec)
    try:
        return _apply(d, scene, p)
    except (Reject, Unknown):
        raise
    except (KeyError, TypeError, AttributeError, IndexError, ValueError):
        raise Reject("the edit does not fit the document")


def _apply(d, scene, p):
    op = p["op"]
    if op == "set":
        path, value = p["path"], p["value"]
        need(isinstance(path, list) and path, "path")
        known(all(isinstance(k, str) for k in path[:-1]))
        t = d
        for k in path[:-1]:
            known(isinstance(t, dict))
            if k not in t:
                t[k] = {}
            t = t[k]
        known(isinstance(t, (dict, list)))
        if isinstance(t, list):
            known(isinstance(path[-1], int) and 0 <= path[-1] < len(t))
        else:
            known(isinstance(path[-1], str))
        t[path[-1]] = copy.deepcopy(value)
        return d, {}
    if op == "move":
        name, w = p["node"], p["world_position"]
        need(scene is not None, "no scene")
        need(name in scene["nodes"], "unknown node")
        need(name != "world", "root")
        known(isinstance(w, list) and len(w) == 3 and all(num(x) for x in w))
        parent = scene["nodes"][name].get("parent") or "world"
        d["nodes"][name]["location"] = None
        v = to_local(world_matrix(scene, parent), [float(x) for x in w])
        return d, {("nodes", name, "location"): Approx(v)}
    if op == "add-node":
        kind = p["kind"]
        need(kind in SNIPPETS, "kind")
        d["nodes"][fresh(d["nodes"], kind)] = copy.deepcopy(SNIPPETS[kind])
        return d, {}
    if op == "add-recorder":
        node = p["node"]
        need(node in d["nodes"], "unknown node")
        recs = d.setdefault("recorders", {})
        recs[fresh(recs, "%s-escaping" % node)] = {"node": node, "event": "escaping", "histograms": {"wavelength": [400, 900, 80]}}
        return d, {}
    if op == "add-face-recorders":
        node = p["node"]
        need(node in d["nodes"] and "box" in d["nodes"][node], "no box")
        recs = d.setdefault("recorders", {})
        for label, facet, pos in faces(d["nodes"][node]):
            recs.setdefault("%s-%s" % (node, label), {"node": node, "event": "escaping", "facet": facet, "histograms": {"position": pos}})
        return d, {}
    if op == "add-component":
        c = d.setdefault("components", {})
        c[fresh(c, "absorber")] = {"absorber": {"coefficient": 1.0}}
        return d, {}
    if op == "delete-component":
        name = p["component"]
        del d["components"][name]
        for s in d["nodes"].values():
            for g in GEOMS:
                m = s.get(g, {}).get("material", {})
                if name in (m.get("components") or []):
                    m["components"] = [c for c in m["components"] if c != name]
        return d, {}
    if op == "update-recorder":
        name = p["recorder"]
        recs = d.setdefault("recorders", {})
        if name not in recs:
            need(scene is not None, "no scene")
            here = recorders(scene)
            need(name in here, "unknown recorder")
            s = here[name][0]
            new = {"node": s["node"], "event": s["event"]}
            if s.get("facet") is not None:
                new["facet"] = [float(x) for x in s["facet"]]
            new["histograms"] = {}
            for h in histogram_model(s):
                if h[0] == "heatmap":
                    new["histograms"]["position"] = [h[1], h[2], h[3], h[4]]
                else:
                    new["histograms"][h[1]] = h[2]
            recs[name] = new
        for k, v in p["changes"].items():
            need(k in ("event", "facet", "atol"), "recorder key")
            recs[name][k] = copy.deepcopy(v)
        return d, {}
    if op == "delete-recorder":
        recs = d.setdefault("recorders", {})
        need(p["recorder"] in recs, "not in the document")
        del recs[p["recorder"]]
        return d, {}
    if op == "delete-node":
        name = p["node"]
        del d["nodes"][name]
        for k in list(d.get("recorders") or {}):
            if d["recorders"][k].get("node") == name:
                del d["recorders"][k]
        return d, {}
    raise Reject("unknown operation")


def resolve(model, approx, text):
    """The document a patch answer carries: None and the spec if it is the model's, else what is wrong."""
    try:
        got = yaml.safe_load(text)
    except yaml.YAMLError as e:
        return "it cannot be read again: %s" % e, None
    want = copy.deepcopy(model)
    for path, a in approx.items():
        t, u = want, got
        try:
            for k in path[:-1]:
                t, u = t[k], u[k]
            v = u[path[-1]]
            if len(v) != 3 or any(not isinstance(x, float) or abs(x - y) > 1e-6 for x, y in zip(v, a.v)):
                return "%s is %s, expected %s" % (".".join(path), v, a.v), None
        except (KeyError, TypeError):
            return "%s is missing" % ".".join(path), None
        t[path[-1]] = v
    if not same(got, want):
        return "it is %s, expected %s" % (diff(got, want), ""), None
    return None, got


def diff(a, b, path=""):
    if isinstance(a, dict) and isinstance(b, dict):
        for k in list(a) + [k for k in b if k not in a]:
            if k not in b:
                return "with unexpected %s/%s = %r" % (path, k, a[k])
            if k not in a:
                return "without %s/%s = %r" % (path, k, b[k])
            if not same(a[k], b[k]):
                return diff(a[k], b[k], path + "/" + str(k))
    return "%s = %r instead of %r" % (path, a, b)


VALUES = [1, 2.5, 1e-05, 0.1, -1, 0, "yes", "no", "x", "1.0", True, None, [1, 2, 3], [0.0, 1e-07, 2.5], {"a": 1}, 1e22]


def patch(r, spec, files, wild=0.2, again=None):
    """A structured edit as the interface (or a script) would send it."""
    if isinstance(again, dict):
        return dict(again)
    nodes = list(spec.get("nodes") or {}) if isinstance(spec, dict) and isinstance(spec.get("nodes"), dict) else ["world"]
    nd = spec["nodes"] if isinstance(spec, dict) and isinstance(spec.get("nodes"), dict) else {}
    comps = list(spec.get("components") or {}) if isinstance(spec, dict) and isinstance(spec.get("components"), dict) else []
    recs = list(spec.get("recorders") or {}) if isinstance(spec, dict) and isinstance(spec.get("recorders"), dict) else []
    op = r.choice(["set"] * 6 + ["move", "move", "add-node", "add-recorder", "add-face-recorders", "add-component", "delete-component", "update-recorder", "delete-recorder",
                                 "delete-node", "update-auto"])
    if again is not None:
        op = {"add": r.choice(["add-node", "add-component", "add-recorder"]), "delete": r.choice(["delete-node", "delete-component", "delete-recorder"])}.get(again, again)
    w = r.random() < wild
    node = r.choice(nodes) if not w or r.random() < 0.6 else r.choice(["nowhere", ""])
    if op == "set":
        s = nd.get(node) or {}
        opts = []
        if isinstance(s, dict):
            kind = next((k for k in GEOMS + ("light",) if k in s), None)
            opts.append((["nodes", node, "location"], [round(r.uniform(-2, 2), 2), 0, r.choice([0.5, 1e-05])]))
            opts.append((["nodes", node, "record"], r.random() < 0.5))
            opts.append((["nodes", node, "parent"], r.choice(nodes + ["world"])))
            opts.append((["nodes", node, "direction"], r.choice([[0, 0, -1], [0.0, 1.0, 0.0], [1, 1, 1]])))
            if kind == "box":
                opts.append((["nodes", node, "box", "size"], [r.choice([1, 2.5]), r.choice([0.3, 1]), 1.5]))
                opts.append((["nodes", node, "box", "size", r.randint(0, 2)], r.choice([1, 0.75])))
            if kind in ("sphere", "cylinder"):
                opts.append((["nodes", node, kind, "radius"], r.choice([0.25, 1, 9.5, 1e-05])))
            if kind and kind != "light":
                opts.append((["nodes", node, kind, "material", "refractive-index"], r.choice([1, 1.5, 1.7, 0.5])))
                opts.append((["nodes", node, kind, "material", "components"], r.sample(comps, r.randint(0, min(2, len(comps)))) + (["missing"] if w else [])))
            if kind == "light":
                opts.append((["nodes", node, "light", "wavelength"], r.choice([500, 612.5])))
                opts.append((["nodes", node, "light", "mask", "direction"], {"cone": {"half-angle": r.choice([10, 5.5])}}))
        if comps:
            c = r.choice(comps)
            q = (spec["components"][c] or {})
            if "absorber" in q:
                opts.append((["components", c, "absorber", "coefficient"], r.choice([0.5, 2, 1e-05, 0])))
                if files:
                    opts.append((["components", c, "absorber", "spectrum"], {"file": r.choice(files)}))
            if "luminophore" in q:
                opts.append((["components", c, "luminophore", "emission", "quantum-yield"], r.choice([0.5, 1, 0, 1.5])))
        path, value = r.choice(opts) if opts else (["nodes", "world", "record"], True)
        if w:
            value = r.choice(VALUES)
        if w and r.random() < 0.3:
            path = path[:-1] + [r.choice(["new", "extra"])]
        return dict(op="set", path=path, value=value)
    if op == "move":
        deep = [k for k in nodes if isinstance(nd.get(k), dict) and nd[k].get("parent") in nodes and nd[k]["parent"] != "world"]
        if deep and r.random() < 0.5:
            node = r.choice(deep)
        return dict(op="move", node=node, world_position=[round(r.uniform(-4, 4), 3), round(r.uniform(-1, 1), 7), r.choice([0, 1.5])])
    if op == "add-node":
        return dict(op=op, kind=r.choice(["box", "sphere", "cylinder", "light"] + (["torus"] if w else [])))
    if op == "add-recorder" and not w and "light" in (nd.get(node) or {}):
        node = "world"
    if op in ("add-recorder", "add-face-recorders", "delete-node"):
        return dict(op=op, node=node)
    if op == "add-component":
        return dict(op=op)
    if op == "delete-component":
        return dict(op=op, component=r.choice(comps) if comps and not w else "missing")
    if op == "delete-recorder":
        return dict(op=op, recorder=r.choice(recs) if recs and not w else node + "-lost")
    name = r.choice(recs) if recs and op == "update-recorder" else "%s-%s" % (node, r.choice(["lost", "escaping", "top", "west", "north"]))
    ch = r.choice([{"event": r.choice(EVENTS)}, {"facet": r.choice([[0, 0, 1], [1.0, 0, 0]])}, {"atol": 1e-05}, {"event": "reflected", "atol": 0.1}])
    if w:
        ch = r.choice([{"node": "world"}, {"event": "yes"}, {"facet": None}, {}, {"histograms": {}}])
    out = dict(op="update-recorder", recorder=name, changes=ch)
    if w and r.random() < 0.2:
        out.pop(r.choice(list(out)))
    return out
