"""Random optical scenes as JSON specs, and the pvtrace objects made from them.

Shapes are nested or disjoint with a margin (no touching or crossing surfaces),
at random places and orientations of a random node tree (the tree need not
follow the nesting), with every kind of material component, surface, light and
recorder the engine accepts."""
import math


def _unit(r):
    while True:
        v = [r.uniform(-1, 1) for _ in range(3)]
        n = math.sqrt(sum(x * x for x in v))
        if 0.1 < n < 1:
            return [x / n for x in v]


def _shape(r, bound, mesh=False):
    k = r.choice(["box", "sphere", "cylinder"] + ["mesh", "ell"] * mesh)
    if k == "ell":
        h = bound * r.uniform(0.15, 0.6)
        return dict(kind=k, a=math.sqrt(bound * bound - h * h) * 6 / math.sqrt(74), h=h)
    if k == "mesh":
        return dict(kind=k, radius=bound, solid=r.choice(sorted(SOLIDS)))
    if k == "sphere":
        return dict(kind=k, radius=bound)
    if k == "box":
        v = [r.uniform(0.3, 1.0) for _ in range(3)]
        s = 2 * bound / math.sqrt(sum(x * x for x in v))
        return dict(kind=k, size=[x * s for x in v])
    t = r.uniform(0.3, 1.2)
    return dict(kind=k, length=2 * bound * math.sin(t), radius=bound * math.cos(t))


_G = (1 + math.sqrt(5)) / 2
SOLIDS = {
    "octahedron": [[1, 0, 0], [-1, 0, 0], [0, 1, 0], [0, -1, 0], [0, 0, 1], [0, 0, -1]],
    "tetrahedron": [[1, 1, 1], [1, -1, -1], [-1, 1, -1], [-1, -1, 1]],
    "icosahedron": [[0, a, b] for a in (-1, 1) for b in (-_G, _G)] + [[a, b, 0] for a in (-1, 1) for b in (-_G, _G)] + [[b, 0, a] for a in (-1, 1) for b in (-_G, _G)],
}
_faces = {}


def faces(solid):
    """[(i, j, k)] of the solid on the unit sphere, counterclockwise from outside, and its vertices."""
    if solid not in _faces:
        vs = SOLIDS[solid]
        m = math.sqrt(sum(x * x for x in vs[0]))
        vs = [[x / m for x in v] for v in vs]
        out = []
        n = len(vs)
        for i in range(n):
            for j in range(n):
                for k in range(n):
                    if i < j and i < k and j != k:
                        a, b = [x - y for x, y in zip(vs[j], vs[i])], [x - y for x, y in zip(vs[k], vs[i])]
                        c = [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
                        l = math.sqrt(sum(x * x for x in c))
                        if l < 1e-9:
                            continue
                        c = [x / l for x in c]
                        h = sum(x * y for x, y in zip(c, vs[i]))
                        if h > 0 and all(sum(x * y for x, y in zip(c, v)) < h + 1e-9 for v in vs):
                            out.append(((i, j, k), c, h))
        _faces[solid] = vs, out
    return _faces[solid]


def planes(s):
    """[(outward normal, distance)] of a mesh shape."""
    return [(c, h * s["radius"]) for _, c, h in faces(s["solid"])[1]]


def ell(s):
    """The two overlapping boxes [(low, high)] of an L-shaped prism, about its centre of mass."""
    a, h, c = s["a"], s["h"], s["a"] / 6
    return [([c - a, c - a, -h], [c + a, c, h]), ([c - a, c - a, -h], [c, c + a, h])]


def inner(s):
    if s["kind"] == "ell":
        return min(s["h"], s["a"] * math.sqrt(2) / 6)
    if s["kind"] == "mesh":
        return min(h for _, h in planes(s))
    if s["kind"] == "sphere":
        return s["radius"]
    if s["kind"] == "box":
        return min(s["size"]) / 2
    return min(s["length"] / 2, s["radius"])


def outer(s):
    if s["kind"] == "ell":
        return math.hypot(s["a"] * math.sqrt(74) / 6, s["h"])
    if s["kind"] in ("sphere", "mesh"):
        return s["radius"]
    if s["kind"] == "box":
        return math.sqrt(sum(x * x for x in s["size"])) / 2
    return math.hypot(s["length"] / 2, s["radius"])


def dist(a, b):
    return math.sqrt(sum((x - y) ** 2 for x, y in zip(a, b)))


def component(r, name, weak=False, spectra=True):
    kind = r.choice(["Absorber", "Scatterer", "Scatterer", "Luminophore", "Luminophore", "Reactor"])
    c = dict(kind=kind, name=name)
    a = r.choice([0.02, 0.1, 0.5, 2.0]) * (0.2 if weak else 1)
    if spectra and r.random() < 0.5:
        c["abs"] = dict(centre=r.uniform(400, 800), width=r.uniform(30, 200), peak=a, floor=r.choice([0.0, a * 0.05]), n=r.choice([5, 20, 80]))
    else:
        c["abs"] = a
    if kind in ("Scatterer", "Luminophore"):
        c["qy"] = r.choice([1.0, 1.0, 0.9, 0.5, 0.0])
        if r.random() < 0.3:
            c["tau_rad"] = r.choice([1e-9, 5e-9])
            if r.random() < 0.6:
                c["tau_nr"] = r.choice([1e-9, 2e-8])
        elif r.random() < 0.2:
            c["tau_nr"] = r.choice([1e-9, 2e-8])
        c["phase"] = r.choice([["isotropic"], ["isotropic"], ["hg", r.choice([-0.6, 0.2, 0.8])], ["cone", r.choice([0.2, 0.7, 1.4])]])
    elif kind == "Absorber" and r.random() < 0.3:
        c["tau_nr"] = 1e-9
    if kind == "Luminophore":
        c["ems"] = dict(centre=r.uniform(450, 850), width=r.uniform(20, 80), peak=1.0, floor=0.001, n=r.choice([20, 200]))
    return c


PROPS = ["wavelength", "angle", "duration", "pathlength", "x", "y", "z"]


def _hist(r, size, p=None):
    p = p or r.choice(PROPS)
    lo, hi = {"wavelength": (300, 1000), "angle": (0, 1.5707963), "duration": (0, 1e-8), "pathlength": (0, 60)}.get(p, (-size, size))
    if r.random() < 0.3:        # a window that misses some
        lo, hi = lo + (hi - lo) * 0.3, lo + (hi - lo) * 0.7
    return [p, lo, hi, r.choice([1, 3, 10, 40])]


def recorder(r, name, node, is_root, shape):
    if is_root:
        event = r.choice(["exit", "exit", "exit", "killed", "lost", "reacted", "escaping"])
    else:
        event = r.choice(["entering", "entering", "escaping", "escaping", "reflected", "lost", "reacted", "killed"])
    rec = dict(name=name, event=event)
    if event in ("entering", "escaping", "reflected", "exit") and r.random() < 0.5 and shape["kind"] != "sphere":
        if shape["kind"] == "box":
            rec["axis"] = [r.randint(0, 2), r.choice([-1, 1])]
        else:
            rec["axis"] = [2, r.choice([-1, 1])]
        rec["atol"] = r.choice([1e-6, 1e-6, 1e-3, 0.5])
    rec["hists"] = []
    size = outer(shape)
    for _ in range(r.choice([0, 1, 1, 2, 3])):
        if r.random() < 0.3:
            rec["hists"].append(dict(a=_hist(r, size), b=_hist(r, size)))
        else:
            rec["hists"].append(dict(a=_hist(r, size)))
    return rec


def light(r, name, exotic=True):
    l = dict(name=name)
    l["wavelength"] = r.choice([None, ["const", r.uniform(380, 850)], ["const", r.uniform(380, 850)], ["spectrum", r.uniform(450, 750), r.uniform(20, 60)]])
    l["position"] = r.choice([None, ["rect", r.uniform(0.1, 1), r.uniform(0.1, 1)], ["circle", r.uniform(0.1, 1)], ["cube", 0.3, r.uniform(0.1, 1), 0.5]])
    l["direction"] = r.choice([None, ["cone", r.choice([0.1, 0.6, 1.5])], ["isotropic"], ["lambertian"], ["hg", r.choice([-0.5, 0.4, 0.9])]])
    if exotic and r.random() < 0.15:
        l["custom"] = r.choice(["wavelength", "position", "direction"])
    return l


def scene(r, recorders=0, shapes=None, lights=None, spectra=True, exotic=True, absorb_world=True, mesh=False):
    n = r.choice([0, 1, 1, 2, 2, 3, 4]) if shapes is None else shapes
    root = _shape(r, r.choice([12.0, 20.0]))
    nodes = [dict(name="world", shape=root, centre=[0.0, 0.0, 0.0], n=r.choice([1.0, 1.0, 1.0, 1.33]), parent=-1, pose=None,
                  surface="fresnel", comps=[], inside=-1)]
    k = 0
    tries = 0
    while len(nodes) < n + 1 and tries < 200:
        tries += 1
        host = r.randrange(len(nodes))
        H = nodes[host]
        room = inner(H["shape"])
        rb = room * r.uniform(0.15, 0.75)
        if rb < 0.3:
            continue
        gap = max(0.0, room - rb - 0.05 * room)
        off = [x * gap * r.random() for x in _unit(r)]
        c = [a + b for a, b in zip(H["centre"], off)]
        s = _shape(r, rb, mesh)
        if any(j != host and m["inside"] == host and dist(m["centre"], c) < rb + outer(m["shape"]) + 0.02 for j, m in enumerate(nodes)):
            continue
        k += 1
        nodes.append(dict(name="n%d" % k, shape=s, centre=c, n=r.choice([1.0, 1.3, 1.5, 1.5, 1.8, 2.6]), parent=r.choice([0, host]), pose=None,
                          rot=[r.uniform(0, 3.1), _unit(r)] if r.random() < 0.7 else None,
                          surface=r.choice(["fresnel", "fresnel", "fresnel", "null"]), comps=[], inside=host))
    cid = 0
    for i, m in enumerate(nodes):
        cnt = r.choice([0, 0, 1, 2, 3]) if i else (r.choice([0, 0, 0, 1]) if absorb_world else 0)
        for _ in range(cnt):
            m["comps"].append(component(r, "c%d" % cid, weak=(i == 0), spectra=spectra))
            cid += 1
    ls = []
    room = inner(root) * 0.6
    for i in range(r.choice([1, 1, 2, 3]) if lights is None else lights):
        l = light(r, "light%d" % i, exotic)
        l["centre"] = [x * room * r.random() for x in _unit(r)]
        t = nodes[r.randrange(len(nodes))]
        aim = [a - b for a, b in zip(t["centre"], l["centre"])]
        d = math.sqrt(sum(x * x for x in aim))
        l["aim"] = [x / d for x in aim] if d > 0.1 and r.random() < 0.8 else _unit(r)
        l["parent"] = 0
        ls.append(l)
    recs = []
    for i in range(recorders):
        j = r.randrange(len(nodes))
        recs.append(dict(recorder(r, "r%d" % i, nodes[j]["name"], j == 0, nodes[j]["shape"]), node=j))
    return dict(nodes=nodes, lights=ls, recorders=recs)


# ---------------------------------------------------------------------------

def _table(d):
    import numpy as np
    lo, hi = d.get("range", (100.0, 2000.0))
    x = np.linspace(lo, hi, max(4, d["n"]))
    y = d["floor"] + d["peak"] * np.exp(-(((x - d["centre"]) / d["width"]) ** 2))
    return np.column_stack((x, y))


def phase(p):
    from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic
    if p is None or p[0] == "isotropic":
        return isotropic
    return HenyeyGreenstein(p[1]) if p[0] == "hg" else Cone(p[1])


def make_component(c):
    from pvtrace.material.component import Absorber, Luminophore, Reactor, Scatterer
    a = _table(c["abs"]) if isinstance(c["abs"], dict) else c["abs"]
    if c["kind"] == "Absorber":
        return Absorber(a, tau_nr=c.get("tau_nr"), name=c["name"], hist=bool(c.get("hist")))
    if c["kind"] == "Reactor":
        return Reactor(a, name=c["name"], hist=bool(c.get("hist")))
    kw = dict(hist=bool(c.get("hist")), quantum_yield=c["qy"], tau_rad=c.get("tau_rad"), tau_nr=c.get("tau_nr"), phase_function=phase(c.get("phase")), name=c["name"])
    if c["kind"] == "Scatterer":
        return Scatterer(a, **kw)
    return Luminophore(a, emission=_table(c["ems"]), **kw)


def make_shape(s, material):
    from pvtrace.geometry.box import Box
    from pvtrace.geometry.cylinder import Cylinder
    from pvtrace.geometry.sphere import Sphere
    if s["kind"] == "box":
        return Box(tuple(s["size"]), material=material)
    if s["kind"] == "sphere":
        return Sphere(s["radius"], material=material)
    if s["kind"] == "ell":
        import numpy as np
        import trimesh
        from pvtrace.geometry.mesh import Mesh
        a, h, c = s["a"], s["h"], s["a"] / 6
        poly = [(c - a, c - a), (c + a, c - a), (c + a, c), (c, c), (c, c + a), (c - a, c + a)]
        vs = [(x, y, -h) for x, y in poly] + [(x, y, h) for x, y in poly]
        fs = []
        for i, j, k in ((0, 1, 2), (0, 2, 3), (0, 3, 4), (0, 4, 5)):
            fs += [(i, k, j), (i + 6, j + 6, k + 6)]
        for i in range(6):
            j = (i + 1) % 6
            fs += [(i, j, j + 6), (i, j + 6, i + 6)]
        return Mesh(trimesh.Trimesh(np.array(vs), fs, process=False), material=material)
    if s["kind"] == "mesh":
        import numpy as np
        import trimesh
        from pvtrace.geometry.mesh import Mesh
        vs, fs = faces(s["solid"])
        return Mesh(trimesh.Trimesh(np.array(vs) * s["radius"], [f for f, _, _ in fs], process=False), material=material)
    return Cylinder(s["length"], s["radius"], material=material)


def make_light(l):
    import numpy as np
    from pvtrace.light import light as L
    from pvtrace.material.distribution import Distribution
    from pvtrace.material.utils import Cone, HenyeyGreenstein, isotropic, lambertian
    w, p, d = l["wavelength"], l["position"], l["direction"]
    wav = None
    if w is not None:
        if w[0] == "const":
            wav = L.ConstantWavelengthMask(w[1])
        else:
            t = _table(dict(centre=w[1], width=w[2], peak=1.0, floor=0.0, n=400))
            wav = L.SpectrumWavelengthMask(Distribution(x=t[100:180, 0], y=t[100:180, 1] + 1e-3))
    pos = None
    if p is not None:
        pos = {"rect": L.RectangularMask, "circle": L.CircularMask, "cube": L.CubeMask}[p[0]](*p[1:])
    di = None
    if d is not None:
        di = {"cone": lambda: Cone(d[1]), "isotropic": lambda: isotropic, "lambertian": lambda: lambertian, "hg": lambda: HenyeyGreenstein(d[1])}[d[0]]()
    c = l.get("custom")
    if c == "wavelength":
        wav = lambda: 500.0 + 100.0 * np.random.uniform()
    elif c == "position":
        pos = lambda: (0.1 * np.random.uniform(), 0.0, 0.05)
    elif c == "direction":
        di = lambda: (0.0, 0.6, 0.8)
    return L.Light(wavelength=wav, position=pos, direction=di, name=l["name"])


def partial(share):
    """A surface of constant reflectivity that does not bend what it lets through."""
    from pvtrace.material.surface import FresnelSurfaceDelegate

    class Partial(FresnelSurfaceDelegate):
        def reflectivity(self, *a):
            return share

        def transmitted_direction(self, surface, ray, *a):
            return ray.direction
    return Partial()


def _rot(angle, axis):
    from pvtrace.geometry.transformations import rotation_matrix
    return rotation_matrix(angle, axis)


def build(spec, recorders=None):
    """-> Scene.  `recorders`: use these instead of the spec's."""
    import numpy as np
    from pvtrace.material.material import Material
    from pvtrace.material.surface import FresnelSurfaceDelegate, NullSurfaceDelegate, Surface
    from pvtrace.scene.node import Node
    from pvtrace.scene.scene import Scene
    from pvtrace.engine import Heatmap, Histogram, Recorder
    poses = []
    objs = []
    for i, m in enumerate(spec["nodes"]):
        T = np.eye(4)
        if m.get("rot"):
            T = _rot(m["rot"][0], m["rot"][1])
        T[:3, 3] = m["centre"]
        poses.append(T)
        mat = Material(m["n"], surface=Surface(FresnelSurfaceDelegate() if m["surface"] == "fresnel" else NullSurfaceDelegate() if m["surface"] == "null" else partial(m["surface"][1])),
                       components=[make_component(c) for c in m["comps"]])
        node = Node(name=m["name"], geometry=make_shape(m["shape"], mat))
        if i:
            p = m["parent"]
            node.parent = objs[p]
            node.pose = np.linalg.inv(poses[p]) @ T
        objs.append(node)
    for l in spec["lights"]:
        node = Node(name=l["name"], parent=objs[l["parent"]], light=make_light(l))
        node.location = np.array(l["centre"], dtype=float)
        node.look_at(tuple(l["aim"]))
    for rec in (spec["recorders"] if recorders is None else recorders):
        hs = []
        for h in rec["hists"]:
            if h.get("b"):
                hs.append(Heatmap(h["a"][0], h["b"][0], tuple(h["a"][1:]), tuple(h["b"][1:])))
            else:
                hs.append(Histogram(*h["a"]))
        facet = None
        if rec.get("axis"):
            v = np.zeros(3)
            v[rec["axis"][0]] = rec["axis"][1]
            facet = tuple((poses[rec["node"]][:3, :3] @ v).tolist())
        objs[rec["node"]].recorders.append(Recorder(rec["name"], event=rec["event"], facet=facet, atol=rec.get("atol", 1e-6), histograms=hs))
    return Scene(objs[0])


def stack(r, spec):
    """Adds boxes that touch each other (as layers on a plate do) where there is room; returns whether there was."""
    hosts = [i for i, m in enumerate(spec["nodes"]) if not any(q["inside"] == i for q in spec["nodes"]) and inner(m["shape"]) > 0.5]
    if not hosts:
        return False
    host = r.choice(hosts)
    H = spec["nodes"][host]
    rb = inner(H["shape"]) * r.uniform(0.3, 0.8)
    v = [r.uniform(0.3, 1.0) for _ in range(3)]
    k = 2 * rb / math.sqrt(sum(x * x for x in v))
    v = [x * k for x in v]
    axis = r.randrange(3)
    rot = [r.uniform(0, 3.1), _unit(r)] if r.random() < 0.5 else None
    cuts = [0.0] + sorted(r.choice([0.2, 0.5, 0.6, 0.75, r.random()]) for _ in range(r.choice([1, 1, 2]))) + [1.0]
    cuts = [c for i, c in enumerate(cuts) if not i or c - cuts[i - 1] > 0.05]
    from . import geom
    R = geom.rotation(*rot) if rot else None
    for i, (a, b) in enumerate(zip(cuts, cuts[1:])):
        size = list(v)
        size[axis] = v[axis] * (b - a)
        off = [0.0, 0.0, 0.0]
        off[axis] = v[axis] * ((a + b) / 2 - 0.5)
        if R:
            off = [geom.dot(q, off) for q in R]
        spec["nodes"].append(dict(name="layer%d" % i, shape=dict(kind="box", size=size), centre=[x + y for x, y in zip(H["centre"], off)], n=r.choice([1.0, 1.3, 1.5, 1.8]),
                                  parent=r.choice([0, host]), pose=None, rot=rot, surface=r.choice(["fresnel", "fresnel", "null"]),
                                  comps=[component(r, "s%d_%d" % (i, j)) for j in range(r.choice([0, 1]))], inside=host))
    return True


def scale(spec, k):
    """Every length of the spec times k (lights only their place)."""
    for m in spec["nodes"]:
        m["centre"] = [x * k for x in m["centre"]]
        s = m["shape"]
        for f in ("radius", "length", "a", "h"):
            if f in s:
                s[f] *= k
        if "size" in s:
            s["size"] = [x * k for x in s["size"]]
        for c in m["comps"]:
            if isinstance(c["abs"], dict):
                c["abs"]["peak"] /= k
                c["abs"]["floor"] /= k
            else:
                c["abs"] /= k
    for l in spec["lights"]:
        l["centre"] = [x * k for x in l["centre"]]
        if l["position"]:
            p = l["position"]
            l["position"] = [p[0]] + [x * min(k, 1) for x in p[1:]]
        if l.get("custom") == "position":
            del l["custom"]


def tidy(spec):
    """Simpler variants of a spec, for minimisation."""
    import json

    def cp():
        return json.loads(json.dumps(spec))
    for i in range(len(spec["recorders"])):
        s = cp()
        del s["recorders"][i]
        yield s
    for i, rec in enumerate(spec["recorders"]):
        for h in range(len(rec["hists"])):
            s = cp()
            del s["recorders"][i]["hists"][h]
            yield s
    if len(spec["lights"]) > 1:
        for i in range(len(spec["lights"])):
            s = cp()
            del s["lights"][i]
            yield s
    for i in range(len(spec["nodes"]) - 1, 0, -1):
        if any(m["parent"] == i or m["inside"] == i for m in spec["nodes"]) or any(q["node"] == i for q in spec["recorders"]):
            continue
        s = cp()
        del s["nodes"][i]
        for m in s["nodes"]:
            if m["parent"] > i:
                m["parent"] -= 1
            if m["inside"] > i:
                m["inside"] -= 1
        for q in s["recorders"]:
            if q["node"] > i:
                q["node"] -= 1
        yield s
    for i, m in enumerate(spec["nodes"]):
        for k in range(len(m["comps"])):
            s = cp()
            del s["nodes"][i]["comps"][k]
            yield s
        if m.get("rot"):
            s = cp()
            s["nodes"][i]["rot"] = None
            yield s


def replay_lights(scene, rays):
    """Replaces the lights of the scene by one that emits the given rays."""
    from pvtrace.light import light as L
    from pvtrace.scene.node import Node
    for n in list(scene.light_nodes):
        n.light = None
    state = dict(w=0, p=0, d=0)

    def nxt(k, f):
        def g():
            i = state[k]
            state[k] += 1
            return f(rays[i])
        return g
    Node(name="replay", parent=scene.root, light=L.Light(wavelength=nxt("w", lambda x: x.wavelength), position=nxt("p", lambda x: tuple(x.position)),
                                                         direction=nxt("d", lambda x: tuple(x.direction)), name="replay"))
    return scene
