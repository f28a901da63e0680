"""Geometry of a scene spec, worked out independently of pvtrace (plain floats)."""
import math

from . import scenes

C = 29979245800.0           # cm/s
KB = 1.380649e-23 / 1.60217662e-19


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]


def sub(a, b):
    return [a[0] - b[0], a[1] - b[1], a[2] - b[2]]


def along(p, d, t):
    return [p[0] + d[0] * t, p[1] + d[1] * t, p[2] + d[2] * t]


def rotation(angle, axis):
    x, y, z = axis
    k = 1.0 / math.sqrt(x * x + y * y + z * z)
    x, y, z = x * k, y * k, z * k
    c, s = math.cos(angle), math.sin(angle)
    v = 1 - c
    return [[c + x * x * v, x * y * v - z * s, x * z * v + y * s],
            [y * x * v + z * s, c + y * y * v, y * z * v - x * s],
            [z * x * v - y * s, z * y * v + x * s, c + z * z * v]]


class Body:
    def __init__(self, m, i):
        self.i, self.name, self.shape, self.n = i, m["name"], m["shape"], m["n"]
        self.surface, self.comps, self.inside = m["surface"], m["comps"], m["inside"]
        self.c = m["centre"]
        self.R = rotation(*m["rot"]) if m.get("rot") else None
        self.pieces = 2 if self.shape["kind"] == "ell" else 1       # convex ones
        if self.shape["kind"] == "mesh":
            self.planes = scenes.planes(self.shape)

    def point(self, p):
        return self.vector(sub(p, self.c))

    def vector(self, v):
        if self.R is None:
            return list(v)
        R = self.R
        return [R[0][k] * v[0] + R[1][k] * v[1] + R[2][k] * v[2] for k in range(3)]

    def world(self, v):
        if self.R is None:
            return list(v)
        return [dot(r, v) for r in self.R]

    def faces(self, q, piece=0):
        """Signed distances of the local point to each face; inside where all are negative."""
        s = self.shape
        k = s["kind"]
        if k == "ell":
            lo, hi = scenes.ell(s)[piece]
            return [x for a in range(3) for x in (lo[a] - q[a], q[a] - hi[a])]
        if k == "box":
            out = []
            for a in range(3):
                out += [-q[a] - s["size"][a] / 2, q[a] - s["size"][a] / 2]
            return out
        if k == "sphere":
            return [math.sqrt(dot(q, q)) - s["radius"]]
        if k == "cylinder":
            return [-q[2] - s["length"] / 2, q[2] - s["length"] / 2, math.hypot(q[0], q[1]) - s["radius"]]
        return [dot(n, q) - h for n, h in self.planes]

    def depth(self, p):
        q = self.point(p)
        return min(max(self.faces(q, k)) for k in range(self.pieces))

    def normal(self, p):
        """Outward normal (world) at the surface point, distance to that face, distance of it to the next face (an edge)."""
        q = self.point(p)
        if self.pieces > 1:
            d = [max(self.faces(q, j)) for j in range(self.pieces)]
            j = min(range(self.pieces), key=lambda j: abs(d[j]))
            n, off, edge = self._normal(q, j)
            for i in range(self.pieces):
                if i != j:
                    if abs(d[i]) < 1e-9 * scenes.outer(self.shape):
                        edge = max(edge, self._normal(q, i)[2])
                    else:
                        edge = min(edge, abs(d[i]))
            return n, off, edge
        return self._normal(q, 0)

    def _normal(self, q, piece):
        f = self.faces(q, piece)
        k = max(range(len(f)), key=lambda i: f[i])
        rest = max([x for i, x in enumerate(f) if i != k], default=-math.inf)
        s = self.shape["kind"]
        if s in ("box", "ell"):
            n = [0.0, 0.0, 0.0]
            n[k // 2] = 1.0 if k % 2 else -1.0
        elif s == "sphere":
            r = math.sqrt(dot(q, q))
            n = [x / r for x in q]
        elif s == "cylinder":
            if k < 2:
                n = [0.0, 0.0, 1.0 if k else -1.0]
            else:
                r = math.hypot(q[0], q[1])
                n = [q[0] / r, q[1] / r, 0.0]
        else:
            n = self.planes[k][0]
        return self.world(n), abs(f[k]), abs(rest - f[k])

    def hits(self, p, d):
        """Parameters t (any sign) where the line crosses the surface: pairs of in and out."""
        out = sorted(x for x in (self._interval(p, d, k) for k in range(self.pieces)) if x)
        m = []
        for x in out:
            if m and x[0] <= m[-1][1]:
                m[-1][1] = max(m[-1][1], x[1])
            else:
                m.append(x)
        return [t for x in m for t in x]

    def _interval(self, p, d, piece):
        o, v = self.point(p), self.vector(d)
        s = self.shape
        k = s["kind"]
        lo, hi = -math.inf, math.inf

        def slab(n, h):         # n.x <= h
            nonlocal lo, hi
            a, b = dot(n, v), h - dot(n, o)
            if abs(a) < 1e-300:
                if b < 0:
                    lo, hi = 1.0, 0.0
            elif a > 0:
                hi = min(hi, b / a)
            else:
                lo = max(lo, b / a)

        def quad(a, b, c):
            nonlocal lo, hi
            if a < 1e-300:
                if c > 0:
                    lo, hi = 1.0, 0.0
                return
            disc = b * b - a * c
            if disc < 0:
                lo, hi = 1.0, 0.0
                return
            r = math.sqrt(disc)
            lo, hi = max(lo, (-b - r) / a), min(hi, (-b + r) / a)

        if k == "sphere":
            quad(dot(v, v), dot(v, o), dot(o, o) - s["radius"] ** 2)
        elif k == "ell":
            l, h = scenes.ell(s)[piece]
            for a in range(3):
                e = [0.0, 0.0, 0.0]
                e[a] = 1.0
                slab(e, h[a])
                slab([-x for x in e], -l[a])
        elif k == "box":
            for a in range(3):
                e = [0.0, 0.0, 0.0]
                e[a] = 1.0
                slab(e, s["size"][a] / 2)
                e = [-x for x in e]
                slab(e, s["size"][a] / 2)
        elif k == "cylinder":
            quad(v[0] ** 2 + v[1] ** 2, v[0] * o[0] + v[1] * o[1], o[0] ** 2 + o[1] ** 2 - s["radius"] ** 2)
            slab([0.0, 0.0, 1.0], s["length"] / 2)
            slab([0.0, 0.0, -1.0], s["length"] / 2)
        else:
            for n, h in self.planes:
                slab(n, h)
        return [] if lo >= hi else [lo, hi]


class World:
    def __init__(self, spec):
        self.bodies = [Body(m, i) for i, m in enumerate(spec["nodes"])]
        self.byname = {b.name: b for b in self.bodies}
        self.size = scenes.outer(spec["nodes"][0]["shape"])
        self.level = []
        for b in self.bodies:
            self.level.append(0 if b.inside < 0 else self.level[b.inside] + 1)

    def container(self, p):
        """Innermost body around the point, or None."""
        best = None
        for b in self.bodies:
            if b.depth(p) < 0 and (best is None or self.level[b.i] > self.level[best.i]):
                best = b
        return best

    def ahead(self, p, d, eps):
        """[(t, body)] of the surfaces ahead, nearest first."""
        out = []
        for b in self.bodies:
            for t in b.hits(p, d):
                if t > eps:
                    out.append((t, b))
        out.sort(key=lambda x: x[0])
        return out

    def clear(self, p, d, margin):
        """Is the next surface decided by more than `margin`?  Not if the line passes within `margin` of an
        edge, grazes a surface, or starts that close to a surface it does not sit on."""
        for b in self.bodies:
            h = b.hits(p, d)
            for t in h:
                q = along(p, d, t)
                n, off, edge = b.normal(q)
                if abs(dot(n, d)) < 1e-3 or edge < margin:
                    return False
                if 1e-10 < abs(t) < margin:
                    return False
            if len(h) < 2 * b.pieces:       # a near miss?
                for k in range(b.pieces):
                    if not b._interval(p, d, k) and self._near(b, p, d, k) < margin:
                        return False
        return True

    def _near(self, b, p, d, piece):
        """Lower bound of how deep the line comes: minimum of the (convex) face function along it."""
        o, v = b.point(p), b.vector(d)
        t = -dot(o, v) / dot(v, v)
        R = scenes.outer(b.shape)
        lo, hi = t - 2 * R, t + 2 * R
        f = lambda t: max(b.faces(along(o, v, t), piece))
        for _ in range(60):
            a, c = lo + (hi - lo) / 3, hi - (hi - lo) / 3
            if f(a) < f(c):
                hi = c
            else:
                lo = a
        return f((lo + hi) / 2)


def reflect(d, n):
    k = 2 * dot(d, n)
    return [d[i] - k * n[i] for i in range(3)]


def refract(d, n, n1, n2):
    """Snell's law; None beyond the critical angle."""
    c = dot(d, n)
    if c < 0:
        n = [-x for x in n]
        c = -c
    t = [d[i] - c * n[i] for i in range(3)]             # tangential part
    t = [x * n1 / n2 for x in t]
    s2 = dot(t, t)
    if s2 > 1:
        return None
    k = math.sqrt(1 - s2)
    return [t[i] + k * n[i] for i in range(3)]


def fresnel(d, n, n1, n2):
    c = min(1.0, abs(dot(d, n)))
    s = math.sqrt(max(0.0, 1 - c * c)) * n1 / n2
    if s >= 1:
        return 1.0
    k = math.sqrt(1 - s * s)
    rs = (n1 * c - n2 * k) / (n1 * c + n2 * k)
    rp = (n1 * k - n2 * c) / (n1 * k + n2 * c)
    return (rs * rs + rp * rp) / 2


def interp(x, xs, ys):
    if x <= xs[0]:
        return ys[0]
    if x >= xs[-1]:
        return ys[-1]
    import bisect
    j = bisect.bisect_right(xs, x)
    return ys[j - 1] + (ys[j] - ys[j - 1]) * (x - xs[j - 1]) / (xs[j] - xs[j - 1])
