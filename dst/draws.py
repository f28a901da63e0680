"""The random source of numpy's legacy interface as a seam.

`install()` replaces np.random.uniform & co. by dispatchers before pvtrace is
imported; while a Source is active every draw comes from it."""
import numpy as np

from . import choice

_real = {}
_active = [None]
MASK = (1 << 64) - 1
TOP = 1.0 - 2.0 ** -53


def install():
    if _real:
        return
    for k in ("uniform", "random", "random_sample", "rand", "randint", "ranf", "sample", "normal", "choice", "exponential", "shuffle", "permutation", "standard_normal"):
        f = getattr(np.random, k, None)
        if f is not None:
            _real[k] = f

    def uniform(low=0.0, high=1.0, size=None):
        s = _active[0]
        if s is None:
            return _real["uniform"](low, high, size)
        if size is None and np.ndim(low) == 0 and np.ndim(high) == 0:
            return float(low + (high - low) * s.u())
        if size is None:
            size = np.broadcast(low, high).shape
        return low + (high - low) * s.array(size)

    def random(size=None):
        s = _active[0]
        if s is None:
            return _real["random"](size)
        return s.u() if size is None else s.array(size)

    def rand(*shape):
        s = _active[0]
        if s is None:
            return _real["rand"](*shape)
        return s.array(shape) if shape else s.u()

    np.random.uniform = uniform
    np.random.random = np.random.random_sample = np.random.ranf = np.random.sample = random
    np.random.rand = rand
    for k in ("randint", "normal", "choice", "exponential", "shuffle", "permutation", "standard_normal"):
        if k in _real:
            setattr(np.random, k, _refuse(k))


def _refuse(k):
    def f(*a, **kw):
        if _active[0] is None:
            return _real[k](*a, **kw)
        s = _active[0]
        s.other[k] = s.other.get(k, 0) + 1
        if k == "exponential":
            scale = a[0] if a else kw.get("scale", 1.0)
            return -np.log(1 - s.u()) * scale
        if k == "randint":
            lo, hi = (0, a[0]) if len(a) == 1 else a[:2]
            return lo + int(s.u() * (hi - lo))
        return _real[k](*a, **kw)
    return f


class use:
    def __init__(self, source):
        self.source = source

    def __enter__(self):
        self.old = _active[0]
        _active[0] = self.source
        return self.source

    def __exit__(self, *a):
        _active[0] = self.old


class Source:
    def __init__(self):
        self.count = 0
        self.other = {}
        self.last = None

    def u(self):
        self.count += 1
        self.last = x = self.draw()
        return x

    def array(self, size):
        n = int(np.prod(size))
        return np.array([self.u() for _ in range(n)]).reshape(size)


class Xoshiro(Source):
    """The engine's stream of one ray."""

    def __init__(self, seed):
        super().__init__()
        st = seed & MASK
        s = []
        for _ in range(4):
            st = (st + 0x9E3779B97F4A7C15) & MASK
            z = st
            z = ((z ^ (z >> 30)) * 0xBF58476D1CE4E5B9) & MASK
            z = ((z ^ (z >> 27)) * 0x94D049BB133111EB) & MASK
            s.append(z ^ (z >> 31))
        self.s = s

    def draw(self):
        s = self.s
        r = (s[0] + s[3]) & MASK
        t = (s[1] << 17) & MASK
        s[2] ^= s[0]
        s[3] ^= s[1]
        s[1] ^= s[2]
        s[0] ^= s[3]
        s[2] ^= t
        s[3] = ((s[3] << 45) | (s[3] >> 19)) & MASK
        return (r >> 11) / 9007199254740992.0


EXTREME = (0.0, TOP, 2.0 ** -53, 1e-300, 1e-16, 1e-9, 0.5, 0.25, 0.75, TOP - 2.0 ** -53, 1 - 1e-9)


class Adversary(Source):
    """Seeded draws with a given share of extreme outcomes and sticky phases (the same value again and again)."""

    def __init__(self, seed, extreme=0.1, sticky=0.0, forced=()):
        super().__init__()
        self.r = choice.rng("draws", seed)
        self.extreme, self.sticky = extreme, sticky
        self.forced = dict(forced)
        self.held = None
        self.extremes = 0
        self.stuck = 0

    def draw(self):
        k = self.count - 1
        if k in self.forced:
            return self.forced[k]
        r = self.r
        if self.held is not None:
            v, left = self.held
            self.held = (v, left - 1) if left > 1 else None
            self.stuck += 1
            return v
        x = r.random()
        if x < self.sticky:
            v = r.choice(EXTREME + (r.random(), r.random()))
            self.held = (v, r.randint(1, 12))
            return v
        if x < self.sticky + self.extreme:
            self.extremes += 1
            return r.choice(EXTREME)
        return r.random()


class Tape(Source):
    """Given values, in order; past the end None is an error."""

    def __init__(self, values):
        super().__init__()
        self.values = list(values)

    def draw(self):
        if self.count > len(self.values):
            raise IndexError("more draws than on the tape")
        return self.values[self.count - 1]


class Recording(Source):
    """Seeded; keeps the shape of every call."""

    def __init__(self, seed):
        super().__init__()
        self.r = choice.rng("record", seed)
        self.calls = []

    def draw(self):
        return self.r.random()

    def u(self):
        x = super().u()
        if not getattr(self, "_in", False):
            self.calls.append([x])
        return x

    def array(self, size):
        self._in = True
        try:
            a = super().array(size)
        finally:
            self._in = False
        self.calls.append(a.reshape(-1).tolist())
        return a
