"""Seeded choices.  Every decision of a simulated run comes from a Chooser, so a
run is a function of its case: either drawn from a PRNG and recorded, or taken
from a recorded list (replay / minimisation), where a missing entry means 0,
the default decision."""
import hashlib
import random


def derive(*parts):
    """A 63-bit integer from any printable parts; independent of hash randomisation."""
    h = hashlib.sha256("\x1f".join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:8], "big") >> 1


def rng(*parts):
    return random.Random(derive(*parts))


class Chooser:
    """Schedule decisions.  `draw(n, weights)` returns an index in [0, n)."""

    def __init__(self, seed=None, recorded=None):
        self.random = random.Random(seed) if recorded is None else None
        self.recorded = recorded
        self.log = []

    @property
    def replaying(self):
        return self.recorded is not None

    def next(self, n, pick):
        """`pick(random)` proposes an index in random mode."""
        if self.recorded is not None:
            i = len(self.log)
            k = self.recorded[i] if i < len(self.recorded) else 0
            if k >= n:
                k = 0
        else:
            k = pick(self.random)
        self.log.append(k)
        return k

    def trimmed(self):
        out = list(self.log)
        while out and out[-1] == 0:
            out.pop()
        return out
