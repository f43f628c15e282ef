"""Tape of recorded choices, violations, small helpers.

Every decision of a simulated run (workload, schedule, faults) is one draw from a Tape.  A Tape is
either seeded (draws come from a PRNG and are recorded) or replayed (draws come from a record; past
its end every draw is 0, the simplest choice).  One seed is therefore one execution, and a
minimised record is a replay file.
"""
import hashlib
import random


class Violation(Exception):
    """The property is broken.  'cls' is the violation class kept constant while minimising."""
    def __init__(self, cls, msg):
        super().__init__("%s: %s" % (cls, msg))
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    """The simulator itself is wrong (never reported as a violation)."""


class Tape:
    def __init__(self, seed=None, streams=None):
        self.seed = seed
        self.replay = streams
        self.rec = {}
        self.rngs = {}

    def draw(self, stream, n):
        """Integer in [0, n)."""
        rec = self.rec.setdefault(stream, [])
        if n <= 1:
            v = 0
        elif self.replay is not None:
            src = self.replay.get(stream, ())
            v = src[len(rec)] % n if len(rec) < len(src) else 0
        else:
            r = self.rngs.get(stream)
            if r is None:
                h = hashlib.sha256(("%d/%s" % (self.seed, stream)).encode()).digest()
                r = self.rngs[stream] = random.Random(int.from_bytes(h[:8], "little"))
            v = r.randrange(n)
        rec.append(v)
        return v

    def chance(self, stream, num, den):
        """True with probability num/den; a replayed 0 means False."""
        return self.draw(stream, den) >= den - num

    def choice(self, stream, seq):
        return seq[self.draw(stream, len(seq))]

    def between(self, stream, lo, hi):
        """Integer in [lo, hi]; 0 maps to lo."""
        return lo + self.draw(stream, hi - lo + 1)

    def weighted(self, stream, pairs):
        """pairs: (value, weight); the first is the simplest."""
        tot = sum(w for _, w in pairs)
        x = self.draw(stream, tot)
        for v, w in pairs:
            if x < w:
                return v
            x -= w
        raise AssertionError

    def real(self, stream, lo=-1.0, hi=1.0, steps=2000):
        return lo + (hi - lo) * self.draw(stream, steps + 1) / steps

    def sample(self, stream, seq, k):
        seq = list(seq)
        out = []
        for _ in range(min(k, len(seq))):
            out.append(seq.pop(self.draw(stream, len(seq))))
        return out

    def perm(self, stream, n):
        return self.sample(stream, range(n), n)


class Stats:
    """Counters of what a run actually reached."""
    def __init__(self):
        self.c = {}
        self.sig = hashlib.sha256()
        self.nontrivial = False
        self.sim_time = 0.0
        self.descr = None

    def hit(self, name, n=1):
        self.c[name] = self.c.get(name, 0) + n

    def mix(self, *xs):
        self.sig.update(repr(xs).encode())
