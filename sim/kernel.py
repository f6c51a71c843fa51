"""Deterministic simulation kernel.

One run of the simulator is a function of a list of integer choices (plus
PYTHONHASHSEED).  Everything that varies -- workload, inputs, hash orders,
schedule, fault kind and fault point -- is drawn from that list, so a run can
be recorded, replayed, and shrunk by editing the list.
"""

import random
import zlib


class Violation(Exception):
    """The property under check was seen to be broken."""

    def __init__(self, kind, message, entry=None):
        Exception.__init__(self, "%s: %s" % (kind, message))
        self.kind = kind
        self.message = message
        self.entry = entry


class HarnessError(Exception):
    """The simulator itself misbehaved: never reported as a violation."""


class SimInterrupt(KeyboardInterrupt):
    """Asynchronous interrupt delivered at a bytecode boundary."""


class SimMemoryError(MemoryError):
    """Failed allocation at an allocating instruction."""


class SimCallbackError(Exception):
    """Failure of something the caller passed in."""


class SimBudget(BaseException):
    """The run used up its step budget: treated as non-termination."""


class SimStop(BaseException):
    """Tear-down of parked clients at the end of a run."""


class Sim:
    """The choice stream and event trace of one run."""

    MAXTRACE = 4000

    def __init__(self, seed=None, replay=None):
        self.replaying = replay is not None
        self.source = replay
        self.pos = 0
        self.choices = []
        self.rand = random.Random(seed) if replay is None else None
        self.crc = 0
        self.events = 0
        self.trace = []
        self.serial = 0

    # -- choices.  Zero is always the simplest alternative.

    def choose(self, n):
        if n <= 1:
            return 0
        if self.replaying:
            if self.pos < len(self.source):
                c = self.source[self.pos]
                if c >= n:
                    c = n - 1
            else:
                c = 0
            self.pos += 1
        else:
            c = int(self.rand.random() * n)
        self.choices.append(c)
        return c

    def flag(self, num=1, den=2):
        """True with probability num/den; False is the simple outcome."""
        return self.choose(den) >= den - num

    def between(self, lo, hi):
        return lo + self.choose(hi - lo + 1)

    def small(self, lo, hi):
        """Integer in [lo,hi], a third of the time nearer to lo."""
        if self.choose(3):
            return lo + self.choose(hi - lo + 1)
        return lo + self.choose(self.choose(hi - lo + 1) + 1)

    def pick(self, seq):
        return seq[self.choose(len(seq))]

    def logscale(self, bits):
        """Zero, or a number of about choose(bits) binary digits."""
        b = self.choose(bits + 1)
        if b == 0:
            return 0
        return (1 << (b - 1)) + self.choose(1 << (b - 1))

    def shuffled(self, seq):
        out = list(seq)
        n = len(out)
        for i in range(n - 1):
            j = i + self.choose(n - i)
            if j != i:
                out[i], out[j] = out[j], out[i]
        return out

    def subset(self, seq, num=1, den=2):
        return [x for x in seq if self.flag(num, den)]

    def scramble(self):
        """A 60-bit number; usable as a seed of hash orders."""
        s = self.choose(1 << 16)
        return 0 if s == 0 else zlib.crc32(b"%d" % s) * 2654435761 % (1 << 60)

    # -- trace

    def log(self, *event):
        text = " ".join([x if isinstance(x, str) else repr(x) for x in event])
        self.crc = zlib.crc32(text.encode("utf8", "replace"), self.crc)
        self.events += 1
        if len(self.trace) < self.MAXTRACE:
            self.trace.append(text)


def mix(*parts):
    """Stable seed derivation."""
    h = 1469598103934665603
    for ch in ("|".join([str(p) for p in parts])).encode():
        h = ((h ^ ch) * 1099511628211) % (1 << 64)
    return h


# -- shrinking ---------------------------------------------------------------

def shrink(choices, fails, clock, deadline):
    """Smallest choice list (by length, then value) for which fails() holds.

    fails(list) runs the simulation and returns the (possibly shorter) list of
    choices it consumed if the same kind of failure occurs, or else None.
    """
    best = list(choices)

    def attempt(cand):
        nonlocal best
        if clock() > deadline:
            return False
        got = fails(cand)
        if got is None:
            return False
        # trailing zeros are implied
        got = list(got)
        while got and got[-1] == 0:
            got.pop()
        if (len(got), got) < (len(best), best):
            best = got
            return True
        return False

    attempt(best)
    improved = True
    while improved and clock() < deadline:
        improved = False
        # delete blocks
        size = max(1, len(best) // 2)
        while size:
            i = len(best) - size
            while i >= 0 and clock() < deadline:
                if attempt(best[:i] + best[i + size:]):
                    improved = True
                    i = min(i, len(best) - size)
                else:
                    i -= max(1, size // 2)
            size //= 2
        # zero blocks
        size = max(1, len(best) // 2)
        while size:
            i = 0
            while i < len(best) and clock() < deadline:
                if any(best[i:i + size]):
                    z = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                    if attempt(z):
                        improved = True
                i += size
            size //= 2
        # lower single values
        i = 0
        while i < len(best) and clock() < deadline:
            lo, hi = 0, best[i]
            while lo < hi and clock() < deadline:
                mid = (lo + hi) // 2
                if i < len(best) and attempt(best[:i] + [mid] + best[i + 1:]):
                    improved = True
                    if i >= len(best):
                        break
                    hi = min(mid, best[i])
                else:
                    lo = mid + 1
            i += 1
        # delete one while decrementing an earlier one (list lengths)
        i = 0
        while i < len(best) and clock() < deadline:
            if best[i] > 0:
                for j in range(i + 1, min(i + 6, len(best))):
                    c = list(best)
                    c[i] -= 1
                    del c[j]
                    if attempt(c):
                        improved = True
                        break
            i += 1
    return best
