"""Run context: one PRNG, recorded choices, event log, simulated clock, counters."""

import hashlib
import heapq
import random


class Violation(Exception):
    """The property is broken (never raised for a defect of the harness)."""

    def __init__(self, cls, msg, **detail):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg
        self.detail = detail


class Inconclusive(Exception):
    """This run cannot be judged (counted, never reported as a pass)."""


class Ctx:
    """Everything one simulated run draws and records.

    Each choice point has a label; the n-th choice under a label is drawn from
    its own stream.  Value 0 is always the undisturbed choice (first ready task,
    no fault, no preemption), so a schedule is written down as the sparse map of
    its non-zero choices and minimised by removing entries from that map.
    """

    def __init__(self, seed, forced=None):
        self.seed = seed
        self.forced = forced
        self.rngs = {}
        self.count = {}
        self.trace = {}
        self.h = hashlib.blake2b(digest_size=12)
        self.sig = hashlib.blake2b(digest_size=8)
        self.log = []
        self.stats = {}
        self.now = 0.0
        self.nevents = 0
        self.keep_log = False
        self.queue = []
        self.qseq = 0

    # -- choices
    def _rng(self, label):
        g = self.rngs.get(label)
        if g is None:
            g = self.rngs[label] = random.Random(f"{self.seed}|{label}")
        return g

    def choose(self, n, label):
        """An integer in [0, n)."""
        k = self.count.get(label, 0)
        self.count[label] = k + 1
        if n <= 1:
            return 0
        key = f"{label}#{k}"
        if self.forced is not None:
            v = self.forced.get(key, 0)
            if v >= n:
                v = n - 1
        else:
            v = self._rng(label).randrange(n)
        if v:
            self.trace[key] = v
        return v

    def flip(self, p, label):
        """True with probability p (False is the undisturbed choice)."""
        k = self.count.get(label, 0)
        self.count[label] = k + 1
        if p <= 0:
            return False
        key = f"{label}#{k}"
        if self.forced is not None:
            v = bool(self.forced.get(key, 0))
        else:
            v = self._rng(label).random() < p
        if v:
            self.trace[key] = 1
        return v

    def pick(self, seq, label):
        return seq[self.choose(len(seq), label)]

    # -- log
    def event(self, *what):
        """Record an event; never draws and never reads a clock."""
        self.nevents += 1
        s = repr(what)
        self.h.update(s.encode())
        if self.keep_log:
            self.log.append(s)

    def sched(self, *what):
        """An event that distinguishes interleavings (also logged)."""
        self.sig.update(repr(what).encode())
        self.event(*what)

    def tally(self, name, n=1):
        self.stats[name] = self.stats.get(name, 0) + n

    def loghash(self):
        return self.h.copy().hexdigest()

    def signature(self):
        return self.sig.copy().hexdigest()

    # -- discrete-event time
    def after(self, delay, kind, payload=None):
        self.qseq += 1
        heapq.heappush(self.queue, (self.now + delay, self.qseq, kind, payload))

    def next_event(self):
        t, _, kind, payload = heapq.heappop(self.queue)
        self.now = max(self.now, t)
        return kind, payload


def rng_for(*parts):
    return random.Random("|".join(map(str, parts)))
