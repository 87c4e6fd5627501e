"""One recorded choice sequence decides a whole simulated run.

Every decision of a run (world shape, fault, interleaving, tuning knob) is drawn
through `Sim.draw(label, n)`.  In search mode the values come from one PRNG seeded
by the run seed; in replay mode they come from a recorded list.  By convention the
value 0 is the simplest alternative (no fault, smallest size, no preemption), and
an exhausted replay list yields zeros, so deleting or zeroing parts of the list is
how a failing run is minimised.
"""
import hashlib
import random


class Violation(Exception):
    """The property under test does not hold in this run."""

    def __init__(self, signature, message):
        super().__init__(f'{signature}: {message}')
        self.signature = signature
        self.message = message


class HarnessError(Exception):
    """The simulator itself failed; never a verdict about the code under test."""


class RunTooLong(Exception):
    pass


class Sim:
    MAX_CHOICES = 60000

    def __init__(self, seed=None, replay=None):
        self.seed = seed
        self._replay = list(replay) if replay is not None else None
        self._rng = random.Random(f'dst:{seed}') if replay is None else None
        self.choices = []
        self.log = []
        self.faults = {}
        self.probes = {}
        self.states = set()
        self.sim_seconds = 0.0
        self.meta = {}

    # ---- decisions
    def draw(self, label, n):
        """A value in [0, n); 0 is the simplest."""
        if n <= 0:
            raise HarnessError(f'draw({label}, {n})')
        i = len(self.choices)
        if i >= self.MAX_CHOICES:
            raise RunTooLong(label)
        if self._replay is not None:
            v = self._replay[i] if i < len(self._replay) else 0
            v = v % n if v >= n else v
        else:
            v = self._rng.randrange(n)
        self.choices.append(v)
        return v

    def weighted(self, label, n, p0):
        """0 with probability p0, else uniform over 1..n-1."""
        if n <= 1:
            return 0
        if self._replay is not None:
            return self.draw(label, n)
        # one recorded value, whatever the distribution
        if self._rng.random() < p0:
            v = 0
        else:
            v = 1 + self._rng.randrange(n - 1)
        if len(self.choices) >= self.MAX_CHOICES:
            raise RunTooLong(label)
        self.choices.append(v)
        return v

    def flag(self, label, p=0.5):
        return bool(self.weighted(label, 2, 1.0 - p))

    def int(self, label, lo, hi):
        return lo + self.draw(label, hi - lo + 1)

    def pick(self, label, seq):
        seq = list(seq)
        return seq[self.draw(label, len(seq))]

    def shuffle(self, label, seq):
        """Fisher-Yates through recorded draws; all zeros leaves the order alone."""
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.draw(label, len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    # ---- observation (never draws, never reads a clock)
    def event(self, *parts):
        if len(self.log) < 200000:
            self.log.append(' '.join(str(p) for p in parts))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n
        self.event('FAULT', kind)

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, key):
        """Records that a (hashable, printable) abstract state was reached."""
        if len(self.states) < 400:
            self.states.add(hashlib.md5(repr(key).encode()).hexdigest()[:12])

    def digest(self):
        h = hashlib.sha256()
        for line in self.log:
            h.update(line.encode('utf-8', 'replace'))
            h.update(b'\n')
        return h.hexdigest()[:24]
