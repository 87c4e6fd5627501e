"""Everything nondeterministic that the code under test can reach, put behind a simulator.

`install()` runs before the code under test is imported, so `import time`, `from time
import ...`, `random.Random()`, `uuid.uuid4()`, `open()` and the process pools all bind
to the stand-ins.  The real functions stay available to the harness in `REAL`.
"""
import builtins
import importlib._bootstrap_external as _be
import io
import os
import random
import sys
import time
import types
import uuid


REPO = os.environ.get('DST_REPO', '/repo')
REAL = types.SimpleNamespace(monotonic=time.monotonic, open=builtins.open, Random=random.Random)


class Clock:
    """The virtual clock: reading it costs `tick`, work costs what the run says, it may jump."""

    def __init__(self):
        self.reset()

    def reset(self):
        self.now = 1000.0        # monotonic seconds
        self.wall_offset = 1.7e9
        self.tick = 1e-6
        self.reads = 0
        self.jumps = {}          # read index -> seconds added to the wall clock
        self.on_read = None

    def advance(self, dt):
        self.now += dt

    def _read(self):
        self.reads += 1
        self.now += self.tick
        j = self.jumps.get(self.reads)
        if j is not None:
            self.wall_offset += j
            if self.on_read is not None:
                self.on_read(j)

    def wall(self):
        self._read()
        return self.now + self.wall_offset

    def mono(self):
        self._read()
        return self.now

    def sleep(self, dt):
        self.now += max(0.0, dt)


CLOCK = Clock()


class Entropy:
    """What an unseeded generator would have asked the operating system for."""

    def __init__(self):
        self.r = REAL.Random(20240229)

    def reset(self, seed):
        self.r = REAL.Random(seed)

    def next(self):
        return self.r.getrandbits(64)


ENTROPY = Entropy()


class Random(random.Random):
    """random.Random, except that an unseeded one is seeded by the simulator."""

    def __init__(self, x=None):
        super().__init__(x)

    def seed(self, a=None, version=2):
        if a is None:
            a = ENTROPY.next()
        super().seed(a, version)


Random.__qualname__ = 'Random'


def _uuid4():
    return uuid.UUID(int=ENTROPY.r.getrandbits(128), version=4)


def no_stale_bytecode(prefixes):
    """Sources under these prefixes are always compiled afresh: a cached .pyc is never trusted."""
    orig = _be.cache_from_source

    def cache_from_source(path, *a, **kw):
        if any(str(path).startswith(p) for p in prefixes):
            raise NotImplementedError
        return orig(path, *a, **kw)

    _be.cache_from_source = cache_from_source


_installed = False


def install(repo):
    global _installed
    if _installed:
        return
    _installed = True
    no_stale_bytecode([repo.rstrip('/') + '/sampo'])
    # third-party packages first: they keep the real clock and entropy, and warm imports are shared
    import numpy, pandas, scipy.sparse, sortedcontainers, deap.base, deap.tools, deap.creator, dill  # noqa
    import pathos.multiprocessing, multiprocess, multiprocessing, concurrent.futures, threading, queue  # noqa
    import matplotlib
    matplotlib.use('Agg')
    import json, copy, logging, functools, collections, heapq, bisect, itertools, typing  # noqa
    import toposort, networkx, plotly  # noqa

    time.time = CLOCK.wall
    time.time_ns = lambda: int(CLOCK.wall() * 1e9)
    time.monotonic = CLOCK.mono
    time.monotonic_ns = lambda: int(CLOCK.mono() * 1e9)
    time.perf_counter = CLOCK.mono
    time.perf_counter_ns = lambda: int(CLOCK.mono() * 1e9)
    time.process_time = CLOCK.mono
    time.sleep = CLOCK.sleep
    random.Random = Random
    uuid.uuid4 = _uuid4

    from dst import simpool, simdisk
    simpool.install()
    simdisk.install()


def reset(seed):
    """Start of a run: same clock, same entropy, whatever ran before."""
    import numpy as np
    import gc
    CLOCK.reset()
    ENTROPY.reset(seed)
    random.seed(ENTROPY.next())
    np.random.seed(ENTROPY.next() & 0xffffffff)
    gc.collect()
    gc.disable()
