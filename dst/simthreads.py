"""Caller threads under a seeded scheduler: exactly one runs, preempted at executed lines of the code under test."""
import sys
import threading

from dst.choice import HarnessError

_TOOL = 4
_REAL_LOCK = threading.Lock
_REAL_RLOCK = threading.RLock
_active = None


def in_worker():
    global _active
    _active = None


class Scheduler:
    """Runs client functions to completion, interleaved."""

    def __init__(self, sim, prefix, mean_gap, max_switches=4000):
        self.sim = sim
        self.prefix = prefix
        self.gap = mean_gap
        self.switches = 0
        self.max_switches = max_switches
        self.trace = []

    def run(self, funcs):
        global _active
        n = len(funcs)
        self.sem = [threading.Semaphore(0) for _ in range(n)]
        self.done = [False] * n
        self.main = threading.Semaphore(0)
        self.results = [None] * n
        self.left = self._next_gap()
        self.lines = 0
        self.current = None
        self.ident = {}

        def body(i):
            self.sem[i].acquire()
            self.ident[threading.get_ident()] = i
            try:
                self.results[i] = ('ok', funcs[i]())
            except BaseException as e:
                self.results[i] = ('error', e)
            self.ident.pop(threading.get_ident(), None)
            self.done[i] = True
            self._pass_on(None)

        threads = [threading.Thread(target=body, args=(i,), daemon=True) for i in range(n)]
        for t in threads:
            t.start()
        mon = sys.monitoring
        mon.use_tool_id(_TOOL, 'dst')
        mon.register_callback(_TOOL, mon.events.LINE, self._line)
        mon.set_events(_TOOL, mon.events.LINE)
        mon.restart_events()
        _active = self
        try:
            self._pass_on(None)
            self.main.acquire()
        finally:
            _active = None
            mon.set_events(_TOOL, 0)
            mon.register_callback(_TOOL, mon.events.LINE, None)
            mon.free_tool_id(_TOOL)
        for t in threads:
            t.join()
        self.sim.probe('preemptions', self.switches)
        self.sim.probe('interleaved lines', self.lines)
        return self.results

    def _next_gap(self):
        if self.switches >= self.max_switches:
            return 1 << 60
        return 1 + self.sim.draw('gap', 2 * self.gap)

    def _pass_on(self, me):
        ready = [i for i, d in enumerate(self.done) if not d]
        if not ready:
            self.main.release()
            return
        nxt = ready[self.sim.draw('thread', len(ready))] if len(ready) > 1 else ready[0]
        if nxt == me:
            return
        if me is not None:
            self.switches += 1
        self.trace.append(nxt)
        self.sem[nxt].release()
        if me is not None:
            self.sem[me].acquire()

    def _line(self, code, line):
        if not code.co_filename.startswith(self.prefix):
            return sys.monitoring.DISABLE
        me = self.ident.get(threading.get_ident())
        if me is None:
            return
        self.lines += 1
        self.left -= 1
        if self.left > 0:
            return
        self.left = self._next_gap()
        self.sim.state(('preempted at', code.co_name, line))
        self._pass_on(me)

    def yield_now(self):
        me = self.ident.get(threading.get_ident())
        if me is None:
            return False
        others = [i for i, d in enumerate(self.done) if not d and i != me]
        if not others:
            raise HarnessError('a simulated caller waits for a lock nobody will release')
        nxt = others[0] if len(others) == 1 else others[self.sim.draw('lock', len(others))]
        self.trace.append(nxt)
        self.sem[nxt].release()
        self.sem[me].acquire()
        return True


class SimLock:
    def __init__(self, real):
        self._l = real

    def acquire(self, blocking=True, timeout=-1):
        if _active is None or not blocking:
            return self._l.acquire(blocking, timeout) if blocking else self._l.acquire(False)
        spins = 0
        while not self._l.acquire(False):
            spins += 1
            if spins > 100000:
                raise HarnessError('livelock on a lock')
            if not _active.yield_now():
                return self._l.acquire(True, timeout)
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *a):
        self.release()

    def __getattr__(self, name):
        return getattr(self._l, name)


class patched_locks:
    """Locks created by the code under test while it is imported give way to the scheduler."""

    def __enter__(self):
        threading.Lock = lambda: SimLock(_REAL_LOCK())
        threading.RLock = lambda *a: SimLock(_REAL_RLOCK())

    def __exit__(self, *a):
        threading.Lock = _REAL_LOCK
        threading.RLock = _REAL_RLOCK
