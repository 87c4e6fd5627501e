"""A process pool whose workers run in lockstep under the simulator.

Each worker is a forked process with its own private copy of the parent's state, as in the real
pool, but exactly one process runs at any moment, and the simulator decides which worker gets
which chunk, in which order the chunks complete, and when an idle worker is lost and replaced.
Functions and results cross the boundary through the same pickler as in the real pool.
"""
import os
import struct
import traceback

from dst.choice import HarnessError

_current = None            # the Sim of this run, set by the scenario
_pids = []
POOLS = []
CONFIG = dict(restart=0.0, shuffle=True)


def attach(sim, restart=0.0):
    global _current
    _current = sim
    CONFIG['restart'] = restart
    POOLS.clear()


def _dumps(obj):
    from multiprocess.reduction import ForkingPickler
    return bytes(ForkingPickler.dumps(obj))


def _loads(data):
    from multiprocess.reduction import ForkingPickler
    return ForkingPickler.loads(data)


def _read_exact(fd, n):
    out = b''
    while len(out) < n:
        part = os.read(fd, n - len(out))
        if not part:
            raise EOFError
        out += part
    return out


def _send(fd, data):
    data = struct.pack('<Q', len(data)) + data
    view = memoryview(data)
    while view:
        n = os.write(fd, view)
        view = view[n:]


def _recv(fd):
    n, = struct.unpack('<Q', _read_exact(fd, 8))
    return _read_exact(fd, n)


class WorkerCrash(Exception):
    pass


class _Worker:
    def __init__(self, pool, index):
        self.pool = pool
        self.index = index
        from dst import seams
        pr, cw = os.pipe()
        cr, pw = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(pr)
                os.close(pw)
                self._loop(cr, cw)
            except (EOFError, KeyboardInterrupt):
                pass
            except BaseException:
                traceback.print_exc()
            finally:
                os._exit(0)
        os.close(cr)
        os.close(cw)
        self.pid, self.r, self.w = pid, pr, pw
        _pids.append(pid)
        self.alive = True
        # as in the real pool, the initializer runs in the worker before its first task
        status, payload, dt = self.reply()
        if status != 'ready':
            self.init_error = payload
        else:
            self.init_error = None
        seams.CLOCK.advance(dt * 0)

    def _loop(self, cr, cw):
        from dst import seams, simthreads
        import random
        simthreads.in_worker()
        # a forked worker has its own operating-system entropy
        seams.ENTROPY.reset(('worker', self.pool.serial, self.index).__repr__())
        random.seed(seams.ENTROPY.next())
        t0 = seams.CLOCK.now
        try:
            if self.pool.initializer is not None:
                self.pool.initializer(*self.pool.initargs)
            _send(cw, _dumps(('ready', None, seams.CLOCK.now - t0)))
        except Exception as e:
            _send(cw, _dumps(('initfail', repr(e), 0.0)))
            return
        while True:
            data = _recv(cr)
            t0 = seams.CLOCK.now
            try:
                func, items, star = _loads(data)
                res = [func(*x) if star else func(x) for x in items]
                out = _dumps(('ok', res, seams.CLOCK.now - t0))
            except Exception as e:
                try:
                    out = _dumps(('error', e, seams.CLOCK.now - t0))
                except Exception:
                    out = _dumps(('error', RuntimeError(repr(e)), seams.CLOCK.now - t0))
            _send(cw, out)

    def reply(self):
        try:
            return _loads(_recv(self.r))
        except EOFError:
            raise HarnessError('simulated worker process ended unexpectedly')

    def run(self, payload):
        _send(self.w, payload)
        return self.reply()

    def kill(self):
        if self.alive:
            self.alive = False
            os.close(self.r)
            os.close(self.w)
            try:
                os.kill(self.pid, 9)
                os.waitpid(self.pid, 0)
            except (ProcessLookupError, ChildProcessError):
                pass
            if self.pid in _pids:
                _pids.remove(self.pid)


class _Result:
    def __init__(self, value=None, error=None):
        self._v, self._e = value, error

    def get(self, timeout=None):
        if self._e is not None:
            raise self._e
        return self._v

    def wait(self, timeout=None):
        return None

    def ready(self):
        return True

    def successful(self):
        return self._e is None


_serial = 0


class SimPool:
    def __init__(self, processes=None, initializer=None, initargs=(), maxtasksperchild=None, context=None, **_):
        global _serial
        if _current is None:
            raise HarnessError('a process pool was created outside a simulated run')
        _serial += 1
        self.serial = _serial
        self.n = int(processes or 2)
        self.initializer, self.initargs = initializer, tuple(initargs)
        self.closed = False
        self.owner = os.getpid()
        self.workers = [None] * self.n
        POOLS.append(self.serial)
        _current.event('pool', self.serial, 'created with', self.n, 'workers')
        for i in range(self.n):
            self._spawn(i)

    def _spawn(self, i):
        self.workers[i] = _Worker(self, i)
        if self.workers[i].init_error is not None:
            raise HarnessError(f'pool initializer failed: {self.workers[i].init_error}')

    def _map(self, func, items, star=False, chunksize=None):
        from dst import seams
        if self.closed:
            raise ValueError('Pool not running')
        sim = _current
        items = list(items)
        if chunksize is None:
            chunksize, extra = divmod(len(items), self.n * 4)
            if extra:
                chunksize += 1
        chunksize = max(1, chunksize)
        chunks = [(i, items[i:i + chunksize]) for i in range(0, len(items), chunksize)]
        payloads = [_dumps((func, c, star)) for _, c in chunks]     # pickled when the work is submitted
        out = [None] * len(items)
        order = list(range(len(chunks)))
        busy = [0.0] * self.n
        error = None
        # chunks are taken from one queue in order; which worker takes the next one is the scheduler's choice
        trace = []
        for ci in order:
            wi = sim.draw('worker', self.n)
            if CONFIG['restart'] and sim.flag('worker-lost', CONFIG['restart']):
                sim.fault('idle worker lost and replaced')
                self.workers[wi].kill()
                self._spawn(wi)
            status, payload, dt = self.workers[wi].run(payloads[ci])
            busy[wi] += dt
            trace.append(wi)
            if status == 'ok':
                base = chunks[ci][0]
                out[base:base + len(payload)] = payload
            elif error is None:
                error = payload
        sim.event('pool', self.serial, 'map of', len(items), 'items, workers', ''.join(map(str, trace)),
                  'error ' + type(error).__name__ if error is not None else '')
        sim.state(('assignment', self.n, tuple(trace)))
        sim.probe('pool tasks', len(chunks))
        seams.CLOCK.advance(max(busy) if busy else 0.0)
        return out, error

    def map(self, func, iterable, chunksize=None):
        out, error = self._map(func, iterable, chunksize=chunksize)
        if error is not None:
            raise error
        return out

    def starmap(self, func, iterable, chunksize=None):
        out, error = self._map(func, iterable, star=True, chunksize=chunksize)
        if error is not None:
            raise error
        return out

    def imap(self, func, iterable, chunksize=1):
        return iter(self.map(func, iterable, chunksize))

    def imap_unordered(self, func, iterable, chunksize=1):
        res = self.map(func, iterable, chunksize)
        return iter(_current.shuffle('unordered', res))

    def map_async(self, func, iterable, chunksize=None, callback=None, error_callback=None):
        out, error = self._map(func, iterable, chunksize=chunksize)
        if error is None and callback is not None:
            callback(out)
        if error is not None and error_callback is not None:
            error_callback(error)
        return _Result(out, error)

    def apply_async(self, func, args=(), kwds=None, callback=None, error_callback=None):
        import functools
        out, error = self._map(functools.partial(func, **(kwds or {})), [tuple(args)], star=True)
        if error is None and callback is not None:
            callback(out[0])
        return _Result(out[0] if error is None else None, error)

    def apply(self, func, args=(), kwds=None):
        return self.apply_async(func, args, kwds).get()

    def close(self):
        self.closed = True

    def join(self):
        pass

    def restart(self, force=False):
        self.closed = False

    def clear(self):
        self.terminate()

    def terminate(self):
        self.closed = True
        for w in self.workers:
            if w is not None:
                w.kill()

    def __enter__(self):
        return self

    def __exit__(self, *exc):
        self.terminate()

    def __reduce__(self):
        raise NotImplementedError('pool objects cannot be passed between processes or pickled')

    def __del__(self):
        try:
            if os.getpid() == self.owner:
                self.terminate()
        except Exception:
            pass


def forget():
    """In a forked copy: the parent's workers are not ours."""
    _pids.clear()


def kill_all():
    for pid in list(_pids):
        try:
            os.kill(pid, 9)
            os.waitpid(pid, 0)
        except (ProcessLookupError, ChildProcessError):
            pass
    _pids.clear()


def install():
    import pathos.multiprocessing
    import multiprocess
    import multiprocess.pool
    import multiprocessing
    import multiprocessing.pool
    for mod in (pathos.multiprocessing, multiprocess, multiprocess.pool, multiprocessing, multiprocessing.pool):
        mod.Pool = SimPool
    for name in ('ProcessPool', 'ProcessingPool', '_ProcessPool'):
        if hasattr(pathos.multiprocessing, name):
            setattr(pathos.multiprocessing, name, SimPool)
