"""A warmed process with the seams in place: every simulated run is one forked child of it.

Protocol: one JSON job per line on stdin, one JSON result per line on the saved stdout.
"""
import gc
import io
import json
import os
import select
import signal
import struct
import sys
import traceback

from dst.choice import HarnessError as HarnessError_

REPO = os.environ.get('DST_REPO', '/repo')


def warm():
    from dst import seams, simthreads
    seams.install(REPO)
    sys.path.insert(0, REPO)
    import logging
    logging.disable(logging.CRITICAL)
    import warnings
    warnings.filterwarnings('ignore')
    with simthreads.patched_locks():
        import sampo.scheduler  # noqa  (must come before the backends)
        import sampo.backend.default, sampo.backend.multiproc  # noqa
        import sampo.pipeline  # noqa
        import sampo.scheduler.resources_in_time  # noqa
        import sampo.utilities.validation  # noqa
    import sampo
    if not os.path.abspath(sampo.__file__).startswith(os.path.abspath(REPO)):
        raise RuntimeError(f'sampo comes from {sampo.__file__}')
    import dst.props
    import dst.props.views
    if os.environ.get('DST_PROP') == 'P28':
        with simthreads.patched_locks():
            dst.props.views.warm()


def run_one(job):
    """Executes one simulated run in this process and returns its result as plain data."""
    from dst import seams, simpool, simdisk
    from dst.choice import Sim, Violation, HarnessError, RunTooLong
    from dst import props
    prop = props.get(job['prop'])
    sim = Sim(seed=job.get('seed'), replay=job.get('choices'))
    sim.tier = job.get('tier', 'quick')
    sim.steps_limit = job.get('steps')
    sim.job = job
    res = dict(status='ok')
    counter = None
    try:
        seams.reset(str(job.get('entropy', 0)))
        simpool.attach(sim)
        if sim.steps_limit:
            counter = StepCounter(sim.steps_limit, os.path.join(REPO, 'sampo'))
            counter.start()
        prop.run(sim)
    except Violation as v:
        res = dict(status='violation', signature=v.signature, message=v.message[:2000])
    except StepLimit as e:
        res = dict(status='violation', signature='liveness/no-progress', message=str(e))
    except RunTooLong as e:
        res = dict(status='toolong', message=str(e))
    except simdisk.SimCrash:
        res = dict(status='harness', message='a simulated crash escaped the scenario\n' + traceback.format_exc()[-1500:])
    except BaseException as e:
        where = raised_inside_library(e)
        if where:
            # no scenario asks for something the library may answer this way
            res = dict(status='violation', signature=f'crash/{type(e).__name__}',
                       message=f'{type(e).__name__}: {str(e)[:300]} at {where}')
        else:
            res = dict(status='harness', message=traceback.format_exc()[-3000:])
    finally:
        if counter is not None:
            counter.stop()
        simpool.kill_all()
        simdisk.DISK.detach()
    res.update(choices=sim.choices, digest=sim.digest(), faults=sim.faults, probes=sim.probes,
               states=sorted(sim.states), sim_seconds=seams.CLOCK.now - 1000.0 + sim.sim_seconds,
               nontrivial=bool(sim.meta.get('nontrivial', True)), shape=sim.meta.get('shape'),
               outcome=sim.meta.get('outcome', {}))
    if job.get('want_log') or res['status'] != 'ok':
        res['log'] = sim.log[-4000:] if not job.get('full_log') else sim.log
    return res


def raised_inside_library(e):
    """Where in the code under test an exception that the scenario did not expect was raised, or None."""
    if not isinstance(e, Exception) or isinstance(e, (HarnessError_, MemoryError)):
        return None
    prefix = os.path.join(os.path.abspath(REPO), 'sampo') + os.sep
    mine = os.path.dirname(os.path.abspath(__file__)) + os.sep
    inside = None
    for f in traceback.extract_tb(e.__traceback__):
        name = os.path.abspath(f.filename)
        if name.startswith(mine):
            inside = None
        elif name.startswith(prefix):
            inside = f'{os.path.basename(name)}:{f.name}'
    return inside


class StepLimit(BaseException):
    pass


class StepCounter:
    """Counts taken backward jumps and calls in the code under test: a deterministic progress bound."""

    def __init__(self, limit, prefix):
        self.limit, self.prefix, self.n = limit, prefix, 0

    def start(self):
        mon = sys.monitoring
        mon.use_tool_id(3, 'dst-steps')
        ev = mon.events

        def hit(code, *a):
            if not code.co_filename.startswith(self.prefix):
                return mon.DISABLE
            self.n += 1
            if self.n > self.limit:
                raise StepLimit(f'no result after {self.limit} steps (calls and loop iterations), '
                                f'now in {os.path.basename(code.co_filename)}:{code.co_name}')
        mon.register_callback(3, ev.JUMP, hit)
        mon.register_callback(3, ev.PY_START, hit)
        mon.set_events(3, ev.JUMP | ev.PY_START)

    def stop(self):
        try:
            sys.monitoring.set_events(3, 0)
            sys.monitoring.free_tool_id(3)
        except Exception:
            pass


def note_lines(folder, prefix):
    """Measures which lines of the code under test are executed (DST_COV=folder, see tools/covered.py)."""
    mon = sys.monitoring
    mon.use_tool_id(4, 'dst-lines')
    seen = set()

    def hit(code, line):
        if code.co_filename.startswith(prefix):
            seen.add((code.co_filename, line))
        return mon.DISABLE
    mon.register_callback(4, mon.events.LINE, hit)
    mon.set_events(4, mon.events.LINE)

    def done():
        mon.set_events(4, 0)
        with open(os.path.join(folder, str(os.getpid())), 'a') as f:
            f.writelines(f'{a[len(prefix):]}:{b}\n' for a, b in sorted(seen))
    return done


def child(job, wfd):
    os.setpgid(0, 0)
    devnull = os.open(os.devnull, os.O_RDWR)
    for fd in (0, 1):
        os.dup2(devnull, fd)
    if not os.environ.get('DST_DEBUG'):
        os.dup2(devnull, 2)
    sys.stdout = io.TextIOWrapper(os.fdopen(os.dup(devnull), 'wb'), write_through=False)
    done = note_lines(os.environ['DST_COV'], os.path.join(REPO, '')) if os.environ.get('DST_COV') else None
    res = run_one(job)
    if done:
        done()
    data = json.dumps(res).encode()
    data = struct.pack('<Q', len(data)) + data
    view = memoryview(data)
    while view:
        view = view[os.write(wfd, view):]
    os._exit(0)


def fork_run(job, timeout):
    from dst.seams import REAL
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            child(job, w)
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    os.close(w)
    buf = b''
    deadline = REAL.monotonic() + timeout
    timed_out = False
    while True:
        left = deadline - REAL.monotonic()
        if left <= 0:
            timed_out = True
            break
        ready, _, _ = select.select([r], [], [], left)
        if not ready:
            continue
        part = os.read(r, 1 << 20)
        if not part:
            break
        buf += part
        if len(buf) >= 8 and len(buf) - 8 >= struct.unpack('<Q', buf[:8])[0]:
            break
    os.close(r)
    try:
        os.killpg(pid, signal.SIGKILL)
    except (ProcessLookupError, PermissionError):
        try:
            os.kill(pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
    os.waitpid(pid, 0)
    if timed_out:
        return dict(status='timeout')
    if len(buf) < 8:
        return dict(status='harness', message='the run ended without a result')
    return json.loads(buf[8:])


def main():
    out = os.fdopen(os.dup(1), 'w')
    os.dup2(2, 1)
    try:
        warm()
    except BaseException:
        out.write(json.dumps(dict(ready=False, error=traceback.format_exc()[-3000:])) + '\n')
        out.flush()
        return 1
    gc.collect()
    gc.freeze()
    out.write(json.dumps(dict(ready=True)) + '\n')
    out.flush()
    while True:
        line = sys.stdin.readline()
        if not line:
            return 0
        job = json.loads(line)
        res = fork_run(job, job.get('timeout', 60))
        out.write(json.dumps(res) + '\n')
        out.flush()


if __name__ == '__main__':
    sys.exit(main())
