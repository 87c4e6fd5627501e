"""Runs a function in a forked copy of this process: a reference execution nothing else can influence."""
import os
import pickle
import signal
import struct
import traceback

from dst.choice import HarnessError


def isolated(fn, entropy='reference'):
    """The child has its own clock, entropy and pool scheduler; it draws nothing from the run's choices.
    Returns ('ok', value) or ('error', type name, message)."""
    from dst import seams, simpool, simthreads
    from dst.choice import Sim
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            simpool.forget()
            simpool.attach(Sim(seed='isolated'))
            seams.CLOCK.reset()
            seams.ENTROPY.reset(entropy)
            import random
            random.seed(seams.ENTROPY.next())
            simthreads.in_worker()
            try:
                out = ('ok', fn())
            except HarnessError as e:
                out = ('harness', str(e))
            except Exception as e:
                out = ('error', type(e).__name__, str(e)[:300])
            data = pickle.dumps(out)
        except BaseException:
            data = pickle.dumps(('harness', traceback.format_exc()[-1500:]))
        try:
            simpool.kill_all()
            data = struct.pack('<Q', len(data)) + data
            view = memoryview(data)
            while view:
                view = view[os.write(w, view):]
        finally:
            os._exit(0)
    os.close(w)
    buf = b''
    while True:
        part = os.read(r, 1 << 20)
        if not part:
            break
        buf += part
        if len(buf) >= 8 and len(buf) - 8 >= struct.unpack('<Q', buf[:8])[0]:
            break
    os.close(r)
    os.waitpid(pid, 0)
    if len(buf) < 8:
        raise HarnessError('the isolated reference execution died')
    out = pickle.loads(buf[8:])
    if out[0] == 'harness':
        raise HarnessError(out[1])
    return out


def attempt(fn):
    """Same shape of result, in this process."""
    try:
        return ('ok', fn())
    except HarnessError:
        raise
    except Exception as e:
        return ('error', type(e).__name__, str(e)[:300])
