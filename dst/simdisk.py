"""Simulated storage: a scratch directory behind a faulty device.

Files below the run's scratch directory go through `SimRaw`, where writes may be short, fail with
ENOSPC or EIO, or be interrupted by a crash; after a crash everything not yet synced survives only
as a prefix chosen by the simulator.  Other paths are not touched.
"""
import builtins
import errno
import io
import os
import shutil
import tempfile

_open = builtins.open
_fsync = os.fsync


class SimCrash(BaseException):
    """The simulated machine lost power."""


class Disk:
    def __init__(self):
        self.root = None
        self.sim = None

    def attach(self, sim):
        self.detach()
        self.sim = sim
        self.root = tempfile.mkdtemp(prefix='dst-disk-')
        self.unsynced = {}         # inode -> synced length
        self.quota = None          # bytes that may still be written
        self.fault_at = None       # (op index, kind)
        self.ops = 0
        self.short = 0
        self.dead = False
        self.full_hit = False

    def detach(self):
        if self.root is not None:
            shutil.rmtree(self.root, ignore_errors=True)
        self.root = None

    def arm(self, kind, at, quota=None):
        self.ops = 0
        self.full_hit = False
        self.fault_at = (at, kind) if kind is not None else None
        self.quota = quota

    def disarm(self):
        self.fault_at = None
        self.quota = None

    def owns(self, file):
        if self.root is None or not isinstance(file, (str, os.PathLike)):
            return False
        return os.path.abspath(os.fspath(file)).startswith(self.root + os.sep)

    def op(self, what, name):
        """One device operation; raises what the fault plan says."""
        if self.dead:
            raise SimCrash()
        self.ops += 1
        if self.fault_at is not None and self.ops == self.fault_at[0] + 1:
            kind = self.fault_at[1]
            self.sim.fault('disk ' + kind)
            self.sim.event('disk', kind, 'at', what, os.path.basename(name))
            if kind == 'crash':
                self.dead = True
                raise SimCrash()
            if kind == 'io error':
                raise OSError(errno.EIO, 'Input/output error', name)

    def crash_recover(self):
        """Power comes back: unsynced data survives as a prefix of the simulator's choice."""
        self.dead = False
        for base, _, files in sorted(os.walk(self.root)):
            for f in sorted(files):
                p = os.path.join(base, f)
                ino = os.stat(p).st_ino
                if ino in self.unsynced:
                    size = os.path.getsize(p)
                    mode = self.sim.draw('torn', 4)
                    if mode == 0:
                        keep = size
                    elif mode == 1:
                        keep = 0
                    else:
                        keep = self.sim.draw('torn-at', size + 1)
                    if keep != size:
                        self.sim.fault('torn or lost write')
                    self.sim.event('after crash', f, 'keeps', keep, 'of', size, 'bytes')
                    os.truncate(p, keep)
        self.unsynced = {}


DISK = Disk()


class SimRaw(io.FileIO):
    def __init__(self, name, mode):
        DISK.op('open', str(name))
        super().__init__(name, mode)
        self._w = 'w' in mode or 'a' in mode or 'x' in mode or '+' in mode
        if self._w:
            DISK.unsynced[os.fstat(self.fileno()).st_ino] = 0

    def write(self, b):
        DISK.op('write', str(self.name))
        n = len(b)
        if DISK.quota is not None:
            if DISK.quota <= 0:
                DISK.sim.fault('disk full')
                DISK.full_hit = True
                raise OSError(errno.ENOSPC, 'No space left on device', self.name)
            n = min(n, DISK.quota)
            DISK.quota -= n
        if DISK.short and n > 1:
            k = 1 + DISK.sim.draw('short', min(n, DISK.short))
            if k < n:
                DISK.sim.fault('short write')
                n = k
        DISK.unsynced[os.fstat(self.fileno()).st_ino] = 0
        return super().write(memoryview(b)[:n])

    def readinto(self, b):
        DISK.op('read', str(self.name))
        if DISK.short and len(b) > 1:
            k = 1 + DISK.sim.draw('short-read', DISK.short)
            if k < len(b):
                DISK.sim.fault('short read')
                return super().readinto(memoryview(b)[:k])
        return super().readinto(b)

    def readall(self):
        out = b''
        while True:
            buf = bytearray(4096)
            n = self.readinto(buf)
            if not n:
                return out
            out += bytes(buf[:n])


def sim_open(file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
    if not DISK.owns(file) or opener is not None:
        return _open(file, mode, buffering, encoding, errors, newline, closefd, opener)
    raw = SimRaw(os.fspath(file), mode.replace('b', '').replace('t', ''))
    if buffering == 0:
        return raw
    size = 512
    if '+' in mode:
        buf = io.BufferedRandom(raw, size)
    elif 'r' in mode:
        buf = io.BufferedReader(raw, size)
    else:
        buf = io.BufferedWriter(raw, size)
    if 'b' in mode:
        return buf
    text = io.TextIOWrapper(buf, encoding, errors, newline)
    text.mode = mode
    return text


def sim_fsync(fd):
    n = fd if isinstance(fd, int) else fd.fileno()
    if DISK.root is not None:
        DISK.op('fsync', '')
        DISK.unsynced.pop(os.fstat(n).st_ino, None)
    return _fsync(fd)


def install():
    builtins.open = sim_open
    io.open = sim_open
    os.fsync = sim_fsync
