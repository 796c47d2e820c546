"""
The operating-system seam for lock files: real files and real ``flock`` in a
private scratch directory; blocking, faults and descriptor ownership are the
simulator's.
"""

import builtins
import errno
import fcntl
import io
import os

from . import kernel

_real_open = os.open
_real_close = os.close
_real_flock = fcntl.flock
_real_lockf = fcntl.lockf
_real_builtin_open = builtins.open
_real_getpid = os.getpid
_real_kill = os.kill
FIRST_PID = 5_000_000        # beyond every real one

_installed = False


class Bystander:
    alive = True


class OSWorld:
    """Per-run state of the operating-system seam."""

    def __init__(self, sim, scratch):
        self.sim = sim
        self.scratch = os.path.realpath(scratch)
        self.fds = {}              # fd -> Proc that opened it
        self.files = {}            # fd -> identity of what was opened
        self.waiters = []          # [(th, fd, op, cell)]
        self.calls = {}            # kind -> number of calls so far
        self.total = 0
        self.fault = None          # fn(kind, index, th) -> exception | None
        self.flocks_ok = 0
        self.holds = []            # [Proc, fd, from, until]
        self.pids = {}             # Proc -> pid
        self.reuse_pids = False    # numbers of the dead go to newcomers
        sim.data['os'] = self
        sim.quiescent_hooks.append(self._requeue)

    # -- faults ------------------------------------------------------------------

    def _enter(self, kind, th):
        """Count the call; return an exception to inject, if any."""
        self.sim.point(kind)
        n = self.calls.get(kind, 0)
        self.calls[kind] = n + 1
        self.total += 1
        if self.fault is None:
            return None
        exc = self.fault(kind, n, th)
        if exc is not None:
            self.sim.count(f'fault.{kind}.{type(exc).__name__}')
        return exc

    # -- calls -------------------------------------------------------------------

    def open(self, path, flags, mode=0o777, *, dir_fd=None):
        th = self.sim.cur()
        exc = self._enter('open', th)
        if exc is not None:
            raise exc
        full = os.path.realpath(os.fspath(path))
        if not full.startswith(self.scratch + os.sep):
            # nothing outside the scratch directory can be written
            if full != os.devnull and flags & (os.O_WRONLY | os.O_RDWR):
                raise PermissionError(errno.EACCES, 'outside the simulation')
        else:
            self._permission(full, flags)
        fd = _real_open(path, flags, mode, dir_fd=dir_fd)
        self._opened(fd, th)
        self.sim.point('open.done')
        return fd

    def _opened(self, fd, th):
        self.fds[fd] = th.proc
        st = os.fstat(fd)
        self.files[fd] = st.st_dev, st.st_ino

    def _prune(self):
        """Forget what was closed behind our back (by a file object)."""
        for fd in list(self.fds):
            try:
                st = os.fstat(fd)
            except OSError:
                pass
            else:
                if self.files[fd] == (st.st_dev, st.st_ino):
                    continue
            del self.fds[fd]
            self._ended(fd)

    @staticmethod
    def _permission(full, flags):
        """What an ordinary user, owner of the file, would be refused (the
        simulation may be running as root)."""
        try:
            m = os.stat(full).st_mode
        except OSError:
            return
        acc = flags & os.O_ACCMODE
        if acc != os.O_RDONLY and not m & 0o200 or \
                acc != os.O_WRONLY and not m & 0o400:
            raise PermissionError(errno.EACCES, os.strerror(errno.EACCES),
                                  full)

    def close(self, fd):
        th = self.sim.cur()
        exc = self._enter('close', th)
        # Linux: the descriptor is gone whatever close() reports
        self.fds.pop(fd, None)
        _real_close(fd)
        self._ended(fd)
        self._wake()
        if exc is not None:
            raise exc
        self.sim.point('close.done')

    def flock(self, fd, op):
        th = self.sim.cur()
        num = fd if isinstance(fd, int) else fd.fileno()
        if op & fcntl.LOCK_UN:
            exc = self._enter('unlock', th)
            if exc is not None:
                raise exc
            _real_flock(num, op)
            self._ended(num)
            self._wake()
            self.sim.point('unlock.done')
            return
        exc = self._enter('lock', th)
        if exc is not None:
            raise exc
        if op & fcntl.LOCK_NB:
            _real_flock(num, op)
            self._granted(th, num)
            self.sim.point('lock.done')
            return
        while True:
            try:
                _real_flock(num, op | fcntl.LOCK_NB)
                self._granted(th, num)
                break
            except OSError as e:
                if e.errno not in (errno.EWOULDBLOCK, errno.EACCES):
                    raise
            cell = [False, None]
            rec = (th, num, op, cell)
            self.waiters.append(rec)
            self.sim.count('probe.flock_blocked')
            self.sim.block(rec)
            if rec in self.waiters:
                self.waiters.remove(rec)
            if cell[1] is not None:
                raise cell[1]
            if cell[0]:
                break
        self.sim.point('lock.done')

    def _granted(self, th, num):
        self.flocks_ok += 1
        self.holds.append([th.proc, num, self.sim.time, None])

    def _ended(self, num):
        for h in self.holds:
            if h[1] == num and h[3] is None:
                h[3] = self.sim.time

    # -- blocking ------------------------------------------------------------------

    def _wake(self):
        for th, *_ in self.waiters:
            self.sim.wake(th)
        self.waiters.clear()

    def _requeue(self):
        """Grant locks freed behind our back (e.g. by a closed file object)."""
        for rec in list(self.waiters):
            th, num, op, cell = rec
            if th.state != kernel.BLOCKED:
                self.waiters.remove(rec)
                continue
            try:
                _real_flock(num, op | fcntl.LOCK_NB)
            except OSError as e:
                if e.errno in (errno.EWOULDBLOCK, errno.EACCES):
                    continue
                cell[1] = e
            else:
                cell[0] = True
                self._granted(th, num)
            self.waiters.remove(rec)
            self.sim.wake(th)
            return

    def interrupt(self, th, exc):
        """Deliver an exception (signal) to a thread blocked in flock."""
        for rec in self.waiters:
            if rec[0] is th:
                rec[3][1] = exc
                self.waiters.remove(rec)
                self.sim.wake(th)
                return True
        return False

    def crash(self, proc):
        """The kernel's part of a process death."""
        self._prune()
        for fd, owner in list(self.fds.items()):
            if owner is proc:
                del self.fds[fd]
                # The number stays taken: an object that dies later could
                # close it again
                null = _real_open(os.devnull, os.O_RDWR)
                os.dup2(null, fd)
                _real_close(null)
                self._ended(fd)
        self.waiters = [w for w in self.waiters if w[0].proc is not proc]
        if self.reuse_pids == 'bystander' and proc in self.pids:
            # an unrelated process gets the number, and lives on
            self.pids[Bystander()] = self.pids[proc]
            self.sim.count('fault.pid_reused')
        self._wake()

    # -- process identity ----------------------------------------------------------

    def pid_of(self, proc):
        if proc not in self.pids:
            alive = {n for p, n in self.pids.items() if p.alive}
            dead = sorted(set(self.pids.values()) - alive)
            if dead and self.reuse_pids:
                n = dead[0]
                self.sim.count('fault.pid_reused')
            else:
                n = FIRST_PID + len(self.pids)
            self.pids[proc] = n
        return self.pids[proc]

    def kill(self, pid, sig):
        """Only asking whether a process exists has an effect."""
        if pid < FIRST_PID:
            if sig == 0:
                return _real_kill(pid, 0)
        elif any(p.alive and n == pid for p, n in self.pids.items()):
            if sig == 0:
                return None
            raise PermissionError(errno.EPERM, os.strerror(errno.EPERM))
        raise ProcessLookupError(errno.ESRCH, os.strerror(errno.ESRCH))

    def open_fds(self, proc=None):
        self._prune()
        return [fd for fd, p in self.fds.items() if proc is None or p is proc]


def _world():
    s = kernel.ACTIVE
    if s is None:
        return None
    w = s.data.get('os')
    if w is None or s.cur() is None:
        return None
    return w


def install():
    global _installed
    if _installed:
        return
    _installed = True

    def open(path, flags, mode=0o777, *, dir_fd=None):
        w = _world()
        if w is None:
            return _real_open(path, flags, mode, dir_fd=dir_fd)
        return w.open(path, flags, mode, dir_fd=dir_fd)

    def close(fd):
        w = _world()
        if w is None or fd not in w.fds:
            return _real_close(fd)
        return w.close(fd)

    def flock(fd, operation):
        w = _world()
        if w is None:
            return _real_flock(fd, operation)
        return w.flock(fd, operation)

    def lockf(fd, cmd, *a):
        w = _world()
        if w is None or cmd & fcntl.LOCK_NB or cmd & fcntl.LOCK_UN:
            if w is not None:
                w._enter('unlock' if cmd & fcntl.LOCK_UN else 'lock', w.sim.cur())
            r = _real_lockf(fd, cmd, *a)
            return r
        w._enter('lock', w.sim.cur())
        while True:
            try:
                return _real_lockf(fd, cmd | fcntl.LOCK_NB, *a)
            except OSError as e:
                if e.errno not in (errno.EWOULDBLOCK, errno.EACCES):
                    raise
            w.sim.sleep(0.01)

    def bopen(file, mode='r', buffering=-1, encoding=None, errors=None,
              newline=None, closefd=True, opener=None):
        w = _world()
        if w is not None and not isinstance(file, int):
            full = os.path.realpath(os.fspath(file))
            if full.startswith(w.scratch + os.sep):
                exc = w._enter('open', w.sim.cur())
                if exc is not None:
                    raise exc
                f = _real_builtin_open(file, mode, buffering, encoding,
                                       errors, newline, closefd, opener)
                w._opened(f.fileno(), w.sim.cur())
                return f
        return _real_builtin_open(file, mode, buffering, encoding, errors,
                                  newline, closefd, opener)

    def getpid():
        w = _world()
        if w is None:
            return _real_getpid()
        return w.pid_of(w.sim.cur().proc)

    def kill(pid, sig):
        w = _world()
        if w is None:
            return _real_kill(pid, sig)
        return w.kill(pid, sig)

    os.getpid = getpid
    os.kill = kill
    os.open = open
    os.close = close
    fcntl.flock = flock
    fcntl.lockf = lockf
    builtins.open = bopen
    io.open = bopen                 # what pathlib uses
