"""Cooperative stand-ins for threading.Lock and threading.RLock.

Outside a simulated thread they behave as the real ones.  In a simulated thread a lock which is taken
hands the baton to another simulated thread, so that a lock in the code under test never blocks the process.
"""
import _thread
import threading

current = None        # the running Scheduler, if any (set by sim.sched)

RealLock, RealRLock = threading.Lock, threading.RLock


def _in_sim():
    return current is not None and current.is_sim_thread()


class Lock:
    def __init__(self):
        self._l = _thread.allocate_lock()

    def acquire(self, blocking=True, timeout=-1):
        if not _in_sim():
            return self._l.acquire(blocking, timeout)
        while not self._l.acquire(False):
            if not blocking or timeout >= 0:
                return False
            current.blocked(self)
        return True

    def release(self):
        self._l.release()

    def locked(self):
        return self._l.locked()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()


class RLock:
    def __init__(self):
        self._l = Lock()
        self._owner = None
        self._count = 0

    def acquire(self, blocking=True, timeout=-1):
        me = _thread.get_ident()
        if self._owner == me:
            self._count += 1
            return True
        r = self._l.acquire(blocking, timeout)
        if r:
            self._owner = me
            self._count = 1
        return r

    def release(self):
        if self._owner != _thread.get_ident():
            raise RuntimeError('cannot release un-acquired lock')
        self._count -= 1
        if not self._count:
            self._owner = None
            self._l.release()

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    # What threading.Condition uses
    def _is_owned(self):
        return self._owner == _thread.get_ident()

    def _release_save(self):
        c, self._count = self._count, 0
        o, self._owner = self._owner, None
        self._l.release()
        return c, o

    def _acquire_restore(self, st):
        self._l.acquire()
        self._count, self._owner = st


def install():
    threading.Lock = Lock
    threading.RLock = RLock
