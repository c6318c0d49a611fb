"""Deterministic scheduler of real threads: exactly one holds the baton, and it is handed over only at
monitored lines of the library, at the steps which the plan lists."""
import _thread
import zlib

from . import coop, mon
from .core import HarnessError, SimHang, Violation, need


class Scheduler:
    def __init__(self, env, switches, instr=False, focus=None):
        """switches: list of [gap, target]: after `gap` more line events hand over to (runnable) thread target
        focus: None, or [file name]: count only events in that file of the library, or [m, r]: hand over at every
        line of the library whose hash is r modulo m, the gaps being counted in such lines
        """
        need(focus is None or isinstance(focus, list) and (len(focus) == 1 and isinstance(focus[0], str) or len(focus) == 2 and all(
            isinstance(x, int) and x >= 0 for x in focus) and focus[0] > 0))
        self.focus = focus
        self.chosen = {}
        self.env = env
        self.switches = switches
        self.si = 0
        self.next_at = switches[0][0] if switches else 1 << 62
        self.step = 0
        self.events = 0
        self.n = 0
        self.gates = []
        self.idents = {}
        self.state = []          # 'ready' 'done'
        self.results = []
        self.cur = None
        self.done = _thread.allocate_lock()
        self.done.acquire()
        self.nswitch = 0
        self.nblock = 0
        self.blockrun = 0
        self.deadlock = False
        self.instr = instr
        self.limit = 3000000

    def is_sim_thread(self):
        return _thread.get_ident() in self.idents

    def run(self, funcs):
        self.n = len(funcs)
        self.gates = [_thread.allocate_lock() for _ in funcs]
        for g in self.gates:
            g.acquire()
        self.state = ['ready'] * self.n
        self.results = [None] * self.n
        coop.current = self
        mon.line_hook = self.on_step
        mon.set_events(mon.LINE | (mon.INSTR if self.instr else 0))
        try:
            for i, f in enumerate(funcs):
                _thread.start_new_thread(self._body, (i, f))
            self.cur = 0
            self.gates[0].release()
            if not self.done.acquire(True, 300):
                raise HarnessError('simulated threads did not finish')
        finally:
            mon.line_hook = None
            coop.current = None
            mon.set_events(mon.JB)
        self.env.step('switches', self.nswitch)
        if self.deadlock:
            raise Violation('deadlock', 'all threads blocked')
        return self.results

    def _body(self, i, f):
        self.gates[i].acquire()
        self.idents[_thread.get_ident()] = i
        try:
            try:
                self.results[i] = ('ok', f())
            except BaseException as e:
                self.results[i] = ('err', e)
        finally:
            del self.idents[_thread.get_ident()]
            self.state[i] = 'done'
            ready = [j for j in range(self.n) if self.state[j] != 'done']
            if ready:
                j = min(ready, key=lambda k: (k - i) % self.n)
                self.cur = j
                self.env.sched.update(b'e%d' % j)
                self.gates[j].release()
            else:
                self.done.release()

    def _handover(self, j):
        i = self.cur
        self.cur = j
        self.nswitch += 1
        self.gates[j].release()
        self.gates[i].acquire()

    def counts(self, code, line):
        """Is this event one at which threads may be switched?"""
        k = (code, line)
        r = self.chosen.get(k)
        if r is None:
            rel = mon.relname(code)
            if rel is None:
                r = False
            elif len(self.focus) == 1:
                r = rel == self.focus[0]
            else:
                r = line is not None and zlib.crc32(b'%s:%s:%d' % (rel.encode(), code.co_name.encode(), line - code.co_firstlineno)) % self.focus[0] == self.focus[1]
            self.chosen[k] = r
        return r

    def on_step(self, code, line):
        me = self.idents.get(_thread.get_ident())
        if me is None:
            return
        self.events += 1
        self.blockrun = 0
        if self.events > self.limit:
            raise SimHang('step budget of %d line events exhausted' % self.limit)
        if self.focus is not None and not self.counts(code, line):
            return
        self.step += 1
        if self.step >= self.next_at:
            target = self.switches[self.si][1]
            self.si += 1
            self.next_at = self.step + max(1, self.switches[self.si][0]) if self.si < len(self.switches) else 1 << 62
            ready = [j for j in range(self.n) if self.state[j] != 'done' and j != me]
            if ready:
                j = ready[target % len(ready)]
                self.env.sched.update(b's%d:%d' % (self.step, j))
                self._handover(j)

    def blocked(self, lock):
        """The current simulated thread found a lock taken"""
        me = self.idents[_thread.get_ident()]
        self.nblock += 1
        self.blockrun += 1
        ready = [j for j in range(self.n) if self.state[j] != 'done' and j != me]
        if not ready or self.blockrun > 50 * self.n:
            self.deadlock = True
            raise SimHang('deadlock')
        j = min(ready, key=lambda k: (k - me) % self.n)
        self._handover(j)
