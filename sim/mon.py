"""sys.monitoring based control of the code under test: step budgets and interruption at the n-th line."""
import sys

from .core import SimHang, SimInterrupt

M = sys.monitoring
TOOL = 4
JB = M.events.JUMP | M.events.BRANCH
LINE = M.events.LINE
INSTR = M.events.INSTRUCTION

_state = {'events': 0}
count = 0
limit = 1 << 62
lines = 0
interrupt_at = 0        # line ordinal at which to interrupt; 0: never
fired = False
line_hook = None        # scheduler's callback
_sut_prefix = '/nonexistent/'
_ply_prefix = '/nonexistent/'
_skip = ()


def setup(scratch, verif):
    global _sut_prefix, _ply_prefix, _skip
    import ply
    import os
    _sut_prefix = scratch + os.sep
    _ply_prefix = os.path.dirname(ply.__file__) + os.sep
    _skip = (verif + os.sep,)
    M.use_tool_id(TOOL, 'amsim')
    M.register_callback(TOOL, M.events.JUMP, _jb)
    M.register_callback(TOOL, M.events.BRANCH, _jb)
    M.register_callback(TOOL, M.events.LINE, _line)
    M.register_callback(TOOL, M.events.INSTRUCTION, _instr)


def _jb(code, off, dest):
    global count
    if code.co_filename.startswith(_skip):
        return M.DISABLE
    count += 1
    if count > limit:
        raise SimHang('step budget of %d exhausted in %s' % (limit, code.co_name))


def _line(code, line):
    global lines, fired
    f = code.co_filename
    if line_hook is not None:
        if f.startswith(_sut_prefix) or f.startswith(_ply_prefix):
            lines += 1
            line_hook(code, line)
            return
        return M.DISABLE
    if not f.startswith(_sut_prefix):
        return M.DISABLE
    lines += 1
    if interrupt_at and lines == interrupt_at:
        fired = True
        raise SimInterrupt('injected at line event %d' % lines)


def _instr(code, off):
    f = code.co_filename
    if f.startswith(_sut_prefix):
        if line_hook is not None:
            line_hook(code, None)
        return
    return M.DISABLE


def relname(code):
    """Name of the library file which code is from, or None"""
    f = code.co_filename
    return f[len(_sut_prefix):] if f.startswith(_sut_prefix) else None


def set_events(ev):
    if _state['events'] != ev:
        M.set_events(TOOL, ev)
        if ev & (LINE | INSTR):
            M.restart_events()
        _state['events'] = ev


def begin(budget):
    """Start of a run"""
    global count, limit, lines, interrupt_at, fired, line_hook
    count = 0
    limit = budget
    lines = 0
    interrupt_at = 0
    fired = False
    line_hook = None
    set_events(JB)


def end():
    """The harness's own checking after the run is not limited"""
    global limit
    limit = 1 << 62
    set_events(JB)


class interrupt:
    """with interrupt(n): ... raises SimInterrupt into the library at its n-th line event in the block"""
    def __init__(self, n):
        self.n = n

    def __enter__(self):
        global lines, interrupt_at, fired
        lines = 0
        fired = False
        interrupt_at = self.n
        set_events(JB | LINE)
        return self

    def __exit__(self, *a):
        global interrupt_at
        interrupt_at = 0
        self.fired = fired
        self.lines = lines
        set_events(JB)
