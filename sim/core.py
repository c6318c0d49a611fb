"""Run environment: history log, fault and probe counters, violations."""
import hashlib


class Violation(Exception):
    """The property does not hold in this run.  `kind` is the violation class kept by minimisation."""
    def __init__(self, kind, msg=''):
        Exception.__init__(self, kind, msg)
        self.kind = kind
        self.msg = msg


class BadPlan(Exception):
    """The plan (e.g. one made by the minimiser) does not describe a meaningful run."""


class HarnessError(Exception):
    """The simulator itself is at fault."""


class SimHang(BaseException):
    """Raised into the code under test once a run has used up its step budget."""


class SimInterrupt(KeyboardInterrupt):
    """The injected asynchronous interruption."""


class SimFault(Exception):
    """An injected handler / sink failure."""


class SimExit(BaseException):
    """An injected failure which is not an Exception, in the manner of SystemExit."""


INJECTED = 23


def injected(n, what='fault'):
    """The n-th kind of injected failure: of every type which code under test might treat specially, e.g. for its own control flow"""
    return [lambda: SimFault(what), lambda: OSError(5, 'Input/output error'), lambda: SimExit(what),
            lambda: UnicodeDecodeError('utf-8', b'\xff', 0, 1, 'invalid start byte'), lambda: IndexError(what), lambda: KeyError(what),
            lambda: ValueError(what), lambda: TypeError(what), lambda: AttributeError(what), lambda: RuntimeError(what),
            lambda: AssertionError(what), lambda: EOFError(what), lambda: MemoryError(what), lambda: BrokenPipeError(32, 'Broken pipe'),
            lambda: NotImplementedError(what), lambda: TimeoutError(what), lambda: ZeroDivisionError(what),
            lambda: InterruptedError(4, 'Interrupted system call'), lambda: BlockingIOError(11, 'Resource temporarily unavailable', 0),
            lambda: ConnectionResetError(104, 'Connection reset by peer'), lambda: PermissionError(13, 'Permission denied'), lambda: RecursionError(what),
            lambda: UnicodeEncodeError('ascii', '\xe9', 0, 1, 'ordinal not in range(128)')][n % INJECTED]()


class Env:
    """What one simulated run records."""
    def __init__(self, trace=False):
        self._h = hashlib.blake2b(digest_size=8)
        self.nlog = 0
        self.faults = {}
        self.probes = {}
        self.steps = 0          # logical steps: feeds, reads, writes, ...
        self.mon_steps = 0      # monitored events
        self.trace = [] if trace else None
        self.sched = hashlib.blake2b(digest_size=8)
        self.nontrivial = False

    def log(self, *ev):
        """Add to the history.  Must only be given deterministic values."""
        s = repr(ev)
        self._h.update(s.encode('utf-8', 'backslashreplace'))
        self.nlog += 1
        self.steps += 1
        if self.trace is not None:
            self.trace.append(s if len(s) < 400 else s[:400] + '...')

    def step(self, *decision):
        """A scheduling decision (who goes next)"""
        self.sched.update(repr(decision).encode())
        self.steps += 1

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def digest(self):
        return self._h.hexdigest()

    def sched_digest(self):
        return self.sched.hexdigest()


def need(cond, why='plan'):
    if not cond:
        raise BadPlan(why)


def expect(cond, kind, msg=''):
    if not cond:
        raise Violation(kind, msg() if callable(msg) else msg)


def short(x, n=300):
    s = x if isinstance(x, str) else repr(x)
    return s if len(s) <= n else s[:n] + '...(%d)' % len(s)
