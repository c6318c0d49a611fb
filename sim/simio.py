"""Simulated file objects."""
from .core import need


class SimReader:
    """A source whose reads are cut, and fail, as the plan says.

    sizes: list of the most to return by successive reads (cycled; 0 means: as much as asked)
    fail_at: ordinal (1-based) of the read which raises `exc`, or None
    """
    def __init__(self, env, data, sizes=(), fail_at=None, exc=None, limit_read=None, name='r'):
        self.env, self.data, self.sizes = env, data, [s for s in sizes]
        self.fail_at, self.exc = fail_at, exc
        self.pos = 0
        self.calls = 0
        self.failed = False
        self.served = 0
        self.name = name

    def read(self, n=-1):
        self.calls += 1
        if self.fail_at is not None and self.calls >= self.fail_at:
            self.failed = True
            self.env.fault('read-error')
            self.env.log(self.name, 'read-error', self.calls)
            raise self.exc
        left = len(self.data) - self.pos
        k = left if n is None or n < 0 else min(n, left)
        if n is not None and n >= 0 and self.sizes:
            c = self.sizes[(self.calls - 1) % len(self.sizes)]
            if c and c < k:
                k = c
                self.env.fault('short-read')
        r = self.data[self.pos:self.pos + k]
        self.pos += k
        self.env.log(self.name, 'read', k)
        return r

    def close(self):
        pass

    def readable(self):
        return True


class SimWriter:
    """A text output which fails at the `fail_at`-th unit, as the plan says.

    mode 'call': the fail_at-th write call raises, nothing of it being accepted
    mode 'byte': once fail_at characters have been accepted; the write which crosses that is torn
    transient: only that one write fails
    """
    def __init__(self, env, fail_at=None, mode='call', exc=None, on_write=None, name='w', transient=False):
        self.env = env
        self.parts = []
        self.fail_at, self.mode, self.exc = fail_at, mode, exc
        self.calls = 0
        self.size = 0
        self.failed = 0
        self.on_write = on_write
        self.name = name
        self.transient = transient
        self.types = set()

    def write(self, s):
        self.calls += 1
        if not isinstance(s, str):
            raise TypeError('write() argument must be str, not %s' % type(s).__name__)
        if self.fail_at is not None and not (self.failed and self.transient):
            if self.mode == 'call' and self.calls >= self.fail_at:
                return self._fail()
            if self.mode == 'byte' and self.size + len(s) > self.fail_at:
                k = self.fail_at - self.size
                if k > 0:
                    self._accept(s[:k])
                    self.env.fault('torn-write')
                if isinstance(self.exc, BlockingIOError):
                    self.exc.characters_written = max(k, 0)
                return self._fail()
        self._accept(s)
        return len(s)

    def _fail(self):
        self.failed += 1
        self.env.fault('write-error')
        self.env.log(self.name, 'write-error', self.calls)
        raise self.exc

    def _accept(self, s):
        s = str(s)
        self.parts.append(s)
        self.size += len(s)
        self.env.steps += 1
        if self.on_write is not None:
            self.on_write(s)

    def flush(self):
        pass

    def close(self):
        pass

    def getvalue(self):
        return ''.join(self.parts)
