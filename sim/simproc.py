"""Simulated processes over a simulated, failing disk.

Each simulated process is a forked child which runs only while the simulator lets it: before every opening for writing,
flushed block, closing, renaming and reading of a generated file below the run's directory it reports and waits for the answer, which
tells it to go on, to fail with an errno after so many bytes, or to die after so many bytes.  So exactly one process runs
at a time, the order is the plan's, and only what was written by then is left of a process which dies.
"""
import builtins
import errno
import importlib._bootstrap_external as _be
import io
import json
import os
import select
import signal
import struct
import sys
import tempfile

from . import mon
from .core import HarnessError, short

_read_real = _be.SourceFileLoader.get_data
DIE = 9


def _rd(fd, n):
    out = b''
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            return None
        out += b
    return out


def _send(fd, obj):
    d = json.dumps(obj).encode()
    d = struct.pack('>I', len(d)) + d
    while d:
        d = d[os.write(fd, d):]


def _recv(fd):
    h = _rd(fd, 4)
    if h is None:
        return None
    return json.loads(_rd(fd, struct.unpack('>I', h)[0]))


# -- the child's side

class Disk:
    """What stands between a simulated process and its files"""
    def __init__(self, root, sources, ask, spec):
        self.root, self.sources, self.ask, self.spec = root + os.sep, sources, ask, spec
        self.files = []

    def inside(self, path):
        try:
            p = os.fspath(path)
        except TypeError:
            return None
        if isinstance(p, bytes):
            p = os.fsdecode(p)
        p = os.path.abspath(p)
        return p[len(self.root):] if p.startswith(self.root) else None

    def stamp(self, path, now, also=True):
        try:
            os.utime(path, ns=(now, now))
            if also:
                d = os.path.dirname(path)
                os.utime(d, ns=(now, now))
        except OSError:
            pass

    def open(self, file, mode='r', buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
        rel = None if isinstance(file, int) else self.inside(file)
        if rel is None or not set(mode) & set('wax+'):
            return self.real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
        a = self.ask('open', rel, 0)
        if a.get('errno'):
            raise OSError(a['errno'], os.strerror(a['errno']), os.fspath(file))
        path = os.path.join(self.root, rel)
        raw = Raw(self, rel, path, mode, a['now'])
        buf = io.BufferedWriter(raw, self.spec.get('blk') or 8192)
        if 'b' in mode:
            f = buf
        else:
            f = io.TextIOWrapper(buf, encoding or 'utf-8', errors, newline)
            f.mode = mode
        self.files.append(f)
        return f

    def read(self, loader, path):
        rel = self.inside(path)
        if rel is None or rel in self.sources:
            return _read_real(loader, path)
        if '__pycache__' in rel and 'parsetab' not in rel and 'lextab' not in rel:
            return _read_real(loader, path)
        a = self.ask('read', rel, 0)
        if a.get('errno'):
            raise OSError(a['errno'], os.strerror(a['errno']), path)
        return _read_real(loader, path)

    def install(self):
        self.real_open = builtins.open
        builtins.open = io.open = self.open
        disk = self
        _be.SourceFileLoader.get_data = lambda loader, path: disk.read(loader, path)
        spec = self.spec
        real_access = os.access

        def access(path, mode, **kw):
            rel = self.inside(path)
            if rel is not None and mode & os.W_OK and self.denied(rel):
                return False
            return real_access(path, mode, **kw)
        os.access = access
        for name in ('replace', 'rename', 'unlink', 'remove'):
            def wrapped(src, *a, _real=getattr(os, name), _name=name, **kw):
                rel = self.inside(src)
                if rel is None:
                    return _real(src, *a, **kw)
                r = self.ask(_name, rel, 0)
                if r.get('errno'):
                    raise OSError(r['errno'], os.strerror(r['errno']), os.fspath(src))
                v = _real(src, *a, **kw)
                self.stamp(os.path.join(os.path.dirname(os.fspath(a[0] if a else src)), 'x'), r['now'])
                return v
            setattr(os, name, wrapped)
        tmp = os.path.join(self.root, 'tmp')
        if spec.get('tmp') == 'none':
            def nowhere():
                raise FileNotFoundError(errno.ENOENT, 'No usable temporary directory found')
            tempfile._get_default_tempdir = nowhere
            tempfile.tempdir = None
        else:
            tempfile.tempdir = tmp

    def denied(self, rel):
        return not self.spec.get('write', True) and not rel.startswith('tmp')

    def finish(self):
        """As an interpreter does which exits"""
        for f in self.files:
            try:
                f.close()
            except (OSError, ValueError):
                pass


class Raw(io.RawIOBase):
    def __init__(self, disk, rel, path, mode, now):
        self.disk, self.rel, self.path = disk, rel, path
        fl = os.O_WRONLY | os.O_CREAT
        if 'w' in mode:
            fl |= os.O_TRUNC
        if 'a' in mode:
            fl |= os.O_APPEND
        if 'x' in mode:
            fl |= os.O_EXCL
        if '+' in mode:
            fl = fl & ~os.O_WRONLY | os.O_RDWR
        self.fd = os.open(path, fl, 0o666)
        disk.stamp(path, now)
        self.name = path

    def writable(self):
        return True

    def fileno(self):
        return self.fd

    def write(self, b):
        b = bytes(b)
        a = self.disk.ask('write', self.rel, len(b))
        n = len(b)
        if 'n' in a:
            n = min(n, a['n'])
        if n:
            os.write(self.fd, b[:n])
        self.disk.stamp(self.path, a['now'], False)
        if a.get('die'):
            os._exit(DIE)
        if a.get('errno'):
            raise OSError(a['errno'], os.strerror(a['errno']))
        return n

    def close(self):
        if not self.closed:
            try:
                io.RawIOBase.close(self)
            finally:
                os.close(self.fd)
            a = self.disk.ask('close', self.rel, 0)
            if a.get('errno'):
                raise OSError(a['errno'], os.strerror(a['errno']))


# -- the simulator's side

class Proc:
    def __init__(self, name, root, sources, spec, main):
        self.name = name
        cr, cw = os.pipe()
        pr, pw = os.pipe()
        sys.stdout.flush()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(cw)
                os.close(pr)
                mon.set_events(0)
                for k in (signal.SIGTERM, signal.SIGINT):
                    signal.signal(k, signal.SIG_DFL)

                def ask(op, rel, n):
                    _send(pw, [op, rel, n])
                    a = _recv(cr)
                    if a is None or (a.get('die') and op != 'write'):
                        os._exit(DIE)
                    return a
                ask('start', '', 0)
                disk = Disk(root, sources, ask, spec)
                disk.install()
                try:
                    res = ['ok', main(spec)]
                except BaseException as e:
                    import traceback
                    tb = traceback.extract_tb(e.__traceback__)
                    res = ['exc', '%s: %s' % (type(e).__name__, short(str(e), 200).replace(root, '...')),
                           ' < '.join('%s:%s' % (os.path.basename(f.filename), f.name) for f in reversed(tb[-4:]))]
                disk.finish()
                _send(pw, ['end', res, 0])
                os._exit(0)
            except BaseException as e:
                try:
                    _send(pw, ['harness', '%s: %s' % (type(e).__name__, e), 0])
                finally:
                    os._exit(3)
        os.close(cr)
        os.close(pw)
        self.pid, self.r, self.w = pid, pr, cw
        self.msg = self._next()
        self.nops = 0
        self.over = False

    def _next(self, wait=60):
        rl, _, _ = select.select([self.r], [], [], wait)
        if not rl:
            return ['hang', None, 0]
        return _recv(self.r)

    def answer(self, a):
        """Let it go on until it reports again; its next report, or None once it has died"""
        _send(self.w, a)
        self.nops += 1
        self.msg = self._next()
        if self.msg is None or self.msg[0] in ('end', 'harness', 'hang'):
            self.reap()
        return self.msg

    def reap(self):
        if not self.over:
            self.over = True
            os.close(self.w)
            os.close(self.r)
            if self.msg and self.msg[0] == 'hang':
                os.kill(self.pid, signal.SIGKILL)
            os.waitpid(self.pid, 0)

    def kill(self):
        if not self.over:
            os.kill(self.pid, signal.SIGKILL)
            self.reap()
