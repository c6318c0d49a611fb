"""Answers from processes in which nothing has happened yet.

A zygote is forked off the first time a process asks for it in begin(), before that process makes its first run; each
question is answered by a child of the zygote made for it.  So an answer depends on the question alone, whatever state
the runs in the asking process have left behind in the library.
"""
import json
import os
import struct
import sys

from .core import HarnessError

_owner = None
_pipes = None


def _read(fd, n):
    out = b''
    while len(out) < n:
        b = os.read(fd, n - len(out))
        if not b:
            return None
        out += b
    return out


def _write(fd, data):
    data = struct.pack('>I', len(data)) + data
    while data:
        data = data[os.write(fd, data):]


def begin(func):
    """Have a zygote for this process; func(question) is what answers"""
    global _owner, _pipes
    if _owner == os.getpid():
        return
    qr, qw = os.pipe()
    ar, aw = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        try:
            # Nobody else's pipes are to be kept open
            keep = sorted((qr, aw))
            os.closerange(3, keep[0])
            os.closerange(keep[0] + 1, keep[1])
            os.closerange(keep[1] + 1, 1024)
            while True:
                h = _read(qr, 4)
                if h is None:
                    break
                q = _read(qr, struct.unpack('>I', h)[0])
                c = os.fork()
                if c == 0:
                    try:
                        a = ['ok', func(json.loads(q))]
                    except BaseException as e:
                        a = ['exc', '%s: %s' % (type(e).__name__, e)]
                    _write(aw, json.dumps(a).encode())
                    os._exit(0)
                os.waitpid(c, 0)
        finally:
            os._exit(0)
    os.close(qr)
    os.close(aw)
    _owner, _pipes = os.getpid(), (qw, ar)


def ask(question):
    qw, ar = _pipes
    _write(qw, json.dumps(question).encode())
    h = _read(ar, 4)
    if h is None:
        raise HarnessError('the pristine process is gone')
    a = json.loads(_read(ar, struct.unpack('>I', h)[0]))
    if a[0] != 'ok':
        raise HarnessError('pristine process: ' + a[1])
    return a[1]
