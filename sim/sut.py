"""Scratch copy of the code under test, made from /repo's working tree, and its import."""
import importlib
import importlib.machinery
import importlib.util
import os
import shutil
import sys
import tempfile

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SKIP = {'__pycache__', 'parsetab.py', 'parser.out', 'parsetab.pyc', 'lextab.py', 'parsetab.pickle'}


def make_scratch():
    """Copy the package out of /repo, without anything generated"""
    d = tempfile.mkdtemp(prefix='amsim-')
    shutil.copytree(os.path.join(REPO, 'pylib'), os.path.join(d, 'amara3'),
                    ignore=lambda p, names: [n for n in names if n in SKIP or n.endswith('.pyc')])
    shutil.copy(os.path.join(REPO, 'exec', 'microx'), os.path.join(d, 'microx_cmd.py'))
    return d


def remove_scratch(d):
    if os.path.basename(d).startswith('amsim-') and os.path.isdir(d):
        shutil.rmtree(d, ignore_errors=True)


class SUT:
    pass


def load(scratch):
    """Import the library from the scratch copy and nowhere else"""
    from . import coop
    # The venv's .pth puts the repository itself first
    sys.path[:] = [p for p in sys.path if p not in ('/opt/amara3-path', '/repo/build/lib', '/repo', '')]
    sys.path.insert(0, scratch)
    sys.dont_write_bytecode = True
    # What these import must be in before the lock classes are replaced
    import argparse, logging, tempfile, urllib.request, weakref, html5lib, ply.lex, ply.yacc  # noqa
    import xml.parsers.expat, xml.sax.saxutils, asyncio, concurrent.futures, queue, functools  # noqa
    coop.install()
    so, se = sys.stdout, sys.stderr
    import io
    sys.stdout, sys.stderr = io.StringIO(), io.StringIO()   # ply's table generation is chatty
    import warnings
    warnings.simplefilter('ignore')
    try:
        s = SUT()
        for name in ('tree', 'parser', 'treeiter', 'treeutil', 'xml', 'xmliter', 'html5', 'html5iter',
                     'lex', 'writer', 'uxpath'):
            setattr(s, name, importlib.import_module('amara3.uxml.' + name))
        s.uxml = importlib.import_module('amara3.uxml')
        s.xast = importlib.import_module('amara3.uxml.uxpath.xast')
        for m in list(sys.modules.values()):
            n = getattr(m, '__name__', '')
            if n.startswith('amara3.uxml'):
                f = getattr(m, '__file__', None)
                if f and not os.path.realpath(f).startswith(os.path.realpath(scratch)):
                    raise RuntimeError('%s was imported from %s, not from the scratch copy' % (n, f))
        loader = importlib.machinery.SourceFileLoader('microx_cmd', os.path.join(scratch, 'microx_cmd.py'))
        spec = importlib.util.spec_from_loader('microx_cmd', loader)
        s.microx = importlib.util.module_from_spec(spec)
        loader.exec_module(s.microx)
        s.scratch = scratch
    finally:
        sys.stdout, sys.stderr = so, se
    import html5lib
    s.html5lib = html5lib
    return s
