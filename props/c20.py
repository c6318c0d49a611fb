"""C20: importing the library and its XPath queries survive whatever happened to the generated parser tables."""
import errno
import importlib
import os
import shutil
import sys
import tempfile

from sim import mon, simproc, sut
from sim.core import HarnessError, SimHang, Violation, expect, need, short

ID = 'C20'
QUICK, THOROUGH, EPOCH = 1800, 60000, 10
RULE = ('A run is a history of 1-4 rounds of 1-3 processes each which import the library from one directory, interleaved at every opening, written '
        'block, closing and reading of generated files, with processes dying at any byte, writes which fail or are short, files which cannot be opened or read, '
        'directories which cannot be written, no directory for temporary files, loss of what was not yet on disk when the power fails, and '
        'tables left by another version; then one process without faults. Every process not itself killed evaluates expressions which together use every rule of the grammar. Non-trivial: a process met a '
        'fault, another process under way, or what a process killed before it left behind. Distinct: by the digest of the history.')
REAL = ['amara3.uxml.uxpath (import and queries)', 'amara3.uxml.tree', 'ply.yacc, ply.lex', 'the import system', 'the files, in a scratch directory',
        'processes (forked, one running at a time)']
STUB = ['open for writing and reading of generated files (fail or kill on the plan\'s say)', 'os.access, the directory for temporary files', 'file times',
        'sys.stderr']
ASSUME = ['what a process wrote before it was killed stays; what was written before a power failure survives as a prefix, possibly followed by zeros',
          'two versions of the library do not write tables to the same directory at the same time']
MUST_HIT = ['final', 'bytecode', 'not-writable', 'no-temp-dir', 'killed']
MUST_HIT_IF = {'tables': ['killed-in-tables', 'concurrent', 'torn-tables', 'write-error', 'short-write', 'open-error', 'read-error', 'power-failure', 'zeroed',
                          'stale-tables', 'old-format', 'empty-tables', 'reused', 'rebuilt', 'garbage-tables', 'read-while-written']}

DOC = ('<r id="0"><a k="v" n="1">x<b>1</b><b>2</b></a><a k="w"><b n="2">3</b>tail<c></c></a><d><a><b>4</b></a>one two</d>'
       '<e f="1.5">7</e></r>')
EXPRS = ['a/b', '/r/a', '//b', 'a[1]', 'a[2]/b', 'a[b]', 'a[@k]', 'a[@k="v"]/@n', '@id', 'a/@*', '*', 'a/text()', 'd/node()', '.', 'a/b/..', 'a/b/../@k',
         'descendant::b', 'a/b/ancestor::a', 'a/following-sibling::*', 'd/preceding-sibling::a', 'a/b/following::c', 'd/a/preceding::b',
         'descendant-or-self::a', 'a/b/parent::a', 'a/b/ancestor-or-self::*', 'a/self::a', 'a/child::b', 'a/attribute::k', 'a|d', '(a|d)/b', 'a//b|e',
         'count(a)', 'count(//b) + 1', '3 - 1', '2 * 3 + 4', '2 + 3 * 4', '7 div 2', '7 mod 3', '-1', '-(2 + 3)', '1 = 1 and 2 = 3', '1 = 2 or 2 = 2', 'not(a)',
         'a/@n > 0', '1 < 2', '2 <= 2', '3 >= 4', '1 != 2', '"str"', "'it'", '1.5', '.5', 'string(a)', 'concat("a", "b", string(e))',
         'contains(string(d), "one")', 'starts-with("abc", "ab")', 'string-length("abc")', 'number(e) * 2', 'boolean(z)', 'sum(//@n)', 'name(a)', 'position()',
         'a[position() = 2]/@k', 'a[last()]/@k', '$v', '$v + 1', 'a[$v]/@k', 'normalize-space(" a  b ")', 'true()', 'false()', 'floor(1.5)', 'ceiling(1.5)', 'round(2.4)',
         'substring("12345", 2)', 'substring-after("a-b", "-")', 'substring-before("a-b", "-")', 'translate("bar", "abc", "ABC")', '/', '/r', '//@n',
         '/descendant::a[1]', 'a[b = "2"]/@k', 'a[not(c)]/@k', '1 + 2 - 3 + 4', '2 * 3 div 4', '1 < 2 = true()', 'a/b[1] | a/b[2]', 'd/a/b/text()',
         'a and d', 'z or a', '1 = 1 = 1', '-2 + 5', 'text()', 'd/text()', 'foreach(a, "b")', 'a b', '(', 'a[', 'a/', '1 +', 'a::b', '']
KNOWN = [['a/b', ['<b>1</b>', '<b>2</b>', '<b n="2">3</b>']], ['//b', ['<b>1</b>', '<b>2</b>', '<b n="2">3</b>', '<b>4</b>']],
         ['a[@k="v"]/@n', ['{n="1"}']], ['1 = 1 and 2 = 3', ['bool False']], ['a/text()', ['x', 'tail']]]
ERRNOS = [errno.ENOSPC, errno.EIO, errno.EACCES, errno.EROFS, errno.EDQUOT, errno.EMFILE]

_expected = None
_sources = None
_scratch = None
_tables = None


def results(uxpath, tree):
    root = tree.parse(DOC)
    out = []
    for e in EXPRS:
        try:
            ast = uxpath.xast.serialize(uxpath.parse(e))
        except Exception as x:
            ast = 'raised ' + type(x).__name__
        try:
            ctx = uxpath.context(root, variables={'v': 2}, force_root=False)
            r = uxpath.parse(e).compute(ctx)
            r = [r] if isinstance(r, (str, bytes, int, float, bool)) or not hasattr(r, '__iter__') else list(r)
            out.append([e, ast, [show(x) for x in r]])
        except Exception as x:
            out.append([e, ast, 'raised ' + type(x).__name__])
    return out


def show(x):
    if hasattr(x, 'xml_name') and hasattr(x, 'xml_encode'):
        return x.xml_encode()
    if hasattr(x, 'xml_name'):
        return '@%s=%s' % (x.xml_name, x.xml_value)
    if isinstance(x, tuple):
        return [str(i) for i in x[-2:]]
    if hasattr(x, 'xml_value'):
        return '%s:%s' % (type(x).__name__, x.xml_value)
    return '%s %s' % (type(x).__name__, x)


def main(spec):
    """A simulated process"""
    class Null:
        def write(self, s):
            return len(s)

        def flush(self):
            pass
    sys.stderr = sys.stdout = Null()
    for k in [k for k in sys.modules if k == 'amara3' or k.startswith('amara3.')]:
        del sys.modules[k]
    sys.path[:] = [spec['root']] + [p for p in sys.path if p != _scratch]
    os.chdir(os.path.join(spec['root'], 'cwd'))
    sys.dont_write_bytecode = not spec['pyc']
    uxpath = importlib.import_module('amara3.uxml.uxpath')
    if not os.path.abspath(uxpath.__file__).startswith(spec['root'] + os.sep):
        raise HarnessError('imported from ' + uxpath.__file__)
    tree = importlib.import_module('amara3.uxml.tree')
    return results(uxpath, tree)


TAB = 'amara3/uxml/uxpath/parsetab.py'


def prepare(S):
    global _expected, _sources, _scratch, _tables
    if _expected is None:
        _scratch = S.scratch
        _expected = results(S.uxpath, S.tree)
        good = [r for e, ast, r in _expected if not isinstance(r, str)]
        expect(len(good) >= len(EXPRS) // 2, 'results', 'most expressions fail: %s' % short([e for e, ast, r in _expected if isinstance(r, str)]))
        known = {e: r for e, ast, r in _expected}
        for e, r in KNOWN:
            expect(known[e] == r, 'results', lambda: '%s gives %s' % (e, short(known[e])))
        _sources = set()
        for d, _, fs in os.walk(os.path.join(S.scratch, 'amara3')):
            for f in fs:
                rel = os.path.relpath(os.path.join(d, f), S.scratch)
                if f not in sut.SKIP and not f.endswith('.pyc') and os.path.exists(os.path.join(sut.REPO, 'pylib', os.path.relpath(os.path.join(d, f), os.path.join(S.scratch, 'amara3')))):
                    _sources.add(rel)
        _tables = {}
        d = os.path.dirname(TAB)
        for f in sorted(os.listdir(os.path.join(S.scratch, d))):
            if f.endswith('.py') and f'{d}/{f}' not in _sources:
                with open(os.path.join(S.scratch, d, f)) as fp:
                    _tables[d + '/' + f] = fp.read()


def stale(which):
    """Well-formed tables, but not those of this grammar"""
    t = _tables[TAB]
    if which == 'old-format':
        return t.replace("_tabversion = '", "_tabversion = '0", 1)
    # Of a grammar in which other functions handle the productions
    out = []
    funcs = []
    head, tail = t.split('_lr_productions = [\n', 1)
    rows = tail.splitlines()
    for r in rows:
        if r.startswith('  (') and "'p_" in r:
            funcs.append("'p_" + r.split("'p_")[1].split("'")[0] + "'")
    funcs = funcs[1:] + funcs[:1]
    for r in rows:
        if r.startswith('  (') and "'p_" in r:
            a, b = r.split("'p_")
            r = a + funcs.pop(0) + b.split("'", 1)[1]
        out.append(r)
    head = head.replace("_lr_signature = '", "_lr_signature = 'Old", 1)
    return head + '_lr_productions = [\n' + '\n'.join(out) + '\n'


INITS = ['none', 'good', 'torn', 'empty', 'stale', 'old-format', 'nul', 'garbage']
GARBAGE = ['\x00\x00', '\xff\xfe', 'raise KeyError("x")\n', '_tabversion = 3\n', '<<<<<<< HEAD\n', '1/0\n', 'import nonexistent_module\n', "_tabversion = '3.10'\n_lr_signature = ''\n"]


def gen_proc(rng, calm):
    p = {'blk': rng.choice([8192, 8192, 512, 4096, 1 << 20, 20000]), 'pyc': int(rng.random() < .3), 'write': 1, 'tmp': 'ok', 'faults': []}
    if calm:
        return p
    k = rng.random()
    if k < .15:
        p['write'] = 0
    if rng.random() < .25:
        p['tmp'] = rng.choice(['none', 'denied'])
    for _ in range(rng.choice([0, 1, 1, 1, 2])):
        f = {'op': rng.choice(['open', 'write', 'write', 'write', 'close', 'read', 'any']), 'nth': rng.choice([0, 0, 1, 2, 3, rng.randrange(45)]),
             'what': rng.choice(['die', 'die', 'err', 'err', 'short', 'reboot']), 'n': rng.choice([0, 1, rng.randrange(1000), rng.randrange(9000), rng.randrange(20000)]),
             'errno': rng.choice(ERRNOS), 'file': rng.choice(['', 'parsetab', 'parsetab', 'parser.out'])}
        if f['file'] == 'parsetab' and rng.random() < .7:
            f['nth'] = rng.choice([0, 0, 1, 2])
        p['faults'].append(f)
    return p


def gen(rng, tier):
    rounds = []
    for _ in range(rng.choice([1, 1, 2, 2, 3, 4])):
        procs = [gen_proc(rng, rng.random() < .3) for _ in range(rng.choice([1, 1, 2, 2, 3]))]
        n = len(procs)
        # long stretches of one process, so that they meet in the middle of things
        sched = []
        for _ in range(rng.randint(1, 12)):
            sched.append([rng.randrange(n), rng.choice([1, 1, 2, 3, 5, 20, 24, 30])])
        rounds.append({'procs': procs, 'sched': sched, 'pre': rng.choice(['keep', 'keep', 'remove', 'remove', 'stale', 'old-format']), 'loss': rng.choice([[0, 0], [rng.randrange(100), 0], [rng.randrange(100), 1], [100, 0]])})
    init = rng.choice(INITS) if rng.random() < .6 else 'none'
    return {'init': init, 'cut': rng.randrange(19000), 'bad': rng.randrange(len(GARBAGE)), 'which': rng.randrange(4), 'rounds': rounds, 'dt': rng.choice([0, 1, 1000, 1000000, 700000000])}


class World:
    def __init__(self, S, plan, env):
        self.S, self.plan, self.env = S, plan, env
        self.root = os.path.realpath(tempfile.mkdtemp(prefix='proc-', dir=S.scratch))
        self.now = 10 ** 18
        self.procs = []
        self.marks = set()
        self.written = []       # generated files, in the order of their last opening
        self.writing = {}       # rel -> processes which have it open

    def time(self):
        self.now += 1000 + self.plan['dt'] * 1000
        return self.now

    def make(self):
        for rel in _sources:
            dst = os.path.join(self.root, rel)
            os.makedirs(os.path.dirname(dst), exist_ok=True)
            shutil.copyfile(os.path.join(self.S.scratch, rel), dst)
            os.utime(dst, ns=(10 ** 18 - 10 ** 12,) * 2)
        os.mkdir(os.path.join(self.root, 'tmp'))
        os.mkdir(os.path.join(self.root, 'cwd'))
        i = self.plan['init']
        which = sorted(_tables)[self.plan['which'] % len(_tables)] if _tables else None
        if i in ('stale', 'old-format'):
            which = TAB
        if TAB in _tables:
            self.env.probe('tables')
        for rel in sorted(_tables) if i != 'none' else ():
            path = os.path.join(self.root, rel)
            t = _tables[rel]
            if rel != which:
                pass
            elif i == 'torn':
                t = t[:self.plan['cut'] % (len(t) - 1)]
                self.env.probe('torn-tables')
            elif i == 'empty':
                t = ''
                self.env.probe('empty-tables')
            elif i == 'nul':
                k = self.plan['cut'] % (len(t) - 1)
                t = t[:k] + '\0' * (len(t) - k)
            elif i == 'garbage':
                t = GARBAGE[self.plan['bad']]
                self.env.probe('garbage-tables')
            elif i in ('stale', 'old-format'):
                t = stale(i)
                self.env.probe('stale-tables' if i == 'stale' else i)
            if i != 'good':
                self.marks.add('left')
                self.env.fault('init-' + i)
            with open(path, 'w', encoding='latin-1') as f:
                f.write(t)
            os.utime(path, ns=(10 ** 18 - 10 ** 11,) * 2)
        for d, ds, fs in os.walk(self.root):
            if d.startswith(os.path.join(self.root, 'amara3')) and not d.endswith('__pycache__'):
                os.mkdir(os.path.join(d, '__pycache__'))
        for d, ds, fs in os.walk(self.root):
            os.utime(d, ns=(10 ** 18,) * 2)

    def before(self, what):
        """The library was installed anew, or updated, before this round"""
        need(what in ('keep', 'remove', 'stale', 'old-format'))
        path = os.path.join(self.root, TAB)
        if what == 'keep' or TAB not in _tables:
            return
        if what == 'remove':
            if os.path.exists(path):
                os.remove(path)
        else:
            with open(path, 'w', encoding='latin-1') as f:
                f.write(stale(what))
            self.env.probe('stale-tables' if what == 'stale' else what)
            self.marks.add('left')
        t = self.time()
        for q in (path, os.path.dirname(path)):
            if os.path.exists(q):
                os.utime(q, ns=(t, t))
        self.env.log('before', what)

    def start(self, spec, name):
        s = dict(spec, root=self.root, write=bool(spec['write']))
        p = simproc.Proc(name, self.root, _sources, s, main)
        p.spec = spec
        p.seen = {}
        p.left = [dict(f) for f in spec['faults']]
        p.faulty = False
        self.procs.append(p)
        if spec['pyc']:
            self.env.probe('bytecode')
        if not spec['write']:
            self.env.probe('not-writable')
            self.env.fault('not-writable')
        if spec['tmp'] == 'none' and not spec['write']:
            self.env.probe('no-temp-dir')
            self.env.fault('no-temp-dir')
        return p

    def turn(self, p, others):
        """One step of process p: (dead or alive, whether the power failed)"""
        env = self.env
        op, rel, n = p.msg
        a = {'now': self.time()}
        base = os.path.basename(rel)
        nth = p.seen.get((op, base), 0)
        p.seen[op, base] = nth + 1
        anyth = p.seen.get('any', 0)
        p.seen['any'] = anyth + 1
        opth = p.seen.get(op, 0)
        p.seen[op] = opth + 1
        power = False
        if op == 'open':
            if not p.spec['write'] and not rel.startswith('tmp'):
                a['errno'] = errno.EROFS
            elif p.spec['tmp'] == 'denied' and rel.startswith('tmp'):
                a['errno'] = errno.EACCES
                env.fault('temp-denied')
        if op == 'read' and base.startswith('parsetab'):
            env.probe('reads')
            if any(w is not p for w in self.writing.get(rel, ())):
                env.probe('read-while-written')
                env.nontrivial = True
        for f in p.left:
            if 'errno' in a and op == 'open':
                break
            if f['op'] not in (op, 'any') or (f['file'] and not base.startswith(f['file'])):
                continue
            if f['nth'] != (nth if f['file'] else anyth if f['op'] == 'any' else opth):
                continue
            what = f['what']
            p.left.remove(f)
            if op == 'start' or (op == 'close' and what == 'short'):
                what = 'die'
            if what == 'short' and op != 'write':
                what = 'err'
            p.faulty = True
            env.nontrivial = True
            if what in ('die', 'reboot'):
                a['die'] = 1
                a['n'] = min(f['n'], n)
                env.fault('killed')
                env.probe('killed')
                self.marks.add('left')
                if base.startswith('parsetab'):
                    env.probe('killed-in-tables')
                power = what == 'reboot'
            elif what == 'short':
                a['n'] = max(1, min(f['n'], n))
                env.fault('short-write')
                env.probe('short-write')
            else:
                a['errno'] = f['errno']
                a['n'] = min(f['n'], n)
                env.fault('%s-error' % op)
                env.probe('%s-error' % op)
                if base.startswith('parsetab'):
                    self.marks.add('left')
            break
        env.log(p.name, op, rel, n, a.get('errno', 0), a.get('die', 0), a.get('n', -1))
        if op == 'open' and 'errno' not in a:
            if rel in self.written:
                self.written.remove(rel)
            self.written.append(rel)
            self.writing.setdefault(rel, []).append(p)
            if rel == TAB:
                env.probe('rebuilt')
        if op == 'close' and p in self.writing.get(rel, ()):
            self.writing[rel].remove(p)
        m = p.answer(a)
        if m is None or p.over:
            for l in self.writing.values():
                while p in l:
                    l.remove(p)
        if m is None:
            expect(a.get('die'), 'died', lambda: 'process %s died by itself after %s %s' % (p.name, op, rel))
            return False, power
        if m[0] == 'hang':
            raise Violation('hang', 'process %s does not come back from %s' % (p.name, op))
        if m[0] == 'harness':
            raise HarnessError('process: %s' % m[1])
        if m[0] == 'end':
            self.judge(p, m[1])
            return False, False
        return True, False

    def judge(self, p, res):
        env = self.env
        env.log(p.name, 'end', res[0])
        if res[0] != 'ok':
            raise Violation('import', 'process %s could not use the library: %s [%s]' % (p.name, res[1], res[2]))
        for got, exp in zip(res[1], _expected):
            expect(got == exp, 'results', lambda: 'process %s: %s gives %s, with new tables %s' % (p.name, got[0], short(got[1:]), short(exp[1:])))
        if self.marks or p.faulty:
            env.nontrivial = True
        if not any(k[0] == 'open' for k in p.seen if isinstance(k, tuple)) and any(k[0] == 'read' for k in p.seen if isinstance(k, tuple)):
            env.probe('reused')

    def blackout(self, loss):
        """The power fails: every process dies, and of the files not yet on disk only a prefix is kept"""
        env = self.env
        for p in self.procs:
            p.kill()
        self.writing = {}
        keep, zero = loss
        env.probe('power-failure')
        env.fault('power-failure')
        for rel in self.written:
            path = os.path.join(self.root, rel)
            if not os.path.isfile(path) or rel.endswith('.pyc') or rel.startswith(('tmp', 'cwd')) and zero:
                continue
            n = os.path.getsize(path)
            k = n * min(max(keep, 0), 100) // 100
            os.truncate(path, k)
            if zero and k < n:
                os.truncate(path, n)
                env.probe('zeroed')
            if k < n and rel == TAB:
                env.probe('torn-tables')
            t = self.time()
            os.utime(path, ns=(t, t))
            env.log('lost', rel, k, n, zero)
        self.marks.add('left')

    def close(self):
        for p in self.procs:
            try:
                p.kill()
            except OSError:
                pass
        shutil.rmtree(self.root, ignore_errors=True)


def check_plan(plan):
    need(isinstance(plan['which'], int) and plan['which'] >= 0)
    need(plan['init'] in INITS and isinstance(plan['cut'], int) and plan['cut'] >= 0 and plan['bad'] in range(len(GARBAGE)))
    need(isinstance(plan['dt'], int) and 0 <= plan['dt'] <= 10 ** 10)
    for r in plan['rounds']:
        need(1 <= len(r['procs']) <= 5)
        need(len(r['loss']) == 2)
        for p in r['procs']:
            need(isinstance(p['blk'], int) and 256 <= p['blk'] <= 1 << 22)
            for f in p['faults']:
                need(f['errno'] in ERRNOS and isinstance(f['n'], int) and f['n'] >= 0 and f['what'] in ('die', 'err', 'short', 'reboot'))
        for s in r['sched']:
            need(len(s) == 2 and isinstance(s[0], int) and isinstance(s[1], int) and 0 < s[1] < 100 and s[0] >= 0)


CALM = {'blk': 8192, 'pyc': 0, 'write': 1, 'tmp': 'ok', 'faults': []}


def run(S, plan, env):
    prepare(S)
    check_plan(plan)
    w = World(S, plan, env)
    mon.set_events(0)
    try:
        w.make()
        for rn, r in enumerate(plan['rounds']):
            w.before(r['pre'])
            procs = [w.start(p, '%d.%d' % (rn, i)) for i, p in enumerate(r['procs'])]
            if len(procs) > 1:
                env.nontrivial = True
            live = list(procs)
            started = set()
            sched = [list(s) for s in r['sched']]
            while live:
                if sched:
                    i, n = sched.pop(0)
                else:
                    i, n = 0, 100
                p = live[i % len(live)]
                env.step(p.name, n)
                for _ in range(n):
                    started.add(p)
                    if len([q for q in started if q in live]) > 1:
                        env.probe('concurrent')
                    alive, power = w.turn(p, live)
                    if power:
                        w.blackout(r['loss'])
                        live = []
                        break
                    if not alive:
                        live.remove(p)
                        break
        p = w.start(CALM, 'last')
        while w.turn(p, ())[0]:
            pass
        expect(p.over and p.msg and p.msg[0] == 'end', 'died', 'the last process did not end')
        env.probe('final')
    finally:
        w.close()
