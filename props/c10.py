"""C10: a failing output loses only what was not written."""
from sim import gen as G, mon, ref
from sim.core import BadPlan, SimExit, injected, SimHang, SimInterrupt, Violation, expect, need, short
from sim.simio import SimWriter
from . import stream
from .common import gen_doc, interleave

ID = 'C10'
QUICK, THOROUGH, EPOCH = 40000, 300000, 30
RULE = ('A run drives 1-4 writers (raw, indenting, namespace, over a write handler, or whole-tree), each with its own nested elements and '
        'output, call by call in the order which the seed says, with outputs failing at the n-th call or character (torn, transient or for '
        'good), and then writes again to another output. Non-trivial: an output failed after it had accepted something. Distinct: by the '
        'digest of the history of calls and faults.')
REAL = ['amara3.uxml.writer', 'amara3.uxml.tree (serialisation)']
STUB = ['output file objects']
KINDS = ['raw', 'raw', 'raw-empty', 'indent', 'ns', 'ns', 'ns-map', 'ns-map', 'whandler', 'write-raw', 'write-ns', 'xml_write', 'encode-indent',
         'indent-empty', 'write-indent']
MUST_HIT = ['kind:' + k for k in set(KINDS)] + ['failed-call', 'failed-byte', 'torn', 'transient', 'base-error', 'interleaved', 'again-same-tree',
                                                'prefix-nonempty', 'interrupted', 'shared-mapping', 'raw-text-object', 'fault-at-first']


def gen(rng, tier):
    ws = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        d = gen_doc(rng, xml=True, maxn=rng.choice([1, 2, 4, 8, 15]))
        text = G.render(d['t'], 0, True)[0]
        w = {'k': rng.choice(KINDS), 't': d['t'], 'depth': rng.choice([0, 0, 0, 1, 2]), 'indent': rng.choice([' ', '  ', '\t']), 'ns': rng.randint(0, 5), 'textobj': rng.randint(0, 1)}
        k = rng.random()
        if k < .35:
            w['fail'] = ['call', rng.choice([1, 2, 3, rng.randint(1, 12), rng.randint(1, 80)])]
        elif k < .75:
            w['fail'] = ['byte', rng.choice([0, 1, rng.randint(0, len(text)), rng.randint(0, len(text))])]
        elif k < .85:
            w['int'] = rng.randint(1, 200)
        w['transient'] = rng.randint(0, 1)
        w['base'] = int(rng.random() < .2)
        w['exc'] = rng.randint(0, 45)
        ws.append(w)
    return {'ws': ws, 'sched': [rng.randint(0, 59) for _ in range(rng.choice([1, 3, 10, 40]))]}


def ns_setup(p, shared):
    """(prefixes, mapping) for the namespace writers"""
    names = sorted(set(stream.tree_names(p['t'])))
    anames = sorted(set(a for t in trees(p['t']) for a, _ in t[1]))
    v = p['ns']
    if p['k'] in ('ns', 'write-ns'):
        pre = {} if v == 0 else {'': 'urn:d'} if v < 3 else {'': 'urn:d', 'p': 'urn:p&"\u00e9'} if v < 5 else {'p': 'urn:p<', 'q': 'urn:q'}
        return shared.setdefault(('p', v), pre), {}
    pre = {'p': 'urn:p'} if v < 3 else {'': 'urn:d', 'p': 'urn:p'}
    m = {}
    for i, n in enumerate(names):
        if (i + v) % 2 == 0:
            m[n] = ('urn:p', 'p')
        elif (i + v) % 3 == 0 and '' in pre:
            m[n] = ('urn:d', '')
    for i, n in enumerate(anames):
        if (i + v) % 2:
            m['@' + n] = ('urn:p', 'p')
    return pre, m


def trees(t):
    yield t
    for c in t[2]:
        if not isinstance(c, str):
            yield from trees(c)


def to_tree(S, t, as_texts=False):
    e = S.tree.element(t[0], dict(map(tuple, t[1])))
    for c in t[2]:
        e.xml_append(c if isinstance(c, str) else to_tree(S, c))
    return e


def calls(S, p, w):
    """The calls which write the document, one at a time"""
    def go(t, top=False):
        attrs = dict(map(tuple, t[1]))
        if p['k'] in ('raw-empty', 'indent-empty') and not t[2]:
            yield lambda: w.start_element(t[0], attrs, empty=True)
            return
        if attrs or p['textobj']:
            yield lambda: w.start_element(t[0], attribs=attrs)
        else:
            yield lambda: w.start_element(t[0])
        for c in t[2]:
            if isinstance(c, str):
                yield lambda: w.text(S.tree.text(c) if p['textobj'] else c)
            else:
                yield from go(c)
        yield lambda: w.end_element(t[0])
    yield from go(p['t'])


class Handler:
    """A write handler of the user's, which leaves its mark on everything it writes"""
    def __init__(self, fp, S):
        self.fp, self.S = fp, S

    def write(self, ctx, text):
        W = self.S.writer
        if isinstance(text, W.token):
            text = W.TOKENS[text]
        elif ctx == W.context.text:
            text = ref.esc(text) + '~'
        elif ctx == W.context.element_name:
            text += '.e'
        elif ctx == W.context.attribute_name:
            text += '.a'
        self.fp.write(text)


def make(S, p, out, shared):
    k = p['k']
    W = S.writer
    if k in ('raw', 'raw-empty', 'write-raw'):
        return W.raw(out)
    if k in ('indent', 'indent-empty', 'write-indent'):
        return W.raw(out, indent=p['indent'], depth=p['depth']) if p['depth'] else W.raw(out, indent=p['indent'])
    if k == 'whandler':
        return W.raw(out, whandler=lambda fp: Handler(fp, S))
    pre, m = ns_setup(p, shared)
    if not m and not pre:
        return W.namespacer(out)
    return W.namespacer(out, prefixes=pre, mapping=m)


def expected(S, p):
    """What an XML parser has to see: events; and the text after the document element"""
    pre, m = ns_setup(p, {}) if 'ns' in p['k'] else ({}, {})
    marked = p['k'] == 'whandler'

    def name(n, key):
        if marked:
            return [None, n + ('.a' if key[0] == '@' else '.e')]
        pfx = m.get(key, ('', ''))[1]
        if pfx:
            return [pre[pfx], n]
        return [pre[''] if key[0] != '@' and '' in pre else None, n]

    def text(c):
        if out and out[-1][0] == 'T':
            out[-1][1] += c
        elif c:
            out.append(['T', c])

    def start(t):
        out.append(['S', name(t[0], t[0]), [name(k, '@' + k) + [v] for k, v in t[1]]])

    def line(depth):
        text('\n' + p['indent'] * depth)

    def go(t):
        start(t)
        for c in t[2]:
            if isinstance(c, str):
                text(c + '~' if marked else c)
            else:
                go(c)
        out.append(['E', name(t[0], t[0])])

    def go_encode(t, depth):
        start(t)
        line(depth)
        for c in t[2]:
            if isinstance(c, str):
                text(c)
            else:
                go_encode(c, depth + 1)
                line(depth)
        out.append(['E', name(t[0], t[0])])

    def go_indent(t, depth, fresh):
        """fresh: no element has ended since the start of the one around this"""
        if fresh:
            line(depth)
        start(t)
        if p['k'] == 'indent-empty' and not t[2]:
            out.append(['E', name(t[0], t[0])])
            line(depth)
            return
        f = True
        for c in t[2]:
            if isinstance(c, str):
                text(c)
            else:
                go_indent(c, depth + 1, f)
                f = False
        out.append(['E', name(t[0], t[0])])
        line(depth + 1)
    out = []
    if p['k'] == 'encode-indent':
        go_encode(p['t'], 0)
    elif p['k'] in ('indent', 'indent-empty', 'write-indent'):
        go_indent(p['t'], p['depth'], False)
        return out[:-1], out[-1][1]
    else:
        go(p['t'])
    return out, ''


def readback(text):
    import xml.parsers.expat
    p = xml.parsers.expat.ParserCreate(namespace_separator=' ')
    out = []

    def name(n):
        u, _, l = n.rpartition(' ')
        return [u or None, l]

    def start(n, a):
        out.append(['S', name(n), [name(k) + [v] for k, v in zip(a[::2], a[1::2])]])

    def chars(t):
        if out and out[-1][0] == 'T':
            out[-1][1] += t
        else:
            out.append(['T', t])
    p.ordered_attributes = True
    p.StartElementHandler, p.CharacterDataHandler = start, chars
    p.EndElementHandler = lambda n: out.append(['E', name(n)])
    p.Parse(text, True)
    return out


class Job:
    def __init__(self, S, env, i, p, shared):
        self.S, self.env, self.p = S, env, p
        self.name = '%s%d' % (p['k'], i)
        self.shared = shared
        self.tree = to_tree(S, p['t'])
        # Alone and without faults
        self.full = self.alone()
        want, tail = expected(S, p)
        try:
            got = readback(self.full)
        except Exception as e:
            raise Violation('serialisation', '%s of %s is not well formed: %s (%s)' % (self.name, short(p['t']), short(self.full), e))
        expect(got == want, 'serialisation', lambda: '%s of %s gave %s: %s' % (self.name, short(p['t']), short(self.full), ref.first_diff(got, want)))
        end = self.full[self.full.rindex('>') + 1:]
        expect(end == tail, 'serialisation', lambda: '%s of %s ends in %r, expected %r' % (self.name, short(p['t']), end, tail))
        f = p.get('fail') or [None, None]
        need(f[0] in ('call', 'byte', None))
        self.exc = injected(2 if p['base'] else p['exc'], 'output of ' + self.name)
        self.out = SimWriter(env, fail_at=f[1] if f[0] else None, mode=f[0] or 'call', exc=self.exc, name=self.name, transient=bool(p['transient']))
        self.steps = self.ops(self.out)
        self.done = False
        self.outcome = None
        env.probe('kind:' + p['k'])
        if p['textobj']:
            env.probe('raw-text-object')

    def ops(self, out):
        S, p = self.S, self.p
        k = p['k']
        if k in ('write-raw', 'write-ns', 'write-indent'):
            yield lambda: S.writer.write(self.tree, make(S, p, out, self.shared))
        elif k == 'xml_write':
            yield lambda: self.tree.xml_write(out)
        elif k == 'encode-indent':
            yield lambda: out.write(self.tree.xml_encode(indent=p['indent']))
        else:
            yield from calls(S, p, make(S, p, out, self.shared))

    def alone(self):
        out = SimWriter(self.env, name=self.name)
        for f in self.ops(out):
            f()
        return out.getvalue()

    def active(self):
        return not self.done

    def step(self):
        env, p = self.env, self.p
        f = next(self.steps, None)
        if f is None:
            self.finish('ok')
            return
        it = mon.interrupt(p['int']) if 'int' in p else None
        fired = False
        try:
            try:
                if it:
                    it.__enter__()
                f()
            finally:
                if it:
                    it.__exit__()
                    fired = it.fired
        except (SimHang, Violation, BadPlan):
            raise
        except (Exception, SimExit, SimInterrupt) as e:
            if fired and isinstance(e, SimInterrupt):
                env.fault('interrupt')
                env.probe('interrupted')
                self.finish('int')
                return
            expect(self.out.failed and e is self.exc, 'other-error', lambda: '%s: the output raised %r, the caller got %r' % (
                self.name, self.exc if self.out.failed else None, e))
            self.finish('failed')
            return
        expect(not self.out.failed, 'error-lost', lambda: '%s: the output raised %r, the caller got nothing' % (self.name, self.exc))
        env.log(self.name, self.out.size)

    def finish(self, how):
        env, p = self.env, self.p
        self.done = True
        got = self.out.getvalue()
        env.log(self.name, how, got)
        if how == 'ok':
            expect(not self.out.failed, 'error-lost', lambda: '%s: the output failed, the caller got nothing' % self.name)
            expect(got == self.full, 'output', lambda: '%s: wrote %s, alone %s' % (self.name, short(got), short(self.full)))
        else:
            expect(self.full.startswith(got), 'prefix', lambda: '%s: what was written is no prefix: %s of %s' % (self.name, short(got), short(self.full)))
            if how == 'failed':
                m = p['fail'][0]
                env.probe('failed-' + m)
                if m == 'byte':
                    # A torn output has all that it could take
                    expect(len(got) == p['fail'][1], 'lost', lambda: '%s: output took %d of %d characters' % (self.name, len(got), p['fail'][1]))
                    env.probe('torn')
                if p['transient']:
                    env.probe('transient')
                if p['base']:
                    env.probe('base-error')
                if got:
                    env.nontrivial = True
                    env.probe('prefix-nonempty')
                else:
                    env.probe('fault-at-first')
        # Once more, to another output
        again = self.alone()
        if how != 'ok':
            env.probe('again-same-tree')
        expect(again == self.full, 'again', lambda: '%s: wrote %s to another output, before %s' % (self.name, short(again), short(self.full)))
        n = ref.norm_elem(self.S, self.tree, merge=True)
        expect(n == G.norm(p['t']), 'tree-changed', lambda: '%s: writing changed the tree into %s' % (self.name, short(n)))


def run(S, plan, env):
    need(plan['ws'])
    shared = {}
    for p in plan['ws']:
        need(p['k'] in KINDS and isinstance(p['indent'], str) and p['indent'] and not p['indent'].strip() and p['depth'] in range(5))
        G.check_tree(p['t'])
    jobs = [Job(S, env, i, p, shared) for i, p in enumerate(plan['ws'])]
    if len(jobs) > 1:
        env.probe('interleaved')
    if sum(p['k'] in ('ns', 'write-ns') for p in plan['ws']) > 1:
        env.probe('shared-mapping')
    need(all(isinstance(x, int) for x in plan['sched']))
    interleave(env, jobs, plan['sched'])
    for j in jobs:
        if j.outcome == 'ok':
            expect(j.out.getvalue() == j.full, 'output', lambda: '%s changed later' % j.name)
