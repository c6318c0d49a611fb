"""C16: the microx command gives each source's results, in order, up to a fault."""
import io
import os
import re
import sys
import urllib.request

from sim import gen as G, mon, pristine, ref
from sim.core import SimExit, injected, SimHang, SimInterrupt, Violation, expect, need, short
from sim.simio import SimReader, SimWriter
from . import stream
from .common import gen_doc

ID = 'C16'
QUICK, THOROUGH, EPOCH = 7000, 100000, 30
RULE = ('A run executes 1-4 microx commands (expression, match, text search; for-each; partition; HTML or lax; by run() or by the command line, with '
        'files and URLs simulated) over 1-4 sources each, reads cut as the seed says, with malformed, truncated or failing sources, output which fails or '
        'tears, interruptions at the n-th library line, and another command run from within a read or a write. Non-trivial: results of two sources or '
        'partitions were written, or something was written before a fault. Distinct: by the digest of the history.')
REAL = ['exec/microx', 'amara3.uxml.xml', 'amara3.uxml.xmliter', 'amara3.uxml.treeiter', 'amara3.uxml.html5', 'amara3.uxml.uxpath', 'amara3.uxml.tree',
        'pyexpat', 'html5lib', 'argparse']
STUB = ['source files and URLs', 'output file', 'the interrupting signal (raised at a monitored line)']

# How the detail is written; what it gives for an element of the reference tree
EXPR = {'//{n}': ('n', 0), '/*': ('top', 1), '/{r}/{n}': ('kids', 1), '/*/{n}': ('kids', 1), '//{n}[@{k}]': ('n[@k]', 0), '//@{k}': ('@k', 0),
        'count(//{n})': ('count', 1), '/*/@{k}': ('top@k', 1), 'string(/*)': ('topstr', 1), '//{n}[@{k}="{v}"]': ('n[@k=v]', 0),
        'boolean(//{n})': ('bool', 1), 'name(/*)': ('topname', 1), '//*': ('all', 0)}
MATCH = {'{n}': 'kids', '@{k}': '@k', '{n}[@{k}]': 'kids[@k]', '.': 'self', 'self::{n}': 'self?', '*': 'elems', 'name()': 'name', 'count(*)': 'count',
         '{n}/@{k}': 'kids@k', 'string(.)': 'str', '@*': '@*', '{n}/text()': 'kidtext', '*/{n}': 'grandkids'}
EACH = {'.': 'self', '@{k}': '@k', '{n}': 'kids', 'name()': 'name', 'count({n})': 'countn', 'concat(name(), ":", @{k})': 'concat', 'string(.)': 'str',
        '*/{n}': 'grandkids', '@*': '@*'}
GENERIC = ['a|b', '//a|//@k', '//*|//text()', '@k|*', 'ancestor-or-self::*', '//*[1]', 'following-sibling::*', '//a/..', 'for-each(//*, "name()")',
           'count(/*/node())', '//text()', 'descendant-or-self::node()', '/', 'concat(name(/*), ":", string(.))', 'a//b', '..', '$v', '//*[@k="1"]/..', '(1, 2, "x")',
           'number(//a)', '//a[', '/*/@*', 'node()', 'contains(., "x")', 'parent::*', '1 > 0', '//*[count(ancestor::*)>1]', 'b/a|text()']
MUST_HIT = ['expr', 'match', 'find_text', 'foreach', 'partition', 'html', 'lax', 'cli', 'url', 'malformed', 'truncated', 'read-failed', 'read-failed-first',
            'read-failed-later', 'part-read-failed-after-delivery', 'part-malformed-after-delivery', 'write-failed', 'torn', 'base-error', 'interrupted',
            'interrupted-after-output', 'after-failure', 'nested-write', 'nested-read', 'multi-source', 'multi-delivery', 'generic', 'error-result', 'short-reads',
            'nested-partition', 'found', 'found-attrs', 'bytes', 'no-results', 'open-failed', 'long', 'transient']
NAMES = ['a', 'b', 'c', 'rec']


# -- plans

def gen_src(rng, html, part, cli):
    s = {'sizes': [rng.choice([0, 0, 1, 2, 7, 40, 300]) for _ in range(rng.choice([1, 1, 3]))], 'form': rng.choice('sb')}
    if html:
        s['h'] = G.gen_html(rng, rng.choice([3, 8, 15]))
        n = sum(map(len, s['h']))
    else:
        sh = G.Shape(rng, plain=rng.random() < .5, xml=True, small=True, names=[rng.choice(NAMES) for _ in range(3)] + (['rec'] if part else []),
                     maxn=rng.choice([2, 5, 10, 20, 40]))
        sh.anames = ['k', 'id']
        t = G.gen_tree(rng, sh)
        if rng.random() < .04:
            t[2].append('x<' * rng.choice([600, 3000, 11000, 35000]))
        s['d'] = {'t': t, 'lex': rng.choice([0, rng.randint(1, 1 << 30)])}
        n = len(G.render(t, s['d']['lex'], True)[0])
    if rng.random() < .15:
        s['enc'] = rng.randint(1, 4)
    k = rng.random()
    if k < .07 and not html:
        s['dmg'] = G.gen_damage(rng, n)
    elif k < .14 and not html:
        s['trunc'] = rng.randint(1, max(1, n))
    elif k < .24:
        s['fail'] = rng.choice([1, 1, 2, 3, rng.randint(1, 20)]) if part else 1
        s['exc'] = rng.randint(0, 45)
    elif k < .26 and cli:
        s['open'] = 1
    return s


def gen_cmd(rng, depth=0):
    k = rng.random()
    html = 1 if k < .12 else 2 if k < .18 else 0
    part = None if html or rng.random() < .6 else rng.choice(['rec', 'rec', 'rec', 'a', 'zz'])
    what = rng.choice(['expr', 'expr', 'match', 'match', 'find_text'])
    cli = int(rng.random() < .12)
    c = {'what': what, 'html': html, 'part': part, 'cli': cli, 'n': rng.choice(NAMES if not html else ['p', 'b', 'td', 'div', 'a']), 'k': rng.choice(['k', 'id']),
         'v': rng.choice(['x', '1', 'a']), 'fe': None, 'gen': 0, 'show': rng.choice([[], [], ['k'], ['id', 'k']])}
    if what == 'find_text':
        c['detail'] = rng.choice(['x', '1', 'a', '<', '&', ' ', 't', 'é'] + (['te', 'x y', 'x<x', 'b\n'] if not html else []))
    else:
        c['detail'] = rng.choice(list(EXPR if what == 'expr' else MATCH))
        if html and c['detail'] == '{n}/text()':
            c['detail'] = '{n}'
        if rng.random() < .2 and not html:
            c['gen'] = 1
            c['detail'] = rng.choice(GENERIC) if rng.random() < .6 else G.gen_xpath(rng, NAMES, ['k', 'id'], vals=('x', '1'))
            if len(re.findall('//|descendant|ancestor|following|preceding', c['detail'])) > 1 + (what == 'expr'):
                c['detail'] = 'a|b'
        if rng.random() < .35:
            c['fe'] = rng.choice(list(EACH))
    c['srcs'] = [gen_src(rng, html, part, cli) for _ in range(rng.choice([1, 1, 2, 2, 3, 4] if not c['gen'] else [1, 2]) if rng.random() > .03 else rng.choice([5, 6, 9, 9, 20, 35]))]
    if rng.random() < .2:
        c['w'] = [rng.choice(['call', 'byte']), rng.choice([1, 2, 3, rng.randint(1, 12), rng.randint(1, 200)]), rng.randint(0, 45), int(rng.random() < .3)]
    elif rng.random() < .12:
        c['int'] = rng.choice([rng.randint(1, 60), rng.randint(1, 1500), rng.randint(1, 6000)])
    if depth == 0 and rng.random() < .15:
        c['nest'] = [rng.choice(['write', 'read']), rng.randint(1, 6), gen_cmd(rng, 1)]
    return c


def gen(rng, tier):
    return {'cmds': [gen_cmd(rng) for _ in range(rng.choice([1, 1, 2, 3, 4]))]}


# -- what is expected

class N:
    def __init__(self, t, parent=None):
        self.name, self.attrs, self.parent = t[0], t[1], parent
        self.kids = [c if isinstance(c, str) else N(c, self) for c in t[2]]

    def elems(self):
        return [c for c in self.kids if not isinstance(c, str)]

    def walk(self):
        yield self
        for c in self.elems():
            yield from c.walk()

    def value(self):
        return ''.join(c if isinstance(c, str) else c.value() for c in self.kids)

    def named(self, n):
        return [c for c in self.elems() if c.name == n]


def to_tree(S, x):
    e = S.tree.element(x.name, dict(x.attrs))
    for c in x.kids:
        e.xml_append(c if isinstance(c, str) else to_tree(S, c))
    return e


def show(S, x):
    """As the command prints an item (what the serialiser writes is C10's concern)"""
    if isinstance(x, N):
        return to_tree(S, x).xml_encode()
    if isinstance(x, tuple):
        return '{%s="%s"}' % x
    return str(x)


def fill(c, s, r='a'):
    return s.replace('{n}', c['n']).replace('{k}', c['k']).replace('{v}', c['v']).replace('{r}', r)


def attr(e, k):
    return [(k, e.attrs[k])] if k in e.attrs else []


def query(c, how, e):
    """Items of a match or for-each detail, for an element"""
    n, k = c['n'], c['k']
    kids = e.named(n)
    if how == 'self':
        return [e]
    if how == 'self?':
        return [e] if e.name == n else []
    if how == 'kids':
        return kids
    if how == 'elems':
        return e.elems()
    if how == '@k':
        return attr(e, k)
    if how == '@*':
        return list(e.attrs.items())
    if how == 'kids[@k]':
        return [x for x in kids if k in x.attrs]
    if how == 'kids@k':
        return [a for x in kids for a in attr(x, k)]
    if how == 'kidtext':
        return [t for x in kids for t in x.kids if isinstance(t, str)]
    if how == 'grandkids':
        return [y for x in e.elems() for y in x.named(n)]
    if how == 'name':
        return [e.name]
    if how == 'count':
        return [len(e.elems())]
    if how == 'countn':
        return [len(kids)]
    if how == 'str':
        return [e.value()]
    if how == 'concat':
        return [e.name + ':' + e.attrs.get(k, '')]
    raise AssertionError(how)


def top_query(c, how, top):
    n, k = c['n'], c['k']
    al = list(top.walk())
    if how in ('n', 'n[@k]', 'n[@k=v]'):
        return [e for e in al if e.name == n and (how == 'n' or (k in e.attrs if how == 'n[@k]' else e.attrs.get(k) == c['v']))]
    return {'top': lambda: [top], 'kids': lambda: top.named(n), '@k': lambda: [a for e in al for a in attr(e, k)], 'top@k': lambda: attr(top, k),
            'count': lambda: [sum(e.name == n for e in al)], 'topstr': lambda: [top.value()], 'bool': lambda: [any(e.name == n for e in al)],
            'topname': lambda: [top.name], 'all': lambda: al}[how]()


def path(e, shown):
    out = []
    while e is not None:
        out.append(e.name + ''.join('[@%s="%s"]' % (a, e.attrs[a]) for a in shown if a in e.attrs))
        e = e.parent
    return '/'.join(reversed(out))


def model(S, c, tree):
    """(lines which one element as top gives, whether their order is defined)"""
    top = N(tree)
    if c['what'] == 'find_text':
        # Whether the path goes as far as the element which has the text is for the caller to try
        return [e for e in top.walk() for t in e.kids if isinstance(t, str) and c['detail'] in t], True
    if c['what'] == 'expr':
        how, ordered = EXPR[c['detail']]
        items = top_query(c, how, top)
    else:
        ordered = True
        items = [x for e in top.walk() for x in query(c, MATCH[c['detail']], e)]
    if c['fe']:
        items = [y for x in items for y in query(c, EACH[c['fe']], x)]
    return [show(S, x) for x in items], bool(ordered)


def modelled(c):
    """Does the reference say what the command gives?"""
    if c['gen']:
        return False
    if not c['fe'] or c['what'] == 'find_text':
        return True
    # For-each is modelled on elements only
    d = c['detail']
    return (d in EXPR and EXPR[d][0] in ('n', 'top', 'kids', 'n[@k]', 'n[@k=v]', 'all')) if c['what'] == 'expr' else \
        MATCH.get(d) in ('kids', 'kids[@k]', 'self', 'self?', 'elems', 'grandkids')


def plan_form(t):
    return [t[0], [[k, v] for k, v in t[1].items()], [x if isinstance(x, str) else plan_form(x) for x in t[2]]]


def answer(S, q):
    """In a process where nothing has happened before: what the command gives for one source read whole"""
    mon.begin(8000000 + 100 * len(repr(q)))
    c, text, html = q
    out = io.StringIO()
    err = None
    try:
        S.microx.run(c['what'], c['detail'], sources=[io.StringIO(text)], foreach=fill(c, c['fe']) if c['fe'] else None, out=out,
                     parse_html=html == 1, parse_lax=html == 2, show_attrs=c['show'])
    except SimHang:
        return [None, 'hang']
    except Exception as e:
        err = type(e).__name__
    return [out.getvalue(), err]


class Src:
    """What one source amounts to"""
    def __init__(self, S, c, s):
        self.s = s
        need(isinstance(s, dict) and isinstance(s.get('sizes'), list) and s['sizes'] and all(isinstance(x, int) and x >= 0 for x in s['sizes']))
        need(s.get('form') in ('s', 'b') and isinstance(s.get('fail') or 0, int) and isinstance(s.get('exc') or 0, int))
        if c['html']:
            need(isinstance(s.get('h'), list) and all(isinstance(x, str) for x in s['h']))
            text = ''.join(s['h'])
            if c['html'] == 2:
                text = '<rec>' + text
        else:
            need(isinstance(s.get('d'), dict) and isinstance(s['d'].get('lex'), int))
            G.check_tree(s['d']['t'])
            text = G.render(s['d']['t'], s['d']['lex'], True)[0]
            if 'trunc' in s:
                need(isinstance(s['trunc'], int) and s['trunc'] > 0)
                text = text[:s['trunc']]
            if 'dmg' in s:
                need(isinstance(s['dmg'], list))
                text = G.apply_damage(text, s['dmg'])
        self.text = text
        # As a file would have it
        self.data = text.encode('utf-8', 'replace')
        self.text = self.data.decode('utf-8')
        self.binary = bool(c['part']) or (s['form'] == 'b' and not c['html'])
        if s.get('enc') and self.binary and (c['part'] or not c['cli']):
            self.data = G.xml_bytes(self.text, s['enc'])
        elif s.get('enc') and not self.binary and not c['html'] and not c['cli']:
            self.text = self.data = G.xml_str(self.text, s['enc'])
        self.sane = True
        self.error = False
        self.tops = []
        if c['html']:
            t = ref.html_tree(S, self.text)
            if c['html'] == 2:
                body = t[2][1] if len(t[2]) > 1 and not isinstance(t[2][1], str) else None
                if body is None or body[0] != 'body' or not body[2] or isinstance(body[2][0], str) or body[2][0][0] != 'rec':
                    self.sane = False
                    return
                t = body[2][0]
            self.tops = [t]
            return
        p, evs = stream.expat_events(False)
        try:
            p.Parse(self.data, True)
        except Exception:
            self.error = True
        evs = ref.merge_text(evs)
        if c['part']:
            self.tops = [t for _, _, t in ref.deliveries(list(enumerate(evs)), [['**', c['part']]])]
        elif not self.error:
            self.tops = [G.tree_from_events(evs)]


class Reader(SimReader):
    def __init__(self, *a, hook=None, **kw):
        SimReader.__init__(self, *a, **kw)
        self.hook = hook

    def read(self, n=-1):
        r = SimReader.read(self, n)
        if self.hook:
            self.hook()
        return r

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


class Command:
    def __init__(self, S, env, c, depth=0):
        self.S, self.env, self.c, self.depth = S, env, c, depth
        need(isinstance(c, dict) and c.get('what') in ('expr', 'match', 'find_text') and isinstance(c.get('detail'), str) and c['detail'])
        need(all(isinstance(c.get(k), str) and c[k] for k in 'nkv') and isinstance(c.get('show'), list) and c.get('html') in (0, 1, 2))
        need(c['part'] is None or isinstance(c['part'], str) and c['part'] and not c['html'])
        need(isinstance(c.get('srcs'), list) and c['srcs'] and c.get('gen') in (0, 1) and c.get('cli') in (0, 1))
        if not c['gen'] and c['what'] != 'find_text':
            need(c['detail'] in (EXPR if c['what'] == 'expr' else MATCH))
        need(c['fe'] is None or c['fe'] in EACH)
        if c['html'] and (c['detail'] == '{n}/text()' or c['gen'] or c['what'] == 'find_text' and len(c['detail']) > 1):
            need(False)
        self.srcs = [x for x in (Src(S, c, s) for s in c['srcs']) if x.sane]
        self.r = self.srcs[0].tops[0][0] if self.srcs[0].tops else 'a'
        self.detail = fill(c, c['detail'], self.r) if c['what'] != 'find_text' and not c['gen'] else c['detail']

    # Expected pieces: ([text or its alternatives], error type or None) for each top of each source

    def expected(self):
        out = []
        for s in self.srcs:
            pieces = []
            for t in s.tops:
                pieces.append(self.piece(s, t))
                if pieces[-1][1]:
                    break
            out.append(pieces)
        return out

    def ask(self, s, t):
        """What the command gives for this element as a document of its own, with nothing before it"""
        c = dict(self.c, srcs=[], detail=self.detail, nest=None)
        if c['html']:
            q = [c, s.text, c['html']]
        else:
            q = [c, G.render(plan_form(t), 0, True)[0], 0]
        text, err = pristine.ask(q)
        # No more than the step budget allows
        need(err != 'hang', 'too costly')
        return text, err

    def piece(self, s, t):
        c, env = self.c, self.env
        if not modelled(c):
            env.probe('generic')
            text, err = self.ask(s, t)
            if err:
                env.probe('error-result')
            return [text], err
        if c['detail'] == '/{r}/{n}' and t[0] != self.r:
            lines, ordered = [], True
        else:
            lines, ordered = model(self.S, c, t)
        if c['what'] == 'find_text':
            if lines:
                env.probe('found')
                if any(a in e.attrs for e in lines for a in c['show']):
                    env.probe('found-attrs')
            # The path down to the element around the one with the text, or down to that itself
            text = [''.join((path(e.parent, c['show']) if up else path(e, c['show'])) + '\n' for e in lines) for up in (1, 0)]
        else:
            text = [''.join(x + '\n' for x in lines)]
        if not ordered and len(lines) > 1 or c['html']:
            # The order, and comments in HTML, are as they come in a fresh process
            got, err = self.ask(s, t)
            tidy = (lambda x: sorted(x.split('\n'))) if not c['html'] else (lambda x: sorted(re.sub('<!--.*?-->', '', x, flags=re.S).split('\n'))) if \
                c['what'] != 'find_text' else (lambda x: [y for i, y in enumerate(x.split('\n')) if not i or x.split('\n')[i - 1] != y])
            expect(err is None and tidy(got) in [tidy(x) for x in text], 'results', lambda: '%s %s %s on %s gives %s (%s), expected %s' % (
                c['what'], self.detail, c['fe'], short(t), short(got), err, short(text[0])))
            return [got], None
        return text, None

    def execute(self):
        S, env, c = self.S, self.env, self.c
        exp = self.expected()
        syntax = False
        if c['gen']:
            try:
                S.uxpath.parse(self.detail)
            except SimHang:
                raise
            except Exception:
                syntax = True
        self.count = {'write': 0, 'read': 0}
        wexc = None
        kw = {}
        if c.get('w'):
            need(isinstance(c['w'], list) and len(c['w']) == 4 and c['w'][0] in ('call', 'byte') and all(isinstance(x, int) for x in c['w'][1:]) and c['w'][1] > 0)
            wexc = injected(c['w'][2])
            kw = {'mode': c['w'][0], 'fail_at': c['w'][1], 'exc': wexc, 'transient': bool(c['w'][3])}
        w = SimWriter(env, on_write=lambda s: self.hook('write'), name='out%d' % self.depth, **kw)
        rds = []
        for i, s in enumerate(self.srcs):
            data = s.data if s.binary or c['cli'] and self.url(i) else s.text
            rds.append(Reader(env, data, sizes=s.s['sizes'], fail_at=s.s.get('fail'), exc=injected(s.s.get('exc', 0)), name='s%d.%d' % (self.depth, i),
                              hook=lambda: self.hook('read')))
        env.log('cmd', c['what'], self.detail, c['fe'], c['part'], c['html'], c['cli'], [s.text for s in self.srcs])
        env.step(c['what'], bool(c['fe']), bool(c['part']), c['html'], c['cli'], len(rds))
        what = None
        self.opened = True
        try:
            if c.get('int') and not self.depth and not c.get('nest'):
                with mon.interrupt(c['int']):
                    self.go(rds, w)
            else:
                self.go(rds, w)
        except (SimHang, Violation):
            raise
        except BaseException as e:
            what = e
        got = w.getvalue()
        env.log('end', type(what).__name__, got)
        alts = max([1] + [len(t) for ps in exp for t, _ in ps])
        bad = None
        for a in range(alts):
            try:
                self.judge(a, exp, syntax, w, wexc, rds, what, got)
                break
            except Violation as v:
                bad = bad or v
        else:
            raise bad
        self.notes(exp, w, rds, what, got)
        return what is not None

    def judge(self, a, exp, syntax, w, wexc, rds, what, got):
        c = self.c
        about = lambda m: lambda: '%s %s%s%s on %s: %s; wrote %s' % (c['what'], self.detail, ' foreach ' + fill(c, c['fe']) if c['fe'] else '', ' in each ' + c['part'] if c['part'] else '', short([s.text for s in self.srcs]), m, short(got))
        text = ''
        ends = None
        outcome = None
        low = 0
        if not self.opened:
            outcome = FileNotFoundError
        elif syntax:
            outcome = Exception
        else:
            for s, r, ps in zip(self.srcs, rds, exp):
                low = len(text)
                if r.failed and not c['part']:
                    outcome = r.exc
                    break
                ends = [len(text)]
                for t, err in ps:
                    text += t[a % len(t)]
                    ends.append(len(text))
                    if err:
                        break
                if r.failed:
                    outcome = r.exc
                    break
                ends = None
                if ps and ps[-1][1]:
                    outcome = ps[-1][1]
                    break
                if s.error:
                    outcome = Exception
                    break
        if w.failed:
            expect(what is wexc, 'error', about('the output raised %r, the command %s' % (wexc, 'ended with %r' % (what,) if what is not None else 'ended well')))
            expect(text.startswith(got), 'prefix', about('expected the beginning of %s' % short(text)))
            expect(w.mode == 'call' or len(got) == w.fail_at, 'prefix', about('%d characters were accepted' % w.fail_at))
            return
        if isinstance(what, SimInterrupt):
            expect(text.startswith(got), 'prefix', about('interrupted, expected the beginning of %s' % short(text)))
            return
        if outcome is None:
            expect(what is None, 'error', about('raised %r, expected %s' % (what, short(text))))
        elif isinstance(outcome, BaseException):
            expect(what is outcome, 'error', about('a read raised %r, the command %s' % (outcome, 'ended with %r' % (what,) if what is not None else 'ended well')))
        elif isinstance(outcome, str):
            expect(type(what).__name__ == outcome, 'error', about('ended with %r, expected %s' % (what, outcome)))
        else:
            expect(isinstance(what, outcome), 'error', about('ended with %r, expected an error' % (what,)))
        if ends is not None:
            # However far the reads had taken it
            expect(text.startswith(got) and len(got) in ends, 'results', about('a read failed, expected %s, up to one of %s' % (short(text), ends)))
        else:
            expect(got == text, 'results', about('expected %s' % short(text)))

    def url(self, i):
        return not self.c['html'] and (i + len(self.srcs)) % 3 == 0

    def go(self, rds, w):
        S, c = self.S, self.c
        each = fill(c, c['fe']) if c['fe'] else None
        if not c['cli']:
            S.microx.run(c['what'], self.detail, sources=list(rds), foreach=each, partition=c['part'], out=w, parse_html=c['html'] == 1,
                         parse_lax=c['html'] == 2, show_attrs=c['show'])
            return
        names = [('http://h.example/s%d' if self.url(i) else 's%d.xml') % i for i in range(len(rds))]
        byname = dict(zip(names, rds))
        bad = [n for n, s in zip(names, self.srcs) if s.s.get('open')]

        def sim_open(name, mode='r', *a, **kw):
            if name in bad:
                self.opened = False
                self.env.fault('open-error')
                raise FileNotFoundError(2, 'No such file or directory', name)
            need(name in byname, 'open of ' + str(name))
            r = byname[name]
            # As the mode says
            if isinstance(r.data, bytes) != (mode == 'rb') and not self.url(names.index(name)):
                r.data = r.data.encode('utf-8') if mode == 'rb' else r.data.decode('utf-8')
            return r
        argv = ['microx', '--%s=%s' % (c['what'].replace('_', '-'), self.detail)]
        if each:
            argv.append('--foreach=' + each)
        if c['part']:
            argv.append('--partition=' + c['part'])
        if c['html']:
            argv.append(['', '--html', '--lax'][c['html']])
        if c['show']:
            argv.append('--show-attrs=' + ','.join(c['show']))
        old = sys.argv, sys.stdout, urllib.request.urlopen
        sys.argv, sys.stdout = argv + names, w
        urllib.request.urlopen = sim_open
        try:
            exec(code(S), {'__name__': '__main__', 'open': sim_open})
        finally:
            sys.argv, sys.stdout, urllib.request.urlopen = old

    def hook(self, where):
        nest = self.c.get('nest')
        if not nest or self.depth:
            return
        need(isinstance(nest, list) and len(nest) == 3 and nest[0] in ('write', 'read') and isinstance(nest[1], int) and isinstance(nest[2], dict))
        if where != nest[0]:
            return
        self.count[where] += 1
        if self.count[where] == nest[1]:
            self.env.probe('nested-' + where)
            Command(self.S, self.env, nest[2], 1).execute()

    def notes(self, exp, w, rds, what, got):
        env, c = self.env, self.c
        env.probe(c['what'])
        for k, name in (('fe', 'foreach'), ('part', 'partition'), ('cli', 'cli')):
            if c[k] and not (k == 'fe' and c['what'] == 'find_text'):
                env.probe(name)
        if c['html']:
            env.probe(['', 'html', 'lax'][c['html']])
        if c['cli'] and any(self.url(i) for i in range(len(rds))):
            env.probe('url')
        if len(rds) > 1 and what is None:
            env.probe('multi-source')
        if any(len(r.data) > 2048 for r in rds):
            env.probe('long')
        if what is None and not got:
            env.probe('no-results')
        n = sum(any(t[0] for t, _ in ps) for ps in exp)
        m = sum(bool(t[0]) for ps in exp for t, _ in ps)
        if m > 1 and what is None:
            env.nontrivial = True
            if c['part'] and any(len(ps) > 1 for ps in exp):
                env.probe('multi-delivery')
        if got and what is not None:
            env.nontrivial = True
        if not self.opened:
            env.probe('open-failed')
            return
        if isinstance(what, SimExit):
            env.probe('base-error')
        for s, r, ps in zip(self.srcs, rds, exp):
            if r.calls > 2 and any(s.s['sizes']):
                env.probe('short-reads')
            if r.calls and isinstance(r.data, bytes):
                env.probe('bytes')
            if c['part'] and r.calls and any(e.name == c['part'] for t in s.tops for e in list(N(t).walk())[1:]):
                env.probe('nested-partition')
            if r.failed:
                env.probe('read-failed')
                env.probe('read-failed-first' if r is rds[0] else 'read-failed-later')
                if c['part'] and r is rds[0] and got:
                    env.probe('part-read-failed-after-delivery')
            if r.calls and s.error and not r.failed and not w.failed and what is not None and not isinstance(what, SimInterrupt):
                env.fault('truncation' if 'trunc' in s.s else 'damage')
                env.probe('truncated' if 'trunc' in s.s else 'malformed')
                if ps and ps[-1][0][0]:
                    env.probe('part-malformed-after-delivery')
        if w.failed:
            env.probe('write-failed')
            if c['w'][3]:
                env.probe('transient')
            if w.mode == 'byte':
                env.probe('torn')
        if isinstance(what, SimInterrupt):
            env.fault('interrupt')
            env.probe('interrupted')
            if got:
                env.probe('interrupted-after-output')


_code = []


def code(S):
    """The command as it is started"""
    if not _code:
        p = os.path.join(S.scratch, 'microx_cmd.py')
        _code.append(compile(open(p).read(), p, 'exec'))
    return _code[0]


def run(S, plan, env):
    need(isinstance(plan, dict) and isinstance(plan.get('cmds'), list) and plan['cmds'])
    pristine.begin(lambda q: answer(S, q))
    failed = False
    for c in plan['cmds']:
        cmd = Command(S, env, c)
        if failed:
            env.probe('after-failure')
        failed = cmd.execute() or failed
