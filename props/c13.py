"""C13: XPath results depend only on the expression and the current tree."""
import gc
import json
import re

from sim import gen as G, mon, pristine, ref
from sim.core import injected, SimHang, SimInterrupt, Violation, expect, need, short
from . import stream
from .common import gen_doc

ID = 'C13'
QUICK, THOROUGH, EPOCH = 11000, 200000, 30
RULE = ('A run is a history of 5-50 operations on 1-3 trees: queries (whole, item by item in any interleaving, abandoned, failing, interrupted; '
        'by string or shared parsed expression, through the node, qquery or a reused context) and modifications, detachments and attachments '
        'in between, with each result compared with that of a freshly parsed expression on a fresh copy of the tree, simple paths also with a '
        'reference evaluator, and some with the answer of a process which made no query before. Non-trivial: a query gave results after a modification or while another '
        'was in progress. Distinct: by the digest of the history.')
REAL = ['amara3.uxml.uxpath', 'amara3.uxml.tree', 'amara3.uxml.parser, .xml, .html5 (to make trees)', 'ply', 'CPython collector']
STUB = ['failing extension functions', 'the interrupting signal (raised at a monitored line)', 'automatic collection (off)']
OPS = ['query', 'query', 'query', 'query', 'path', 'path', 'path', 'open', 'open', 'next', 'next', 'next', 'next', 'next', 'close', 'int', 'fail', 'append',
       'insert', 'remove', 'reattach', 'attr', 'rename', 'gc', 'drop', 'orphan', 'parse', 'overlap', 'overlap', 'funcs']
HOWS = ['xpath-str', 'xpath-parsed', 'qquery-str', 'qquery-parsed', 'ctx', 'ctx-reused', 'call']
MUST_HIT = ['op:' + o for o in set(OPS)] + ['how:' + h for h in HOWS] + [
    'finished-interleaved', 'abandoned', 'interrupted', 'interrupted-open', 'stale-next', 'error-result', 'attr-result', 'root-result', 'text-result',
    'value-result', 'query-after-detach', 'query-after-attach', 'same-expr-again', 'failed-function', 'bad-syntax', 'no-variable', 'ref-nonempty',
    'text-context', 'pristine', 'orphan', 'union', 'axis', 'other-tree-mutated', 'ref-axis', 'ref-function', 'ref-function-nonempty', 'ref-order', 'ref-union', 'ref-union-mixed', 'overlapped', 'text-siblings', 'ref-user-function']
FIXED = ['a|b', '//a|//@k', '//*|//text()', '@k|*', 'ancestor-or-self::*', 'ancestor::*', '/', '//*[1]', 'following-sibling::*', 'preceding-sibling::node()',
         '//a/..', '//*[$v]', 'for-each(//*, "name()")', 'for-each(//a, "/")', 'count(/*/node())', 'string(/)', 'descendant-or-self::node()',
         'concat(name(/*), ":", string(.))', 'a//b', '//a//b', './/*', '..', '../..', 'following::node()', '/*/@*', 'boolean(//a)', '//*[@k="1"]/..',
         '//text()|//a', 'string(//a)', '($v, //a, "x")', '/a|/*/*', 'name(..)', 'self::node()', 'parent::*', 'string-length("abc")',
         '//a/following-sibling::*|//b', 'starts-with(name(/*), "a")', 'contains(., "x")', '1 > 0', 'substring-after(., "x")', '//*[name()="a"]',
         '//*[count(ancestor::*)>1]', 'for-each(*, "count(//*)")', 'for-each((0, 1, 0), ".")', '(0, 1, "")[. = 0]', '//text()[. = ""]',
         '(for-each(*, "name()"), name(.), .)', '(for-each(*, "@k"), @k)', 'concat(for-each(*, "name()"), name(.))', 'number("4")', 'boolean(0)', 'not(@k)',
         'count(//*) = 3', '*[for-each(*, "name()")="b"]', '(*, //b)[2]', '//*[starts-with(@k, "1")]', 'for-each((1, 2), "$v")',
         'for-each(*, "for-each(*, \'name()\')")', '(for-each(//*, ".."), ..)', 'for-each(*, "name()")|@k', '(name(*), @*, count(*), name(.))']
NAMES = ['a', 'b', 'c', 'a', 'x']
TEXTS = ['x', 'y', '1', 'x y', ' ', 'ab', 'é', '']
SYNTAX = ['a[', '//', 'a/', ')', 'a||b', '@', "'x", 'a b', '$', '']
LIMIT = 3000
BIG = ['a|b', '//a|b', 'b|//text()', '//a', '//b', '//@k', 'descendant::a', 'descendant-or-self::*', 'count(//*)', '*[301]', 'a[40]', '//text()', '//a|//@k', '*/*', 'a/@k',
       '//*[@k="200"]', '@k|*|text()', '(a, b)', 'for-each(a, "@k")', 'a/text()|b', '*[last()]|x', 'string(.)']


AXES = ['child', 'descendant', 'descendant-or-self', 'self', 'following-sibling', 'preceding-sibling', 'child', 'parent', 'ancestor', 'ancestor-or-self']
FUNCS = ['count', 'boolean', 'not', 'string', 'name']


# -- simple paths and what they mean

def gen_path(rng, names, anames, nest=True):
    steps = []
    n = rng.choice([1, 1, 2, 2, 3])
    ab = rng.choice(['', '', '/', '//', '//'])
    for i in range(n):
        k = rng.random()
        preds = []
        if i == n - 1 and k < .2:
            st = ['@', rng.choice(anames + ['*'])]
        elif k < .3 and (i or not ab):
            st = [rng.choice(['..', '.'])]
        elif k < .45 and i:
            st = ['node()' if rng.random() < .4 else 'text()']
        elif k < .62 and (steps[-1][0][0] in names if i else ab != '//'):
            ax = rng.choice(AXES if i == n - 1 else AXES[:7])
            st = ['::', ax, 'node()' if ax in AXES[:7] and rng.random() < .2 else rng.choice(names)]
        else:
            st = [rng.choice(names + ['*'])]
            if rng.random() < .35:
                q = rng.random()
                preds = [['@', rng.choice(anames)]] if q < .3 else [['=', rng.choice(anames), rng.choice(['1', 'v'])]] if q < .5 else \
                    [['c', rng.choice(names)]] if q < .7 else [['!', rng.choice(anames)]] if q < .78 else [['has', rng.choice(['x', '1'])]] if q < .85 else \
                    [['v', rng.choice(anames)]] if q < .93 else [['f', rng.choice(names)]]
                if rng.random() < .06:
                    preds = [rng.choice([['@', rng.choice(anames)], ['!', rng.choice(anames)], ['c', rng.choice(names)], ['has', rng.choice(['x', '1'])]]) for _ in range(rng.choice([2, 3, 4, 5]))]
                elif rng.random() < .06:
                    # Most of them true
                    preds = [['!', rng.choice(['zz', 'zy', anames[-1]])] for _ in range(rng.choice([1, 2, 3, 4, 6]))] + preds
            if not i and not ab and rng.random() < (.3 if n == 1 else .1):
                preds.insert(0, ['#', rng.choice([1, 1, 2, 2, 3, 4, 5, 7, 9, 10, 11, 12, 13, 16, 20, 21, 32, 101])])
        sep = '/'
        if i and i == n - 1 and rng.random() < .35 and st[0] in names and steps[-1][0][0] in names and st[0] != steps[-1][0][0]:
            sep = '//'
        steps.append([st, preds, sep])
    p = {'abs': ab, 'steps': steps, 'fn': rng.choice([0, 0, 0, 0] + FUNCS)}
    if nest and not p['fn'] and rng.random() < .2:
        q = gen_path(rng, names, anames, False)
        p['or'] = {'abs': q['abs'], 'steps': [[st, [], sep] for st, _, sep in q['steps']], 'fn': 0}
    return p


def render_path(p):
    out = prev = ''
    steps = p['steps']
    need(p['abs'] in ('', '/', '//') and steps and '(' not in steps[0][0][0])
    for st, preds, sep in steps:
        need(isinstance(st, list) and st and all(isinstance(x, str) and x for x in st) and len(st) == {'@': 2, '::': 3}.get(st[0], 1))
        need(all(x in ('@', '::', '*', '.', '..', 'node()', 'text()') or (x not in ('or', 'and', 'div', 'mod') and re.fullmatch('[a-z][a-z-]*', x)) for x in st))
        need(st[0] != '@' or not st[1].startswith('.') and '(' not in st[1])
    for i, (st, preds, sep) in enumerate(steps):
        if st[0] == '::':
            # Only where the context is an element or the root, and where the root node counts for nothing
            need(len(st) == 3 and st[1] in AXES and (st[1] in AXES[:7] or i == len(steps) - 1) and '@' not in st[2] and st[2] not in ('*', '..', '.', 'text()'))
            need(st[2] != 'node()' or st[1] in AXES[:7])
            need(p['abs'] != '//' if not i else steps[i - 1][0][0] not in ('*', '..', '.', '@', '::') and '(' not in steps[i - 1][0][0])
        need(sep == '/' or (sep == '//' and out and st is p['steps'][-1][0] and prev not in ('*', st[0], '..', '.', '@', '::') and st[0] not in ('*', '..', '.', '@', '::') and '(' not in prev + st[0]))
        prev = st[0]
        s = (sep if out else '') + ('@' + st[1] if st[0] == '@' else '%s::%s' % (st[1], st[2]) if st[0] == '::' else st[0])
        for x, q in enumerate(preds):
            # A position counts what the step, and nothing else, gives
            need(q[0] != '#' or (not i and not p['abs'] and st[0] not in ('@', '::', '.', '..') and not x and isinstance(q[1], int) and q[1] > 0))
            s += {'#': '[%d]', '@': '[@%s]', '=': '[@%s="%s"]', 'c': '[%s]', '!': '[not(@%s)]', 'has': '[contains(., "%s")]', 'v': '[@%s=$v]', 'f': '[is-a("%s")]'}[q[0]] % tuple(q[1:])
        out += s
    out = p['abs'] + out
    if p.get('or'):
        need(isinstance(p['or'], dict) and not p.get('fn') and not p['or'].get('fn') and not p['or'].get('or') and not any(st[1] for st in p['or']['steps']))
        return out + '|' + render_path(p['or'])
    if p.get('fn'):
        need(p['fn'] in FUNCS)
        return '%s(%s)' % (p['fn'], out)
    return out


def simple_order(p):
    """Whether the order of results, each once, is that of the document"""
    return p['abs'] != '//' and all(st[0] not in ('..', '.', '::', '@') and sep == '/' for st, _, sep in p['steps'])


def eval_path(p, top, where, T, v=None):
    """Set of what a simple path selects: paths into the tree, () being the document element, 'R' the root node"""
    def node(w):
        n = top
        for i in w:
            n = n.xml_children[i]
        return n

    def kids(w):
        if w == 'R':
            return [()]
        n = node(w)
        return [w + (i,) for i in range(len(n.xml_children))] if isinstance(n, T.element) else []

    def up(w):
        return 'R' if w in ('R', ()) else w[:-1]

    def value(w):
        return ''.join(str(node(x)) for x in walk(w) if x != 'R' and not isinstance(node(x), T.element))

    def walk(w):
        out = [w]
        for c in kids(w):
            out.extend(walk(c))
        return out

    cur = ['R' if where == () else where]
    if p['abs']:
        cur = ['R']
    if p['abs'] == '//':
        cur = walk('R')
    for st, preds, sep in p['steps']:
        new = []
        if sep == '//':
            cur = [x for w in cur for x in walk(w)]
        for w in cur:
            if st[0] == '..':
                new.append(up(w))
            elif st[0] == '.':
                new.append(w)
            elif st[0] == '::':
                ax = st[1]
                c = []
                if ax in ('self', 'ancestor-or-self'):
                    c = [w]
                if ax == 'child':
                    c = kids(w)
                elif ax.startswith('descendant'):
                    c = walk(w)[ax == 'descendant':]
                elif ax == 'parent':
                    c = [up(w)]
                elif ax.startswith('ancestor'):
                    while w != 'R':
                        w = up(w)
                        c.append(w)
                elif 'sibling' in ax and w not in ('R', ()):
                    c = [x for x in kids(up(w)) if (x[-1] > w[-1] if ax[0] == 'f' else x[-1] < w[-1])]
                new.extend(x for x in c if st[2] == 'node()' or (x != 'R' and isinstance(node(x), T.element) and node(x).xml_name == st[2]))
            elif st[0] == '@':
                if w != 'R' and isinstance(node(w), T.element):
                    new.extend(('@', w, k, v) for k, v in node(w).xml_attributes.items() if st[1] in ('*', k))
            else:
                for c in kids(w):
                    n = node(c)
                    isel = isinstance(n, T.element)
                    if st[0] == 'node()' or (st[0] == 'text()' and not isel) or (isel and st[0] in ('*', n.xml_name)):
                        new.append(c)
        for q in preds:
            if q[0] == '#':
                new = new[q[1] - 1:q[1]]
                continue

            def ok(w):
                if w == 'R':
                    return False
                n = node(w)
                if not isinstance(n, T.element):
                    return q[0] == 'has' and q[1] in n
                a = n.xml_attributes
                if q[0] == '@':
                    return q[1] in a
                if q[0] == '=':
                    return a.get(q[1]) == q[2]
                if q[0] == 'v':
                    return a.get(q[1]) == v
                if q[0] == 'f':
                    return n.xml_name == q[1]
                if q[0] == '!':
                    return q[1] not in a
                if q[0] == 'c':
                    return any(isinstance(c, T.element) and c.xml_name == q[1] for c in n.xml_children)
                return q[1] in value(w)
            new = [w for w in new if ok(w)]
        cur = list(dict.fromkeys(new))
    if p.get('or'):
        return set(cur) | eval_path(p['or'], top, where, T, v)
    return set(cur)


# -- answers from a process in which nothing has happened yet

def encode(S, n):
    return [n.xml_name, list(n.xml_attributes.items()), [encode(S, c) for c in n.xml_children]] if isinstance(n, S.tree.element) else str(n)


def decode(S, d):
    if isinstance(d, str):
        return S.tree.text(d)
    e = S.tree.element(d[0], dict(map(tuple, d[1])))
    for c in d[2]:
        e.xml_insert(decode(S, c))
    return e


def answer(S, q):
    mon.begin(8000000 + 100 * len(repr(q)))
    top = decode(S, q[0])
    try:
        return plain(evaluate(S, lambda: at(top, q[1]).xml_xpath(q[2], vars={'v': q[3]}), Map(S, top)))
    except SimHang:
        return ['hang']


def plain(r):
    return json.loads(json.dumps(r))


class Map:
    """Description of results in terms of places in the tree"""
    def __init__(self, S, top):
        self.S, self.top = S, top
        self.at = {}
        self.keep = []
        st = [(top, ())]
        while st:
            n, w = st.pop()
            self.at[id(n)] = w
            self.keep.append(n)
            if isinstance(n, S.tree.element):
                st.extend((c, w + (i,)) for i, c in enumerate(n.xml_children))

    def __call__(self, x):
        S = self.S
        if isinstance(x, S.xast.root_node):
            return ['R', self.at.get(id(x.xml_children[0]), 'foreign')]
        if isinstance(x, S.xast.attribute_node):
            p = x.xml_parent
            return ['@', self.at.get(id(p), 'foreign') if p is not None else None, x.xml_name, x.xml_value]
        if isinstance(x, S.tree.node):
            return ['N', self.at.get(id(x), 'foreign'), x.xml_name]
        if isinstance(x, (str, int, float, bool)) or x is None:
            return ['V', type(x).__name__, x if not isinstance(x, float) else repr(x)]
        return ['?', type(x).__name__]


def evaluate(S, f, m):
    """Descriptions of the results, and how it ended"""
    out = []
    try:
        for x in f():
            out.append(m(x))
            if len(out) >= LIMIT:
                out.append('limit')
                break
    except SimHang:
        raise
    except Exception as e:
        out.append(['error', type(e).__name__])
    return out


def deep_copy(S, n):
    if isinstance(n, S.tree.element):
        c = S.tree.element(n.xml_name, dict(n.xml_attributes))
        for x in n.xml_children:
            y = deep_copy(S, x)
            c.xml_insert(y)
        return c
    return S.tree.text(str(n))


def top_of(n):
    while n.xml_parent is not None:
        n = n.xml_parent
    return n


def at(n, w):
    for i in w:
        n = n.xml_children[i]
    return n


def place(n, g):
    """What sorts a result where it is in the document"""
    return [(i, -1) for i in g[1]] + ([(-1, list(n.xml_attributes).index(g[2]))] if g[0] == '@' else [])


def snapshot(S, n):
    return [n, n.xml_name, list(n.xml_attributes.items()), [snapshot(S, c) for c in n.xml_children], n.xml_children, n.xml_attributes] if \
        isinstance(n, S.tree.element) else n


def text_of(S, n):
    return ''.join(text_of(S, c) for c in n.xml_children) if isinstance(n, S.tree.element) else str(n)


def same(a, b):
    if isinstance(a, list) and isinstance(b, list):
        return a[0] is b[0] and a[1] == b[1] and a[2] == b[2] and a[4] is b[4] and a[5] is b[5] and len(a[3]) == len(b[3]) and all(map(same, a[3], b[3]))
    return a is b


def gen_expr(rng, names):
    while True:
        x = G.gen_xpath(rng, names, ['k', 'id', 'x'], vals=('x', '1', 'ab'))
        # Each of these multiplies the work by the size of the tree
        if len(re.findall('//|descendant|ancestor|following|preceding', x)) <= 2:
            return x


def gen(rng, tier):
    docs = []
    names = [rng.choice(NAMES) for _ in range(rng.choice([1, 2, 3, 4]))]
    for _ in range(rng.choice([1, 2, 2, 3])):
        k = rng.choice('uuux')
        sh = G.Shape(rng, plain=True, xml=True, names=names, small=True, maxn=rng.choice([2, 4, 7, 12, 20]))
        sh.anames = ['k', 'id', 'x']
        docs.append([k, G.gen_tree(rng, sh), rng.choice([0, rng.randint(1, 1 << 30)])])
    big = rng.random() < .04
    if big:
        t = rng.choice(docs)[1]
        if rng.random() < .7:
            # Not the document element, for which queries are from the root node
            t[2].insert(rng.randint(0, len(t[2])), ['wide', [], []])
            t = next(c for c in t[2] if c[0] == 'wide')
        if rng.random() < .5:
            names = names[:1]
        for i in range(rng.choice([30, 130, 260, 450, 600])):
            t[2].append([rng.choice(names), [['k', str(i)]] if rng.random() < .3 else [], ['x'] if rng.random() < .5 else []])
            if rng.random() < .2:
                t[2].append('y')
    if rng.random() < .15:
        docs.append(['html', G.gen_html(rng, 5), 0])
    exprs = [rng.choice(FIXED) if rng.random() < .5 else gen_expr(rng, names) for _ in range(rng.choice([1, 2, 4, 8]))]
    paths = [gen_path(rng, names, ['k', 'id', 'x']) for _ in range(rng.choice([1, 2, 4]))]
    if rng.random() < .4:
        paths.append({'abs': '', 'steps': [[['::', rng.choice(AXES[4:6]), rng.choice(names + ['node()'])], [], '/']], 'fn': 0})
    if big:
        # Nothing of quadratic cost
        exprs = [rng.choice(BIG) for _ in exprs]
        paths = []
        while not paths:
            paths = [gen_path(rng, names, ['k']) for _ in range(20)]
            paths = [p for p in paths if all(len(q['steps']) == 1 and not (q['steps'][0][0][0] == '::' and (q['steps'][0][0][1] not in AXES[:3] or q['abs'] == '//'))
                                             and not any(x[0] in ('c', 'f') for x in q['steps'][0][1]) for q in (p, p.get('or')) if q)][:3]
        for _ in range(2):
            nm = rng.choice([c[0] for c in t[2] if not isinstance(c, str)])
            most = sum(c[0] == nm for c in t[2] if not isinstance(c, str))
            paths.append({'abs': '', 'steps': [[[nm], [['#', rng.randint(min(9, most), most)]], '/']], 'fn': 0})
            paths.append({'abs': '', 'steps': [[[nm], [['#', rng.choice([1, most, rng.randint(1, most)])]], '/'], [['::', rng.choice(['preceding-sibling', 'following-sibling']), rng.choice([nm] + names)], [], '/']], 'fn': 0})
        paths.append({'abs': '', 'steps': [[['::', rng.choice(['descendant', 'descendant-or-self']), rng.choice(names)], [], '/']], 'fn': 0})
        paths.append({'abs': '', 'steps': [[[rng.choice(names)], [], '/']], 'fn': 0, 'or': {'abs': '', 'steps': [[rng.choice([[rng.choice(names)], ['@', '*']]), [], '/']], 'fn': 0}})
    ops = [['parse', i, 0, 0] for i in range(len(docs))]
    bias = [rng.choice(OPS) for _ in range(3)]
    for _ in range(rng.choice([5, 10, 20, 50] if not big else [4, 8]) if big or rng.random() > .015 else rng.choice([110, 160])):
        op = 'path' if big and rng.random() < .5 else rng.choice(bias) if rng.random() < .3 else rng.choice(OPS)
        ops.append([op, rng.randint(0, 999), rng.randint(0, 999), rng.randint(0, 999)])
    return {'docs': docs, 'exprs': exprs, 'paths': paths, 'ops': ops, 'big': int(big), 'names': names, 'v': rng.choice(['x', '1', 1, True, 'a'])}


class Gen:
    """A query in progress"""
    def __init__(self, w, node, expr, how, it):
        self.w, self.node, self.expr, self.how, self.it = w, node, expr, how, it
        self.started = self.stale = False
        self.got = []
        self.exp = None
        self.map = None


class World:
    def __init__(self, S, env, plan):
        self.S, self.env, self.plan = S, env, plan
        self.tops = []
        self.gens = []
        self.parsed = {}
        self.used = {}
        self.v = plan['v']
        self.vars = {'v': self.v}
        self.epoch = 0
        self.ctxs = {}
        self.mutated = self.detached = self.attached = False

    def nodes(self, elems=False):
        out = []
        for t in self.tops:
            st = [t]
            while st:
                n = st.pop()
                if isinstance(n, self.S.tree.element):
                    out.append(n)
                    st.extend(reversed(n.xml_children))
                elif not elems:
                    out.append(n)
        return out

    def touch(self, *tops):
        """The trees are modified: queries in progress there have no defined result any more"""
        self.epoch += 1
        self.mutated = True
        for g in self.gens:
            if g.started:
                if any(top_of(g.node) is t for t in tops):
                    g.stale = True
                else:
                    self.env.probe('other-tree-mutated')

    def compiled(self, x):
        if x not in self.parsed:
            self.parsed[x] = self.S.uxpath.parse(x)
        else:
            self.env.probe('same-expr-again')
        return self.parsed[x]

    def call(self, node, x, how, vars=None, funcs=None):
        """An iterator over the results"""
        S = self.S
        kw = {}
        if vars is not None:
            kw['vars'] = vars
        if funcs is not None:
            kw['funcs'] = funcs
        if how == 'xpath-str':
            return node.xml_xpath(x, **kw)
        if how == 'xpath-parsed':
            return node.xml_xpath(self.compiled(x), **kw)
        if how == 'qquery-str':
            return S.uxpath.qquery(node, x, **kw)
        if how == 'qquery-parsed':
            return S.uxpath.qquery(node, self.compiled(x), **kw)
        if how == 'ctx-reused' and funcs is None:
            k = (id(node), self.epoch)
            if k not in self.ctxs:
                self.ctxs = {k2: c for k2, c in self.ctxs.items() if k2[1] == self.epoch}
                self.ctxs[k] = S.uxpath.context(node, variables=self.vars, force_root=not node.xml_parent), node
            return self.compiled(x).compute(self.ctxs[k][0])
        ctx = S.uxpath.context(node, variables=vars, functions=funcs, force_root=not node.xml_parent)
        if how == 'call':
            return self.compiled(x)(ctx)
        return self.compiled(x).compute(ctx)

    def oracle(self, node, x, vars, funcs=None):
        """What a fresh parse of the expression gives on a fresh copy of the tree"""
        S = self.S
        top = top_of(node)
        c = deep_copy(S, top)
        w = Map(S, top).at[id(node)]
        return evaluate(S, lambda: at(c, w).xml_xpath(x, vars=vars, funcs=funcs), Map(S, c))


def describe(w, r):
    e = w.env
    for x in r:
        if x == 'limit':
            continue
        e.probe({'R': 'root-result', '@': 'attr-result', 'V': 'value-result', 'error': 'error-result'}.get(x[0]) or
                ('text-result' if x[2] == '#text' else 'elem-result'))


def boom_funcs(S, n, x=0):
    left = [n]

    def boom(ctx, *args):
        left[0] -= 1
        if left[0] < 0:
            raise injected(x, 'boom')
        yield 'x'
    return dict(S.uxpath.BUILTIN_FUNCTIONS, boom=boom)


def check_same(got, exp, x, how, where):
    expect(got == exp, 'result', lambda: '%s (%s) %s: %s' % (short(x, 100), how, where, ref.first_diff(got, exp)))


def do(w, o, env, S):
    plan = w.plan
    op, i, j, k = o
    T = S.tree
    if op == 'parse':
        kind, d, lex = plan['docs'][i % len(plan['docs'])]
        if len(w.tops) > 4 or len(w.nodes()) > 50 * (1 + 39 * plan.get('big', 0)):
            return False
        if kind == 'html':
            t = S.html5.parse(''.join(map(str, d)))
        else:
            G.check_tree(d)
            t = (S.xml.treebuilder().parse if kind == 'x' else S.tree.parse)(G.render(d, lex, kind == 'x')[0])
        need(t is not None)
        if len(Map(S, t).keep) > (2000 if plan.get('big') else 60):
            return False
        w.tops.append(t)
        return
    if op == 'gc':
        gc.collect()
        return
    nodes = w.nodes()
    elems = w.nodes(True)
    if not nodes:
        return False
    n = nodes[i % len(nodes)]
    if isinstance(n, str) and k % 3:
        n = n.xml_parent or n
    e = elems[i % len(elems)] if elems else None
    how = HOWS[k % len(HOWS)]
    if op in ('query', 'open', 'int'):
        x = plan['exprs'][j % len(plan['exprs'])]
    if how.startswith('qquery') and isinstance(n, str) and not n:
        how = 'xpath-str'       # qquery takes an empty text for no node
    if op == 'query':
        got = evaluate(S, lambda: w.call(n, x, how, w.vars), Map(S, top_of(n)))
        exp = w.oracle(n, x, w.vars)
        check_same(got, exp, x, how, 'on %s' % n.xml_name)
        if (i + j + k) % 3 == 0:
            env.probe('pristine')
            top = top_of(n)
            exp = pristine.ask([encode(S, top), Map(S, top).at[id(n)], x, w.v])
            got = plain(got)
            expect(got == exp, 'history', lambda: '%s (%s) on %s: %s, where expected is what the first query ever gives' % (
                short(x, 100), how, n.xml_name, ref.first_diff(got, exp)))
        env.probe('how:' + how)
        mark(w, n, x)
        describe(w, got)
        env.log('results', x, got[:50])
    elif op == 'path':
        p = plan['paths'][j % len(plan['paths'])]
        if plan.get('big') and k % 4:
            n = max(nodes, key=lambda x: 0 if isinstance(x, str) else len(x.xml_children))
        if isinstance(n, str) and p['steps'][0][0][0] not in ('..', '::'):
            p = plan['paths'][-1]
        x = render_path(p)
        top = top_of(n)
        m = Map(S, top)
        where = m.at[id(n)]
        steps = p['steps'] + (p['or']['steps'] if p.get('or') else [])
        if isinstance(n, str) and (p['abs'] or p.get('or') or not n.xml_parent or any(st[0][0] != '..' and not (len(st[0]) == 3 and 'sibling' in st[0][1]) for st in p['steps'][:1])):
            return False        # not defined for text
        funcs = None
        if 'is-a(' in x:
            # A function of the user's, called in a context which the evaluation made
            def is_a(ctx, name):
                yield getattr(ctx.item, 'xml_name', None) == next(name.compute(ctx))
            funcs = dict(S.uxpath.BUILTIN_FUNCTIONS, **{'is-a': is_a})
            env.probe('ref-user-function')
        got = evaluate(S, lambda: w.call(n, x, how, w.vars, funcs), m)
        exp = eval_path(p, top, where, T, w.v)
        if p.get('fn'):
            if not simple_order(p):
                return False
            first = at(top, min(exp)) if exp else ''
            v = {'count': len(exp), 'boolean': bool(exp), 'not': not exp, 'string': text_of(S, first) if exp else '',
                 'name': first.xml_name if exp else ''}[p['fn']]
            v = [['V', type(v).__name__, v]]
            if p['fn'] == 'string':     # which might be the very text node
                got = [['V', 'str', str(at(top, g[1]))] if g[0] == 'N' and g[2] == '#text' and g[1] != 'foreign' else g for g in got]
            expect(got == v, 'reference', lambda: '%s (%s) on %s %s gave %s, expected %s' % (x, how, n.xml_name, where, short(got), v))
            env.probe('ref-function')
            if exp:
                env.probe('ref-function-nonempty')
            mark(w, n, x)
            env.log('function', x, got)
            return
        gs = set()
        for g in got:
            if g[0] == 'R' and g[1] == ():
                gs.add('R')
            elif g[0] == '@':
                gs.add(('@', g[1], g[2], g[3]))
            elif g[0] == 'N' and g[1] != 'foreign':
                gs.add(g[1])
            else:
                raise Violation('result', '%s (%s) on %s gave %s, which is not in the tree' % (x, how, n.xml_name, g))
        if any(s[0][0] == '::' for s in steps):
            env.probe('ref-axis')
            if any(q['steps'][-1][0][0] == '::' for q in (p, p.get('or')) if q):
                gs.discard('R')
                exp.discard('R')
        if p.get('or'):
            # In the order of the document, attributes after their element
            env.probe('ref-union')
            o = [[] if g[0] == 'R' else [(0, 0)] + place(at(top, g[1]), g) for g in got]
            expect(o == sorted(o), 'order', lambda: '%s (%s) on %s gave %s' % (x, how, n.xml_name, short(o)))
            if len(set(g[0] for g in got)) > 1:
                env.probe('ref-union-mixed')
        elif simple_order(p):
            env.probe('ref-order')
            o = [g[1] for g in got]
            expect(o == sorted(o) and len(o) == len(gs), 'order', lambda: '%s (%s) on %s gave %s' % (x, how, n.xml_name, short(o)))
        expect(gs == exp, 'reference', lambda: '%s (%s) on %s %s of %s gave %s, expected %s' % (
            x, how, n.xml_name, where, short(top.xml_encode(), 200) if isinstance(top, T.element) else '', short(sorted(map(repr, gs)), 200), short(sorted(map(repr, exp)), 200)))
        if exp:
            env.probe('ref-nonempty')
            if isinstance(n, str) and p['steps'][0][0][0] == '::':
                env.probe('text-siblings')
        env.probe('how:' + how)
        mark(w, n, x)
        env.log('path', x, len(got))
    elif op == 'overlap':
        # Several evaluations of one parsed expression step by step
        a, b = plan['names'][0], plan['names'][-1]
        xs = plan['exprs'] + ['*//%s' % a, '%s//%s' % (a, b), '//%s//%s' % (b, a), '*/*//node()', '//%s|*//%s' % (a, b), '*[.//%s]//%s' % (a, b)]
        x = xs[j % len(xs)]
        try:
            c = w.compiled(x)
        except SimHang:
            raise
        except Exception:
            return False
        its = []
        for q in range(2 + i % 2):
            m = nodes[(i + q * (k % 3)) % len(nodes)]
            if isinstance(m, str):
                m = m.xml_parent
            if m is None:
                return False
            exp = w.oracle(m, x, w.vars)
            if 'limit' in exp:
                return False
            ctx = S.uxpath.context(m, variables=w.vars, force_root=not m.xml_parent)
            its.append([c.compute(ctx), exp, [], Map(S, top_of(m))])
        live = list(range(len(its)))
        r = i * 1000 + k
        while live:
            r = (r * 1103515245 + 12345) % (1 << 31)
            q = live[(r >> 8) % len(live)]
            it, exp, got, m = its[q]
            try:
                for _ in range(1 + (r >> 16) % 3):
                    got.append(m(next(it)))
            except StopIteration:
                live.remove(q)
            except SimHang:
                raise
            except Exception as y:
                got.append(['error', type(y).__name__])
                live.remove(q)
            expect(len(got) <= len(exp), 'result', lambda: '%s, evaluations overlapping: too much: %s' % (x, short(got)))
        for it, exp, got, m in its:
            check_same(got, exp, x, 'compiled', 'evaluations overlapping')
            if len(got) > 1:
                env.probe('overlapped')
                env.nontrivial = True
        env.log('overlap', x, [len(g[2]) for g in its])
    elif op == 'funcs':
        # Functions and variables of one query are nobody else's
        over = ['name', 'string', 'count', 'boolean', 'concat', 'mine'][i % 6]

        def other(ctx, *args):
            yield 'over'
        f = dict(S.uxpath.BUILTIN_FUNCTIONS, **{over: other})
        fd = dict(f)
        x = over + ('(//*)' if over != 'concat' else '(name(/*), "x")')
        h = 'ctx' if how == 'ctx-reused' else how
        vs = {'v': 'other', 'w': 'w'}
        got = evaluate(S, lambda: w.call(n, '(%s, $w, $v)' % x, h, vs, f), Map(S, top_of(n)))
        expect(got == [['V', 'str', 'over'], ['V', 'str', 'w'], ['V', 'str', 'other']] or (got and got[-1][0] == 'error' and isinstance(n, str)), 'functions',
               lambda: 'a function given for %s is not used: %s' % (over, got))
        expect(f == fd and vs == {'v': 'other', 'w': 'w'}, 'functions-modified', 'a query changed the mappings it was given')
        top = top_of(n)
        for y in (x, '($v, %s)' % x, '$w'):
            got = plain(evaluate(S, lambda: w.call(n, y, h, w.vars), Map(S, top)))
            exp = pristine.ask([encode(S, top), Map(S, top).at[id(n)], y, w.v])
            expect(got == exp, 'history', lambda: '%s on %s after a query with another function and variables: %s, the first query ever gives %s' % (y, n.xml_name, short(got), short(exp)))
        env.fault('override')
        mark(w, n, x)
    elif op == 'open':
        if len(w.gens) > 4:
            return False
        try:
            it = iter(w.call(n, x, how, w.vars))
        except SimHang:
            raise
        except Exception:
            return False
        w.gens.append(Gen(w, n, x, how, it))
    elif op == 'next':
        if not w.gens:
            return False
        g = w.gens[i % len(w.gens)]
        if not g.started:
            # Contexts found their root when they were made
            if g.how in ('ctx', 'ctx-reused', 'call', 'xpath-parsed', 'qquery-parsed') and getattr(g, 'epoch', w.epoch) != w.epoch:
                g.stale = True
            g.started = True
            if g.node.xml_parent is None and not any(t is g.node for t in w.tops):
                g.stale = True      # its tree was dropped
            if not g.stale:
                g.exp = w.oracle(g.node, g.expr, w.vars)
                g.map = Map(S, top_of(g.node))
        if g.stale:
            env.probe('stale-next')
        for _ in range(1 + k % 3):
            try:
                r = next(g.it)
            except StopIteration:
                w.gens.remove(g)
                finish(w, g, None)
                break
            except SimHang:
                raise
            except Exception as x:
                w.gens.remove(g)
                finish(w, g, x)
                break
            if not g.stale:
                d = g.map(r)
                g.got.append(d)
                ix = len(g.got) - 1
                expect(ix < len(g.exp), 'result', lambda: '%s (%s), item by item: item %d is %s, expected no more than %d' % (g.expr, g.how, ix, d, len(g.exp)))
                if g.exp[ix] == 'limit':
                    w.gens.remove(g)
                    break
                expect(d == g.exp[ix], 'result', lambda: '%s (%s), item by item: item %d is %s, expected %s' % (g.expr, g.how, ix, d, g.exp[ix]))
                if w.mutated or len(w.gens) > 1:
                    env.nontrivial = True
                env.log('item', g.expr, d)
    elif op == 'close':
        if not w.gens:
            return False
        g = w.gens.pop(i % len(w.gens))
        env.probe('abandoned')
        env.fault('abandoned-query')
        if j % 2:
            g.it.close()
        g = None
    elif op == 'int':
        if w.gens and j % 3 == 0:
            g = w.gens.pop(i % len(w.gens))
            try:
                with mon.interrupt(1 + k % 30):
                    for _ in range(5):
                        next(g.it, None)
            except SimInterrupt:
                env.probe('interrupted-open')
                env.fault('interrupt')
            except SimHang:
                raise
            except Exception:
                pass
        else:
            try:
                with mon.interrupt(1 + k % 120):
                    for r, _ in zip(w.call(n, x, HOWS[j % len(HOWS)], w.vars), range(LIMIT)):
                        pass
            except SimInterrupt:
                env.probe('interrupted')
                env.fault('interrupt')
            except SimHang:
                raise
            except Exception:
                pass
    elif op == 'fail':
        kind = j % 4
        if kind == 0:
            x = SYNTAX[i % len(SYNTAX)]
            env.fault('bad-expression')
            try:
                w.call(n, x, HOWS[k % 2], w.vars)
                r = evaluate(S, lambda: w.call(n, x, HOWS[k % 2], w.vars), Map(S, top_of(n)))
                if r and r[-1][0] == 'error':
                    env.probe('bad-syntax')
            except SimHang:
                raise
            except Exception:
                env.probe('bad-syntax')
        elif kind == 1:
            x = '//*[$none]'
            got = evaluate(S, lambda: w.call(n, x, how, {}), Map(S, top_of(n))) if how != 'ctx-reused' else None
            if got is not None:
                check_same(got, w.oracle(n, x, {}), x, how, 'without the variable')
                env.probe('no-variable')
                env.fault('missing-variable')
        else:
            x = ['//*[boom()]', 'for-each(//*, "boom()")', '(//*, boom())', '//a|//*[boom()]', 'concat("x", boom())'][i % 5]
            f = boom_funcs(S, k % 4, 0 if j % 23 == 2 else j)
            fd = dict(f)
            env.fault('failing-function')
            h = 'ctx' if how == 'ctx-reused' else how
            got = evaluate(S, lambda: w.call(n, x, h, w.vars, f), Map(S, top_of(n)))
            check_same(got, w.oracle(n, x, w.vars, boom_funcs(S, k % 4, 0 if j % 23 == 2 else j)), x, h, 'with a failing function')
            expect(f == fd, 'functions-modified', 'a query changed the mapping of functions it was given')
            if got and got[-1][0] == 'error':
                env.probe('failed-function')
    elif op in ('append', 'insert'):
        if e is None or len(nodes) > 90:
            return False
        w.touch(top_of(e))
        c = T.text(TEXTS[j % len(TEXTS)]) if k % 3 == 0 else T.element(plan['names'][j % len(plan['names'])], {'k': '1'} if k % 2 else None)
        if op == 'append':
            e.xml_append(c)
        else:
            e.xml_insert(c, j % (len(e.xml_children) + 1))
    elif op == 'remove':
        c = [x for x in nodes if x.xml_parent is not None]
        if not c:
            return False
        c = c[i % len(c)]
        p = c.xml_parent
        w.touch(top_of(c))
        p.xml_remove(c)
        if isinstance(c, T.element) or j % 2:
            w.tops.append(c)
        w.detached = True
        if len(w.tops) > 6:
            w.tops.pop(0)
    elif op == 'reattach':
        if len(w.tops) < 2:
            return False
        c = w.tops[j % len(w.tops)]
        cand = [x for x in elems if top_of(x) is not c]
        if not cand:
            return False
        p = cand[i % len(cand)]
        w.touch(c, top_of(p))
        p.xml_insert(c, k % (len(p.xml_children) + 1))
        w.tops = [t for t in w.tops if t is not c]
        w.attached = True
    elif op == 'attr':
        if e is None:
            return False
        w.touch(top_of(e))
        if k % 3 == 0 and e.xml_attributes:
            del e.xml_attributes[list(e.xml_attributes)[j % len(e.xml_attributes)]]
        else:
            e.xml_attributes[['k', 'id', 'x'][j % 3]] = ['1', 'v', 'x', ''][k % 4]
    elif op == 'rename':
        if e is None:
            return False
        w.touch(top_of(e))
        e.xml_name = plan['names'][j % len(plan['names'])]
    elif op == 'orphan':
        # The top of the tree is dropped, a part of it is not
        c = [x for x in elems if x.xml_parent is not None]
        if not c:
            return False
        c = c[i % len(c)]
        t = top_of(c)
        w.touch(t)
        w.gens = [g for g in w.gens if top_of(g.node) is not t]
        w.ctxs = {}
        w.tops = [x for x in w.tops if x is not t]
        del t, n, e, nodes, elems
        gc.collect()
        w.tops.append(top_of(c))
        if c.xml_parent is None:
            env.probe('orphan')
    elif op == 'drop':
        if len(w.tops) < 2:
            return False
        t = w.tops.pop(j % len(w.tops))
        for g in w.gens:
            if top_of(g.node) is t:
                g.stale = g.started = True
        w.epoch += 1
    else:
        need(False, op)


def mark(w, n, x):
    env = w.env
    if w.mutated:
        env.nontrivial = True
    if w.detached:
        env.probe('query-after-detach')
    if w.attached:
        env.probe('query-after-attach')
    if '|' in x:
        env.probe('union')
    if '::' in x:
        env.probe('axis')
    if isinstance(n, str):
        env.probe('text-context')


def finish(w, g, x):
    if g.stale:
        return
    got = g.got + ([['error', type(x).__name__]] if x is not None else [])
    check_same(got, g.exp, g.expr, g.how, 'item by item')
    w.env.probe('how:' + g.how)
    if w.gens:
        w.env.probe('finished-interleaved')
        w.env.nontrivial = True


def run(S, plan, env):
    need(isinstance(plan, dict) and plan.get('ops') and plan.get('docs') and plan.get('exprs') and plan.get('paths') and plan.get('names'))
    pristine.begin(lambda q: answer(S, q))
    w = World(S, env, plan)
    was = gc.isenabled()
    gc.disable()
    try:
        for o in plan['ops']:
            need(isinstance(o, list) and len(o) == 4 and all(isinstance(x, int) for x in o[1:]))
            env.step(o[0])
            mut = o[0] in ('append', 'insert', 'remove', 'reattach', 'attr', 'rename', 'drop', 'orphan', 'parse')
            snaps = None if mut else [snapshot(S, t) for t in w.tops]
            vd = dict(w.vars)
            ngen = len(w.gens)
            r = do(w, o, env, S)
            if len(w.gens) > ngen:
                w.gens[-1].epoch = w.epoch
            if r is False:
                continue
            env.probe('op:' + o[0])
            env.log(*o)
            expect(w.vars == vd, 'variables-modified', lambda: 'a query changed the mapping of variables to %s' % w.vars)
            if snaps is not None:
                for t, s in zip(w.tops, snaps):
                    expect(same(snapshot(S, t), s), 'tree-modified', lambda: '%s modified the tree: %s' % (o[0], short(t)))
                snaps = None
            for t in w.tops:
                expect(t.xml_parent is None, 'tree-modified', lambda: 'top %s has parent %s' % (short(t), short(t.xml_parent)))
                if isinstance(t, S.tree.element):
                    ref.norm_elem(S, t)
    finally:
        w.gens = []
        if was:
            gc.enable()
