"""C12: trees stay consistent through any history of modifications."""
import gc
import re
import weakref
import xml.etree.ElementTree as ET

from sim import gen as G, mon, ref
from sim.core import injected, SimHang, SimInterrupt, Violation, expect, need, short
from sim.simio import SimWriter
from . import stream
from .common import gen_doc

ID = 'C12'
QUICK, THOROUGH, EPOCH = 36000, 200000, 30
RULE = ('A run is a history of 4-60 operations on 1-4 trees (made by hand or by any of the parsers): insertions at any position, removals, '
        'attribute changes, renaming, pretty-printing, rejected operations, failing outputs, interrupted and interleaved selections, and '
        'references held, dropped and collected, at random nodes; after each the trees are compared, by identity, with a plain list model. '
        'Non-trivial: at least three modifications took effect. Distinct: by the digest of the history.')
REAL = ['amara3.uxml.tree', 'amara3.uxml.treeutil', 'amara3.uxml.parser, .xml, .html5 (to make trees)', 'CPython reference counts and collector']
STUB = ['output file objects', 'the interrupting signal (raised at a monitored line)', 'automatic collection (off)']
OPS = ['append', 'append', 'append', 'insert', 'insert', 'insert', 'remove', 'remove', 'remove', 'remove-wrong', 'attr', 'attrdel', 'rename', 'pretty',
       'bad-insert', 'hold', 'hold', 'drop', 'drop', 'gc', 'write-fail', 'query', 'query', 'parse', 'new', 'int-read', 'reattach', 'reattach', 'deep']
WIDE = [60, 130, 300, 520, 700, 1030]
MUST_HIT = ['op:' + o for o in set(OPS)] + ['op:wide', 'child:str', 'child:text', 'child:elem', 'child:same-text', 'src:u', 'src:x', 'src:html', 'src:hand',
            'insert-middle', 'insert-beyond', 'insert-negative', 'removed-equal-text', 'removed-later-equal', 'orphaned', 'wrong:equal-text',
            'wrong:other-tree', 'wrong:grandchild', 'wrong:removed', 'wrong:plain-str', 'bad:index', 'bad:child', 'pretty-replaced', 'dead', 'sub:pattern',
            'siblings-after-equal', 'interrupted', 'interleaved', 'nested-match', 'comment']
NAMES = ['a', 'b', 'c', 'a', 'item', 'é']
TEXTS = ['x', 'x', 'y', ' ', '\n  ', '', '1', 'a&b', '<', '>', '"', 'é\U0001F600', ']]>', 'x y']
VALS = ['1', 'x', '', 'a"b', "'", 'a&<>', '\t\n', 'é']
PATS = [['a'], ['*'], ['**', 'a'], ['**', '*'], ['a', 'b'], ['*', '*'], ['**', 'a', 'b'], ['a', '**', 'b'], ['**', 'a', '**', 'b'], [['a', 'b']],
        ['**', ['a', 'c']], ['*', '**', 'a'], ['**', 'a', '*'], ['**', 'é'], ['**', 'a', 'a'], ['**', '**', 'b'],
        ['**', 'a', '**', 'a', '**', 'b'], ['**', '*', '**', '*', '**', '*', '**', 'c'], ['**', '*', '**', '*', '**', '*', '**', 'item'],
        [['@k']], ['**', ['@k']], ['*', ['b', '@k']], ['**', ['!kids', 'c'], '*'], [['!kids', '@k'], '**', ['a', '!kids']], ['**', ['@k'], '**', ['!kids']]]


class SN:
    """A node of the model.  Does not keep the library's node alive."""
    __slots__ = ('kind', 'name', 'attrs', 'ch', 'up', 'ref', 'val')

    def __init__(self, kind, name, obj, val=None):
        self.kind, self.name, self.val = kind, name, val
        self.attrs = {}
        self.ch = []
        self.up = None
        self.ref = weakref.ref(obj)

    def walk(self):
        out = [self]
        i = 0
        while i < len(out):
            out[i + 1:i + 1] = out[i].ch
            i += 1
        return out

    def text(self):
        return self.val if self.kind == 't' else ''.join(n.val for n in self.walk() if n.kind == 't')

    def root(self):
        n = self
        while n.up is not None:
            n = n.up
        return n

    def norm(self):
        if self.kind == 't':
            return self.val
        out = []
        for c in self.ch:
            v = c.norm()
            if isinstance(v, str):
                if not v:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += v
                    continue
            out.append(v)
        return [self.name, dict(self.attrs), out]


def et_norm(e):
    out = []
    if e.text:
        out.append(e.text)
    for c in e:
        out.append(et_norm(c))
        if c.tail:
            out.append(c.tail)
    return [e.tag, dict(e.attrib), out]


def indented(n, unit, depth=0):
    """norm() of what xml_encode with indent gives"""
    out = []

    def add(t):
        if out and isinstance(out[-1], str):
            out[-1] += t
        elif t:
            out.append(t)
    add('\n' + unit * depth)
    for c in n.ch:
        if c.kind == 't':
            add(c.val)
        else:
            out.append(indented(c, unit, depth + 1))
            add('\n' + unit * depth)
    return [n.name, dict(n.attrs), out]


def gen(rng, tier):
    n = rng.choice([4, 8, 15, 30, 60])
    ops = []
    bias = [rng.choice(OPS) for _ in range(3)]
    texts = [rng.choice(TEXTS) for _ in range(rng.choice([1, 2, 6]))]
    names = [rng.choice(NAMES) for _ in range(rng.choice([1, 2, 4]))]
    wide = rng.randint(1, 5) if rng.random() < .03 else -1
    if wide > 0:
        n = min(n, 15)
    for i in range(n):
        op = (rng.choice(['new', 'parse', 'parse']) if i == 0 else rng.choice(bias) if rng.random() < .3 else
              rng.choice(['insert', 'remove', 'insert', 'reattach']) if i > wide > 0 and rng.random() < .5 else rng.choice(OPS))
        if i == wide:
            op = 'wide'
        o = [op, rng.randint(0, 999), rng.randint(0, 999), rng.randint(0, 999)]
        if op in ('append', 'insert', 'remove-wrong'):
            o.append(rng.choice(texts))
            o.append(rng.choice(names))
        elif op in ('new', 'rename', 'deep', 'wide'):
            o.append(rng.choice(names))
        elif op in ('attr',):
            o.append(rng.choice(['k', 'id', 'x', 'é']))
            o.append(rng.choice(VALS))
        elif op == 'pretty':
            o.append(rng.choice(['  ', '\t', ' ', '', '    ']))
        elif op == 'parse':
            k = rng.choice(['u', 'u', 'x', 'html'])
            o.append(k)
            if k == 'html':
                o.append(G.gen_html(rng, 6))
            else:
                sh = G.Shape(rng, plain=True, xml=True, names=names + ['b'], small=True, maxn=rng.choice([1, 3, 6, 10]))
                o.append({'t': G.gen_tree(rng, sh), 'lex': rng.choice([0, rng.randint(1, 1 << 30)])})
        elif op in ('query', 'int-read'):
            o.append(rng.choice(names))
            o.append(rng.choice(texts))
            o.append(rng.randint(0, len(PATS) - 1))
        elif op == 'write-fail':
            o.append(rng.choice([[None, 0], ['call', 1], ['byte', rng.randint(0, 30)]]))
        ops.append(o)
    return {'ops': ops, 'gc': rng.randint(0, 1)}


class World:
    def __init__(self, S, env):
        self.S, self.env = S, env
        self.held = []        # [SN, library node], in order
        self.roots = []       # SN
        self.mods = 0
        self.wide = None
        self.used = set()     # descriptions of nodes removed before

    # -- access
    def nodes(self):
        return [n for r in self.roots for n in r.walk()]

    def elems(self):
        return [n for n in self.nodes() if n.kind == 'e']

    def pick(self, k, what=None):
        l = self.elems() if what is None else what
        return l[k % len(l)] if l else None

    def get(self, sn):
        o = sn.ref()
        expect(o is not None, 'node-lost', lambda: '%s, in a tree which is held, is gone' % sn.name)
        return o

    def hold(self, sn):
        if not any(h[0] is sn for h in self.held):
            self.held.append([sn, self.get(sn)])

    # -- model of a library tree just made
    def model(self, obj):
        T = self.S.tree
        if isinstance(obj, T.element):
            n = SN('e', obj.xml_name, obj)
            n.attrs = dict(obj.xml_attributes)
            for c in obj.xml_children:
                m = self.model(c)
                m.up = n
                n.ch.append(m)
        else:
            n = SN('t', '#text', obj, str(obj))
            if type(obj) is not T.text:
                self.env.probe('comment')
        return n

    def adopt(self, obj, hold=True):
        n = self.model(obj)
        self.roots.append(n)
        if hold:
            self.held.append([n, obj])
        return n

    # -- comparison of everything with the model
    def check(self, where):
        for r in self.roots:
            o = self.get(r)
            expect(o.xml_parent is None, 'root-has-parent', lambda: 'after %s: %s is nobody\'s child but has parent %s' % (where, self.d(r), short(o.xml_parent, 80)))
            stack = [r]
            while stack:
                n = stack.pop()
                o = self.get(n)
                if n.kind == 't':
                    expect(str(o) == n.val, 'text', lambda: 'after %s: text is %s, expected %s' % (where, short(str(o), 60), short(n.val, 60)))
                    continue
                ch = o.xml_children
                expect(len(ch) == len(n.ch), 'children', lambda: 'after %s: %s has %d children %s, expected %d: %s' % (
                    where, self.d(n), len(ch), short(ch, 200), len(n.ch), short([self.d(c) for c in n.ch], 200)))
                for i, (c, m) in enumerate(zip(ch, n.ch)):
                    expect(c is m.ref(), 'children', lambda: 'after %s: child %d of %s is %s, expected the very %s' % (where, i, self.d(n), short(c, 80), self.d(m)))
                    expect(c.xml_parent is o, 'parent-link', lambda: 'after %s: child %d of %s has parent %s' % (where, i, self.d(n), short(c.xml_parent, 80)))
                expect(o.xml_name == n.name, 'name', lambda: 'after %s: name %s, expected %s' % (where, o.xml_name, n.name))
                expect(list(o.xml_attributes.items()) == list(n.attrs.items()), 'attributes', lambda: 'after %s: %s has %s, expected %s' % (
                    where, self.d(n), short(o.xml_attributes), short(n.attrs)))
                stack.extend(n.ch)

    def d(self, n):
        return '%s(%s)' % (n.name, ', '.join(c.name for c in n.ch[:6])) if n.kind == 'e' else 'text %s' % short(n.val, 30)

    # -- what is no longer referred to
    def release(self, where):
        alive = set()
        for sn, _ in self.held:
            alive.update(map(id, sn.walk()))
        new, dead = [], []
        for r in self.roots:
            for n in r.walk():
                if id(n) not in alive:
                    dead.append(n)
                    continue
                if n.up is None:
                    new.append(n)
                elif id(n.up) not in alive:
                    n.up = None
                    new.append(n)
                    self.env.probe('orphaned')
        self.roots = new
        if dead:
            gc.collect()
            self.env.probe('dead', len(dead))
            left = [n for n in dead if n.ref() is not None]
            expect(not left, 'ancestor-kept', lambda: 'after %s: %d dropped nodes are still there, e.g. %s' % (where, len(left), self.d(left[0])))


def as_pattern(U, p):
    """As the library takes it.  In alternatives, '@k' is a test for an attribute and '!kids' one of the user's own"""
    def one(x):
        return U.attr_test(True, x[1:]) if x[0] == '@' else (lambda n: len(n.xml_children)) if x == '!kids' else x
    return tuple(tuple(one(y) for y in x) if isinstance(x, list) else x for x in p)


def pattern_matches(p, nodes):
    def ok(s, n):
        if isinstance(s, list):
            return any(ok(x, n) for x in s)
        return n.attrs.get(s[1:]) is not None if s[0] == '@' else bool(n.ch) if s == '!kids' else s == '*' or s == n.name

    reach = {0}     # how much of the pattern may have been used up
    for n in nodes:
        reach = step_over(p, reach)
        reach = {i if p[i] == '**' else i + 1 for i in reach if i < len(p) and (p[i] == '**' or ok(p[i], n))}
    return len(p) in step_over(p, reach)


def step_over(p, reach):
    out = set(reach)
    for i in sorted(reach):
        while i < len(p) and p[i] == '**':
            i += 1
            out.add(i)
    return out


def selections(w, n, name, val, pi):
    """(label, call on the library's node, expected model nodes)"""
    U = w.S.treeutil
    p = PATS[pi % len(PATS)]
    pat = as_pattern(U, p)
    below = [m for m in n.walk()[1:] if m.kind == 'e']
    elems = [c for c in n.ch if c.kind == 'e']
    out = [('descendants', lambda e: U.descendants(e), [m for m in n.walk()[1:] if m.kind == 'e']),
           ('select_elements', lambda e: U.select_elements(e), elems),
           ('select_elements(iter)', lambda e: U.select_elements(U.descendants(e)), [m for m in n.walk()[1:] if m.kind == 'e']),
           ('select_name', lambda e: U.select_name(e, name), [c for c in elems if c.name == name]),
           ('select_name(iter)', lambda e: U.select_name(iter(e.xml_children), name), [c for c in elems if c.name == name]),
           ('select_name_pattern', lambda e: U.select_name_pattern(e, re.compile('[a-b]')), [c for c in elems if re.match('[a-b]', c.name)]),
           ('select_value', lambda e: U.select_value(e, val), [c for c in n.ch if c.text() == val]),
           ('select_attribute', lambda e: U.select_attribute(e, 'k'), [c for c in elems if 'k' in c.attrs]),
           ('select_attribute(val)', lambda e: U.select_attribute(e, 'k', val), [c for c in elems if c.attrs.get('k') == val]),
           ('select_name_pattern(iter)', lambda e: U.select_name_pattern(U.descendants(e), re.compile('[a-b]')), [c for c in below if re.match('[a-b]', c.name)]),
           ('select_value(iter)', lambda e: U.select_value(U.descendants(e), val), [c for c in below if c.text() == val]),
           ('select_value(list)', lambda e: U.select_value(e.xml_children, val), [c for c in n.ch if c.text() == val]),
           ('select_attribute(iter)', lambda e: U.select_attribute(U.descendants(e), 'k'), [c for c in below if 'k' in c.attrs]),
           ('select_attribute(list, val)', lambda e: U.select_attribute(iter(e.xml_children), 'k', val), [c for c in elems if c.attrs.get('k') == val])]

    exp = []

    def go(m, up):
        for c in m.ch:
            if c.kind == 'e':
                if pattern_matches(p, up + [c]):
                    exp.append(c)
                go(c, up + [c])
    go(n, [])
    out.append(('select_pattern%r' % (p,), lambda e: U.select_pattern(e, pat), exp))
    return out


def compare(w, label, got, exp):
    expect(len(got) == len(exp) and all(g is m.ref() for g, m in zip(got, exp)), 'selection',
           lambda: '%s gave %s, expected %s' % (label, short(got, 200), short([w.d(m) for m in exp], 200)))


def ws(s):
    return not s.strip()


def do(w, o, env, S):
    T, U = S.tree, S.treeutil
    op, i, j, k = o[:4]
    if op == 'new':
        w.adopt(T.element(o[4], {'k': 'v'} if i % 3 == 0 else None))
        env.probe('src:hand')
        return
    if op == 'parse':
        if len(w.roots) > 6:
            return False
        if o[4] == 'html':
            need(isinstance(o[5], list))
            r = S.html5.parse(''.join(map(str, o[5])))
        else:
            G.check_tree(o[5]['t'])
            text = G.render(o[5]['t'], o[5]['lex'], o[4] == 'x')[0]
            r = (S.tree.parse if o[4] == 'u' else S.xml.treebuilder().parse)(text)
        env.probe('src:' + o[4])
        need(r is not None)
        w.adopt(r)
        return
    e = w.pick(i)
    if e is None:
        return False
    if w.wide is not None and op in ('insert', 'remove', 'reattach') and k % 4:
        # Where many children are
        e = next((x for x in w.elems() if x is w.wide), e)
    if op in ('append', 'insert'):
        kind = k % 4
        txt, name = o[4], o[5]
        roots = []
        if kind == 0:
            child = txt
        elif kind == 1:
            child = T.text(txt)
        elif kind == 2:
            child = T.element(name, {'id': 'n'} if j % 2 else None)
        else:
            child = ''.join([txt, ''])
        env.probe('child:' + ['str', 'text', 'elem', 'str'][kind])
        if kind != 2 and any(c.kind == 't' and c.val == txt for c in e.ch):
            env.probe('child:same-text')
        n = len(e.ch)
        if op == 'append':
            w.get(e).xml_append(child)
            at = n
        else:
            ix = [0, n, n // 2, -1, -2, n + 3, j % (n + 1), -n - 2][j % 8]
            w.get(e).xml_insert(child, ix)
            at = n if ix == -1 else max(0, n + ix) if ix < 0 else min(ix, n)
            if 0 < at < n:
                env.probe('insert-middle')
            if ix > n:
                env.probe('insert-beyond')
            if ix < -1:
                env.probe('insert-negative')
        real = w.get(e).xml_children
        expect(at < len(real), 'children', lambda: '%s of %s at %d: %d children now' % (op, short(child, 40), at, len(real)))
        if kind in (1, 2):
            expect(real[at] is child, 'not-the-very-node', lambda: '%s: child %d is not the node given, %s' % (op, at, short(child, 60)))
        else:
            expect(isinstance(real[at], T.text) and str(real[at]) == txt, 'text', lambda: '%s of the string %r gave %s' % (op, txt, short(real[at], 60)))
        m = SN('t', '#text', real[at], txt) if kind != 2 else w.model(child)
        m.up = e
        e.ch.insert(at, m)
        w.mods += 1
    elif op == 'reattach':
        cand = [r for r in w.roots if r is not e.root()]
        if not cand:
            return False
        r = w.pick(j, cand)
        n = len(e.ch)
        if k % 2:
            w.get(e).xml_append(w.get(r))
            at = n
        else:
            at = k % (n + 1)
            w.get(e).xml_insert(w.get(r), at)
        r.up = e
        e.ch.insert(at, r)
        w.roots = [x for x in w.roots if x is not r]
        w.mods += 1
        if len(w.held) > 1 and k % 3 == 0:
            w.held = [h for h in w.held if h[0] is not r]
    elif op == 'remove':
        if not e.ch:
            return False
        at = j % len(e.ch)
        m = e.ch[at]
        if m.kind == 't' and sum(c.kind == 't' and c.val == m.val for c in e.ch) > 1:
            env.probe('removed-equal-text')
            if any(c.kind == 't' and c.val == m.val for c in e.ch[:at]):
                env.probe('removed-later-equal')
        if k % 3:
            w.hold(m)
        w.get(e).xml_remove(w.get(m))
        del e.ch[at]
        m.up = None
        w.roots.append(m)
        w.mods += 1
        w.release(op)
    elif op == 'remove-wrong':
        kinds = ['equal-text', 'other-tree', 'grandchild', 'removed', 'plain-str', 'self']
        kd = kinds[j % len(kinds)]
        x = None
        if kd == 'equal-text':
            t = [c for c in e.ch if c.kind == 't']
            x = T.text(t[k % len(t)].val) if t else None
        elif kd == 'other-tree':
            t = [n for r in w.roots if r is not e.root() for n in r.walk()]
            x = w.get(t[k % len(t)]) if t else None
        elif kd == 'grandchild':
            t = [n for c in e.ch for n in c.ch]
            x = w.get(t[k % len(t)]) if t else None
        elif kd == 'removed':
            t = [r for r in w.roots if r is not e.root()]
            x = w.get(t[k % len(t)]) if t else None
        elif kd == 'plain-str':
            t = [c for c in e.ch if c.kind == 't']
            x = ''.join([t[k % len(t)].val, '']) if t else None
        else:
            x = w.get(e)
        if x is None:
            return False
        env.probe('wrong:' + kd)
        env.fault('rejected-operation')
        try:
            w.get(e).xml_remove(x)
        except SimHang:
            raise
        except Exception:
            pass
        else:
            raise Violation('wrong-remove', 'xml_remove of %s, which is not a child of %s, did not fail' % (short(x, 60), w.d(e)))
    elif op == 'bad-insert':
        cand = [r for r in w.roots if r is not e.root()]
        env.fault('rejected-operation')
        try:
            if j % 2:
                x = w.get(w.pick(k, cand)) if cand and j % 4 == 1 else T.text('new')
                par = x.xml_parent
                env.probe('bad:index')
                try:
                    w.get(e).xml_insert(x, [None, 'x', 1.5, ()][k % 4])
                finally:
                    expect(x.xml_parent is par, 'rejected-changed', lambda: 'a rejected insertion gave %s the parent %s' % (short(x, 60), short(x.xml_parent, 60)))
            else:
                env.probe('bad:child')
                w.get(e).xml_append([5, None, object(), ()][k % 4])
        except (SimHang, Violation):
            raise
        except Exception:
            pass
        else:
            raise Violation('accepted', 'a meaningless insertion was accepted')
    elif op == 'attr':
        if j % 4 == 0:
            d = dict(e.attrs)
            d[o[4]] = o[5]
            w.get(e).xml_attributes = d
        else:
            w.get(e).xml_attributes[o[4]] = o[5]
        e.attrs[o[4]] = o[5]
        w.mods += 1
    elif op == 'attrdel':
        if not e.attrs:
            return False
        a = list(e.attrs)[j % len(e.attrs)]
        del e.attrs[a]
        del w.get(e).xml_attributes[a]
        w.mods += 1
    elif op == 'rename':
        w.get(e).xml_name = e.name = o[4]
        w.mods += 1
    elif op == 'deep':
        if len(w.nodes()) > 150:
            return False
        for _ in range(j % 30):
            x = T.element(o[4])
            w.get(e).xml_append(x)
            m = w.model(x)
            m.up = e
            e.ch.append(m)
            e = m
    elif op == 'wide':
        # Many children at once
        if len(w.nodes()) > 150:
            return False
        w.wide = e
        for q in range(WIDE[j % len(WIDE)]):
            x = T.element(o[4], {'id': str(q)}) if (q + k) % 3 else T.text('t%d' % q)
            w.get(e).xml_append(x)
            m = w.model(x)
            m.up = e
            e.ch.append(m)
    elif op == 'pretty':
        pretty(w, e, o[4], env, S, i % 3)
        w.mods += 1
    elif op == 'hold':
        w.hold(w.pick(i, w.nodes()))
    elif op == 'drop':
        if len(w.held) < 2 and j % 4:
            return False
        del w.held[j % len(w.held)]
        w.release(op)
    elif op == 'gc':
        gc.collect()
    elif op == 'write-fail':
        n = w.pick(j, w.nodes())
        mode, at = o[4]
        exc = injected(k, 'w')
        out = SimWriter(env, fail_at=at if mode else None, mode=mode or 'call', exc=exc)
        try:
            w.get(n).xml_write(out)
        except SimHang:
            raise
        except BaseException as x:
            expect(x is exc, 'write-error', lambda: 'xml_write raised %r' % x)
        else:
            expect(not out.failed, 'write-error', 'the output failed but xml_write did not')
            if n.kind == 'e':
                check_text(w, n, out.getvalue(), 'xml_write')
    elif op == 'int-read':
        n = e
        funcs = [lambda e: e.xml_encode(), lambda e: e.xml_value, lambda e: S.tree.strval(e), lambda e: e.xml_encode(indent='  ')] + \
            [lambda e, f=f: list(f(e)) for _, f, _ in selections(w, n, o[4], o[5], o[6])]
        try:
            with mon.interrupt(1 + k % 40):
                funcs[j % len(funcs)](w.get(n))
        except SimInterrupt:
            env.probe('interrupted')
            env.fault('interrupt')
    elif op == 'query':
        query(w, e, o, env, S)
    else:
        need(False, op)


def check_text(w, n, text, what, unit=None):
    # The HTML parser makes names which are not XML
    if any(m.kind == 'e' and not all(re.fullmatch(r'[^\W\d][\w.-]*', x) for x in [m.name] + list(m.attrs)) for m in n.walk()) or re.search('[\\x00-\\x08\\x0b-\\x1f\\ufffe\\uffff\\ud800-\\udfff]', text):
        return
    try:
        got = et_norm(ET.fromstring(text))
    except ET.ParseError as x:
        raise Violation('serialisation', '%s gave %s, which is not well formed: %s' % (what, short(text), x))
    exp = n.norm()
    if unit:
        exp = indented(n, unit)
    expect(got == exp, 'serialisation', lambda: '%s gave %s for %s' % (what, short(text), short(exp)))


def query(w, n, o, env, S):
    e = w.get(n)
    j, k = o[2], o[3]
    v = n.text()
    expect(e.xml_value == v, 'value', lambda: 'xml_value %s, expected %s' % (short(e.xml_value), short(v)))
    expect(S.tree.strval(e) == v, 'value', lambda: 'strval %s, expected %s' % (short(S.tree.strval(e)), short(v)))
    check_text(w, n, e.xml_encode(), 'xml_encode')
    if k % 4 == 0:
        unit = ['  ', '\t', ' '][j % 3]
        check_text(w, n, e.xml_encode(indent=unit), 'xml_encode(indent=%r)' % unit, unit)
    for c in n.ch:
        if c.kind == 't':
            x = w.get(c)
            got = [str(x), x.xml_value, S.tree.strval(x), list(x.xml_children), x.xml_name]
            expect(got == [c.val, c.val, c.val, [], '#text'], 'value', lambda: 'text node %s has %s' % (short(c.val), short(got)))
            if not set(c.val) & set('<>&"\''):
                expect(x.xml_encode() == c.val, 'serialisation', lambda: 'text node %s encoded as %s' % (short(c.val), short(x.xml_encode())))
    sel = selections(w, n, o[4], o[5], o[6])
    env.probe('sub:pattern')
    if len(sel[-1][2]) > 1 and any(m is not x and m in x.walk() for x in sel[-1][2] for m in sel[-1][2]):
        env.probe('nested-match')
    for c in n.ch:
        ix = n.ch.index(c)
        after = n.ch[ix + 1:]
        if c.kind == 't' and any(x.kind == 't' and x.val == c.val for x in n.ch[:ix]):
            env.probe('siblings-after-equal')
        sel.append(('following_siblings', lambda e, ix=ix: S.treeutil.following_siblings(e.xml_children[ix]), after))
    if j % 2:
        for label, f, exp in sel:
            compare(w, label, list(f(e)), exp)
        return
    # All at once, one item at a time
    env.probe('interleaved')
    its = [[label, iter(f(e)), [], exp] for label, f, exp in sel]
    live = list(its)
    x = j
    while live:
        x = (x * 1103515245 + k + 12345) & 0x7fffffff
        it = live[x % len(live)]
        try:
            it[2].append(next(it[1]))
        except StopIteration:
            live.remove(it)
        except RuntimeError as r:
            raise Violation('selection', '%s: %r' % (it[0], r))
    for label, _, got, exp in its:
        compare(w, label, got, exp)


def pretty(w, n, indent, env, S, how):
    e = w.get(n)
    olds = {}
    for m in n.walk():
        if m.kind == 't' and ws(m.val):
            olds[id(m)] = m
    # Some of the texts which will go are held
    for x, m in enumerate(list(olds.values())):
        if x % 3 == how:
            w.hold(m)
    r = S.treeutil.make_pretty(e) if how == 0 else S.treeutil.make_pretty(e, indent=indent)
    unit = '  ' if how == 0 else indent
    expect(r is e, 'pretty', 'make_pretty returned something else')
    T = S.tree

    def sync(n, depth):
        e = w.get(n)
        keep = [m for m in n.ch if id(m) not in olds]
        gone = [m for m in n.ch if id(m) in olds]
        # Texts and elements are to alternate, whitespace indents by depth
        lay, odd = [], 0
        for m in n.ch:
            if m.kind == 'e':
                if not odd:
                    lay.append('\n' + unit * depth)
                    odd = 1
                lay.append(m)
            else:
                lay.append('\n' + unit * depth if id(m) in olds else m)
            odd = 1 - odd
        if not odd:
            lay.append('\n' + unit * (depth - 1))
        expect(len(lay) == len(e.xml_children) and all(c is m.ref() if isinstance(m, SN) else isinstance(c, T.text) and str(c) == m
                                                       for c, m in zip(e.xml_children, lay)), 'pretty', lambda: 'make_pretty at depth %d gave %s, expected %s' % (
            depth, short([str(c) if isinstance(c, T.text) else c.xml_name for c in e.xml_children]), short([m if isinstance(m, str) else w.d(m) for m in lay])))
        new = []
        kept = []
        for c in e.xml_children:
            m = next((m for m in n.ch if m.ref() is c), None)
            if m is None or id(m) in olds:
                expect(isinstance(c, T.text) and ws(str(c)), 'pretty', lambda: 'make_pretty added %s' % short(c, 60))
                if m is None:
                    m = SN('t', '#text', c, str(c))
                    m.up = n
                else:
                    gone.remove(m)
                new.append(m)
            else:
                kept.append(m)
                new.append(m)
        expect(len(kept) == len(keep) and all(a is b for a, b in zip(kept, keep)), 'pretty',
               lambda: 'make_pretty: children kept %s, expected %s' % (short([w.d(m) for m in kept]), short([w.d(m) for m in keep])))
        n.ch = new
        for m in gone:
            env.probe('pretty-replaced')
            m.up = None
            w.roots.append(m)
        for m in keep:
            if m.kind == 'e':
                sync(m, depth + 1)
    sync(n, 1)
    w.release('make_pretty')


def run(S, plan, env):
    need(isinstance(plan, dict) and isinstance(plan.get('ops'), list) and plan['ops'])
    w = World(S, env)
    was = gc.isenabled()
    gc.disable()
    try:
        for o in plan['ops']:
            need(isinstance(o, list) and len(o) >= 4 and all(isinstance(x, int) for x in o[1:4]))
            env.step(o[0])
            r = do(w, o, env, S)
            if r is False:
                continue
            env.probe('op:' + o[0])
            env.log(*o[:4], len(w.roots), len(w.nodes()))
            w.release(o[0])
            w.check(o[0])
    finally:
        w.held = []
        if was:
            gc.enable()
    if w.mods >= 3:
        env.nontrivial = True
