"""C14: HTML parsing is independent of reads, and agrees with the HTML algorithm."""
from sim import gen as G, mon, ref
from sim.core import SimExit, injected, SimHang, SimInterrupt, Violation, expect, need, short
from sim.simio import SimReader
from .common import attempt

ID = 'C14'
QUICK, THOROUGH, EPOCH = 14000, 200000, 30
RULE = ('A run is a sequence of 1-6 HTML parses (html5.parse, parse_lax_xml; strings, bytes, text and byte file objects), with the reads cut as the '
        'seed says, some failing at the n-th read, some interrupted, some starting another parse from within a read, and whole trees of earlier '
        'parses checked again after later ones. Non-trivial: the source was read in pieces, or a parse came after one which failed. Distinct: by '
        'the digest of the history.')
REAL = ['amara3.uxml.html5', 'amara3.uxml.tree', 'html5lib (tokenizer, parser, input stream)']
STUB = ['file objects', 'the interrupting signal (raised at a monitored line)']
KINDS = ['str', 'bytes', 'text-file', 'text-file', 'byte-file', 'byte-file']
MUST_HIT = ['kind:' + k for k in set(KINDS)] + ['lax', 'xhtml-ns', 'short-reads', 'read-failed', 'failed-first-read', 'failed-late', 'after-failure',
                                                'interrupted', 'after-interrupt', 'nested', 'misnested', 'table-text', 'formatting-clone', 'foreign',
                                                'comment', 'checked-again', 'base-error', 'no-root-text', 'long']
SOUPS = [['<p>', '<b>', '1', '<p>', '2', '</b>', '3'], ['<table>', 'x', '<b>', 'y', '<tr>', '<td>', 'z', '</table>', 'w'],
         ['<a>', '1', '<div>', '2', '<a>', '3', '</a>', '</div>', '4'], ['<b>', '<i>', '<p>', 'x', '</b>', 'y', '</i>', 'z'],
         ['<table>', '<!--c1-->', 'x', '<tr>', '<!--c2-->', '</table>'], ['<svg>', '<foreignObject>', '<p>', 'x', '</svg>', 'y'],
         ['<font>', '<table>', '<td>', '<font>', 'x', '</table>', 'y'], ['<select>', '<option>', 'a', '<p>', 'b', '<option>', 'c', '</select>', 'd'],
         ['<nobr>', 'x', '<nobr>', 'y', '<div>', '</nobr>', 'z'], ['<b>', '<b>', '<b>', '<b>', '<p>', 'x', '</b>', '<p>', 'y'],
         ['<math>', '<annotation-xml>', '<div>', 'x', '</math>', 'y'], ['<body k="1">', 'x', '<body k="2" x="3">', 'y', '</body>', 'z', '<html x="1">'],
         ['<frameset>', '<frame>', '</frameset>', 'x'], ['<template>', '<td>', 'x', '</template>', 'y'], ['<p>', 'x', '<form>', '<p>', '</form>', 'y']]


def gen(rng, tier):
    ps = []
    for _ in range(rng.choice([1, 2, 3, 4, 6])):
        s = G.gen_soup(rng, rng.choice([3, 8, 18, 30]))
        if rng.random() < .35:
            k = rng.randint(0, len(s))
            s[k:k] = rng.choice(SOUPS)
        if rng.random() < .05:
            s.insert(rng.randint(0, len(s)), rng.choice(['x ', 'é', '<p>x', '&amp;', 'abc\n']) * rng.choice([100, 1000, 3000]) if rng.random() < .8 else rng.choice(['long text ' * 1100, 'a\tb\n' * 3000, 'x\r\n' * 8000, 'ab\x0c' * 5500, '\u00e9\t' * 11000, '<!--' + 'c ' * 12000 + '-->']))
        p = {'s': s, 'k': rng.choice(KINDS), 'sizes': [rng.choice([0, 1, 1, 2, 3, 7, 50, 1000]) for _ in range(rng.randint(1, 4))],
             'lax': int(rng.random() < .15), 'ns': int(rng.random() < .2)}
        q = rng.random()
        if q < .25:
            p['fail'] = rng.choice([1, 1, 2, 3, rng.randint(1, 20), rng.randint(1, 200)])
            p['exc'] = rng.randint(0, 45)
        elif q < .35:
            p['int'] = rng.randint(1, 400)
        elif q < .45:
            p['nest'] = rng.randint(1, 10)
        ps.append(p)
    return {'ps': ps}


class NestingReader(SimReader):
    """Starts something else from within a read"""
    def __init__(self, *a, at, what, **kw):
        SimReader.__init__(self, *a, **kw)
        self.at, self.what = at, what

    def read(self, n=-1):
        r = SimReader.read(self, n)
        if self.calls == self.at:
            self.what()
        return r


def source(S, env, p, fresh=True, nest=None, exc=None, who='r'):
    text = ''.join(p['s'])
    if p.get('lax'):
        text = '<item>' + text
    k = p['k']
    if k == 'str':
        return text, None
    if k == 'bytes':
        return text.encode('utf-8', 'surrogatepass'), None
    data = text if k == 'text-file' else text.encode('utf-8', 'surrogatepass')
    kw = dict(sizes=[int(x) for x in p['sizes']], fail_at=p.get('fail'), exc=exc, name=who)
    r = NestingReader(env, data, at=p['nest'], what=nest, **kw) if nest else SimReader(env, data, **kw)
    return r, r


def lib_norm(S, t):
    if t is None:
        return None
    expect(isinstance(t, S.tree.element), 'result', lambda: 'parsing gave %s' % short(t))
    expect(t.xml_parent is None, 'parent-link', lambda: 'the tree returned has parent %s' % short(t.xml_parent))
    nodes = ref.all_nodes(S, t)
    expect(len(set(map(id, nodes))) == len(nodes), 'shared-node', 'a node is in the tree twice')
    maps = [id(x) for n in nodes if isinstance(n, S.tree.element) for x in (n.xml_attributes, n.xml_children)]
    expect(len(set(maps)) == len(maps), 'shared-mapping', 'two elements share their attributes or children')
    return ref.norm_elem(S, t)


def run(S, plan, env):
    need(isinstance(plan, dict) and isinstance(plan.get('ps'), list) and plan['ps'])
    kept = []
    state = {'failed': False, 'inted': False}
    quiet = type(env)()     # what the reference does is not part of the history
    for n, p in enumerate(plan['ps']):
        need(isinstance(p, dict) and isinstance(p.get('s'), list) and all(isinstance(x, str) for x in p['s']) and p.get('k') in KINDS)
        need(isinstance(p.get('sizes'), list) and p['sizes'] and all(isinstance(x, int) and x >= 0 for x in p['sizes']))
        need(isinstance(p.get('fail') or 0, int) and isinstance(p.get('int') or 0, int) and isinstance(p.get('nest') or 0, int))
        env.step(p['k'])
        whole = ''.join(p['s'])
        # The reference: html5lib by itself, with the same reads
        exc = injected(p.get('exc', 0))
        src, _ = source(S, quiet, p, exc=exc)
        want = 'ok', None
        try:
            want = 'ok', ref.html_tree(S, src)
        except SimHang:
            raise
        except BaseException as e:
            want = 'err', e
        nested = []

        def nest():
            q = plan['ps'][(n + 1) % len(plan['ps'])]
            text = ''.join(q['s'])
            nested.append((text, lib_norm(S, S.html5.parse(text))))
            env.log('nested', len(text))
        exc = injected(p.get('exc', 0))
        src, rd = source(S, env, p, nest=nest if p.get('nest') else None, exc=exc)
        env.log('parse', p['k'], whole)

        def go():
            if p.get('lax'):
                return S.html5.parse_lax_xml(src)
            return S.html5.parse(src, use_xhtml_ns=bool(p.get('ns')))
        got = None
        try:
            if p.get('int'):
                try:
                    with mon.interrupt(p['int']):
                        got = 'ok', go()
                except SimInterrupt:
                    env.fault('interrupt')
                    env.probe('interrupted')
                    state['inted'] = True
                    env.log('interrupted')
                    continue
            else:
                got = 'ok', go()
        except SimHang:
            raise
        except BaseException as e:
            got = 'err', e
        env.probe('kind:' + p['k'])
        if rd is not None and rd.failed:
            env.probe('read-failed')
            env.probe('failed-first-read' if rd.calls == 1 else 'failed-late')
            if isinstance(rd.exc, SimExit):
                env.probe('base-error')
            expect(got[0] == 'err', 'error-swallowed', lambda: 'a read raised %r, but the parse gave %s' % (exc, short(got[1])))
            # (html5lib may itself handle some kinds, the reference tells)
            expect(got[1] is exc or want[0] == 'ok' or type(want[1]) is type(got[1]), 'error-changed', lambda: 'a read raised %r, the caller got %r' % (exc, got[1]))
            state['failed'] = True
            env.log('failed', type(got[1]).__name__)
            continue
        if want[0] == 'err':
            expect(got[0] == 'err' and type(got[1]) is type(want[1]), 'outcome', lambda: 'html5lib raises %r, html5.parse gave %s' % (want[1], short(got)))
            continue
        if p.get('lax'):
            env.probe('lax')
            # The element which the source begins with, taken out of its html and body
            body = want[1][2][1] if len(want[1][2]) > 1 and not isinstance(want[1][2][1], str) else None
            if body is None or body[0] != 'body' or not body[2] or isinstance(body[2][0], str) or body[2][0][0] != 'item':
                env.probe('lax-other')
                continue
            want = 'ok', body[2][0]
        expect(got[0] == 'ok', 'outcome', lambda: 'html5lib parses this, html5.parse raised %r; %s' % (got[1], short(whole)))
        t = got[1]
        norm = lib_norm(S, t)
        expect(norm == want[1], 'tree', lambda: '%s %s read by %s:\n got      %s\n expected %s' % (
            p['k'], short(whole, 200), p['sizes'], short(norm, 400), short(want[1], 400)))
        env.log('ok', norm)
        t.xml_encode()
        if p['k'] == 'text-file' and '\r' not in whole or p['k'] == 'str':
            # However it is read, it is what the string gives
            whole2 = ('<item>' if p.get('lax') else '') + whole
            if p['k'] == 'text-file' and not p.get('lax') and not whole.startswith('\ufeff'):
                full = ref.html_tree(S, whole2)
                expect(norm == full, 'reads', lambda: 'read by %s: %s, as a string: %s' % (p['sizes'], short(norm), short(full)))
        for text, nn in nested:
            env.probe('nested')
            w2 = ref.html_tree(S, text)
            expect(nn == w2, 'nested', lambda: 'parsed within another parse: %s, expected %s' % (short(nn), short(w2)))
        if rd is not None and rd.calls > 2:
            env.probe('short-reads')
            env.nontrivial = True
        if state['failed']:
            env.probe('after-failure')
            env.nontrivial = True
        if state['inted']:
            env.probe('after-interrupt')
            env.nontrivial = True
        if p.get('ns'):
            env.probe('xhtml-ns')
        notes(S, env, t, whole)
        kept.append((t, norm))
        if len(kept) > 1:
            env.probe('checked-again')
            for t0, n0 in kept[:-1]:
                expect(lib_norm(S, t0) == n0, 'disturbed', lambda: 'the tree of an earlier parse was changed by a later one: %s, was %s' % (
                    short(ref.norm_elem(S, t0, False)), short(n0)))


def notes(S, env, t, whole):
    if '<table>' in whole and '<b>' in whole:
        env.probe('table-text')
    for n in ref.all_nodes(S, t):
        if isinstance(n, S.tree.element):
            if n.xml_name == 'svg' or n.xml_name == 'math':
                env.probe('foreign')
        elif type(n) is not S.tree.text:
            env.probe('comment')
    if '<b><p>' in whole or '</b>' in whole and '<p>' in whole:
        env.probe('misnested')
    if '<a>' in whole and '<div>' in whole:
        env.probe('formatting-clone')
    if len(whole) > 10240:
        env.probe('long')
    if not whole.strip():
        env.probe('no-root-text')
