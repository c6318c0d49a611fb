"""C06: threads using the library on their own data do not affect one another."""
from sim import gen as G, ref, sched
from sim.core import BadPlan, HarnessError, SimHang, Violation, expect, need, short
from sim.simio import SimReader, SimWriter
from .common import gen_doc, load_doc

ID = 'C06'
QUICK, THOROUGH, EPOCH = 10000, 90000, 20
RULE = ('A run starts 2-4 simulated threads, each with 1-3 operations on its own data (XPath also on a shared unmodified tree or with a shared parsed '
        'expression), hands the baton over at the library lines (sometimes instructions) drawn from the seed, and compares every result '
        'with the one got without other threads. Non-trivial: at least one hand-over happened in the middle of an operation. Distinct: '
        'by the digest of operations and results together with the switch sequence.')
REAL = ['amara3.uxml.*', 'ply (lexing and parsing of XPath and of tokens)', 'pyexpat', 'html5lib', 'CPython threads']
STUB = ['the choice of which thread runs (one holds the baton at any time)', 'locks made by the library']
KINDS = ['uparse', 'uparse', 'tparse', 'events', 'frags', 'xparse', 'xevents', 'html', 'stream', 'xstream', 'lex', 'lex', 'xpath', 'xpath', 'xshared', 'xexpr',
         'qquery', 'encode', 'write', 'nswrite', 'pattern', 'pretty', 'microx']
QUERIES = ['xpath', 'xshared', 'xshared', 'xexpr', 'xexpr', 'qquery']
FILES = {'uparse': 'parser tree', 'tparse': 'parser tree', 'events': 'parser', 'frags': 'parser', 'xparse': 'xml tree', 'xevents': 'xml', 'html': 'html5 html5 tree',
         'stream': 'treeiter parser', 'xstream': 'treeiter xml xmliter', 'lex': 'lex', 'xpath': 'xast xpath functions parserules tree', 'xshared': 'xast xpath functions',
         'xexpr': 'xast functions xpath', 'qquery': 'xast xpath parserules', 'encode': 'tree', 'write': 'writer', 'nswrite': 'writer', 'pattern': 'treeutil',
         'pretty': 'treeutil tree', 'microx': 'xast treeutil'}


def file_of(word):
    return 'amara3/uxml/' + {'xpath': 'uxpath/__init__.py', 'xast': 'uxpath/xast.py', 'functions': 'uxpath/functions.py',
                             'parserules': 'uxpath/parserules.py'}.get(word, word + '.py')


MUST_HIT = ['kind:' + k for k in set(KINDS)] + ['switched', 'instruction-level', 'same-kind', 'many-switches', 'focus-file', 'focus-lines']


def gen(rng, tier):
    docs = []
    queries = rng.random() < .12
    for _ in range(1 if queries else rng.choice([1, 2, 3])):
        # What every parser and query takes: plain ASCII names and text
        d = gen_doc(rng, shape=G.Shape(rng, plain=rng.random() < .5, names=None, scale=.01, small=True, maxn=rng.choice([8, 12, 20] if queries else [2, 3, 5, 8])))
        docs.append(d)
    html = [G.gen_html(rng, 5) for _ in range(2)]
    names = sorted(set(n for d in docs for n in G_names(d['t'])) & set('a b c x y item spam eggs a1 _x Foo'.split())) or ['a']
    anames = ['id', 'k', 'x', 'class']
    exprs = [G.gen_xpath(rng, names, anames) for _ in range(rng.choice([1, 2, 3]))]
    if queries:
        x, y = rng.choice(names), rng.choice(names)
        exprs = exprs[:1] if rng.random() < .3 else [rng.choice([
            '*//node()', '*/*//*', '%s//node()' % x, '*//text()', '(*|%s)//%s' % (x, y), '*//%s|%s' % (x, y), '*/*[%s]//node()' % x, 'count(*//node())',
            '*[count(*//node()) > 1]', '*/*/..//@*', '//%s//node()' % x, '*/*[1]|//*[2]', 'for-each(*, "count(node())")', '*//node()[1]'])]
    same = rng.random() < .45
    pool = (QUERIES if rng.random() < .5 else ['xexpr']) if queries else [rng.choice(KINDS)] if same else KINDS
    threads = []
    for _ in range(rng.choice([2, 2, 2, 3, 4])):
        ops = []
        for _ in range(rng.choice([1, 1, 1, 2, 3])):
            k = rng.choice(pool)
            j = rng.randrange(len(html) if k == 'html' else len(docs))
            ops.append({'k': k, 'doc': j, 'expr': rng.randrange(len(exprs)), 'cut': rng.randint(1, 9), 'pat': rng.randint(0, len(PATS) - 1)})
        threads.append(ops)
    scale = rng.choice([3, 10, 40, 40, 150, 400])
    sw = [[rng.randint(1, scale), rng.randint(0, 11)] for _ in range(rng.choice([1, 2, 5, 20, 60, 200]))]
    sw[0][0] = rng.randint(1, 600)
    focus = None
    k = rng.random()
    if k < .3:
        focus = [file_of(rng.choice(FILES[threads[0][0]['k']].split()))]
    elif k < .6:
        m = rng.choice([5, 20, 60])
        focus = [m, rng.randrange(m)]
    if focus:
        scale = rng.choice([1, 1, 2, 4, 10])
        sw = [[rng.randint(1, scale), rng.randint(0, 11)] for _ in range(rng.choice([5, 20, 60, 200]))]
        sw[0][0] = rng.choice([1, rng.randint(1, 10), rng.randint(1, 80)])
    return {'focus': focus, 'docs': docs, 'html': html, 'exprs': exprs, 'threads': threads, 'switches': sw, 'instr': int(rng.random() < .15)}


PATS = [['*', '*'], ['**', 'a'], ['**', '*', '*'], ['*', '**', 'b'], ['**', ['a', 'b', 'x']]]


def G_names(t):
    yield t[0]
    for c in t[2]:
        if not isinstance(c, str):
            yield from G_names(c)


def setup(S):
    """What is imported or built at the first use"""
    t = S.tree.parse('<a><b k="1">x</b></a>')
    list(t.xml_xpath('b|//b[@k="1"]/text()'))
    S.html5.parse('<p>x<b>y</p>')
    list(S.lex.run('<a>x</a>'))
    ref.html_tree(S, '<p>x')


def pattern(p):
    return tuple(tuple(x) if isinstance(x, list) else x for x in p)


def run(S, plan, env):
    need(len(plan['threads']) >= 1 and plan['docs'] and plan['html'] and plan['exprs'])
    docs = []
    for d in plan['docs']:
        text, events, _ = load_doc(d)
        docs.append((text, [e for _, e in events], G.norm(d['t'])))
    htmls = [''.join(h) for h in plan['html']]
    exprs = plan['exprs']
    need(all(isinstance(x, str) for x in exprs))
    shared_tree = S.tree.parse(docs[0][0])
    shared_exprs = []
    for x in exprs:
        try:
            shared_exprs.append(S.uxpath.parse(x))
        except (TypeError, RuntimeError):
            shared_exprs.append(None)

    def sink(out):
        while True:
            e = yield
            out.append(ref.norm_elem(S, e))

    def keep(out):
        while True:
            out.append(ref.ev_norm(S, (yield)))

    def item(r):
        """Results of queries, without identities"""
        if isinstance(r, S.tree.element):
            return ref.norm_elem(S, r)
        if isinstance(r, S.tree.text):
            return ['#', str(r)]
        if isinstance(r, S.tree.node):
            return [type(r).__name__, r.xml_name, str(r.xml_value)]
        return repr(r)

    def one(op, own):
        """One operation.  own: private input of the thread (prepared beforehand)"""
        k = op['k']
        text = docs[op['doc'] % len(docs)][0]
        x = op['expr'] % len(exprs)
        cut = max(op['cut'], len(text) // 25 + 1)
        if k == 'uparse':
            return ref.norm_elem(S, S.uxml.parse(text))
        if k == 'tparse':
            return ref.norm_elem(S, S.tree.treebuilder().parse(text))
        if k == 'events':
            out = []
            p = S.parser.parser(keep(out))
            for i in range(0, len(text), cut):
                p.send((text[i:i + cut], False))
            p.send(('', True))
            return out
        if k == 'frags':
            return [ref.ev_norm(S, e) for e in S.parser.parsefrags([text[i:i + cut] for i in range(0, len(text), cut)])]
        if k == 'xparse':
            return ref.norm_elem(S, S.xml.treebuilder().parse(text))
        if k == 'xevents':
            out = []
            p = S.xml.parse(text, keep(out))
            p.Parse('', True)
            return ref.merge_text(out)
        if k == 'html':
            return ref.norm_elem(S, S.html5.parse(htmls[op['doc'] % len(htmls)]))
        if k == 'stream':
            out = []
            S.treeiter.sender(pattern(PATS[op['pat'] % len(PATS)]), sink(out)).parse(text)
            return out
        if k == 'xstream':
            out = []
            s = S.xmliter.sender(pattern(PATS[op['pat'] % len(PATS)]), sink(out))
            data = text.encode('utf-8')
            for i in range(0, len(data), cut):
                s.parse(data[i:i + cut])
            return out
        if k == 'lex':
            return [[t.type, t.value, t.lexpos] for t in S.lex.run(text)]
        if k == 'xpath':
            return [item(r) for r in own.xml_xpath(exprs[x], vars={'v': 1})]
        if k == 'xshared':
            return [item(r) for r in shared_tree.xml_xpath(exprs[x], vars={'v': 1})]
        if k == 'xexpr':
            e = shared_exprs[x]
            if e is None:
                return None
            return [item(r) for r in e.compute(S.uxpath.context(own, variables={'v': 1}))]
        if k == 'qquery':
            return [item(r) for r in S.uxpath.qquery(text, exprs[x], vars={'v': 1})]
        if k == 'encode':
            return own.xml_encode()
        if k == 'write':
            w = SimWriter(env)
            S.writer.write(own, S.writer.raw(w))
            return w.getvalue()
        if k == 'nswrite':
            w = SimWriter(env)
            S.writer.write(own, S.writer.namespacer(w, prefixes={'': 'urn:x', 'p': 'urn:y'}, mapping={'a': ('urn:y', 'p'), '@k': ('urn:y', 'p')}))
            return w.getvalue()
        if k == 'pattern':
            p = tuple(s for s in PATS[op['pat'] % len(PATS)] if isinstance(s, str))
            return [item(e) for e in S.treeutil.select_pattern(own, p)]
        if k == 'pretty':
            return S.treeutil.make_pretty(own).xml_encode()
        if k == 'microx':
            w = SimWriter(env)
            S.microx.run('match', '@*|text()', sources=[SimReader(env, text)], out=w, parse_lax=True)
            return w.getvalue()
        raise BadPlan('kind')

    # Expected results: the model where there is one, else the operation alone
    want, owns = [], []
    for ops in plan['threads']:
        ws, os_ = [], []
        for op in ops:
            need(op['k'] in KINDS)
            env.probe('kind:' + op['k'])
            text, events, tree = docs[op['doc'] % len(docs)]
            k = op['k']
            try:
                alone = ('ok', one(op, S.tree.parse(text)))
            except (SimHang, Violation, BadPlan):
                raise
            except Exception as e:
                alone = ('err', type(e).__name__)
            model = {'uparse': tree, 'tparse': tree, 'events': events, 'frags': events}.get(k)
            if k in ('stream',):
                model = [e for _, _, e in ref.deliveries([(0, e) for e in events], [PATS[op['pat'] % len(PATS)]])]
            if k == 'html':
                model = ref.html_tree(S, htmls[op['doc'] % len(htmls)])
            if model is not None:
                expect(alone == ('ok', model), 'alone', lambda: '%s alone on %s: %s, expected %s' % (k, short(text, 150), short(alone), short(model)))
            ws.append(alone)
            os_.append(S.tree.parse(text))
        want.append(ws)
        owns.append(os_)

    def body(ops, os_):
        def f():
            out = []
            for op, own in zip(ops, os_):
                try:
                    out.append(('ok', one(op, own)))
                except (SimHang, Violation, BadPlan):
                    raise
                except Exception as e:
                    out.append(('err', type(e).__name__, short(str(e), 150)))
            return out
        return f

    sw = plan['switches']
    need(isinstance(sw, list) and all(isinstance(s, list) and len(s) == 2 and s[0] >= 0 for s in sw))
    kinds = [op['k'] for ops in plan['threads'] for op in ops]
    if len(set(kinds)) < len(kinds):
        env.probe('same-kind')
    sch = sched.Scheduler(env, sw, bool(plan['instr']), plan.get('focus'))
    if plan.get('focus'):
        env.probe('focus-file' if len(plan['focus']) == 1 else 'focus-lines')
    res = sch.run([body(ops, os_) for ops, os_ in zip(plan['threads'], owns)])
    if sch.nswitch:
        env.probe('switched')
        env.fault('preemption', sch.nswitch)
        env.nontrivial = True
    if sch.nswitch > 20:
        env.probe('many-switches')
    if plan['instr']:
        env.probe('instruction-level')
    env.log('switches', sch.nswitch, sch.step)
    for i, (r, ws) in enumerate(zip(res, want)):
        if r[0] == 'err':
            raise r[1]
        for op, got, w in zip(plan['threads'][i], r[1], ws):
            env.log(i, op['k'], got[:2])
            expect(got[:2] == w, 'result', lambda: 'thread %d, %s: got %s, alone %s' % (i, op['k'], short(got), short(w)))
    got = ref.norm_elem(S, shared_tree)
    expect(got == docs[0][2], 'shared-tree', lambda: 'the shared tree became %s' % short(got))
