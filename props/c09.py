"""C09: streaming needs memory for one subtree at a time, and nothing is retained."""
import gc
import sys
import tracemalloc
from array import array

from sim import gen as G, mon, ref
from sim.core import BadPlan, SimFault, SimHang, SimInterrupt, Violation, expect, need, short
from sim.simio import SimReader, SimWriter
from . import stream
from .common import gen_doc

ID = 'C09'
QUICK, THOROUGH, EPOCH = 4000, 60000, 20
RULE = ('Half of the runs stream a document made of many repetitions of a unit, with sinks which drop, hold, query, change or attach what they '
        'get, and count live nodes, collected objects and allocated blocks at deliveries; the others are histories of 3-14 operations on '
        'trees (parse, query whole, abandoned, failed, interrupted or suspended, serialise, write to a failing output, change, detach, '
        'drop), with the live nodes compared with those reachable after each. Non-trivial: something was dropped and a check made after '
        'it. Distinct: by the digest of the history.')
REAL = ['amara3.uxml.*', 'CPython reference counts and collector (run at the points which the plan says)', 'pyexpat', 'html5lib']
STUB = ['sinks', 'source and output file objects', 'the interrupting signal (raised at a monitored line)', 'automatic collection (off)']
SACTS = ['drop', 'query', 'abandon', 'mutate', 'attach', 'hold', 'encode']
OPS = ['parse', 'query', 'query', 'query', 'qquery', 'write', 'encode', 'pattern', 'pretty', 'append', 'remove', 'hold', 'unhold', 'drop', 'drop',
       'resume', 'move', 'setattr', 'stream', 'microx']
MUST_HIT = ['kind:u', 'kind:x', 'kind:f', 'growth', 'counted', 'piece-counted', 'nothing-built'] + ['act:' + a for a in SACTS] + \
    ['op:' + o for o in set(OPS)] + ['how:full', 'how:abandon', 'how:int', 'how:suspend', 'query-error', 'held-part', 'write-failed', 'all-dropped',
                                     'bytes-counted', 'node-variable', 'shared-expression', 'interrupted']
EXPRS = ['//*', '//@*', '//text()', '/*/node()', '//*[1]', '//a|//b', 'ancestor::*', 'ancestor-or-self::*', 'descendant::node()', '..', '/',
         'following-sibling::*', 'preceding-sibling::node()', 'count(//*)', 'string(.)', '//*[@k="1"]', '//*[count(*)>0]', 'concat("a", .)', '//*[..]',
         'for-each(//*, "name()")', 'for-each(*, "..")', '($v, //*)', '//*[contains(., "a")]', 'following::*', '//@*/..', 'nofunc()', '$none', '//*/@k|//*']


def gen(rng, tier):
    if rng.random() < .03:
        return {'mode': 'bytes', 'kind': rng.choice('xf'), 'size': rng.choice([1200000, 1500000, 2500000]), 'unit': rng.choice([300, 1000, 4000, 9000]),
                'pats': [rng.choice([['root', 'a'], ['root', '*'], ['**', 'b'], ['*', 'zz'], ['**', 'a', 'b']]) for _ in range(rng.choice([1, 1, 2]))],
                'act': rng.choice(['drop', 'query', 'encode']), 'sizes': [rng.choice([0, 500, 3000, 20000])], 'where': rng.randint(0, 2)}
    if rng.random() < .5:
        unit = []
        shape = G.Shape(rng, plain=rng.random() < .5, xml=True, small=True, maxn=rng.choice([1, 2, 3, 5, 8]))
        for _ in range(rng.choice([1, 1, 2])):
            unit.append(G.gen_tree(rng, shape))
            if rng.random() < .4:
                unit.append(G.gen_text(rng, True))
        names = sorted(set(n for u in unit if not isinstance(u, str) for n in stream.tree_names(u)))
        pats = stream.gen_patterns(rng, names, rng.choice([1, 1, 2]))
        for p in pats:
            # The root is not to match: all would be one subtree
            if rng.random() < .6:
                p[:] = ['root', rng.choice(names + ['*'])] if rng.random() < .5 else ['root', '**', rng.choice(names)]
        for p in pats:
            while ref.path_matches(p, ['root']):
                p.insert(0, 'root')
        grow = rng.random() < .4
        return {'mode': 'stream', 'kind': rng.choice('uuxxf'), 'unit': unit, 'n': rng.choice([50, 80, 120]) if grow else rng.choice([3, 8, 15, 30]),
                'pats': pats, 'acts': [rng.choice(SACTS) for _ in range(rng.choice([1, 1, 2, 3]))], 'hold': rng.randint(0, 3),
                'every': rng.choice([1, 1, 2, 5]), 'sizes': [rng.choice([0, 1, 3, 7, 20, 100]) for _ in range(rng.randint(1, 3))],
                'expr': rng.choice(EXPRS), 'lex': rng.randint(1, 1 << 30)}
    ops = []
    docs = [gen_doc(rng, maxn=rng.choice([2, 4, 8, 12])) for _ in range(rng.choice([1, 2]))]
    exprs = [rng.choice(EXPRS) for _ in range(3)]
    names = sorted(set(n for d in docs for n in stream.tree_names(d['t'])))
    exprs.append(G.gen_xpath(rng, [n for n in names if n.isascii() and n.isalnum()] or ['a'], ['k', 'id']))
    for i in range(rng.randint(3, 14)):
        op = rng.choice(OPS if i else ['parse'])
        ops.append({'op': op, 'slot': rng.randint(0, 2), 'doc': rng.randint(0, 1), 'by': rng.choice(['u', 'uxml', 'x', 'h', 'lax', 'tb']),
                    'expr': rng.randint(0, 3), 'how': rng.choice(['full', 'full', 'abandon', 'int', 'suspend']), 'n': rng.randint(0, 300),
                    'node': rng.randint(0, 40), 'shared': rng.randint(0, 1), 'fail': rng.choice([None, rng.randint(1, 30)])})
    ops.append({'op': 'drop', 'slot': 0, 'n': 0})
    return {'mode': 'tree', 'docs': docs, 'exprs': exprs, 'ops': ops}


def live_nodes(S):
    gc.collect()
    return [o for o in gc.get_objects() if isinstance(o, S.tree.node)]


def run(S, plan, env):
    if plan['mode'] == 'stream':
        return run_stream(S, plan, env)
    if plan['mode'] == 'bytes':
        return run_bytes(S, plan, env)
    return run_tree(S, plan, env)


def run_stream(S, plan, env):
    kind, n = plan['kind'], plan['n']
    need(kind in ('u', 'x', 'f') and isinstance(n, int) and 0 < n <= 400 and plan['unit'] and plan['every'] >= 1)
    need(all(a in SACTS for a in plan['acts']) and plan['acts'])
    env.probe('kind:' + kind)
    pats = stream.check_patterns(plan['pats'])
    for u in plan['unit']:
        if not isinstance(u, str):
            G.check_tree(u)
    tree = ['root', [], list(plan['unit']) * n]
    text, events, _ = G.render(tree, 0, kind != 'u')
    evs = [e for _, e in events]
    # How many elements are being built, for each pattern, at each event
    building = [[0] * len(pats)]
    match = []
    stack, state = [], [None] * len(pats)
    order = []
    for j, e in enumerate(evs):
        now = list(building[-1])
        if e[0] == 'S':
            stack.append(e[1])
            for ix, p in enumerate(plan['pats']):
                if state[ix] is not None:
                    now[ix] += 1
                elif ref.path_matches(p, stack):
                    state[ix] = len(stack)
                    now[ix] = 1
            building.append(now)
        elif e[0] == 'E':
            building.append(now)
            now = list(now)
            for ix in range(len(pats)):
                if state[ix] == len(stack):
                    order.append((j, ix))
                    state[ix] = None
                    now[ix] = 0
            stack.pop()
            building[-1] = now
            match.append(None)
        else:
            building.append(now)
    need(not any(ref.path_matches(p, ['root']) for p in plan['pats']))
    peak = max(map(sum, building)) + 0
    delivered = {}
    for k, (j, ix) in enumerate(order):
        delivered.setdefault(ix, []).append(j)
    base = live_nodes(S)
    nbase = len(base)
    held, home = [], [None]
    st = {'n': 0, 'held': 0}
    per_unit = {ix: len(v) // n for ix, v in delivered.items()}
    cyc = len(plan['acts'])
    samples = {}
    count = [0] * len(pats)
    grow = n >= 50
    expr = S.uxpath.parse(plan['expr']) if plan['expr'] in EXPRS else None
    tracked0 = [None]

    def measure(ix, k):
        """At the k-th delivery of pattern ix"""
        gc.collect()
        objs = gc.get_objects()
        live = sum(1 for o in objs if isinstance(o, S.tree.element)) - sum(1 for o in base if isinstance(o, S.tree.element))
        j = delivered[ix][k]
        # The event's own subtree is still there, as may be those which other patterns deliver at the same event
        # (and the library may keep the last node it made until it makes the next)
        bound = sum(max(building[j][i], building[j + 1][i]) for i in range(len(pats))) + st['held'] + 1
        expect(live <= bound, 'retained', lambda: '%d elements alive at delivery %d of pattern %s, with %d being built or held' % (
            live, k, plan['pats'][ix], bound))
        if grow:
            a = samples.get((ix, k % (per_unit[ix] * cyc)))
            if a is not None:
                a.append(len(objs))
                a.append(sys.getallocatedblocks())
        del objs

    if grow:
        for ix in per_unit:
            if per_unit[ix] and plan['every'] == 1 and len(pats) == 1:
                for r in range(per_unit[ix] * cyc):
                    samples[(ix, r)] = array('q', [0] * 2)

    def act(a, e):
        if a == 'query':
            try:
                for _ in (e.xml_xpath(expr) if expr else e.xml_xpath(plan['expr'])):
                    _ = None
            except Exception:
                pass
        elif a == 'abandon':
            g = e.xml_xpath('//node()')
            next(g, None)
            next(g, None)
            del g
        elif a == 'mutate':
            for c in list(e.xml_children)[:1]:
                e.xml_remove(c)
            e.xml_attributes['k'] = 'v'
        elif a == 'attach':
            h = S.tree.element('home')
            h.xml_append(e)
            home[0] = None
            del h
        elif a == 'hold':
            if plan['hold']:
                held.append(e)
                if len(held) > plan['hold']:
                    del held[0]
                st['held'] = sum(sum(1 for x in ref.all_nodes(S, h) if isinstance(x, S.tree.element)) for h in held)
        elif a == 'encode':
            S.writer.write(e, S.writer.raw(SimWriter(env)))
            e.xml_encode()

    def sink(ix):
        while True:
            e = yield
            k = count[ix]
            count[ix] += 1
            expect(k < len(delivered.get(ix, ())), 'extra', lambda: 'more deliveries than matches of %s' % (plan['pats'][ix],))
            if k % plan['every'] == 0:
                measure(ix, k)
            st['n'] += 1
            act(plan['acts'][k % cyc], e)
            del e

    m = {'u': S.treeiter, 'x': S.xmliter, 'f': S.xmliter}[kind]
    sinks = [sink(ix) for ix in range(len(pats))]
    sender = m.sender(list(pats), list(sinks))
    env.log('stream', kind, n, plan['pats'], text)
    if kind == 'u':
        sender.parse(text)
    elif kind == 'f':
        sender.parse_file(SimReader(env, text.encode(), [max(s, len(text) // 1500) if s else s for s in plan['sizes']]))
    else:
        for i, c in enumerate(stream.chunks(text.encode(), [max(s, len(text) // 1500) if s else s for s in plan['sizes']])):
            sender.parse(c)
            if i % 16 == 0 and i < 400:
                gc.collect()
                live = sum(1 for o in gc.get_objects() if isinstance(o, S.tree.element)) - sum(1 for o in base if isinstance(o, S.tree.element))
                env.probe('piece-counted')
                expect(live <= peak + st['held'] + 1, 'retained', lambda: '%d elements alive after a piece, at most %d being built or held' % (
                    live, peak + st['held']))
        sender.parse(b' ' * (2 * len(text) + 64))
    for ix in range(len(pats)):
        expect(count[ix] == len(delivered.get(ix, ())), 'missing', lambda: '%d deliveries of pattern %s, expected %d' % (
            count[ix], plan['pats'][ix], len(delivered.get(ix, ()))))
    env.log('delivered', count)
    for a in plan['acts'] if order else []:
        env.probe('act:' + a)
    if order:
        env.nontrivial = True
        env.probe('counted')
    if sum(map(len, ())) == 0 and not any(map(any, building)):
        env.probe('nothing-built')
    for key, a in samples.items():
        if len(a) < 12:
            continue
        env.probe('growth')
        # In both halves: the first might be just warming up
        h = len(a) // 4
        units = min(h - 2, len(a) // 2 - 1 - h) * cyc
        for what, z in (('tracked objects', 0), ('allocated blocks', 1)):
            d = min(a[2 * h + z] - a[4 + z], a[len(a) - 2 + z] - a[2 * h + z])
            expect(d <= 8 + units // 3, 'growth', lambda: '%d more %s after %d more units, twice (%s, %s)' % (d, what, units, plan['pats'], plan['acts']))
    live = sum(1 for o in live_nodes(S) if isinstance(o, S.tree.element)) - sum(1 for o in base if isinstance(o, S.tree.element))
    n = sum(1 for h in held for x in ref.all_nodes(S, h) if isinstance(x, S.tree.element))
    expect(live <= n + 1, 'retained', lambda: '%d elements alive after the document, %d held' % (live, n))
    del held[:]
    # The sender goes as well
    del sender, sinks
    live = len(live_nodes(S)) - nbase
    expect(live <= 0, 'retained', lambda: '%d nodes alive at the end' % live)


class Endless:
    """A source which makes its text as it is read"""
    def __init__(self, parts, sizes):
        self.parts, self.sizes, self.buf, self.given = iter(parts), sizes, b'', 0

    def read(self, n=-1):
        n = 1 << 60 if n is None or n < 0 else n
        if self.sizes[0]:
            n = min(n, self.sizes[0]) if n < 1 << 60 else n
        out = [self.buf]
        have = len(self.buf)
        while have < n:
            b = next(self.parts, None)
            if b is None:
                break
            out.append(b)
            have += len(b)
        b = b''.join(out)
        self.buf = b[n:]
        b = b[:n]
        self.given += len(b)
        return b


def run_bytes(S, plan, env):
    """The memory which streaming a long document takes, in bytes"""
    kind, size, unit = plan['kind'], plan['size'], plan['unit']
    need(kind in ('x', 'f') and 1000000 <= size <= 3000000 and 100 <= unit <= 10000 and plan['where'] in (0, 1, 2) and plan['sizes'])
    need(all(isinstance(z, int) and (z == 0 or z >= 400) for z in plan['sizes']))
    pats = stream.check_patterns(plan['pats'])
    need(not any(ref.path_matches(p, ['root']) for p in plan['pats']))
    n = size // unit

    def parts():
        yield b'<root>'
        for i in range(n):
            t = ('%d ' % i) + 'x' * unit
            w = plan['where']
            yield ('<a k="%s"><b>%s</b>%s</a>' % (t if w == 0 else i, t if w == 1 else '', t if w == 2 else '')).encode()
        yield b'</root>'

    count = [0] * len(pats)

    def sink(ix):
        while True:
            e = yield
            count[ix] += 1
            if plan['act'] == 'query':
                for _ in e.xml_xpath('//@k|//text()'):
                    pass
                _ = None
            elif plan['act'] == 'encode':
                e.xml_encode()
            del e
    sender = S.xmliter.sender(list(pats), [sink(ix) for ix in range(len(pats))])
    gc.collect()
    gc.enable()      # (cycles which the library makes are nothing to count here)
    tracemalloc.start()
    try:
        if kind == 'f':
            sender.parse_file(Endless(parts(), plan['sizes']))
        else:
            src = Endless(parts(), plan['sizes'])
            while True:
                b = src.read(plan['sizes'][0] or 2048)
                if not b:
                    break
                sender.parse(b)
            del b
            sender.parse(b' ' * 50000)
        peak = tracemalloc.get_traced_memory()[1]
    finally:
        tracemalloc.stop()
        gc.disable()
    for ix, p in enumerate(plan['pats']):
        names = [['root', 'a'], ['root', 'a', 'b']]
        first = next((k for k, path in enumerate(names) if ref.path_matches(p, path)), None)
        want = 0 if first is None else n
        expect(count[ix] == want, 'missing', lambda: '%d deliveries of pattern %s, expected %d' % (count[ix], p, want))
        if want:
            env.nontrivial = True
    env.probe('bytes-counted')
    env.log('bytes', kind, n, count)
    limit = 300000 + 40 * unit
    expect(peak <= limit, 'bytes', lambda: 'streaming %d bytes took %d bytes at a time, with subtrees of %d' % (size, peak, unit))


def run_tree(S, plan, env):
    need(plan['ops'] and plan['docs'] and plan['exprs'])
    texts = []
    for d in plan['docs']:
        G.check_tree(d['t'])
        texts.append(G.render(d['t'], d['lex'], False)[0])
    exprs = []
    for x in plan['exprs']:
        need(isinstance(x, str))
        try:
            exprs.append(S.uxpath.parse(x))
        except (TypeError, RuntimeError):
            exprs.append(None)
    base = live_nodes(S)
    baseids = set(map(id, base))
    slots, held, gens = {}, [], []     # gens: (generator, slot's tree)
    dropped = [False]

    def check(when):
        reach = {}
        for t in list(slots.values()) + held + [t for _, ts in gens for t in ts]:
            if isinstance(t, S.tree.element):
                for x in ref.all_nodes(S, t):
                    reach[id(x)] = 1
            else:
                reach[id(t)] = 1
        for x in live_nodes(S):
            if id(x) in baseids or id(x) in reach:
                continue
            if gens and not isinstance(x, (S.tree.element, S.tree.text)):
                continue
            raise Violation('retained', '%s: %s %r is still alive' % (when, type(x).__name__, x.xml_name))
        if dropped[0]:
            env.nontrivial = True
        for h in held:
            # A parent link never holds, nor outlives, what it leads to
            p = h.xml_parent
            if p is not None:
                expect(id(p) in reach, 'retained', lambda: '%s: parent of a held node is still there' % when)
            if not any(id(h) == id(x) for t in slots.values() if isinstance(t, S.tree.element) for x in ref.all_nodes(S, t)):
                env.probe('held-part')
        if not slots and not held and not gens:
            env.probe('all-dropped')

    def pick(t, k):
        ns = ref.all_nodes(S, t)
        return ns[k % len(ns)]

    def parse(op):
        text = texts[op['doc'] % len(texts)]
        by = op['by']
        if by == 'u':
            return S.tree.parse(text)
        if by == 'uxml':
            return S.uxml.parse(text)
        if by == 'tb':
            return S.tree.treebuilder().parse(text)
        if by == 'x':
            try:
                return S.xml.treebuilder().parse(text)
            except Exception:        # names which only MicroXML has
                return S.tree.parse(text)
        if by == 'h':
            return S.html5.parse(text)
        need(by == 'lax')
        return S.html5.parse_lax_xml(text)

    def query(t, op):
        node = pick(t, op['node'])
        x = op['expr'] % len(exprs)
        e = plan['exprs'][x]
        if op['shared'] and exprs[x] is not None:
            e = exprs[x]
            env.probe('shared-expression')
        env.probe('node-variable')
        g = node.xml_xpath(e, vars={'v': node})
        how = op['how']
        need(how in ('full', 'abandon', 'int', 'suspend'))
        env.probe('how:' + how)
        if how == 'full':
            for r in g:
                r = None
        elif how == 'abandon':
            for _ in range(1 + op['n'] % 3):
                next(g, None)
        elif how == 'int':
            with mon.interrupt(1 + op['n'] * 2):
                for r in g:
                    r = None
        else:
            next(g, None)
            # It keeps what it needs
            gens.append((g, ref.all_nodes(S, t)))

    def do(op):
        k = op['op']
        slot = op['slot'] % 3
        t = slots.get(slot)
        if k == 'parse':
            slots[slot] = parse(op)
            if t is not None:
                dropped[0] = True
        elif k == 'drop':
            if slot in slots:
                del slots[slot]
                dropped[0] = True
        elif k == 'unhold':
            if held:
                del held[op['node'] % len(held)]
        elif k == 'resume':
            if gens:
                g, _ = gens[0]
                del gens[0]
                for r in g:
                    r = None
        elif k == 'qquery':
            for r in S.uxpath.qquery(texts[op['doc'] % len(texts)], plan['exprs'][op['expr'] % len(exprs)]):
                r = None
        elif k == 'microx':
            S.microx.run('match', '@*|text()', sources=[SimReader(env, texts[op['doc'] % len(texts)])],
                         out=SimWriter(env, fail_at=op['fail'], mode='byte', exc=SimFault('w')), parse_lax=True)
        elif k == 'stream':
            def sink():
                while True:
                    yield
            S.treeiter.sender(('**', 'a'), sink()).parse(texts[op['doc'] % len(texts)])
        elif t is None:
            return
        elif k == 'query':
            query(t, op)
        elif k == 'encode':
            t.xml_encode()
        elif k == 'write':
            w = SimWriter(env, fail_at=op['fail'], mode='byte', exc=SimFault('w'))
            try:
                S.writer.write(t, (S.writer.raw if op['shared'] else S.writer.namespacer)(w))
            except SimFault:
                env.probe('write-failed')
        elif k == 'pattern':
            g = S.treeutil.select_pattern(t, ('**', 'a'))
            if op['how'] == 'abandon':
                next(g, None)
            else:
                for r in g:
                    r = None
        elif k == 'pretty':
            S.treeutil.make_pretty(t)
        elif k == 'append':
            e = pick(t, op['node'])
            if isinstance(e, S.tree.element):
                x = S.tree.element('new', {'k': 'v'})
                x.xml_append('text')
                e.xml_append(x)
                e.xml_append('more')
        elif k == 'setattr':
            t.xml_attributes['k'] = '1'
        elif k in ('remove', 'move'):
            e = pick(t, op['node'])
            p = e.xml_parent
            if p is not None:
                p.xml_remove(e)
                dropped[0] = True
                if k == 'move' and isinstance(e, S.tree.element):
                    u = slots.get((slot + 1) % 3)
                    if u is not None and isinstance(u, S.tree.element) and u is not t:
                        u.xml_append(e)
                    else:
                        held.append(e)
        elif k == 'hold':
            held.append(pick(t, op['node']))
        else:
            raise BadPlan('op')

    for i, op in enumerate(plan['ops']):
        need(isinstance(op.get('n'), int) and isinstance(op.get('slot'), int))
        env.log(i, op['op'], op['slot'])
        env.step(op['op'])
        env.probe('op:' + op['op'])
        try:
            do(op)
        except SimInterrupt:
            env.fault('interrupt')
            env.probe('interrupted')
        except (SimHang, Violation, BadPlan):
            raise
        except Exception as e:
            env.log(type(e).__name__)
            if op['op'] == 'query':
                env.probe('query-error')
        check('after %d (%s)' % (i, op['op']))
    del gens[:]
    check('without suspended queries')
    slots.clear()
    check('with what is held only')
    del held[:]
    check('at the end')
