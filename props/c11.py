"""C11: serialise, transmit and reparse conserves the document."""
from sim import gen as G, ref
from sim.core import BadPlan, injected, SimHang, Violation, expect, need, short
from sim.simio import SimReader, SimWriter
from . import stream
from .c10 import to_tree
from .common import interleave, recorder

ID = 'C11'
QUICK, THOROUGH, EPOCH = 9000, 150000, 30
RULE = ('A run sends 1-3 documents through pipelines of 1-5 hops (a parser, tree builder or streaming sender, then a serialiser), the chunks between '
        'hops cut and the pipelines interleaved as the seed says; a producer may stop after n characters or find its output failing. '
        'Non-trivial: a document of more than one node has passed two hops, or a producer has stopped. Distinct: by the digest of the history.')
REAL = ['amara3.uxml.tree', 'amara3.uxml.writer', 'amara3.uxml.parser', 'amara3.uxml.xml', 'amara3.uxml.treeiter', 'amara3.uxml.xmliter',
        'amara3.uxml.uxpath.qquery', 'pyexpat']
STUB = ['the transport between hops', 'the crashing producer']
UCONS = ['u-events', 'u-events', 'u-events', 'u-tree', 'uxml', 'frags', 'u-sender', 'qquery', 'u-parse']
XCONS = ['x-events', 'x-events', 'x-tree', 'x-sender']
PRODS = ['encode', 'write-raw', 'xml_write', 'calls']
MUST_HIT = ['cons:' + c for c in set(UCONS + XCONS)] + ['prod:' + p for p in PRODS] + ['streamed-3-hops', 'crash', 'crash-mid-pipe', 'output-failed',
                                                                                        'interleaved', 'hops:4', 'microxml-names', 'attr-whitespace']


def gen(rng, tier):
    pipes = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        xml = rng.random() < .6
        shape = G.Shape(rng, plain=rng.random() < .15, xml=xml, maxn=rng.choice([1, 2, 4, 8, 15, 30]))
        t = G.gen_tree(rng, shape)
        stream_only = rng.random() < .4
        hops = []
        for _ in range(rng.choice([1, 2, 2, 3, 4, 5]) if rng.random() > .01 else rng.choice([9, 18])):
            pool = (['u-events'] + (['x-events'] if xml else [])) if stream_only else UCONS + (XCONS if xml else [])
            hops.append({'c': rng.choice(pool), 'p': rng.choice(PRODS), 'sizes': [rng.choice([0, 1, 2, 3, 7, 20, 64]) for _ in range(rng.randint(1, 3))]})
            if rng.random() < .2:
                hops[-1]['enc'] = rng.randint(1, 4)
        n = len(G.render(t, 0, xml)[0])
        pipe = {'t': t, 'p0': rng.choice(PRODS), 'hops': hops, 'xml': int(xml)}
        k = rng.random()
        if k < .3:
            pipe['crash'] = [rng.randrange(len(hops)), rng.randint(1, max(1, n))]
        elif k < .45:
            pipe['fail'] = [rng.randrange(len(hops)), rng.randint(1, max(1, n))]
        pipes.append(pipe)
    return {'pipes': pipes, 'sched': [rng.randint(0, 59) for _ in range(rng.choice([1, 3, 10, 40]))]}


class Link:
    """Transport between a producer and the next consumer"""
    def __init__(self, sizes):
        self.sizes, self.k = sizes, 0
        self.buf = ''
        self.closed = False     # nothing more will come
        self.total = 0
        self.limit = None       # the producer is gone after that many characters

    def put(self, s):
        if self.limit is not None and self.total + len(s) > self.limit:
            s = s[:self.limit - self.total]
        self.total += len(s)
        self.buf += s

    def size(self):
        n = self.sizes[self.k % len(self.sizes)] if self.sizes else 0
        # (1000s of tiny chunks take quadratic time)
        return max(n, self.total // (60 if self.total < 10000 else 12)) if n else max(1, len(self.buf))

    def ready(self):
        return self.closed or len(self.buf) >= self.size()

    def take(self):
        n = self.size()
        self.k += 1
        r, self.buf = self.buf[:n], self.buf[n:]
        return r


class Hop:
    def __init__(self, S, env, pipe, i, h, src, dst):
        self.S, self.env, self.pipe, self.i, self.h = S, env, pipe, i, h
        self.name = '%s/%d %s' % (pipe.name, i, h['c'])
        self.src, self.dst = src, dst
        self.chunks = []
        self.events = []
        self.result = None       # tree in normal form
        self.outcome = None      # None 'ok' exception
        self.fed = 0
        self.exc = None
        c = h['c']
        need(c in UCONS + XCONS and h['p'] in PRODS)
        env.probe('cons:' + c)
        self.w = None
        if c in ('u-events', 'x-events'):
            hd = self.relay()
            self.p = S.parser.parser(hd) if c == 'u-events' else None
            self.hd = hd

    def out(self):
        w = SimWriter(self.env, on_write=self.dst.put, name=self.name)
        f = self.pipe.p.get('fail')
        if f and f[0] == self.i and self.dst is not self.pipe.links[-1]:
            self.exc = injected(f[1] if f[1] % 23 != 2 else 0, 'output of ' + self.name)
            w.fail_at, w.mode, w.exc = f[1], 'byte', self.exc
        self.ww = w
        return w

    def relay(self):
        """Events in, serialisation out"""
        P = self.S.parser.event
        w = self.S.writer.raw(self.out())
        rec = recorder(self.S, self.events)
        next(rec)
        while True:
            ev = yield
            rec.send(ev)
            if ev[0] == P.start_element:
                w.start_element(ev[1], attribs=ev[2])
            elif ev[0] == P.characters:
                w.text(ev[1])
            else:
                w.end_element(ev[1])

    def active(self):
        return self.outcome is None and self.src.ready()

    def step(self):
        c = self.src.take()
        final = self.src.closed and not self.src.buf
        self.env.log(self.name, c, final)
        try:
            if c:
                self.fed += len(c)
                self.feed(c)
            if final:
                self.finish()
                self.outcome = 'ok'
        except (SimHang, Violation, BadPlan):
            raise
        except (Exception, StopIteration) as e:
            self.outcome = e
        if self.outcome is not None:
            self.env.log(self.name, type(self.outcome).__name__)
            self.dst.closed = True

    def feed(self, c):
        k = self.h['c']
        if k == 'u-events':
            self.p.send((c, False))
        elif k == 'x-events':
            if self.p is None:
                self.p = self.S.xml.parse(c, self.hd)
            else:
                self.p.Parse(c)
        else:
            self.chunks.append(c)

    def finish(self):
        S, env, k = self.S, self.env, self.h['c']
        text = ''.join(self.chunks)
        t = None
        if k == 'u-events':
            self.p.send(('', True))
        elif k == 'x-events':
            if self.p is None:
                self.p = self.S.xml.parse('', self.hd)
            self.p.Parse('', True)
        elif k == 'u-tree':
            t = S.tree.parse(text)
        elif k == 'uxml':
            t = S.uxml.parse(text)
        elif k == 'x-tree':
            t = S.xml.treebuilder().parse(text)
        elif k == 'frags':
            evs = [ref.ev_norm(S, e) for e in S.parser.parsefrags(list(self.chunks))]
            self.events = evs
            t = to_tree(S, as_plan(G.tree_from_events(evs))) if evs else None
        elif k == 'u-parse':
            evs = [ref.ev_norm(S, e) for e in S.parser.parse(text)]
            self.events = evs
            t = to_tree(S, as_plan(G.tree_from_events(evs))) if evs else None
        elif k == 'qquery':
            t = list(S.uxpath.qquery(text, '/*'))
            expect(len(t) == 1 or not text, 'qquery', lambda: '%r' % t)
            t = t[0] if t else None
            # (a node which is not held goes with its tree)
        elif k in ('u-sender', 'x-sender'):
            got = []

            def sink():
                while True:
                    got.append((yield))
            if k == 'u-sender':
                S.treeiter.sender(('*',), sink()).parse(text)
            else:
                S.xmliter.sender(('*',), sink()).parse_file(SimReader(env, G.xml_bytes(text, self.h.get('enc')), self.h['sizes']))
            t = got[0] if got else None
            expect(len(got) < 2, 'deliveries', lambda: '%d document elements' % len(got))
        if k in ('u-events', 'x-events'):
            if self.events:
                self.result = G.tree_from_events(ref.merge_text(self.events))
        elif t is not None:
            self.result = ref.norm_elem(S, t, merge=False)
            produce(S, env, self.h['p'], t, self.out())


def as_plan(t):
    return [t[0], [[k, v] for k, v in t[1].items()], [c if isinstance(c, str) else as_plan(c) for c in t[2]]]


def produce(S, env, how, t, out):
    env.probe('prod:' + how)
    if how == 'encode':
        out.write(t.xml_encode())
    elif how == 'xml_write':
        t.xml_write(out)
    elif how == 'write-raw':
        S.writer.write(t, S.writer.raw(out))
    else:
        w = S.writer.raw(out)

        def go(e):
            w.start_element(e.xml_name, e.xml_attributes)
            for c in e.xml_children:
                if isinstance(c, S.tree.element):
                    go(c)
                else:
                    w.text(c.xml_value)
            w.end_element(e.xml_name)
        go(t)


class Pipe:
    def __init__(self, S, env, i, p):
        self.S, self.env, self.p = S, env, p
        self.name = 'p%d' % i
        need(p['hops'])
        G.check_tree(p['t'])
        self.want = G.norm(p['t'])
        self.tree = to_tree(S, p['t'])
        self.links = [Link(h['sizes']) for h in p['hops']] + [Link([])]
        for h in p['hops']:
            need(all(isinstance(s, int) and s >= 0 for s in h['sizes']))
        cr = p.get('crash')
        if cr:
            need(0 <= cr[0] < len(p['hops']) and cr[1] >= 1)
            self.links[cr[0]].limit = cr[1]
        if p.get('fail'):
            need(0 <= p['fail'][0] < len(p['hops']) and p['fail'][1] >= 1)
        self.hops = [Hop(S, env, self, j, h, self.links[j], self.links[j + 1]) for j, h in enumerate(p['hops'])]
        produce(S, env, p['p0'], self.tree, SimWriter(env, on_write=self.links[0].put, name=self.name))
        self.links[0].closed = True
        env.log(self.name, self.links[0].buf)

    def check(self):
        env, p = self.env, self.p
        broken = False
        nstream = 0
        # How long the document really is
        full = SimWriter(env)
        produce(self.S, env, 'write-raw', self.tree, full)
        for j, h in enumerate(self.hops):
            expect(h.outcome is not None, 'stuck', lambda: '%s never ended' % h.name)
            cut = self.links[j].limit is not None and self.links[j].total >= self.links[j].limit and self.hop_len(j) > self.links[j].limit
            if cut:
                env.fault('crash')
                env.probe('crash' if j == 0 else 'crash-mid-pipe')
                env.nontrivial = True
                broken = True
            if broken:
                if not h.fed:
                    continue        # of which nothing came
                expect(h.outcome != 'ok', 'error-lost', lambda: '%s: its producer stopped after %d characters, but it saw a whole document: %s' % (
                    h.name, h.fed, short(h.result)))
                continue
            if h.exc is not None and h.outcome is h.exc:
                # Its own output failed
                env.probe('output-failed')
                env.nontrivial = True
                broken = True
                continue
            expect(h.exc is None or not h.ww.failed, 'error-lost', lambda: '%s: output failed, but: %r' % (h.name, h.outcome))
            expect(h.outcome == 'ok', 'error', lambda: '%s: %r on %s' % (h.name, h.outcome, short(self.want)))
            expect(h.result == self.want, 'document', lambda: '%s: got %s, sent %s' % (h.name, short(h.result), short(self.want)))
            if h.h['c'] in ('u-events', 'x-events'):
                nstream += 1
                if nstream == 3:
                    env.probe('streamed-3-hops')
            if j >= 1 and (self.want[2] or self.want[1]):
                env.nontrivial = True
            if j == 3:
                env.probe('hops:4')

    def hop_len(self, j):
        """What would have been sent over that link"""
        w = SimWriter(self.env)
        produce(self.S, self.env, self.p['p0'] if j == 0 else 'write-raw', self.tree, w)
        return w.size


def run(S, plan, env):
    need(plan['pipes'])
    pipes = [Pipe(S, env, i, p) for i, p in enumerate(plan['pipes'])]
    for p in plan['pipes']:
        if any(any(not (c.isascii()) for c in n) for n in stream.tree_names(p['t'])) and not p['xml']:
            env.probe('microxml-names')
        if any('\n' in v or '\t' in v for t in trees(p['t']) for _, v in t[1]):
            env.probe('attr-whitespace')
    if len(pipes) > 1:
        env.probe('interleaved')
    need(all(isinstance(x, int) for x in plan['sched']))
    interleave(env, [h for p in pipes for h in p.hops], plan['sched'])
    for p in pipes:
        p.check()


def trees(t):
    yield t
    for c in t[2]:
        if not isinstance(c, str):
            yield from trees(c)
