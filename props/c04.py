"""C04: a failing or cancelled event handler stops its own parse and nothing else."""
from sim import gen as G, ref
from sim.core import injected, SimHang, SimInterrupt, expect, need, short
from .common import gen_doc, interleave, load_doc

ID = 'C04'
QUICK, THOROUGH, EPOCH = 40000, 400000, 60
RULE = ('A run interleaves 1-4 MicroXML or XML parses, fragment by fragment; handlers raise, return, mutate what they get or feed another parse '
        'from within an event, and parsers are closed or thrown into, at points drawn from the seed. Non-trivial: at least one such '
        'fault happened. Distinct: by the digest of the history of feeds, events and faults.')
REAL = ['amara3.uxml.parser (parser coroutine)', 'amara3.uxml.xml (parse, expat_callbacks)', 'pyexpat']
STUB = ['event handlers']
MUST_HIT = ['raise', 'raise-base', 'raise-interrupt', 'return', 'close', 'throw', 'mutate', 'nested-feed', 'xml', 'uxml', 'closed-at-start',
            'fault-with-others-running', 'resend-after-fault', 'completed']

KINDS = ['raise', 'raise', 'raise', 'raise-base', 'raise-interrupt', 'return', 'close', 'throw', 'none', 'none']


def gen(rng, tier):
    feeds = []
    for i in range(rng.choice([1, 2, 2, 3, 4])):
        xml = rng.random() < .3
        d = gen_doc(rng, xml=xml, maxn=rng.choice([1, 2, 4, 8, 12, 20]))
        text, events, _ = G.render(d['t'], d['lex'], xml)
        kind = rng.choice(KINDS)
        feeds.append({'d': d, 'xml': xml, 'cuts': G.gen_cuts(rng, text)[:40], 'fin': rng.randint(0, 1), 'kind': kind,
                      'at': rng.randint(1, len(events)) if kind.startswith('r') else rng.randint(0, 6),
                      'mut': rng.choice([0, 0, 1, 2, 3]), 'exc': rng.randint(0, 45), 'again': rng.randint(0, 2),
                      'nest': [rng.randint(1, len(events)), rng.randint(0, 3)] if rng.random() < .25 else []})
    return {'feeds': feeds, 'sched': [rng.randint(0, 59) for _ in range(rng.choice([1, 3, 10, 40]))]}


class Item:
    def __init__(self, S, env, k, fd):
        self.S, self.env, self.fd = S, env, fd
        self.name = '%s%d' % ('x' if fd['xml'] else 'p', k)
        self.text, self.ref, _ = load_doc(fd['d'], bool(fd['xml']))
        self.frags = G.fragments(self.text, fd['cuts'])
        self.kind, self.at = fd['kind'], fd['at']
        self.events, self.raw = [], []
        self.exc = SimInterrupt(self.name) if self.kind == 'raise-interrupt' else injected(2 if self.kind == 'raise-base' else fd['exc'], self.name)
        self.fault = None        # what happened
        self.done = False
        self.i = self.fed = 0
        self.running = False
        self.p = None
        self.h = self.handler()
        if not fd['xml']:
            self.p = S.parser.parser(self.h)

    def handler(self):
        while True:
            ev = yield
            if self.fault:
                self.events.append(('after-fault',))
                continue
            n = ref.ev_norm(self.S, ev)
            self.events.append(n)
            if self.fd['mut']:
                self.env.probe('mutate')
                for x in ev[2:]:
                    if isinstance(x, dict):
                        if self.fd['mut'] & 1:
                            x.clear()
                        x['zz'] = 'mutated'
                    elif isinstance(x, list):
                        if self.fd['mut'] & 2:
                            del x[:]
                        x.append('mutated')
            else:
                self.raw.append((ev, n))
            nest = self.fd['nest']
            if nest and len(self.events) == nest[0]:
                o = self.others[nest[1] % len(self.others)] if self.others else None
                if o is not None and o.active() and not o.running and o.p is not None:
                    self.env.probe('nested-feed')
                    o.step()
            if self.kind.startswith('r') and len(self.events) >= self.at:
                self.fault = self.kind
                self.env.fault('handler-' + self.kind)
                self.env.probe(self.kind)
                self.env.nontrivial = True
                if self.kind == 'return':
                    return
                raise self.exc

    def active(self):
        return not self.done and not self.running

    def feed(self, frag, last):
        if self.p is None:
            self.env.probe('xml')
            self.p = self.S.xml.parse(frag, self.h)
            if last:
                self.p.Parse('', True)
        elif self.fd['xml']:
            self.p.Parse(frag, last)
        else:
            self.env.probe('uxml')
            self.p.send((frag, last))

    def step(self):
        self.running = True
        try:
            self._step()
        finally:
            self.running = False
        self.env.log(self.name, self.i, self.fed, len(self.events), self.fault, self.done)

    def _step(self):
        n = len(self.frags)
        if self.kind in ('close', 'throw') and self.i == self.at:
            self.env.nontrivial = True
            self.env.probe(self.kind)
            self.env.fault('parser-' + self.kind)
            if not self.i:
                self.env.probe('closed-at-start')
            self.fault = self.kind
            self.done = True
            if any(o.active() for o in self.others):
                self.env.probe('fault-with-others-running')
            if self.kind == 'close':
                self.p.close()      # no error
            else:
                try:
                    self.p.throw(self.exc)
                except BaseException as e:
                    expect(e is self.exc, 'wrong-exception', lambda: '%s: threw %r, got %r' % (self.name, self.exc, e))
                else:
                    expect(False, 'lost-exception', lambda: '%s: what was thrown into the parser was swallowed' % self.name)
            self.resend()
            return
        if self.i < n:
            f, last = self.frags[self.i], bool(self.fd['fin'] and self.i == n - 1)
        else:
            f, last = '', True
        self.i += 1
        self.fed += len(f)
        try:
            self.feed(f, last)
        except SimHang:
            raise
        except BaseException as e:
            self.done = True
            expect(self.fault is not None, 'unexpected-error', lambda: '%s: %r with no fault, on %s' % (self.name, e, short(self.text, 200)))
            if self.fault != 'return':
                expect(e is self.exc, 'wrong-exception', lambda: '%s: the handler raised %r, the feeder got %r' % (self.name, self.exc, e))
            if any(o.active() for o in self.others):
                self.env.probe('fault-with-others-running')
            self.resend()
        else:
            if self.fault and self.fault != 'return':
                expect(False, 'lost-exception', lambda: '%s: the handler raised %r, the feeder saw nothing' % (self.name, self.exc))
            if self.fault or last:
                self.done = True
            if self.fault:
                self.resend()

    def resend(self):
        """Keep feeding after the fault: nothing may be delivered any more"""
        for _ in range(self.fd['again']):
            self.env.probe('resend-after-fault')
            n = len(self.events)
            try:
                self.feed(self.frags[self.i] if self.i < len(self.frags) else '<q>', False)
            except SimHang:
                raise
            except BaseException:
                pass
            expect(len(self.events) == n, 'event-after-fault', lambda: '%s: %s' % (self.name, short(self.events[n:])))


def run(S, plan, env):
    need(plan['feeds'])
    for fd in plan['feeds']:
        need(fd['kind'] in KINDS and isinstance(fd['at'], int))
    items = []
    for k, fd in enumerate(plan['feeds']):
        if fd['xml'] and fd['kind'] in ('close', 'throw'):
            fd = dict(fd, kind='none')
        items.append(Item(S, env, k, fd))
    for it in items:
        it.others = [o for o in items if o is not it]
    need(all(isinstance(x, int) for x in plan['sched']))
    interleave(env, items, plan['sched'])
    for it in items:
        env.log(it.name, it.events)
        want = [e for _, e in it.ref]
        got = it.events
        ctx = lambda: '%s (%s at %d) on %s' % (it.name, it.kind, it.at, short(it.text, 200))
        if it.fd['xml']:
            if it.fault:
                g, w = ref.merge_text(got), ref.merge_text(want)
                ok = g[:-1] == w[:len(g) - 1] and len(g) <= len(w) and (
                    not g or g[-1] == w[len(g) - 1] or (g[-1][0] == 'T' == w[len(g) - 1][0] and w[len(g) - 1][1].startswith(g[-1][1])))
                expect(ok, 'events', lambda: ctx() + ': ' + ref.first_diff(g, w))
                expect(len(got) == it.at, 'events', lambda: ctx() + ': %d events' % len(got))
            else:
                env.probe('completed')
                expect(ref.merge_text(got) == ref.merge_text(want), 'events', lambda: ctx() + ': ' + ref.first_diff(ref.merge_text(got), ref.merge_text(want)))
        else:
            if it.fault in ('close', 'throw'):
                want = [e for o, e in it.ref if o <= it.fed]
            elif it.fault:
                want = want[:it.at]
                o = it.ref[it.at - 1][0]
                expect(it.fed >= o, 'early', lambda: ctx() + ': event %d of offset %d after %d' % (it.at, o, it.fed))
            else:
                env.probe('completed')
            expect(got == want, 'events', lambda: ctx() + ': ' + ref.first_diff(got, want))
        # What was handed out is the handler's, and does not change under it
        for ev, n in it.raw:
            m = ref.ev_norm(S, ev)
            expect(m == n, 'event-changed', lambda: '%s: delivered %s, later it is %s' % (it.name, short(n), short(m)))
