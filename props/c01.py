"""C01: MicroXML events do not depend on how the input is fragmented."""
from sim import gen as G, ref
from sim.core import Violation, expect, need, short
from .common import Feed, attempt, gen_doc, interleave, load_doc, outcome_of, recorder

ID = 'C01'
QUICK, THOROUGH, EPOCH = 20000, 200000, 50
RULE = ('A run renders 1-4 generated documents (about a third of them damaged), cuts each into fragments and feeds 1-5 parsers in an '
        'order drawn from the seed. Non-trivial: at least one cut falls inside a document or at least two parsers are interleaved. '
        'Distinct: by the digest of the whole history of feeds and events.')
REAL = ['amara3.uxml.parser (parser coroutine, parse, parsefrags)']
STUB = ['event handlers (recording coroutines)']
MUST_HIT = ['cut-in-attribute-value', 'cut-in-reference', 'cut-in-name', 'damaged-error', 'damaged-ok', 'empty-fragment', 'interleaved']


def gen(rng, tier):
    nd = rng.choice([1, 1, 1, 2, 3])
    docs = []
    for _ in range(nd):
        d = gen_doc(rng)
        text = G.render(d['t'], d['lex'])[0]
        d['dmg'] = G.gen_damage(rng, len(text)) if rng.random() < .35 else []
        docs.append(d)
    feeds = []
    for i in range(rng.choice([1, 1, 2, 3, 5]) if rng.random() > .01 else rng.choice([9, 18, 35])):
        j = rng.randrange(nd) if i else 0
        text = G.render(docs[j]['t'], docs[j]['lex'])[0]
        emp = [rng.randint(0, 50) for _ in range(rng.choice([0, 0, 1, 3]))]
        feeds.append({'doc': j, 'cuts': G.gen_cuts(rng, text), 'emp': emp,
                      'api': rng.choice(['coro', 'coro', 'coro', 'frags', 'iter', 'parse']), 'fin': rng.randint(0, 1)})
    return {'docs': docs, 'feeds': feeds, 'sched': [rng.randint(0, 59) for _ in range(rng.choice([1, 3, 10, 40]))]}


class Whole:
    """parse() or parsefrags(), as one step"""
    def __init__(self, S, env, text, frags, api, name):
        self.S, self.env, self.text, self.frags, self.api, self.name = S, env, text, frags, api, name
        self.outcome = None
        self.events = []

    def active(self):
        return self.outcome is None

    def step(self):
        P = self.S.parser
        if self.api == 'parse':
            it = P.parse(self.text)
        elif self.api == 'iter':
            it = P.parsefrags(f for f in self.frags)
        else:
            it = P.parsefrags(self.frags)

        def go():
            for ev in it:
                self.events.append(ref.ev_norm(self.S, ev))
        k, v = attempt(go)
        self.outcome = 'ok' if k == 'ok' else v
        self.env.log(self.name, self.api, len(self.events), outcome_of(self.outcome))


def run(S, plan, env):
    docs = []
    need(plan['docs'] and plan['feeds'])
    for i, d in enumerate(plan['docs']):
        text, events, _ = load_doc(d)
        if d['dmg']:
            dtext = G.apply_damage(text, d['dmg'])
            # Reference: the same text in one piece
            f = Feed(S, env, [dtext], 1, 'ref%d' % i)
            f.step()
            docs.append((dtext, f.events, outcome_of(f.outcome), True))
            env.probe('damaged-' + outcome_of(f.outcome))
            env.fault('damage', len(d['dmg']))
        else:
            docs.append((text, [e for _, e in events], 'ok', False))
    items = []
    for k, fd in enumerate(plan['feeds']):
        need(isinstance(fd, dict) and isinstance(fd['doc'], int))
        text, _, _, _ = docs[fd['doc'] % len(docs)]
        frags = G.fragments(text, fd['cuts'], fd['emp'])
        if '' in frags:
            env.probe('empty-fragment')
        if len(frags) > 1:
            env.nontrivial = True
            pos = 0
            for f in frags[:-1]:
                pos += len(f)
                classify(text, pos, env)
        if fd['api'] == 'coro':
            it = Feed(S, env, frags, fd['fin'], 'p%d' % k)
        else:
            need(fd['api'] in ('frags', 'iter', 'parse'))
            it = Whole(S, env, text, frags, fd['api'], 'p%d' % k)
        it.doc = docs[fd['doc'] % len(docs)]
        items.append(it)
    if len(items) > 1:
        env.nontrivial = True
        env.probe('interleaved')
    need(all(isinstance(x, int) for x in plan['sched']))
    interleave(env, items, plan['sched'])
    for it in items:
        for ev, n in zip(getattr(it, 'raw', ()), it.events):
            m = ref.ev_norm(S, ev)
            expect(m == n, 'event-changed', lambda: '%s: delivered %s, later it is %s' % (it.name, short(n), short(m)))
        text, events, outcome, damaged = it.doc
        got = outcome_of(it.outcome)
        env.log(it.name, it.events)
        if isinstance(it, Whole) and outcome == 'error' and got == 'error':
            # The generators may give no events at all when the input is bad
            expect(it.events == events[:len(it.events)], 'events', lambda: 'bad input: ' + ref.first_diff(it.events, events))
            continue
        expect(got == outcome, 'outcome', lambda: '%s: %s, expected %s for %s' % (it.name, short(repr(it.outcome)), outcome, short(text, 200)))
        expect(it.events == events, 'events', lambda: '%s on %s: %s' % (it.name, short(text, 200), ref.first_diff(it.events, events)))


def classify(text, pos, env):
    """Reachability probes: what does the cut fall into?"""
    before = text[:pos]
    lt, gt = before.rfind('<'), before.rfind('>')
    amp, semi = before.rfind('&'), before.rfind(';')
    if amp > semi and amp > lt - 1 and amp > gt:
        env.probe('cut-in-reference')
    elif lt > gt:
        tag = before[lt:]
        if tag.count('"') % 2 or tag.count("'") % 2:
            env.probe('cut-in-attribute-value')
        else:
            env.probe('cut-in-name')
    else:
        env.probe('cut-in-text')
