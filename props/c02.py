"""C02: each parser event is delivered by the very fragment which completes it."""
from sim import gen as G, ref
from sim.core import expect, need, short
from .common import Feed, gen_doc, interleave, load_doc

ID = 'C02'
QUICK, THOROUGH, EPOCH = 20000, 200000, 50
RULE = ('A run renders 1-3 generated documents (some damaged), cuts each into fragments and feeds 1-4 parser coroutines in an order drawn from '
        'the seed; after every fragment the events delivered are compared with those complete in the input fed so far. Non-trivial: '
        'at least one cut inside a document. Distinct: by the digest of the whole history of feeds and events.')
REAL = ['amara3.uxml.parser (parser coroutine)']
STUB = ['event handlers (recording coroutines)']
MUST_HIT = ['fragment-with-no-event', 'fragment-with-several-events', 'cut-right-before-completion', 'cut-right-after-completion', 'damaged',
            'interleaved', 'never-finished']


def gen(rng, tier):
    nd = rng.choice([1, 1, 1, 2, 3])
    docs = []
    for _ in range(nd):
        d = gen_doc(rng)
        text = G.render(d['t'], d['lex'])[0]
        d['dmg'] = G.gen_damage(rng, len(text)) if rng.random() < .2 else []
        docs.append(d)
    feeds = []
    for i in range(rng.choice([1, 1, 2, 3, 4])):
        j = rng.randrange(nd) if i else 0
        text, events, _ = G.render(docs[j]['t'], docs[j]['lex'])
        cuts = G.gen_cuts(rng, text)
        if rng.random() < .5:
            # around where events complete
            ends = [o for o, _ in events]
            cuts = cuts + [max(0, rng.choice(ends) + rng.choice([-1, 0, 1])) for _ in range(rng.randint(1, 6))]
        feeds.append({'doc': j, 'cuts': cuts, 'emp': [rng.randint(0, 50) for _ in range(rng.choice([0, 0, 1, 3]))],
                      'stop': rng.randint(1, 12) if rng.random() < .1 else 0, 'fin': rng.randint(0, 1)})
    return {'docs': docs, 'feeds': feeds, 'sched': [rng.randint(0, 59) for _ in range(rng.choice([1, 3, 10, 40]))]}


class Timed(Feed):
    def step(self):
        if self.stop and self.i >= self.stop:
            self.p.close()
            self.outcome = 'stopped'
            self.env.probe('never-finished')
            return
        Feed.step(self)


def run(S, plan, env):
    docs = []
    need(plan['docs'] and plan['feeds'])
    for d in plan['docs']:
        text, events, end = load_doc(d)
        if d['dmg']:
            text = G.apply_damage(text, d['dmg'])
            events = None
            env.fault('damage', len(d['dmg']))
            env.probe('damaged')
        docs.append((text, events))
    items = []
    whole = {}

    def due(it):
        """The events complete in what has been fed"""
        text, events = it.doc
        if events is not None:
            return [e for o, e in events if o <= it.fed]
        # Damaged input: what one fragment of as much gives
        k = (text, it.fed)
        if k not in whole:
            f = Feed(S, env, [text[:it.fed]], 0, 'ref')
            f.step()
            whole[k] = f.events
        return whole[k]

    for k, fd in enumerate(plan['feeds']):
        need(isinstance(fd, dict) and isinstance(fd['doc'], int))
        text, events = docs[fd['doc'] % len(docs)]
        frags = G.fragments(text, fd['cuts'], fd['emp'])
        if len(frags) > 1:
            env.nontrivial = True
        it = Timed(S, env, frags, fd['fin'], 'p%d' % k)
        it.stop = fd['stop']
        it.doc = docs[fd['doc'] % len(docs)]
        it.before = 0
        if events is not None:
            pos, ends = 0, set(o for o, _ in events)
            for f in frags[:-1]:
                pos += len(f)
                if pos in ends:
                    env.probe('cut-right-after-completion')
                if pos + 1 in ends:
                    env.probe('cut-right-before-completion')
        items.append(it)
    if len(items) > 1:
        env.probe('interleaved')

    def each(it):
        want = due(it)
        n = len(it.events) - it.before
        env.probe('fragment-with-no-event' if not n else 'fragment-with-several-events' if n > 1 else 'fragment-with-one-event')
        it.before = len(it.events)
        if len(it.events) < len(want) and it.events == want[:len(it.events)]:
            expect(False, 'late', lambda: '%s after %d of %s: not yet delivered: %s' % (it.name, it.fed, short(it.doc[0], 200), short(want[len(it.events)])))
        if len(it.events) > len(want):
            expect(False, 'early', lambda: '%s after %d of %s: delivered too early or twice: %s' % (
                it.name, it.fed, short(it.doc[0], 200), short(it.events[len(want):])))
        expect(it.events == want, 'events', lambda: '%s after %d of %s: %s' % (it.name, it.fed, short(it.doc[0], 200), ref.first_diff(it.events, want)))
        if it.doc[1] is not None and it.outcome not in ('stopped', 'ok', None):
            expect(False, 'outcome', lambda: '%s: %s on %s' % (it.name, short(repr(it.outcome)), short(it.doc[0], 200)))

    need(all(isinstance(x, int) for x in plan['sched']))
    interleave(env, items, plan['sched'], each)
    for it in items:
        env.log(it.name, it.events)
        # Others being fed later changed nothing
        want = due(it)
        expect(it.events == want, 'events', lambda: '%s at the end: %s' % (it.name, ref.first_diff(it.events, want)))
