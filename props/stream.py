"""Shared by the streaming properties: sinks with behaviours, senders fed step by step."""
import xml.parsers.expat

from sim import gen as G, ref
from sim.core import injected, expect, need, short

ACTIONS = ['hold', 'hold', 'drop', 'drop', 'attach', 'mutate', 'clear', 'detach', 'query', 'rename', 'nest', 'pretty', 'adopt']


def gen_patterns(rng, names, n=None):
    """Patterns over the names of a document"""
    pool = list(names) + ['zz']

    def stage():
        k = rng.random()
        if k < .5:
            return rng.choice(pool)
        if k < .7:
            return '*'
        if k < .88:
            return '**'
        return [rng.choice(pool) for _ in range(rng.randint(1, 3))]
    out = []
    for _ in range(n or (rng.choice([1, 1, 1, 2, 3]) if rng.random() > .05 else rng.choice([5, 6, 9, 12]))):
        k = rng.random()
        if k < .25:
            p = ['**', rng.choice(pool)]
        elif k < .5:
            p = ['*', rng.choice(pool + ['*', '*', '*'])]
        else:
            p = [stage() for _ in range(rng.choice([1, 2, 2, 3, 3, 4, 5]))]
        # What a final '**' would mean is not defined (it raises)
        if p[-1] == '**':
            p.append(rng.choice(pool + ['*']))
        out.append(p)
    if len(out) > 1 and rng.random() < .3:
        out[1] = list(out[0])
    return out


def tree_names(t):
    yield t[0]
    for c in t[2]:
        if not isinstance(c, str):
            yield from tree_names(c)


def check_patterns(ps):
    need(isinstance(ps, list) and ps)
    for p in ps:
        need(isinstance(p, list) and p and p[-1] != '**')
        for s in p:
            need(isinstance(s, str) and s or (isinstance(s, list) and s and all(isinstance(x, str) and x and x[0] != '*' for x in s)))
        # A pattern which is one string is read otherwise by the library
    return [tuple(tuple(s) if isinstance(s, list) else s for s in p) for p in ps]


def tree_events(t, n=None):
    """Reference events of a normal-form tree, with ordinals for offsets"""
    out = []

    def go(t, anc):
        out.append((len(out), ('S', t[0], t[1], anc)))
        for c in t[2]:
            if isinstance(c, str):
                out.append((len(out), ('T', c)))
            else:
                go(c, anc + [t[0]])
        out.append((len(out), ('E', t[0], anc)))
    go(t, [])
    return out


class ObjSink:
    """A sink which is no generator, and so outlives its failures"""
    def __init__(self, sinks, ix):
        self.sinks, self.ix = sinks, ix

    def send(self, e):
        self.sinks.receive(self.ix, e)


class Sinks:
    """The sinks of one sender"""
    def __init__(self, S, env, name, npat, actions, fault=None, nest=None, obj=False):
        self.S, self.env, self.name = S, env, name
        self.actions = actions
        self.fault = fault          # [pattern, ordinal, kind, exception] or None
        self.got = [[] for _ in range(npat)]      # normal forms as delivered
        self.order = []                           # (pattern, ordinal)
        self.held = []                            # [element, its normal form after the sink's action, label]
        self.home = S.tree.element('home')
        self.n = 0
        self.faulted = None
        self.nest = nest
        self.obj = obj
        self.coros = [ObjSink(self, ix) if obj else self.sink(ix) for ix in range(npat)]
        self.on_deliver = None
        self.keep = True
        # Each run of text is one node (HTML trees may have comments between)
        self.merge = name.startswith('h')

    def settle(self):
        """After the harness or a sink has changed trees: what they all look like now"""
        for h in self.held:
            h[1] = ref.norm_elem(self.S, h[0])

    def sink(self, ix):
        while True:
            e = yield
            if self.receive(ix, e) == 'return':
                return
            del e

    def receive(self, ix, e):
        S, env = self.S, self.env
        expect(self.faulted is None, 'delivery-after-fault', lambda: '%s: %r delivered after %s' % (self.name, e, self.faulted))
        expect(isinstance(e, S.tree.element), 'not-an-element', lambda: '%s: %r' % (self.name, e))
        n = ref.norm_elem(S, e, merge=self.merge)
        self.check('at a delivery')
        expect(e.xml_parent is None, 'attached', lambda: '%s: delivered subtree %s has parent %r' % (self.name, short(n), e.xml_parent))
        self.got[ix].append(n)
        self.order.append((ix, len(self.got[ix]) - 1))
        env.log(self.name, 'got', ix, n)
        if self.on_deliver:
            self.on_deliver(ix, n, e)
        a = self.actions[self.n % len(self.actions)] if self.actions else 'drop'
        self.n += 1
        env.probe('sink:' + a)
        self.act(a, e, ix)
        n = None
        if self.fault and self.fault[0] == ix and len(self.got[ix]) == self.fault[1]:
            self.faulted = self.fault[2]
            env.fault('sink-' + self.fault[2])
            env.log(self.name, 'fault', self.fault)
            if self.faulted == 'return':
                self.exc = None
                return 'return'
            self.exc = injected(2 if self.fault[2] == 'raise-base' else (self.fault + [0])[3], 'sink of %s' % self.name)
            raise self.exc

    def act(self, a, e, ix):
        S = self.S
        if a == 'drop':
            return
        if a == 'attach':
            # Into a tree of its own, under an element
            self.home.xml_append(e)
        elif a == 'adopt':
            # Insert among other text of the home tree
            self.home.xml_append('t')
            self.home.xml_insert(e, 0)
        elif a == 'mutate':
            for n in ref.all_nodes(S, e):
                if isinstance(n, S.tree.element):
                    n.xml_attributes['zz'] = 'm'
            e.xml_append('mutated')
        elif a == 'clear':
            e.xml_attributes.clear()
            del e.xml_children[:]
        elif a == 'detach':
            for c in list(e.xml_children):
                e.xml_remove(c)
                if isinstance(c, S.tree.element):
                    self.held.append([c, ref.norm_elem(S, c), 'detached'])
        elif a == 'query':
            list(e.xml_xpath('//*|//@*'))
        elif a == 'rename':
            e.xml_name = 'renamed'
        elif a == 'pretty':
            S.treeutil.make_pretty(e)
        elif a == 'nest':
            if self.nest:
                self.nest()
        if self.keep:
            self.held.append([e, ref.norm_elem(S, e), '%s[%d]' % (self.name, ix)])

    def check(self, when):
        """Nothing which has been delivered changes by itself, and no two deliveries share anything"""
        S = self.S
        seen = {}
        for e, n, label in self.held:
            got = ref.norm_elem(S, e)
            expect(got == n, 'delivered-changed', lambda: '%s: what %s left as %s is now %s' % (when, label, short(n), short(got)))
        home = ref.norm_elem(S, self.home)
        for e, n, label in self.held:
            for x in ref.all_nodes(S, e):
                if isinstance(x, S.tree.element):
                    o = seen.setdefault(id(x.xml_attributes), x)
                    expect(o is x, 'shared-attributes', lambda: '%s: %r and %r share attributes' % (when, o, x))
        return home


def make(S, kind, pats, sinks):
    if len(pats) == 1 and sinks.single and isinstance(pats[0][0], str):     # (else it's read as a tuple of patterns)
        pats, coros = pats[0], sinks.coros[0]
    else:
        coros = list(sinks.coros)
        if sinks.primed:
            pats, coros = tuple(pats), tuple(coros)
            sinks.env.probe('tuples')
    m = {'u': S.treeiter, 'x': S.xmliter, 'h': S.html5iter}[kind]
    if sinks.obj:
        sinks.env.probe('object-sink')
    elif sinks.primed:
        for c in sinks.coros:
            next(c)
        return m.sender(pats, coros, prime_sinks=False)
    return m.sender(pats, coros)


def expat_events(deferral=True):
    """An independent MicroXML event reader over pyexpat: (parser, list of reference events)"""
    p = xml.parsers.expat.ParserCreate(namespace_separator=' ')
    out, stack = [], []

    def ln(n):
        return n.split(' ')[-1]

    def start(n, a):
        out.append(('S', ln(n), {ln(k): v for k, v in a.items()}, list(stack)))
        stack.append(ln(n))

    def end(n):
        stack.pop()
        out.append(('E', ln(n), list(stack)))

    def text(t):
        out.append(('T', t))
    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = start, end, text
    if not deferral and hasattr(p, 'SetReparseDeferralEnabled'):
        p.SetReparseDeferralEnabled(False)
    return p, out


def chunks(data, sizes):
    out, i, k = [], 0, 0
    while i < len(data):
        n = sizes[k % len(sizes)] if sizes else len(data)
        need(isinstance(n, int) and n >= 0)
        n = n or len(data)
        out.append(data[i:i + n])
        i += n
        k += 1
    return out or [data]
