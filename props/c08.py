"""C08: streaming is timely and keeps what precedes a fault."""
from sim import gen as G, mon, ref
from sim.core import BadPlan, SimExit, injected, SimHang, SimInterrupt, Violation, expect, need, short
from sim.simio import SimReader
from . import stream
from .common import gen_doc, interleave, load_doc, recorder

ID = 'C08'
QUICK, THOROUGH, EPOCH = 14000, 150000, 30
RULE = ('A run streams 1-3 sequences of documents, interleaved piece by piece as the seed says, each with a fault: damage, truncation, a read '
        'which fails, a sink which raises or ends, an interruption at the n-th library line, or none; what the sinks have got is compared '
        'after every piece, and at every read, with what has been completed by then. Non-trivial: a subtree was delivered before a fault. '
        'Distinct: by the digest of the history of feeds, reads, deliveries and faults.')
REAL = ['amara3.uxml.treeiter', 'amara3.uxml.xmliter', 'amara3.uxml.html5iter', 'amara3.uxml.parser', 'amara3.uxml.xml', 'amara3.uxml.html5',
        'pyexpat', 'html5lib']
STUB = ['sinks', 'source file objects', 'the interrupting signal (raised at a monitored line)']
FAULTS = ['dmg', 'trunc', 'read', 'sink', 'int', None]
MUST_HIT = ['kind:u', 'kind:x', 'kind:h', 'x:parse', 'x:file', 'x:str', 'dmg-error', 'dmg-ok', 'truncated', 'read-failed', 'read-failed-base',
            'sink-raise', 'sink-raise-base', 'sink-return', 'interrupted', 'partial-delivery', 'fed-after-fault', 'next-same', 'next-new',
            'timely', 'object-sink', 'html-read-failed', 'sink-failed-at-last', 'midway-delivery']


def gen(rng, tier):
    senders = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice('uuxxxxh')
        jobs = []
        names = []
        long = rng.random() < .01
        for _ in range(rng.choice([1, 1, 2, 3]) if not long else rng.choice([20, 40])):
            how = rng.choice(['parse', 'parse', 'str', 'file']) if kind == 'x' else rng.choice(['parse', 'file', 'file']) if kind == 'h' else 'parse'
            job = {'sizes': [rng.choice([0, 1, 2, 3, 5, 17, 40, 100]) for _ in range(rng.randint(1, 3))], 'how': how}
            if kind == 'x' and rng.random() < .25:
                job['enc'] = rng.randint(1, 4)
            if kind == 'h':
                job['html'] = G.gen_html(rng, 10 if not long else 2)
                names += ['html', 'body', 'p', 'b', 'div', 'li', 'td']
                n = sum(map(len, job['html']))
            else:
                d = gen_doc(rng, xml=kind == 'x', maxn=rng.choice([2, 5, 8, 12, 20, 30] if not long else [2, 3]), scale=0 if long else .03)
                job['d'] = d
                names += list(stream.tree_names(d['t']))
                n = len(G.render(d['t'], d['lex'], kind == 'x')[0])
            f = rng.choice(FAULTS) if not long or rng.random() < .3 else None
            if f == 'read' and how != 'file' or kind == 'h' and f in ('dmg', 'trunc'):
                f = 'sink'
            if f == 'dmg':
                # Mostly late, so that something comes before
                job['dmg'] = G.gen_damage(rng, n)
                for d in job['dmg']:
                    if rng.random() < .5:
                        d[1] = rng.randint(n // 2, n)
            elif f == 'trunc':
                job['trunc'] = rng.randint(1, max(1, n))
            elif f == 'read':
                job['read'] = rng.choice([1, 2, 3, rng.randint(1, 12), rng.randint(1, 60)])
                job['base'] = int(rng.random() < .3)
                job['exc'] = rng.randint(0, 45)
            elif f == 'sink':
                job['sink'] = [rng.randint(0, 2), rng.choice([1, 1, 2, 3, 5]), rng.choice(['raise', 'raise', 'raise-base', 'return']), rng.randint(0, 45)]
            elif f == 'int':
                job['int'] = rng.choice([rng.randint(1, 40), rng.randint(1, 400), rng.randint(1, 60 + 8 * n)])
                job['intat'] = rng.randint(0, 9)
            job['again'] = rng.randint(0, 1) if not long else 1
            jobs.append(job)
        names = sorted(set(names))
        senders.append({'kind': kind, 'jobs': jobs, 'pats': stream.gen_patterns(rng, names),
                        'acts': [rng.choice(['hold', 'hold', 'drop', 'attach', 'clear', 'mutate']) for _ in range(rng.choice([1, 2]))],
                        'single': rng.randint(0, 1), 'primed': rng.randint(0, 1), 'obj': int(rng.random() < .4)})
    return {'senders': senders, 'sched': [rng.randint(0, 59) for _ in range(rng.choice([1, 3, 10, 40]))]}


class Witness:
    """Independent readings of what has been fed of a job: what must have been delivered and what may"""
    def __init__(self, pats, xml, file):
        self.pats = pats
        self.xml, self.file = xml, file
        self.fed, self.lagged = b'', 0
        if xml:
            self.lo, self.lev = stream.expat_events(not file)
            self.hi, self.hev = stream.expat_events(False)
        self.lerr = self.herr = None
        self.refused = False
        self.memo = {}

    def feed(self, piece, final=False):
        low = piece
        if self.file:
            # How long a token cut at the end of a read is put off depends on the parser's buffers: at most until there is twice as much
            self.fed += piece
            n = len(self.fed) if final else max(self.lagged, len(self.fed) // 2 - 64)
            low, self.lagged = self.fed[self.lagged:n], n
        for a, p, piece in (('lerr', self.lo, low), ('herr', self.hi, piece)):
            if getattr(self, a) is None:
                try:
                    p.Parse(piece, final)
                except Exception as e:
                    setattr(self, a, e)
                    self.refused = isinstance(e, UnicodeEncodeError)

    def split(self, evs):
        k = (id(evs), len(evs))
        if k not in self.memo:
            out = [[] for _ in self.pats]
            for _, ix, t in ref.deliveries(list(enumerate(evs)), self.pats):
                out[ix].append(t)
            self.memo[k] = out
        return self.memo[k]

    def bounds(self):
        return self.split(self.lev), self.split(self.hev)


class Stream:
    def __init__(self, S, env, i, p):
        self.S, self.env, self.p = S, env, p
        self.name = '%s%d' % (p['kind'], i)
        need(p['kind'] in ('u', 'x', 'h') and p['jobs'])
        need(all(a in stream.ACTIONS for a in p['acts']))
        self.pats = stream.check_patterns(p['pats'])
        self.sender = None
        self.ji = 0
        self.pieces = None
        self.dead = False         # of the present job: a fault has been met
        env.probe('kind:' + p['kind'])

    def active(self):
        return self.ji < len(self.p['jobs'])

    def start(self, job):
        S, env, kind = self.S, self.env, self.p['kind']
        if self.sender is None or kind == 'x' or not job['again'] or not self.reusable:
            self.sinks = stream.Sinks(S, env, '%s.%d' % (self.name, self.ji), len(self.pats), self.p['acts'], obj=bool(self.p['obj']))
            self.sinks.single, self.sinks.primed = self.p['single'], self.p['primed']
            self.sender = stream.make(S, kind, self.pats, self.sinks)
            if self.ji:
                env.probe('next-new')
        else:
            env.probe('next-same')
            for g in self.sinks.got:
                del g[:]
            del self.sinks.order[:]
            self.sinks.faulted = None
        self.reusable = True
        self.dead = False
        self.before, self.without = [], None
        self.sinks.fault = None
        self.exc = None
        if kind == 'h':
            need(isinstance(job['html'], list))
            text = ''.join(job['html'])
            self.events = [e for e in stream.tree_events(ref.html_tree(S, SimReader(env, text, job['sizes']) if job['how'] == 'file' else text))]
            need('dmg' not in job and 'trunc' not in job)
            end = len(text)
        else:
            text, self.events, end = load_doc(job['d'], kind == 'x')
        self.orig, self.end = text, end
        self.clean = True
        if 'dmg' in job:
            text = G.apply_damage(text, job['dmg'])
            env.fault('damage')
            self.clean = text == self.orig
        elif 'trunc' in job:
            text = text[:1 + job['trunc'] % max(1, len(text))]
            env.fault('truncation')
            self.clean = False
        self.text = text
        # Where the text is no longer the document
        self.good = next((k for k, (a, b) in enumerate(zip(text, self.orig)) if a != b), min(len(text), len(self.orig)))
        if 'sink' in job:
            f = job['sink']
            need(len(f) == 4 and isinstance(f[3], int) and f[2] in ('raise', 'raise-base', 'return') and f[1] >= 1)
            f = [f[0] % len(self.pats), f[1], 'raise' if self.p['obj'] and f[2] == 'return' else f[2], f[3]]
            self.sinks.fault = f
        self.w = Witness(self.p['pats'], kind == 'x', job['how'] == 'file')
        self.whole = None
        if kind == 'x':
            data = G.xml_str(text, job.get('enc')) if job['how'] == 'str' else G.xml_bytes(text, job.get('enc'))
            if job['how'] == 'file':
                self.pieces = [data]
            else:
                self.pieces = stream.chunks(data, job['sizes'])[:60]
                rest = data[sum(map(len, self.pieces)):]
                if rest:
                    self.pieces.append(rest)
            env.probe('x:' + job['how'])
        else:
            self.pieces = [text]
        self.fed = 0

    def step(self):
        S, env, kind = self.S, self.env, self.p['kind']
        job = self.p['jobs'][self.ji]
        if self.pieces is None:
            self.start(job)
        i = self.fed
        self.fed += 1
        piece = self.pieces.pop(0)
        outcome, fired = 'ok', False
        env.log(self.name, 'feed', piece)
        it = mon.interrupt(job['int']) if 'int' in job and not self.dead and (i >= job['intat'] or not self.pieces) else None
        before = [len(g) for g in self.sinks.got]
        was_dead = self.dead
        try:
            try:
                if it:
                    it.__enter__()
                self.feed(job, piece)
            finally:
                if it:
                    it.__exit__()
                    fired = it.fired
        except (SimHang, Violation, BadPlan):
            raise
        except (Exception, SimInterrupt, SimExit, StopIteration) as e:
            outcome = e
        env.log(self.name, type(outcome).__name__)
        if was_dead:
            # More input after the fault
            env.probe('fed-after-fault')
            if was_dead == 'interrupted':
                # Which may have been just after the piece was handled, or just before: still nothing wrong may come
                hi = self.upper()
                w = self.without
                if w:
                    w.feed(piece)
                    other = w.bounds()[1]
                    env.probe('piece-lost', int(any(g != hi[ix][:len(g)] for ix, g in enumerate(self.sinks.got))))
                for ix, g in enumerate(self.sinks.got):
                    expect(g == hi[ix][:len(g)] or w and g == other[ix][:len(g)], 'deliveries', lambda: '%s pattern %s after an interruption: %s' % (
                        self.name, self.p['pats'][ix], ref.first_diff(g, hi[ix])))
            else:
                expect([len(g) for g in self.sinks.got] == before, 'delivery-after-fault', lambda: '%s: delivered after the fault' % self.name)
            self.next(job)
            return
        self.judge(job, outcome, fired and outcome != 'ok')
        if outcome != 'ok':
            # (a piece which cannot be encoded for the XML parser is never part of the stream)
            refused = kind == 'x' and isinstance(outcome, UnicodeEncodeError) and self.w.refused
            self.dead = 'interrupted' if fired or refused else 'fault'
            if (fired or refused) and kind == 'x' and job['how'] != 'file':
                # What comes if the piece had not been handed on
                self.without = Witness(self.p['pats'], True, False)
                for p in self.before:
                    self.without.feed(p)
        self.before.append(piece)
        if outcome != 'ok':
            if not (kind == 'x' and self.pieces and job['how'] != 'file'):
                self.next(job)
        elif not self.pieces:
            self.next(job)

    def next(self, job):
        if not self.p['obj'] and any(c.gi_frame is None for c in self.sinks.coros):
            self.reusable = False       # that sink is finished
        self.sinks.check('after a document')
        self.ji += 1
        self.pieces = None

    def feed(self, job, piece):
        S, env, kind = self.S, self.env, self.p['kind']
        if job['how'] != 'file':
            if kind == 'x' and self.dead in (False, 'interrupted'):
                self.w.feed(piece)
            self.sender.parse(piece)
            return
        need(kind in 'xh')
        exc = injected(2 if job.get('base') else job.get('exc', 1), 'read of %s' % self.name)
        if 'read' in job:
            self.exc = exc
        if kind == 'h':
            r = SimReader(env, piece, job['sizes'], fail_at=job.get('read'), exc=exc, name=self.name)
            self.reader = r
            self.sender.parse(r)
            return
        me = self

        class Reader(SimReader):
            def read(self, n=-1):
                # Whoever reads on has handled what was read before
                me.check_bounds('at read %d' % (self.calls + 1))
                b = SimReader.read(self, n)
                me.w.feed(b, not b)
                return b
        # (what there is to compare at each read of a long document is as long)
        sizes = [max(z, len(piece) // 250) if z and len(piece) > 3000 else z for z in job['sizes']]
        self.reader = Reader(env, piece, sizes, fail_at=job.get('read'), exc=exc, name=self.name)
        self.sender.parse_file(self.reader)

    def check_bounds(self, when, fault=False):
        if self.sinks.faulted:
            return
        lo, hi = self.w.bounds()
        for ix, g in enumerate(self.sinks.got):
            expect(g[:len(lo[ix])] == lo[ix], 'late', lambda: '%s pattern %s %s: completed subtrees not delivered: %s' % (
                self.name, self.p['pats'][ix], when, ref.first_diff(g, lo[ix])))
            expect(g == hi[ix][:len(g)], 'early', lambda: '%s pattern %s %s: delivered what is not completed: %s' % (
                self.name, self.p['pats'][ix], when, ref.first_diff(g, hi[ix])))
        if any(lo) and when[:2] == 'at':
            self.env.probe('timely')

    def judge(self, job, outcome, interrupted):
        """After a piece"""
        S, env, kind = self.S, self.env, self.p['kind']
        got = self.sinks.got
        n = sum(map(len, got))
        err = outcome != 'ok'
        if n and err:
            env.nontrivial = True
            env.probe('partial-delivery')
        if n and not err and self.pieces:
            env.probe('midway-delivery')
        if self.sinks.faulted:
            env.probe('sink-' + self.sinks.faulted)
            expect(err, 'fault-lost', lambda: '%s: a sink failed (%s), but the caller was not told' % (self.name, self.sinks.faulted))
            expect(interrupted or self.sinks.exc is None or outcome is self.sinks.exc, 'other-error', lambda: '%s: a sink raised %r, the caller got %r' % (
                self.name, self.sinks.exc, outcome))
            self.check_sink_fault()
            return
        if interrupted:
            env.fault('interrupt')
            env.probe('interrupted')
            hi = self.upper()
            for ix, g in enumerate(got):
                expect(g == hi[ix][:len(g)], 'deliveries', lambda: '%s pattern %s before an interruption: %s' % (
                    self.name, self.p['pats'][ix], ref.first_diff(g, hi[ix])))
            return
        if 'read' in job and self.reader.failed:
            env.probe('html-read-failed' if kind == 'h' else 'read-failed-base' if job.get('base') else 'read-failed')
            expect(outcome is self.exc, 'other-error', lambda: '%s: a read raised %r, the caller got %r' % (self.name, self.exc, outcome))
            if kind == 'h':
                expect(not n, 'early', lambda: '%s: delivered although the source could not be read' % self.name)
            else:
                self.check_bounds('after the failed read')
            return
        if kind == 'x':
            # Exact but for when the XML parser puts off a token
            expect(not err or self.w.herr, 'spurious-error', lambda: '%s: %r' % (self.name, outcome))
            expect(err or not self.w.lerr, 'error-lost', lambda: '%s: the XML parser says %r, the caller got none' % (self.name, self.w.lerr))
            self.check_bounds('after a piece')
            if 'dmg' in job:
                env.probe('dmg-error' if err else 'dmg-ok')
            if 'trunc' in job:
                env.probe('truncated')
                if job['how'] == 'file' and self.good < self.end:
                    expect(err, 'error-lost', lambda: '%s: truncated document taken as whole' % self.name)
            return
        if kind == 'h':
            expect(not err, 'spurious-error', lambda: '%s: %r' % (self.name, outcome))
            hi = self.upper()
            for ix, g in enumerate(got):
                expect(g == hi[ix], 'deliveries', lambda: '%s pattern %s: %s' % (self.name, self.p['pats'][ix], ref.first_diff(g, hi[ix])))
            return
        # MicroXML: what its parser gives for that text, and at least what ends before the damage
        evs = []
        try:
            p = S.parser.parser(recorder(S, evs))
            p.send((self.text, False))
            p.send(('', True))
            perr = None
        except Exception as e:
            perr = e
        expect(err == (perr is not None), 'error-lost' if perr else 'spurious-error', lambda: '%s on %s: %r, but the parser: %r' % (
            self.name, short(self.text), outcome, perr))
        if self.clean:
            expect(not err, 'spurious-error', lambda: '%s: %r' % (self.name, outcome))
        elif 'trunc' in job and self.good < self.end:
            env.probe('truncated')
            expect(err, 'error-lost', lambda: '%s: truncated document taken as whole' % self.name)
        if 'dmg' in job:
            env.probe('dmg-error' if err else 'dmg-ok')
        hi = self.w.split(evs)
        lo = self.upto(self.good)
        for ix, g in enumerate(got):
            expect(g == hi[ix], 'deliveries', lambda: '%s pattern %s on %s: %s' % (self.name, self.p['pats'][ix], short(self.text), ref.first_diff(g, hi[ix])))
            expect(g[:len(lo[ix])] == lo[ix], 'lost', lambda: '%s pattern %s on %s: ended before the fault, but: %s' % (
                self.name, self.p['pats'][ix], short(self.text), ref.first_diff(g, lo[ix])))

    def upto(self, off):
        out = [[] for _ in self.pats]
        for o, ix, t in ref.deliveries(self.events, self.p['pats']):
            if o <= off:
                out[ix].append(t)
        return out

    def upper(self):
        if self.p['kind'] == 'x':
            return self.w.bounds()[1]
        if self.p['kind'] == 'u':
            if self.clean:
                return self.upto(1 << 60)
            raise BadPlan('both')
        return self.upto(1 << 60)

    def check_sink_fault(self):
        """Everything which ended before the failing delivery has been delivered, nothing after"""
        ix, m = self.sinks.fault[:2]
        if self.p['kind'] == 'x':
            evs = list(enumerate(self.w.hev))
        elif self.clean:
            evs = self.events
        else:
            raise BadPlan('both')
        ds = ref.deliveries(evs, self.p['pats'])
        mine = [o for o, i, _ in ds if i == ix]
        expect(len(mine) >= m, 'early', lambda: '%s: pattern %s has %d matches only' % (self.name, self.p['pats'][ix], len(mine)))
        at = mine[m - 1]
        if m == len(mine):
            self.env.probe('sink-failed-at-last')
        for j, g in enumerate(self.sinks.got):
            must = [t for o, i, t in ds if i == j and (o < at or i == ix and o == at)]
            may = [t for o, i, t in ds if i == j and o <= at]
            expect(g == must or g == may, 'deliveries', lambda: '%s pattern %s up to the failure of the sink: %s' % (
                self.name, self.p['pats'][j], ref.first_diff(g, must)))


def run(S, plan, env):
    need(plan['senders'])
    items = [Stream(S, env, i, p) for i, p in enumerate(plan['senders'])]
    need(all(isinstance(x, int) for x in plan['sched']))
    interleave(env, items, plan['sched'])
