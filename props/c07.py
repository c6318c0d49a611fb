"""C07: streaming delivers each matching subtree once, whole and in order."""
import inspect

from sim import gen as G, mon, ref
from sim.core import BadPlan, SimHang, SimInterrupt, Violation, expect, need, short
from sim.simio import SimReader
from . import stream
from .common import gen_doc, interleave, load_doc

ID = 'C07'
QUICK, THOROUGH, EPOCH = 15000, 120000, 30
RULE = ('A run sets up 1-3 streaming senders (MicroXML, XML or HTML) with 1-3 patterns each, whose sinks hold, drop, attach, change, query or parse, '
        'and feeds each a history of documents (aborted ones included), whole or in pieces or through short reads, interleaved as the seed '
        'says. Non-trivial: at least one subtree was delivered. Distinct: by the digest of the history of feeds and deliveries.')
REAL = ['amara3.uxml.treeiter', 'amara3.uxml.xmliter', 'amara3.uxml.html5iter', 'amara3.uxml.parser', 'amara3.uxml.xml', 'amara3.uxml.html5',
        'pyexpat', 'html5lib']
STUB = ['sinks', 'source file objects']
MUST_HIT = ['tuples'] + ['sink:' + a for a in set(stream.ACTIONS)] + ['kind:u', 'kind:x', 'kind:h', 'x:parse', 'x:file', 'x:str', 'reused', 'reused-after-abort',
                                                         'multi-pattern', 'nested-match', 'interleaved', 'double-star', 'names-stage', 'no-match',
                                                         'both-match', 'short-read', 'object-sink']


def gen(rng, tier):
    senders = []
    for _ in range(rng.choice([1, 1, 2, 3])):
        kind = rng.choice('uuuxxxh')
        jobs = []
        names = []
        # Now and then a long history of small documents
        long = rng.random() < .02
        for _ in range(1 if kind == 'x' else rng.choice([20, 40, 70]) if long else rng.choice([1, 1, 2, 3])):
            job = {'sizes': [rng.choice([0, 1, 2, 3, 5, 17, 100]) for _ in range(rng.randint(1, 3))]}
            if kind == 'h':
                job['html'] = G.gen_html(rng, 10 if not long else 2)
                names += ['html', 'body', 'p', 'b', 'div', 'li', 'td']
            else:
                d = gen_doc(rng, xml=kind == 'x', maxn=rng.choice([1, 3, 5, 8, 12, 20, 30] if not long else [1, 3]), scale=0 if long else .03)
                job['d'] = d
                names += list(stream.tree_names(d['t']))
            if kind != 'x' and rng.random() < .25:
                job['abort'] = rng.choice(['trunc', 'dmg', 'int'] if kind == 'u' else ['int'])
                job['at'] = rng.randint(1, 400)
            job['how'] = rng.choice(['parse', 'parse', 'str', 'file']) if kind == 'x' else 'parse'
            if kind == 'x' and rng.random() < .25:
                job['enc'] = rng.randint(1, 4)
            jobs.append(job)
        names = sorted(set(names))
        senders.append({'kind': kind, 'jobs': jobs, 'pats': stream.gen_patterns(rng, names),
                        'acts': [rng.choice(stream.ACTIONS) for _ in range(rng.choice([1, 1, 2, 4]))],
                        'single': rng.randint(0, 1), 'primed': rng.randint(0, 1), 'obj': int(rng.random() < .2)})
    return {'senders': senders, 'sched': [rng.randint(0, 59) for _ in range(rng.choice([1, 3, 10, 40]))]}


class Stream:
    def __init__(self, S, env, i, p):
        self.S, self.env, self.p = S, env, p
        self.name = '%s%d' % (p['kind'], i)
        need(p['kind'] in ('u', 'x', 'h') and p['jobs'] and (p['kind'] != 'x' or len(p['jobs']) == 1))
        need(all(a in stream.ACTIONS for a in p['acts']))
        self.pats = stream.check_patterns(p['pats'])
        self.sinks = stream.Sinks(S, env, self.name, len(self.pats), p['acts'], nest=self.nest, obj=bool(p['obj']))
        self.sinks.single, self.sinks.primed = p['single'], p['primed']
        self.sender = stream.make(S, p['kind'], self.pats, self.sinks)
        self.ji = 0
        self.pieces = None
        self.aborted = False
        self.running = False
        self.others = []
        env.probe('kind:' + p['kind'])
        if len(self.pats) > 1:
            env.probe('multi-pattern')
        if any('**' in q for q in p['pats']):
            env.probe('double-star')
        if any(isinstance(s, list) for q in p['pats'] for s in q):
            env.probe('names-stage')

    def nest(self):
        """Another parse from within a sink"""
        got = []

        def sink():
            while True:
                got.append(ref.norm_elem(self.S, (yield), merge=False))
        self.S.treeiter.sender(('a', 'b'), sink()).parse('<a><b i="1">x</b><c><b/></c><b></b></a>'.replace('<b/>', '<b></b>'))
        expect(got == [['b', {'i': '1'}, ['x']], ['b', {}, []]], 'nested', lambda: 'a stream started by a sink gave %s' % short(got))
        for o in self.others:
            if o.active() and o.p['kind'] == 'x':
                o.step()
                break

    def active(self):
        return self.ji < len(self.p['jobs']) and not self.running

    def step(self):
        self.running = True
        try:
            self._step()
        finally:
            self.running = False

    def _step(self):
        S, env, kind = self.S, self.env, self.p['kind']
        job = self.p['jobs'][self.ji]
        if self.pieces is None:
            for g in self.sinks.got:
                del g[:]
            del self.sinks.order[:]
            if self.ji:
                env.probe('reused-after-abort' if self.aborted else 'reused')
            self.aborted = False
            if kind == 'h':
                need(isinstance(job['html'], list))
                text = ''.join(job['html'])
                self.events = stream.tree_events(ref.html_tree(S, text))
            else:
                text, self.events, end = load_doc(job['d'], kind == 'x')
            ab = job.get('abort')
            if ab == 'trunc':
                text = text[:1 + job['at'] % max(1, end - 1)]
            elif ab == 'dmg':
                k = job['at'] % len(text)
                text = text[:k] + '<' + text[k:]
            if kind == 'x':
                data = G.xml_str(text, job.get('enc')) if job['how'] == 'str' else G.xml_bytes(text, job.get('enc'))
                self.pieces = [SimReader(env, data, job['sizes'], name=self.name)] if job['how'] == 'file' else stream.chunks(data, job['sizes'])[:400]
                if job['how'] != 'file' and sum(map(len, self.pieces)) < len(data):
                    self.pieces.append(data[sum(map(len, self.pieces)):])
                if job['how'] != 'file' and len(self.pieces) > 1:
                    # The XML parser may put off a token cut at a piece's end until twice as much has come
                    self.pieces.append(' ' * (2 * len(data) + 64) if job['how'] == 'str' else G.spaces(2 * len(data) + 64, data))
                env.probe('x:' + job['how'])
            else:
                self.pieces = [text]
            self.total = len(self.pieces)
        ab = job.get('abort')
        piece = self.pieces.pop(0)
        env.log(self.name, 'feed', '' if kind == 'x' and job['how'] == 'file' else piece)
        outcome = 'ok'
        try:
            if kind == 'x' and job['how'] == 'file':
                self.sender.parse_file(piece)
            elif ab == 'int':
                with mon.interrupt(job['at']):
                    self.sender.parse(piece)
            else:
                self.sender.parse(piece)
        except (SimHang, Violation, BadPlan):
            raise
        except SimInterrupt as e:
            outcome = e
            need(ab == 'int')
            env.fault('interrupt')
        except Exception as e:
            outcome = e
            if ab:
                env.fault(ab)
        del piece
        if outcome != 'ok':
            expect(ab, 'error', lambda: '%s: %r' % (self.name, outcome))
            self.aborted = True
        if not self.pieces or outcome != 'ok':
            # (an interrupt which Python itself dropped, or damage which makes no difference, is no abort)
            self.finish(partial=outcome != 'ok' or ab == 'dmg')
            self.pieces = None
            self.ji += 1
            if ab == 'int' and any(inspect.isgenerator(c) and c.gi_frame is None for c in self.sinks.coros):
                # The interrupt came while a sink was at work, and was the end of it
                self.ji = len(self.p['jobs'])

    def finish(self, partial):
        want = ref.deliveries(self.events, self.p['pats'])
        if want:
            self.env.nontrivial = True
        else:
            self.env.probe('no-match')
        if any(p for p in self.p['pats']) and len(want) < sum(1 for o, e in self.events if e[0] == 'S' and any(
                ref.path_matches(q, e[3] + [e[1]]) for q in self.p['pats'])):
            self.env.probe('nested-match')
        if len(set(o for o, _, _ in want)) < len(want):
            self.env.probe('both-match')
        for ix in range(len(self.pats)):
            w = [t for _, i, t in want if i == ix]
            g = self.sinks.got[ix]
            if partial:
                g = g[:len(w)] if self.p['jobs'][self.ji].get('abort') == 'dmg' else g
                w = w[:len(g)]
                if self.p['jobs'][self.ji].get('abort') == 'dmg':
                    continue
            expect(g == w, 'deliveries', lambda: '%s pattern %s: %s' % (self.name, self.p['pats'][ix], ref.first_diff(g, w)))
        if not partial:
            # Over all patterns too, in the order of their end tags
            offs = {}
            for o, i, t in want:
                offs.setdefault(i, []).append(o)
            seq = [offs[i][n] for i, n in self.sinks.order]
            expect(seq == sorted(seq), 'order', lambda: '%s: delivered out of document order: %s' % (self.name, short(self.sinks.order)))
        self.sinks.check('after a document')


def run(S, plan, env):
    need(plan['senders'])
    items = [Stream(S, env, i, p) for i, p in enumerate(plan['senders'])]
    if len(items) > 1:
        env.probe('interleaved')
    for it in items:
        it.others = [o for o in items if o is not it]
    need(all(isinstance(x, int) for x in plan['sched']))
    interleave(env, items, plan['sched'])
    for it in items:
        it.sinks.check('at the end')
