"""C03: every parse terminates, and truncated or damaged input is never passed off as complete."""
import re

from sim import gen as G, ref
from sim.core import BadPlan, SimHang, Violation, expect, need, short
from sim.simio import SimReader, SimWriter
from .common import gen_doc, load_doc

ID = 'C03'
QUICK, THOROUGH, EPOCH = 12000, 120000, 40
RULE = ('A run renders 1-2 generated documents and hands them, cut short at several or all offsets before the end of the document element, torn by '
        'a failing output, or damaged, to parse entry points in an order drawn from the seed, under a budget of monitored branch events. '
        'Non-trivial: at least one cut-short or damaged input was parsed. Distinct: by the digest of the history of inputs and outcomes.')
REAL = ['amara3.uxml.parser', 'amara3.uxml.tree', 'amara3.uxml.xml', 'amara3.uxml.treeiter', 'amara3.uxml.xmliter', 'amara3.uxml.html5',
        'amara3.uxml.uxpath.qquery', 'amara3.uxml.writer', 'exec/microx', 'pyexpat', 'html5lib']
STUB = ['event handlers and sinks', 'source and output file objects']
U_ENTRIES = ['coro', 'coro', 'frags', 'iter', 'parse', 'tree.parse', 'uxml.parse', 'tb', 'tb', 'treeiter', 'treeiter', 'qquery', 'qqueryb', 'events']
X_ENTRIES = ['xml.tb', 'xml.tb', 'xmliter.file', 'microx', 'microx.part']
B_ENTRIES = ['qqueryb', 'xml.tb', 'xmliter.file', 'microx.part']
# Bytes which are not UTF-8 wherever they are put
BADBYTES = [b'\xff', b'\xfe', b'\xc3(', b'\xe2\x82', b'\xc0\x80', b'\xed\xa0\x80', b'\xf8\x88\x80\x80\x80', b'\x80', b'\xf4\x90\x80\x80', b'\xc1\xbf']
H_ENTRIES = ['html5', 'lax', 'html5iter']
MUST_HIT = ['entry:' + e for e in sorted(set(U_ENTRIES + X_ENTRIES + H_ENTRIES))] + [
    'trunc', 'dmg', 'torn', 'badbytes', 'badref-fed', 'badref-whole', 'all-offsets', 'after-error', 'dmg-ok', 'dmg-error', 'whole-ok', 'torn-write'] + ['struct:' + k for k in ('mismatch', 'missing', 'extra', 'no-start', 'after', 'before', 'no-eq', 'no-quote', 'two-eq')]

# Whole references which are malformed, unknown or to a character which MicroXML does not allow
BADREFS = ['&nosuch;', '&#x0;', '&#x1;', '&#xFFFE;', '&#xD800;', '&#x110000;', '&#x;', '&#65;', '&;', '&AMP;', '&ampx;', '&am;', '&#x85;', '&#xFDD0;',
           '&#x1FFFF;', '&#X41;', '&#xD;', '&#x7F;', '&lt lt;', '&#xg;', '&l\u00e9;', '&#x10FFFE;', '&LT;', '&#xDFFF;', '&nbsp;']


# Damages of the structure, any of which leaves the document unbalanced or otherwise not well formed
STRUCT = ['mismatch', 'missing', 'extra', 'no-start', 'after', 'before', 'no-eq', 'no-quote', 'two-eq']
NAMES = ['x', 'bb', 'A', '\u00e9', 'a.b', 'q-1']
JUNK = ['x', '<x></x>', '&amp;', '</x>', '<', '1', '\u00e9', '&#x41;', '<x', '</', '&', '\U0001F600', '\u00a0', '\u3000', ' \u2003\n']
ENDTAG = re.compile(r'<!--.*?-->|<!\[CDATA\[.*?\]\]>|<\?.*?\?>|<!DOCTYPE[^\[>]*(?:\[.*?\])?>|(?P<end></[^>]*>)|(?P<start><(?:[^>"\']|"[^"]*"|\'[^\']*\')*>)', re.S)
ATTR = re.compile(r'[^\s"\'<>=]\s*(?P<eq>=)\s*(?P<v>"[^"]*"|\'[^\']*\')')


def structural(text, end, kind, o, w):
    """text with its structure damaged, or None if there is nothing to damage so"""
    tags = [m for m in ENDTAG.finditer(text) if m.group('end') or m.group('start')]
    ends = [m for m in tags if m.group('end')]
    starts = [m for m in tags if m.group('start')]
    need(kind in STRUCT and 0 <= w < len(NAMES))
    if kind == 'mismatch':
        if not ends:
            return None
        m = ends[o % len(ends)]
        if w % 2:
            # One of those of the deepest elements
            depth, at = 0, {}
            for t in tags:
                if t.group('end'):
                    at[t.start()] = depth
                    depth -= 1
                elif t.group()[-2:] != '/>':
                    depth += 1
            deepest = max(at.values())
            m = [t for t in ends if at[t.start()] >= deepest - 1][o % 2 - 1]
        name = m.group()[2:-1].strip()
        new = [NAMES[w], name + NAMES[w][:1], name[:-1], name + name, name.swapcase(), NAMES[w][:1] + name, name[:-1] + NAMES[w], name.swapcase()][o // 7 % 8]
        if new == name or not new or new[0] in '.-1234567890':
            new = name + 'x'
        return text[:m.start()] + '</' + new + '>' + text[m.end():]
    if kind == 'missing':
        if not ends:
            return None
        m = ends[o % len(ends)]
        return text[:m.start()] + text[m.end():]
    if kind == 'extra':
        if not ends:
            return None
        m = ends[o % len(ends)]
        return text[:m.start()] + m.group() + text[m.start():]
    if kind == 'no-start':
        m = starts[o % len(starts)]
        if m.group()[-2:] == '/>':
            return None
        return text[:m.start()] + text[m.end():]
    if kind == 'after':
        j = JUNK[o % len(JUNK)]
        at = end + (o // 13) % (len(text) - end + 1)
        if text[end:].strip():
            at = end        # not into a comment which follows
        return text[:at] + j + text[at:]
    if kind == 'before':
        return [NAMES[w], NAMES[w], '\u00a0', '\u3000\n', ' \u2003', '.'][o % 6] + text
    attrs = [(m, a) for m in starts for a in ATTR.finditer(text, m.start(), m.end())]
    # '=' within a value may look like that of another attribute
    attrs = [(m, a) for m, a in attrs if not re.search(r'["\'].*["\']', text[m.start():a.start('v')], re.S) and a.group('v').count('=') == 0]
    if not attrs:
        return None
    m, a = attrs[o % len(attrs)]
    if kind == 'no-eq':
        return text[:a.start('eq')] + text[a.end('eq'):]
    if kind == 'two-eq':
        return text[:a.start('eq')] + '=' + text[a.start('eq'):]
    return text[:a.start('v')] + 'v' + text[a.end('v'):]


def gen(rng, tier):
    docs = []
    for _ in range(rng.choice([1, 1, 2])):
        xml = rng.random() < .3
        d = gen_doc(rng, shape=G.Shape(rng, plain=rng.random() < .3, xml=xml, maxn=rng.choice([1, 2, 3, 5, 8, 12]), scale=.12))
        d['xml'] = xml
        docs.append(d)
    ops = []
    for _ in range(rng.choice([1, 2, 2, 3, 4])):
        j = rng.randrange(len(docs))
        xml = docs[j]['xml']
        text = G.render(docs[j]['t'], docs[j]['lex'], xml)[0]
        mode = rng.choice(['trunc'] * 4 + ['dmg'] * 4 + ['torn', 'whole', 'badref', 'badbytes', 'struct', 'struct'])
        ents = H_ENTRIES if mode in ('dmg', 'whole') and rng.random() < .12 else X_ENTRIES if xml or rng.random() < .15 else U_ENTRIES
        if mode == 'badbytes':
            ents = B_ENTRIES[int(xml):]
        op = {'doc': j, 'mode': mode, 'entry': rng.choice(ents), 'cuts': G.gen_cuts(rng, text),
              'sizes': [rng.choice([0, 1, 2, 3, 7, 50]) for _ in range(rng.randint(1, 3))], 'fin': rng.randint(0, 1)}
        if mode == 'trunc':
            op['all'] = int(rng.random() < .3 and len(text) < 220)
            op['offs'] = [] if op['all'] else [rng.randint(0, 100000) for _ in range(rng.randint(1, 6))]
            if rng.random() < .3:
                # around the ends of tags
                special = [i for i, c in enumerate(text) if c in '<>&"\'=/;']
                op['offs'] += [max(0, rng.choice(special) + rng.choice([-1, 0, 0])) for _ in range(3)]
        elif mode == 'badref':
            op['offs'] = [[rng.randint(0, 100000), rng.randint(0, 20), rng.choice(BADREFS) if rng.random() < .5 else rng.choice(' <"\'=/\u00e9-')]
                          for _ in range(rng.randint(1, 4))]
        elif mode == 'badbytes':
            op['offs'] = [[rng.randint(0, 100000), rng.randrange(len(BADBYTES))] for _ in range(rng.randint(1, 4))]
        elif mode == 'struct':
            op['offs'] = [[rng.choice(STRUCT), rng.randint(0, 100000), rng.randrange(len(NAMES))] for _ in range(rng.randint(1, 5))]
        elif mode == 'torn':
            op['offs'] = [rng.randint(0, 100000) for _ in range(rng.randint(1, 4))]
        elif mode == 'dmg':
            op['dmg'] = [G.gen_damage(rng, len(text)) for _ in range(rng.randint(1, 4))]
        ops.append(op)
    return {'docs': docs, 'ops': ops}


class Ctx:
    """What is shared by the operations of a run"""
    def __init__(self, S, env):
        self.S, self.env = S, env
        self.tb = S.tree.treebuilder()
        self.xtb = S.xml.treebuilder()
        self.got = []
        self.ti = S.treeiter.sender(('**', '*'), self.sink())

    def sink(self):
        while True:
            e = yield
            self.got.append(e.xml_name)


def counting(out):
    while True:
        ev = yield
        out.append(ev)


def enter(C, entry, text, op):
    """Parse text through one entry point; returns something, or raises"""
    S, env = C.S, C.env
    frags = G.fragments(text, op['cuts'])
    if entry == 'coro':
        got = []
        p = S.parser.parser(counting(got))
        try:
            for i, f in enumerate(frags):
                p.send((f, bool(op['fin'] and i == len(frags) - 1)))
            if not op['fin']:
                p.send(('', True))
        except StopIteration:
            return 'finished'
        except Exception:
            # A failed parser stays so
            n = len(got)
            env.probe('after-error')
            for _ in range(2):
                try:
                    p.send(('<a>x</a>', True))
                except SimHang:
                    raise
                except Exception:
                    pass
            expect(len(got) == n, 'event-after-error', lambda: 'events %s after the error' % short(got[n:]))
            raise
        p.close()
        return len(got)
    if entry == 'parse':
        return len(list(S.parser.parse(text)))
    if entry == 'frags':
        return len(list(S.parser.parsefrags(frags)))
    if entry == 'iter':
        return len(list(S.parser.parsefrags(iter(frags))))
    if entry == 'events':
        # A consumer which takes the events one by one
        it = S.parser.parse(text)
        n = 0
        for ev in it:
            n += 1
        return n
    if entry == 'tree.parse':
        return S.tree.parse(text)
    if entry == 'uxml.parse':
        return S.uxml.parse(text)
    if entry == 'tb':
        return C.tb.parse(text)
    if entry == 'treeiter':
        return C.ti.parse(text)
    if entry == 'qquery':
        return list(S.uxpath.qquery(text, '/*'))
    if entry == 'qqueryb':
        return list(S.uxpath.qquery(text.encode('utf-8', 'surrogateescape'), '/*'))
    if entry == 'xml.tb':
        return C.xtb.parse(text.encode('utf-8', 'surrogateescape') if op['fin'] or op['mode'] == 'badbytes' else text)
    if entry == 'xmliter.file':
        got = []
        return S.xmliter.sender(('**', '*'), counting(got)).parse_file(SimReader(env, text.encode('utf-8', 'surrogateescape'), op['sizes']))
    if entry == 'microx':
        return S.microx.run('expr', '/*', sources=[SimReader(env, text)], out=SimWriter(env))
    if entry == 'microx.part':
        return S.microx.run('expr', '/*', sources=[SimReader(env, text.encode('utf-8', 'surrogateescape'), op['sizes'])], partition='a', out=SimWriter(env))
    if entry == 'html5':
        return S.html5.parse(text)
    if entry == 'lax':
        return S.html5.parse_lax_xml(text)
    if entry == 'html5iter':
        got = []
        return S.html5iter.sender(('**', 'a'), counting(got)).parse(text)
    raise BadPlan('entry')


REF = re.compile('&#?[0-9a-zA-Z]+;')


def bad_reference(C, text, at, op):
    """It must be reported as soon as the offending character has been fed"""
    p = C.S.parser.parser(counting([]))
    fed = 0
    C.env.probe('badref-fed')
    for f in G.fragments(text, op['cuts']):
        fed += len(f)
        try:
            p.send((f, False))
        except SimHang:
            raise
        except Exception as e:
            C.env.log('badref', type(e).__name__, fed)
            return
        expect(fed <= at, 'unreported', lambda: 'the bad reference at %d was not reported once %d characters of %s had been fed' % (at, fed, short(text)))


def run(S, plan, env):
    need(plan['docs'] and plan['ops'])
    docs = [(load_doc(d, bool(d['xml'])), d) for d in plan['docs']]
    C = Ctx(S, env)
    for op in plan['ops']:
        (text, events, end), d = docs[op['doc'] % len(docs)]
        entry, mode = op['entry'], op['mode']
        need(not (d['xml'] and entry in U_ENTRIES), 'XML only syntax')
        need(entry in U_ENTRIES or entry in X_ENTRIES or entry in H_ENTRIES)
        need(entry not in H_ENTRIES or mode in ('dmg', 'whole'))
        env.probe('entry:' + entry)
        env.probe(mode)
        if mode == 'whole':
            inputs, must_fail, must_pass = [text], False, entry not in X_ENTRIES or d['xml']
        elif mode == 'trunc':
            must_fail, must_pass = True, False
            if op['all']:
                env.probe('all-offsets')
                offs = range(1, end)
            else:
                offs = [1 + o % (end - 1) for o in op['offs']]
            inputs = [text[:o] for o in offs]
        elif mode == 'torn':
            must_fail, must_pass = True, False
            root = S.tree.parse(text) if not d['xml'] else S.xml.treebuilder().parse(text)
            full = SimWriter(env)
            S.writer.write(root, S.writer.raw(full))
            n = full.size
            need(n > 1)
            inputs = []
            for o in op['offs']:
                w = SimWriter(env, fail_at=1 + o % (n - 1), mode='byte', exc=OSError(28, 'No space left on device'))
                try:
                    S.writer.write(root, S.writer.raw(w))
                except OSError:
                    pass
                else:
                    raise Violation('write-error-lost', 'a failing write was not reported')
                inputs.append(w.getvalue())
        elif mode == 'struct':
            must_fail, must_pass = True, False
            inputs = []
            for kind, o, w in op['offs']:
                t = structural(text, end, kind, o, w)
                if t is not None:
                    env.probe('struct:' + kind)
                    inputs.append(t)
        elif mode == 'badbytes':
            need(entry in B_ENTRIES)
            must_fail, must_pass = True, False
            inputs = []
            b = text.encode('utf-8')
            for o, k in op['offs']:
                need(0 <= k < len(BADBYTES))
                at = 1 + o % (len(text[:end].encode('utf-8')) - 1)
                inputs.append((b[:at] + BADBYTES[k] + b[at:]).decode('utf-8', 'surrogateescape'))
        elif mode == 'badref':
            must_fail, must_pass = not d['xml'] and entry in U_ENTRIES, False
            refs = [m.span() for m in REF.finditer(text)] if must_fail else []
            inputs = []
            for o, w, c in op['offs']:
                if c in BADREFS:
                    if refs:
                        a, b = refs[o % len(refs)]
                        env.probe('badref-whole')
                        inputs.append(text[:a] + c + text[b:])
                        bad_reference(C, inputs[-1], a + len(c) - 1, op)
                    continue
                need(c in ' <"\'=/\u00e9-')
                if refs:
                    a, b = refs[o % len(refs)]
                    at = a + 1 + w % (b - a - 1)
                    inputs.append(text[:at] + c + text[at + 1:])
                    bad_reference(C, inputs[-1], at, op)
        else:
            need(mode == 'dmg')
            must_fail, must_pass = False, False
            inputs = [G.apply_damage(text, dm) for dm in op['dmg']]
        for inp in inputs:
            env.log(entry, mode, inp)
            env.step(entry, mode, len(inp))
            if mode != 'whole':
                env.nontrivial = True
                env.fault({'trunc': 'truncation', 'torn': 'torn-document', 'dmg': 'damage', 'badref': 'damage', 'struct': 'structural-damage', 'badbytes': 'encoding-damage'}[mode])
            try:
                r = enter(C, entry, inp, op)
            except (SimHang, Violation, BadPlan):
                raise
            except Exception as e:
                env.log('raised')
                env.probe(mode + '-error')
                expect(not must_pass, 'outcome', lambda: '%s raised %r for %s' % (entry, e, short(inp, 300)))
            else:
                env.log('returned')
                env.probe(mode + '-ok')
                expect(not must_fail, 'truncation-accepted', lambda: '%s returned %s for the cut-short or damaged %s' % (entry, short(repr(r), 100), short(inp, 400)))
