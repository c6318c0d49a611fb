"""C15: each token scan is independent of every other."""
import re
import sys

from sim import gen as G, mon, pristine, ref
from sim.core import SimHang, SimInterrupt, Violation, expect, need, short
from .common import gen_doc

ID = 'C15'
QUICK, THOROUGH, EPOCH = 16000, 300000, 40
RULE = ('A run starts 1-6 token scans (well-formed, cut short, damaged, random, or no text at all) and takes tokens from them in the order which '
        'the seed says, abandoning, interrupting or failing some (the diagnostic output breaking), modifying delivered tokens, with XPath '
        'expressions and documents parsed in between. Non-trivial: two scans were in progress at once or one followed an incomplete one. '
        'Distinct: by the digest of the history.')
REAL = ['amara3.uxml.lex', 'ply.lex', 'amara3.uxml.uxpath.parse', 'amara3.uxml.tree.parse']
STUB = ['sys.stderr', 'the interrupting signal (raised at a monitored line)']
MUST_HIT = ['finished', 'interleaved', 'abandoned-in-tag', 'abandoned-in-attr', 'abandoned', 'interrupted', 'illegal', 'stderr-failed', 'not-text',
            'token-modified', 'xpath-between', 'parse-between', 'bom', 'comment', 'newline', 'pristine', 'empty', 'started-late', 'after-incomplete',
            'long']

N1, NC = '[A-Za-z_\u00e9\u03a9\u540d\ufeff\U0001F600]', '[-.0-9A-Za-z_\u00e9\u03a9\u540d\ufeff\U0001F600]'
NAME = N1 + NC + '*'
WS = '[\t\n ]'
OKCH = '\t\n !-%\'-;=?-~\u00a0-\ud7ff\ue000-\ufdcf\ufdf0-\ufffd' + ''.join('%c-%c' % (0x10000 * i, 0x10000 * i + 0xfffd) for i in range(1, 17))
DATA = [('STARTTAG', '<%s*%s%s*' % (WS, NAME, WS)), ('ENDTAG', '</%s*%s%s*>' % (WS, NAME, WS)), ('NUM_ENT', '&#x[0-9A-Fa-f]+;'),
        ('COMMENT', '<!--[%s]*-->' % OKCH), ('CHARDATA', '[%s]+' % OKCH), ('GT', '>'),
        ('AMP_ENT', '&amp;'), ('LT_ENT', '&lt;'), ('GT_ENT', '&gt;'), ('QUOT_ENT', '&quot;'), ('APOS_ENT', '&apos;')]
ENTS = DATA[6:] + [('NUM_ENT', '&#x[0-9A-Fa-f]+;')]
RULES = {'data': DATA,
         'tag': [('NAME', NAME), ('GT', '>'), ('SGL_QUOTE', "'"), ('DBL_QUOTE', '"'), ('EQ', '=')],
         'attrsgl': [('SGL_QUOTE', "'"), ('CHARDATA', '[%s]+' % OKCH.replace('\t\n ', ' ').replace("'-;", '(-;'))] + ENTS,
         'attrdbl': [('DBL_QUOTE', '"'), ('CHARDATA', '[%s]+' % OKCH.replace('\t\n !-%', ' !#-%'))] + ENTS}
RULES = {k: [(n, re.compile(p)) for n, p in v] for k, v in RULES.items()}


def reference(text):
    """[(type, value, position)], [state after each]"""
    text = text.replace('\r\n', '\n').replace('\r', '\n')
    out, states = [], []
    st, i = 'data', 0
    bad = 0
    while i < len(text):
        for name, rx in RULES[st]:
            m = rx.match(text, i)
            if m:
                break
        else:
            i += 1
            bad += 1
            continue
        v = m.group()
        if name == 'STARTTAG':
            v, st = v[1:].strip(), 'tag'
        elif name == 'ENDTAG':
            v = v[2:-1].strip()
        elif name == 'NUM_ENT':
            v = v[3:-1]
        elif name == 'COMMENT':
            v = v[4:-3]
        elif name == 'GT':
            st = 'data'
        elif name == 'SGL_QUOTE':
            st = 'tag' if st == 'attrsgl' else 'attrsgl'
        elif name == 'DBL_QUOTE':
            st = 'tag' if st == 'attrdbl' else 'attrdbl'
        out.append((name, v, i))
        states.append(st)
        i = m.end()
    return out, states, bad


PIECES = ['<a', '<b ', '< c\n', '>', '</a>', '</ b >', ' k', '=', '"', "'", '"v"', "'v'", 'x="1"', "y='2'", '&amp;', '&lt;', '&gt;', '&quot;', '&apos;',
          '&#x41;', '&#xe9;', '&#65;', '&x;', '&', '<', '<!--c-->', '<!-- - -->', '<!--', 'text', ' ', '\n', '\r\n', '\r', '\t', '\x01', '\x7f', '\ufdd0',
          'é', '\U0001F600', '\ufeff', '/>', '<?p?>', '1', '-', '.', '名', 'a.b-c', '\\', '#', '\x85']


def gen_text(rng):
    k = rng.random()
    if k < .03:
        return ''
    if k < .4:
        d = gen_doc(rng, maxn=rng.choice([1, 3, 6, 20]))
        t = G.render(d['t'], d['lex'])[0]
        # Names as the reference knows them
        t = ''.join(c if c < '\x80' or c in 'éΩ名\U0001F600\u00a0' else 'é' for c in t)
        q = rng.random()
        if q < .3:
            t = t[:rng.randint(0, len(t))]
        elif q < .5:
            t = G.apply_damage(t, G.gen_damage(rng, len(t)))
        if rng.random() < .2:
            i = rng.randint(0, len(t))
            t = t[:i] + rng.choice(PIECES) + t[i:]
        return ''.join(c if c < '\x80' or c in 'éΩ名\U0001F600\u00a0\ufeff\ufdd0\x85' else 'é' for c in t)
    if k < .42:
        # Of everything many different ones, and then some of them again
        n, f = rng.choice([45, 130, 260]), rng.choice(['<n%d>', '<n%d k%d="v%d">t%d', '</n%d>', '&#x%x;', '<!--c%d-->', '<n k="&#x%x;b%d"', "<n%d k='"])
        return ''.join(f.replace('%x', '%x' % (i + 32)).replace('%d', '%d' % i) for i in list(range(n)) + [rng.randrange(n) for _ in range(9)])
    if k < .46:
        return rng.choice(['x', '<a>', '&amp;', '"', '<b k="', "<b k='v' "]) * rng.choice([200, 2000])
    return ''.join(rng.choice(PIECES) for _ in range(rng.choice([1, 3, 6, 12, 30])))


def gen(rng, tier):
    scans = []
    for _ in range(rng.choice([1, 2, 2, 3, 4, 6])):
        s = {'t': gen_text(rng)}
        if rng.random() < .03:
            s['t'] = None
        q = rng.random()
        if q < .2:
            s['drop'] = [rng.choice([0, 1, 2, 3, rng.randint(0, 30)]), rng.randint(0, 1)]
        elif q < .3:
            s['int'] = [rng.choice([0, 1, rng.randint(0, 10)]), rng.randint(1, 12)]
        s['mod'] = int(rng.random() < .2)
        scans.append(s)
    if rng.random() < .3:
        scans[-1]['t'] = scans[0]['t']
    return {'scans': scans, 'sched': [rng.randint(0, 59) for _ in range(rng.choice([1, 3, 10, 40]))], 'burst': rng.choice([1, 1, 2, 10]),
            'stderr': rng.choice([0, 0, 0, 1, 2, 5]), 'other': rng.choice([0, 0, 3, 7]), 'late': rng.randint(0, 3), 'fresh': int(rng.random() < .15)}


class Diag:
    """Diagnostic output, which may break"""
    def __init__(self, env, fail_at):
        self.env, self.left = env, fail_at
        self.exc = OSError(32, 'Broken pipe')

    def write(self, s):
        if self.left:
            self.left -= 1
            if not self.left:
                self.env.fault('write-error')
                raise self.exc
        return len(s)

    def flush(self):
        pass


def answer(S, text):
    mon.begin(8000000 + 100 * len(repr(text)))
    return [[t.type, t.value, t.lexpos] for t in S.lex.run(text)]


def run(S, plan, env):
    need(isinstance(plan, dict) and isinstance(plan.get('scans'), list) and plan['scans'] and isinstance(plan.get('sched'), list) and plan['sched'])
    need(all(isinstance(plan.get(k), int) for k in ('burst', 'stderr', 'other', 'late', 'fresh')) and plan['burst'] > 0)
    pristine.begin(lambda q: answer(S, q))
    live = []
    todo = []
    for n, s in enumerate(plan['scans']):
        need(isinstance(s, dict) and (s.get('t') is None or isinstance(s['t'], str)))
        t = s['t']
        exp, states, bad = reference(t) if t is not None else ([], [], 0)
        if bad:
            env.probe('illegal', bad)
        if t is not None:
            for what, c in (('bom', '\ufeff'), ('comment', '<!--'), ('newline', '\r')):
                if c in t:
                    env.probe(what)
            if not t:
                env.probe('empty')
            if len(exp) > 500:
                env.probe('long')
        todo.append({'n': n, 's': s, 'exp': exp, 'states': states, 'got': 0, 'it': None, 'toks': []})
    diag = Diag(env, plan['stderr'])
    old = sys.stderr
    sys.stderr = diag
    incomplete = False
    step = 0
    try:
        while todo or live:
            if todo and (not live or step % (plan['late'] + 1) == 0):
                sc = todo.pop(0)
                if step:
                    env.probe('started-late')
                if incomplete:
                    env.probe('after-incomplete')
                    env.nontrivial = True
                sc['it'] = S.lex.run(sc['s']['t'])
                live.append(sc)
            sc = live[plan['sched'][step % len(plan['sched'])] % len(live)]
            step += 1
            env.step(sc['n'])
            s, exp = sc['s'], sc['exp']
            if plan['other'] and step % plan['other'] == 0:
                between(S, env, step)
            for _ in range(plan['burst']):
                if 'drop' in s and sc['got'] >= s['drop'][0]:
                    live.remove(sc)
                    incomplete = True
                    env.fault('abandoned-scan')
                    env.probe('abandoned')
                    if sc['got'] and sc['states'][sc['got'] - 1] != 'data':
                        env.probe('abandoned-in-tag' if sc['states'][sc['got'] - 1] == 'tag' else 'abandoned-in-attr')
                    if s['drop'][1]:
                        sc['it'].close()
                    sc['it'] = None
                    break
                try:
                    if 'int' in s and sc['got'] == s['int'][0]:
                        with mon.interrupt(s['int'][1]):
                            tok = next(sc['it'])
                    else:
                        tok = next(sc['it'])
                except StopIteration:
                    live.remove(sc)
                    expect(sc['got'] == len(exp), 'tokens', lambda: 'scan of %s ended after %d tokens, expected %s next' % (
                        short(s['t']), sc['got'], exp[sc['got']]))
                    expect(s['t'] is not None, 'tokens', 'no text at all was scanned without an error')
                    env.probe('finished')
                    env.log('end', sc['n'])
                    break
                except SimInterrupt:
                    live.remove(sc)
                    incomplete = True
                    env.probe('interrupted')
                    env.fault('interrupt')
                    env.log('interrupted', sc['n'])
                    break
                except OSError as e:
                    expect(e is diag.exc, 'error', lambda: 'a scan raised %r' % e)
                    live.remove(sc)
                    incomplete = True
                    env.probe('stderr-failed')
                    env.log('stderr', sc['n'])
                    break
                except (SimHang, Violation):
                    raise
                except Exception as e:
                    expect(s['t'] is None, 'error', lambda: 'scan of %s raised %r' % (short(s['t']), e))
                    live.remove(sc)
                    env.probe('not-text')
                    env.fault('not-text')
                    incomplete = True
                    break
                got = (tok.type, tok.value, tok.lexpos)
                env.log(sc['n'], *got)
                i = sc['got']
                expect(i < len(exp), 'tokens', lambda: 'scan of %s gave %s after the end' % (short(s['t']), got))
                expect(got == exp[i], 'tokens', lambda: 'scan of %s: token %d is %s, expected %s' % (short(s['t']), i, got, exp[i]))
                sc['got'] += 1
                for tk, was in sc['toks'][-3:]:
                    expect((tk.type, tk.value, tk.lexpos) == was, 'token-changed', lambda: 'token %s delivered before became %s' % (was, tk))
                if s.get('mod'):
                    env.probe('token-modified')
                    tok.value = 'changed'
                    tok.type = 'X'
                    tok.lexpos = -5
                else:
                    sc['toks'].append((tok, got))
                if len(live) > 1:
                    env.probe('interleaved')
                    env.nontrivial = True
        if plan['fresh']:
            # The same again, now and in a process which made no scan before
            for s in plan['scans']:
                if isinstance(s['t'], str) and len(s['t']) < 2000:
                    sys.stderr = Diag(env, 0)
                    env.probe('pristine')
                    got = [[t.type, t.value, t.lexpos] for t in S.lex.run(s['t'])]
                    exp = pristine.ask(s['t'])
                    expect(got == exp, 'history', lambda: 'scan of %s: %s, which is what the first scan ever gives' % (short(s['t']), ref.first_diff(got, exp)))
    finally:
        sys.stderr = old


def between(S, env, n):
    """Something else which uses a scanner of the same kind"""
    if n % 2:
        env.probe('xpath-between')
        e = S.uxpath.parse('//a[@k="v"]|b')
        got = S.xast.serialize(e).replace(' ', '')
        expect(got == '//child::a[@k=v]|child::b', 'other', lambda: 'XPath parsed as %s' % got)
    else:
        env.probe('parse-between')
        t = S.tree.parse('<a k="v">x</a>')
        expect(ref.norm_elem(S, t) == ['a', {'k': 'v'}, ['x']], 'other', 'parse between')
