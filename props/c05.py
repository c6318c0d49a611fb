"""C05: a parse's result depends only on its input, not on earlier parses."""
from sim import gen as G, mon, ref
from sim.core import BadPlan, SimHang, SimInterrupt, Violation, expect, need, short
from .common import attempt, gen_doc, load_doc

ID = 'C05'
QUICK, THOROUGH, EPOCH = 12000, 100000, 25
RULE = ('A run is a history of 2-12 parses over shared MicroXML and XML tree builders and the module-level MicroXML and HTML entry points, with '
        'good, damaged, truncated and interrupted (at the n-th library line) parses and changes made to returned trees in between; after '
        'every one all trees held are compared with their models. Non-trivial: a good parse follows another on the same entry point. '
        'Distinct: by the digest of the history.')
REAL = ['amara3.uxml.tree', 'amara3.uxml.parser', 'amara3.uxml.xml', 'amara3.uxml.html5', 'amara3.uxml.uxpath.qquery', 'pyexpat', 'html5lib']
STUB = ['the interrupting signal (raised at a monitored line)']
ENTRIES = ['tb0', 'tb0', 'tb1', 'tree.parse', 'uxml.parse', 'uxml.parse', 'xtb0', 'xtb0', 'xtb1', 'html', 'lax', 'qquery']
MUST_HIT = ['entry:' + e for e in set(ENTRIES)] + ['interrupted', 'interrupt-late', 'damaged-error', 'damaged-ok', 'truncated', 'good-after-error',
                                                   'good-after-interrupt', 'tree-changed', 'tree-dropped']


def gen(rng, tier):
    docs = []
    # Now and then a long history of small documents, mostly with the same builder
    long = rng.random() < .02
    for _ in range(rng.choice([1, 2, 2, 3])):
        xml = rng.random() < .4
        d = gen_doc(rng, xml=xml, maxn=rng.choice([1, 2, 4, 6, 10]) if not long else 2, scale=0 if long else .03)
        d['xml'] = xml
        docs.append(d)
    hdocs = [G.gen_html(rng, 8) for _ in range(2)]
    pool = [rng.choice(ENTRIES) for _ in range(rng.choice([1, 2, 3]))]
    ops = []
    for _ in range(rng.randint(2, 12) if not long else rng.choice([20, 40, 70, 140])):
        k = rng.random()
        if k < .12:
            ops.append({'op': rng.choice(['change', 'drop']), 'tree': rng.randint(0, 20), 'how': rng.randint(0, 5)})
            continue
        e = rng.choice(pool)
        j = rng.randrange(len(hdocs) if e == 'html' else len(docs))
        op = {'op': 'parse', 'entry': e, 'doc': j, 'bytes': rng.choice([0, 0, 0, 1, 1, 1, 2, 3, 4, 5])}
        if not op['bytes']:
            op['decl'] = rng.choice([0, 0, 0, 1, 2, 3, 4])
        if e == 'html':
            n = sum(map(len, hdocs[j]))
        else:
            d = docs[j]
            n = len(G.render(d['t'], d['lex'], d['xml'])[0])
        m = rng.random() if not long else rng.choice([1, 1, 1, 1, rng.random()])
        if m < .2:
            op['int'] = rng.choice([rng.randint(1, 30), rng.randint(1, 400), rng.randint(1, 60 + 12 * n)])
        elif m < .35:
            op['dmg'] = G.gen_damage(rng, n)
        elif m < .5:
            op['trunc'] = rng.randint(1, max(1, n))
        ops.append(op)
    return {'docs': docs, 'html': hdocs, 'ops': ops}


def run(S, plan, env):
    need(plan['ops'])
    tbs = {'tb0': S.tree.treebuilder(), 'tb1': S.tree.treebuilder(), 'xtb0': S.xml.treebuilder(), 'xtb1': S.xml.treebuilder()}
    docs = [(load_doc(d, bool(d['xml'])), d) for d in plan['docs']]
    for h in plan['html']:
        need(isinstance(h, list) and all(isinstance(x, str) for x in h))
    held = []      # [tree, model, label]
    base = {}

    def norm_any(t, merge=True):
        if t is None:
            return None
        if isinstance(t, S.tree.element):
            expect(t.xml_parent is None, 'parent-link', lambda: 'the top of a parsed tree has parent %r' % (t.xml_parent,))
            return ref.norm_elem(S, t, merge=merge)
        return t.xml_value

    def expected(op):
        """('ok', normal form) or ('err',): what the input gives by itself"""
        e = op['entry']
        if e == 'html':
            need(plan['html'])
            text = ''.join(plan['html'][op['doc'] % len(plan['html'])])
            well = False
        else:
            need(docs)
            (text, events, end), d = docs[op['doc'] % len(docs)]
            well = True
            if d['xml'] and e not in ('xtb0', 'xtb1', 'lax'):
                well = False
            if not d['xml'] and e in ('xtb0', 'xtb1'):
                well = False
        if 'dmg' in op:
            text = G.apply_damage(text, op['dmg'])
            well = False
            env.fault('damage')
        elif 'trunc' in op:
            n = op['trunc'] % (len(text) + 1)
            text = text[:n]
            env.fault('truncation')
            env.probe('truncated')
            well = False
        if e == 'html':
            if op['bytes']:
                text = text.encode('utf-8', 'replace')
            return text, ('ok', ref.html_tree(S, text))
        if e == 'lax':
            t = ref.html_tree(S, text)
            if len(t[2]) == 2 and t[2][1][0] == 'body' and t[2][1][2] and not isinstance(t[2][1][2][0], str) and '<!' not in text and '<?' not in text:
                return text, ('ok', t[2][1][2][0])
            # Text or a comment comes first: no more is known than what the same parse gives by itself
            k = (text, 'lax')
            if k not in base:
                r = attempt(lambda: norm_any(S.html5.parse_lax_xml(text)))
                base[k] = ('ok', r[1]) if r[0] == 'ok' else ('err',)
            return text, base[k]
        if well:
            return text, ('ok', G.norm(d['t']))
        k = (text, e[0] == 'x')
        if k not in base:
            r = attempt(lambda: norm_any((S.xml if k[1] else S.tree).treebuilder().parse(text), merge=False))
            base[k] = ('ok', r[1]) if r[0] == 'ok' else ('err',)
        return text, base[k]

    # The bases of comparison first, each with a builder of its own
    todo = []
    for op in plan['ops']:
        if op['op'] == 'parse':
            need(op['entry'] in ENTRIES and isinstance(op['doc'], int))
            todo.append(expected(op))
        else:
            todo.append(None)

    def check_held(when):
        nodes, dicts = {}, {}
        for t, model, label in held:
            got = norm_any(t)
            expect(got == model, 'tree-changed', lambda: '%s: tree of %s is %s, expected %s' % (when, label, short(got), short(model)))
            if not isinstance(t, S.tree.element):
                continue
            for n in ref.all_nodes(S, t):
                o = nodes.setdefault(id(n), label)
                expect(o is label, 'shared-node', lambda: '%s: %s and %s share %r' % (when, o, label, n))
                if isinstance(n, S.tree.element):
                    for x in (n.xml_attributes, n.xml_children):
                        o = dicts.setdefault(id(x), n)
                        expect(o is n, 'shared-attributes', lambda: '%s: %r and %r share a mapping or list' % (when, o, n))

    def parse(e, text, op):
        if e in tbs:
            return tbs[e].parse(G.xml_bytes(text, op['bytes'] - 1) if e[0] == 'x' and op['bytes'] else G.xml_str(text, op.get('decl', 0)) if e[0] == 'x' else text)
        if e == 'tree.parse':
            return S.tree.parse(text)
        if e == 'uxml.parse':
            return S.uxml.parse(text)
        if e == 'html':
            return S.html5.parse(text)
        if e == 'lax':
            return S.html5.parse_lax_xml(text)
        r = list(S.uxpath.qquery(text, '/*'))
        return r[0] if r else None

    last = {}
    for i, op in enumerate(plan['ops']):
        env.step(op['op'], op.get('entry'), 'int' in op, 'dmg' in op, 'trunc' in op)
        if op['op'] == 'drop':
            if held:
                env.probe('tree-dropped')
                del held[op['tree'] % len(held)]
        elif op['op'] == 'change':
            if not held:
                continue
            h = held[op['tree'] % len(held)]
            t = h[0]
            if isinstance(t, S.tree.element):
                env.probe('tree-changed')
                how = op['how']
                if how == 0:
                    t.xml_attributes['zz'] = 'changed'
                elif how == 1:
                    t.xml_attributes.clear()
                elif how == 2:
                    t.xml_append('changed')
                elif how == 3:
                    del t.xml_children[:]
                elif how == 4:
                    for n in ref.all_nodes(S, t):
                        if isinstance(n, S.tree.element):
                            n.xml_attributes['deep'] = 'x'
                else:
                    t.xml_name = 'changed'
                h[1] = norm_any(t)
        else:
            need(op['op'] == 'parse')
            e = op['entry']
            text, want = todo[i]
            env.probe('entry:' + e)
            label = '%d:%s' % (i, e)
            env.log('parse', e, text, op.get('int'))
            fired = False
            try:
                if op.get('int'):
                    with mon.interrupt(op['int']) as it:
                        r = 'ok', parse(e, text, op)
                else:
                    r = 'ok', parse(e, text, op)
            except SimInterrupt as x:
                r = 'int', x
            except (SimHang, Violation, BadPlan):
                raise
            except Exception as x:
                r = 'err', x
            if op.get('int'):
                fired = it.fired
            if fired:
                env.fault('interrupt')
                env.probe('interrupted')
                if op['int'] > 100:
                    env.probe('interrupt-late')
            if fired and r[0] != 'ok':
                last[e] = 'interrupt'
            else:
                # (Python drops an interrupt which comes while a generator is finalised: the result must be right then)
                env.log(r[0])
                if e in last:
                    env.nontrivial = True
                    if r[0] == 'ok' and last[e] == 'err':
                        env.probe('good-after-error')
                    if r[0] == 'ok' and last[e] == 'interrupt':
                        env.probe('good-after-interrupt')
                if 'dmg' in op:
                    env.probe('damaged-ok' if r[0] == 'ok' else 'damaged-error')
                last[e] = r[0]
                expect(r[0] == want[0], 'outcome', lambda: '%s on %s: %s %s, expected %s' % (label, short(text, 200), r[0], short(repr(r[1]), 150), short(want, 300)))
                if r[0] == 'ok':
                    got = norm_any(r[1], merge=e in ('html', 'lax'))
                    env.log(got)
                    expect(got == want[1], 'tree', lambda: '%s on %s gave %s, expected %s' % (label, short(text, 200), short(got), short(want[1])))
                    if r[1] is not None:
                        held.append([r[1], want[1], label])
        check_held('after %d' % i)
