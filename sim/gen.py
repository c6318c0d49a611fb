"""Generators of documents, cut points and damages.  Everything is made from a random.Random only."""
import random

from .core import BadPlan, need

NAMES = ['a', 'b', 'c', 'x', 'y', 'item', 'spam', 'eggs', 'a1', '_x', 'Foo', 'a-b', 'c.d', 'div', 'or', 'text']
UNAMES_XML = ['é', 'Ωmega', '名前', 'été2']
UNAMES = UNAMES_XML + ['x\u00b7y', '\U00010400q', 'q\U000e0041', 'ǅ', '\u3001z']
ANAMES = ['id', 'class', 'k', 'x', 'y', 'href', 'data-x', 'a', 'n.1', '_k']

TEXT_BITS = ['a', 'b', 'text', 'x y', '1', '42', '3.5', ' ', '  ', '\n', '\t', '\n  ', '<', '>', '&', '"', "'", ']]>', '-->',
             'é', '\u00a0', '\u2028', '\U0001F600', '\ufffd', 'e\u0301', '&lt;', '&#10;', '&amp;', '%', '=', '/', '#', ';', '{}',
             '\\n', '\\', '</a>', '<a>', '\u0660', '\ud7ff', '\ue000', '\U0010fffd',
             '<![CDATA[x]]>', '<!-- c -->', '<?pi x?>', '<a/>', '&#x41;', '\u3000', '\u2003']
PLAIN_BITS = ['a', 'b', 'text', 'x', '1', '42', 'y z', '.', 'Q']


def gen_text(rng, plain=False, big=0.02):
    bits = PLAIN_BITS if plain else TEXT_BITS
    if rng.random() < big:
        return rng.choice(['x', 'ab ', 'é&', '<>']) * rng.choice([50, 200, 1000])
    return ''.join(rng.choice(bits) for _ in range(rng.choice([1, 1, 1, 2, 2, 3, 5])))


class Shape:
    """Swarm: what kind of trees a run uses"""
    def __init__(self, rng, plain=False, xml=False, names=None, maxn=None, scale=.03, small=False):
        """scale: how often a tree has one thing in unusual quantity; small: less of it"""
        self.plain = plain
        self.scale = scale
        self.small = small
        self.big = 0 if small else .02
        k = rng.randint(2, 5)
        if names is None:
            pool = list(NAMES)
            if rng.random() < .4:
                pool = pool + (UNAMES_XML if xml else UNAMES) * 2
            names = [rng.choice(pool) for _ in range(k)]
        self.names = names
        self.anames = [rng.choice(ANAMES + ([] if plain else UNAMES_XML)) for _ in range(rng.randint(1, 4))]
        self.n = maxn or rng.choice([1, 2, 3, 4, 6, 8, 8, 12, 20, 40])
        self.style = rng.choice(['mixed', 'mixed', 'mixed', 'deep', 'wide', 'texty', 'sparse'])
        self.pattr = rng.choice([0, .2, .5, .9])
        self.ptext = {'texty': .9, 'sparse': .1}.get(self.style, rng.choice([.3, .6]))


def gen_tree(rng, shape):
    budget = [shape.n]

    def attrs():
        out = []
        if rng.random() < shape.pattr:
            for _ in range(rng.choice([1, 1, 2, 3])):
                k = rng.choice(shape.anames)
                if k not in [a for a, _ in out]:
                    out.append([k, '' if rng.random() < .1 else gen_text(rng, shape.plain, shape.big / 2)])
        return out

    def elem(depth):
        budget[0] -= 1
        ch = []
        e = [rng.choice(shape.names), attrs(), ch]
        if rng.random() < shape.ptext:
            ch.append(gen_text(rng, shape.plain, shape.big))
        if shape.style == 'deep':
            nkids = 1 if depth < 30 else 0
        elif shape.style == 'wide':
            nkids = budget[0] if depth == 0 else rng.choice([0, 0, 1])
        else:
            nkids = rng.choice([0, 1, 1, 2, 2, 3, 4]) if depth else rng.choice([1, 2, 3, 4, 5])
        for _ in range(nkids):
            if budget[0] <= 0:
                break
            ch.append(elem(depth + 1))
            if rng.random() < shape.ptext:
                ch.append(gen_text(rng, shape.plain, shape.big))
        return e

    t = elem(0)
    if rng.random() < shape.scale:
        enlarge(rng, shape, t)
    return t


def enlarge(rng, shape, t):
    all_ = [t]
    for e in all_:
        all_.extend(c for c in e[2] if not isinstance(c, str))
    e = rng.choice(all_)
    what = rng.choice(['attrs', 'deep', 'wide', 'text', 'text', 'attr', 'name', 'names', 'wrap', 'wrap'])
    if what == 'attrs':
        e[1][:] = [['k%d' % i if i else 'k', str(i)] for i in range(rng.choice([5, 10, 17, 33, 65]))]
    elif what == 'deep':
        for i in range(rng.choice([20, 40]) if shape.small else rng.choice([40, 70, 140])):
            c = [rng.choice(shape.names), [], ['t%d' % i] if rng.random() < .1 else []]
            e[2].append(c)
            e = c
    elif what == 'wide':
        for i in range(rng.choice([20, 40]) if shape.small else rng.choice([40, 130, 300, 300, 1100] + ([2300] if rng.random() < .3 else []))):
            e[2].append([rng.choice(shape.names), [], [str(i)] if i % 3 else []])
            if i % 7 == 0:
                e[2].append('w%d' % i)
    elif what == 'wrap':
        # The whole tree deep within elements of another name
        for i in range(rng.choice([20, 40]) if shape.small else rng.choice([20, 40, 70, 140])):
            t[:] = ['wrap', [], [t[:]]]
    elif what == 'names':
        # Of everything many different ones, and then some of them again
        n = rng.choice([20, 40] if shape.small else [70, 140, 300])
        for i in list(range(n)) + [rng.randrange(n) for _ in range(9)]:
            e[2].append(['n%d' % i, [['m%d' % i, 'v%d' % i]] if i % 2 else [], ['t%d' % i]])
    elif what == 'name':
        e[0] = e[0] + 'n' * rng.choice([40, 100, 260]) if e[0].isascii() else e[0]
    else:
        n = rng.choice([300, 1100] if shape.small else [1100, 2100, 4100, 8200, 16400, 33000, 66000] + ([132000] if rng.random() < .3 else []))
        unit = rng.choice(['0123456789', 'abc ', 'x', 'line\n', 'a<b&c ', '\u00e9', '\U0001F600'])
        v = (unit * (n // len(unit) + 1))[:n + rng.choice([-1, 0, 0, 1])]
        if what == 'attr':
            e[1][:] = [a for a in e[1] if a[0] != 'k'] + [['k', v]]
        else:
            e[2].insert(rng.randint(0, len(e[2])), v)


def check_tree(t, depth=0):
    """Trees in plans edited by the minimiser must still be trees"""
    need(isinstance(t, list) and len(t) == 3 and isinstance(t[0], str) and t[0] and depth < 400, 'tree')
    need(t[0] in _OKNAMES or _okname(t[0]), 'name')
    need(isinstance(t[1], list) and isinstance(t[2], list), 'tree')
    seen = set()
    for a in t[1]:
        need(isinstance(a, list) and len(a) == 2 and isinstance(a[0], str) and isinstance(a[1], str), 'attr')
        need(a[0] not in seen and (a[0] in _OKNAMES or _okname(a[0])), 'attr name')
        seen.add(a[0])
    for c in t[2]:
        if isinstance(c, str):
            continue
        check_tree(c, depth + 1)
    return t


_OKNAMES = set(['wrap'] + NAMES + UNAMES + ANAMES + UNAMES_XML)


def _okname(s):
    return s.isascii() and (s[0].isalpha() or s[0] == '_') and all(c.isalnum() or c in '-._' for c in s)


def merged(children):
    """Children with adjacent text joined and empty text dropped"""
    out = []
    for c in children:
        if isinstance(c, str):
            if not c:
                continue
            if out and isinstance(out[-1], str):
                out[-1] += c
            else:
                out.append(c)
        else:
            out.append(c)
    return out


def norm(t):
    """Normal form for comparison: [name, {attrs}, [children]]"""
    return [t[0], dict((k, v) for k, v in t[1]), [c if isinstance(c, str) else norm(c) for c in merged(t[2])]]


NAMED = {'<': '&lt;', '>': '&gt;', '&': '&amp;', '"': '&quot;', "'": '&apos;'}


def _ref(c, lr):
    if lr is None or (c in NAMED and lr.random() < .6):
        if c in NAMED:
            return NAMED[c]
        return '&#x%X;' % ord(c)
    h = ('%x' if lr.random() < .5 else '%X') % ord(c)
    return '&#x%s%s;' % ('0' * lr.choice([0, 0, 0, 1, 3]), h)


def _text(s, lr, ent=None, eol=None):
    """ent: an entity with the value 'text' has been declared; eol: other line ends, for XML"""
    if ent and 'text' in s:
        parts = s.split('text')
        out = [_text(parts[0], lr, eol=eol)]
        for x in parts[1:]:
            out.append('&ent;' if lr.random() < .5 else 'text')
            out.append(_text(x, lr, eol=eol))
        return ''.join(out)
    out = []
    for i, c in enumerate(s):
        if c in '<>&':
            out.append(_ref(c, lr))
        elif lr is not None and lr.random() < .06:
            out.append(_ref(c, lr))
        elif c == '\n' and eol:
            # A carriage return right before a line feed is not a line end of its own
            out.append(eol if eol != '\r' or s[i + 1:i + 2] not in ('', '\n') else '\r\n')
        else:
            out.append(c)
    return ''.join(out)


def xml_bytes(text, enc):
    """XML text as bytes: 0 UTF-8, 1 with a byte order mark, 2, 3 UTF-16, 4 ISO-8859-1 where that is possible"""
    try:
        if enc == 1:
            return b'\xef\xbb\xbf' + text.encode('utf-8')
        if enc == 2:
            return b'\xff\xfe' + text.encode('utf-16-le')
        if enc == 3:
            return b'\xfe\xff' + text.encode('utf-16-be')
        if enc == 4 and text[:1] == '<' and text[:2] != '<?':
            return b'<?xml version="1.0" encoding="iso-8859-1"?>' + text.encode('iso-8859-1')
    except UnicodeEncodeError:
        pass
    return text.encode('utf-8', 'surrogatepass')


def xml_str(text, enc):
    """XML text as a string which says that it was in some other encoding once, as when it comes from a file opened in text mode"""
    if not enc or text[:1] != '<':
        return text
    d = '<?xml version="1.0" encoding="%s"?>' % ('iso-8859-1', 'utf-16', 'us-ascii', 'windows-1252')[enc % 4]
    if text.startswith('<?xml version="1.0"?>'):
        return d + text[21:]
    return text if text[:2] == '<?' else d + text


def spaces(n, data):
    """n spaces in the encoding of data"""
    return b' ' * n if data[:1] not in b'\xff\xfe' else ' '.encode('utf-16-le' if data[:1] == b'\xff' else 'utf-16-be') * n


def _attr(s, q, lr, ent=None):
    if ent and 'text' in s:
        parts = s.split('text')
        return ''.join((('&ent;' if lr.random() < .5 else 'text') if i else '') + _attr(x, q, lr) for i, x in enumerate(parts))
    out = []
    for c in s:
        if c in '<>&\n\t' or c == q:
            out.append(_ref(c, lr))
        elif lr is not None and lr.random() < .06:
            out.append(_ref(c, lr))
        else:
            out.append(c)
    return ''.join(out)


def render(tree, lex=0, xml=False):
    """Text of a document, and its reference events as [(end offset, event)]

    lex 0 is the plainest text, any other value seeds lexical variation.
    events: ('S', name, {attrs}, [ancestors]) ('T', text) ('E', name, [ancestors])
    A run of text is complete only with the next '<', hence the offsets.
    """
    lr = random.Random(lex) if lex else None
    out = []
    pos = [0]
    events = []
    ns = eol = None
    ent = False
    if xml and lr is not None:
        eol = lr.choice([None, None, None, '\r\n', '\r'])
        ent = lr.random() < .12
    if xml and lr is not None and lr.random() < .5:
        ns = lr.choice([['p'], ['', 'p'], ['']])

    def put(s):
        out.append(s)
        pos[0] += len(s)

    def ws(p=.25):
        if lr is not None and lr.random() < p:
            return ''.join(lr.choice(' \n\t\r ') for _ in range(lr.choice([1, 1, 2])))
        return ''

    def misc(p=.06):
        if xml and lr is not None and lr.random() < p:
            put(lr.choice(['<!-- c -->', '<?pi x?>', '<!---->', '<!-- <a> & -->']))

    pending = []   # text waiting for its '<'

    def flush():
        """Call right after a '<' has been put"""
        if pending:
            events.append((pos[0], ('T', ''.join(pending))))
            del pending[:]

    def elem(t, anc):
        name, attrs, children = t
        pre = ''
        if ns and 'p' in ns and lr.random() < .4:
            pre = 'p:'
        put('<')
        flush()
        put(pre + name)
        if xml and ns and not anc:
            if 'p' in ns:
                put(' xmlns:p="urn:p"')
            if '' in ns:
                put(" xmlns='urn:d\u00a0e'" if lr.random() < .3 else " xmlns='urn:d'")
        for k, v in attrs:
            q = '"' if lr is None else lr.choice('"\'')
            apre = 'p:' if ns and 'p' in ns and lr.random() < .2 else ''
            put((' ' if lr is None else (ws(.3) or ' ')) + apre + k + ws(.1) + '=' + (ws(.1) if xml else '') + q + _attr(v, q, lr, ent) + q)
        put(ws(.15))
        kids = merged(children)
        if xml and not kids and lr is not None and lr.random() < .6:
            put('/>')
            events.append((pos[0], ('S', name, dict(map(tuple, attrs)), list(anc))))
            events.append((pos[0], ('E', name, list(anc))))
            return
        put('>')
        events.append((pos[0], ('S', name, dict(map(tuple, attrs)), list(anc))))
        anc2 = anc + [name]
        misc()
        for c in kids:
            if isinstance(c, str):
                pending.append(c)
                if xml and lr is not None and lr.random() < .15 and ']]>' not in c:
                    put('<![CDATA[' + c + ']]>')
                else:
                    put(_text(c, lr, ent, eol))
            else:
                elem(c, anc2)
            misc()
        put('</')
        # the '<' completes the text
        if pending:
            events.append((pos[0] - 1, ('T', ''.join(pending))))
            del pending[:]
        put(pre + name + ws(.15) + '>')
        events.append((pos[0], ('E', name, list(anc))))

    if xml and lr is not None:
        if lr.random() < .3:
            put('<?xml version="1.0"?>')
            put(ws(.3))
        misc(.1)
        if ent:
            put('<!DOCTYPE %s [<!ENTITY ent "text">]>' % tree[0])
        misc(.1)
    else:
        put(ws(.15))
    elem(tree, [])
    end = pos[0]
    if xml:
        misc(.1)
    put(ws(.2))
    return ''.join(out), events, end


def tree_from_events(events):
    root, stack = None, []
    for ev in events:
        if ev[0] == 'S':
            e = [ev[1], ev[2], []]
            if stack:
                stack[-1][2].append(e)
            elif root is None:
                root = e
            stack.append(e)
        elif ev[0] == 'T':
            if stack:
                stack[-1][2].append(ev[1])
        else:
            stack.pop()
    return root


def gen_cuts(rng, text):
    """Cut points, as plain integers taken modulo len(text)+1"""
    n = len(text)
    mode = rng.choice(['none', 'one', 'few', 'few', 'many', 'every', 'biased', 'biased', 'near'])
    if mode == 'none' or n < 2:
        return []
    if n > 3000:
        # The parser rereads an unfinished text with every fragment
        return sorted(rng.randint(1, n - 1) for _ in range(rng.randint(1, 3)))
    if mode == 'one':
        return [rng.randint(1, n - 1)]
    if mode == 'few':
        return sorted(rng.randint(1, n - 1) for _ in range(rng.randint(2, 5)))
    if mode == 'many':
        return sorted(rng.randint(1, n - 1) for _ in range(min(60, n // 3 + 1)))
    if mode == 'every':
        return list(range(1, min(n, 300, 1 + 60000 // n)))
    if mode == 'near':
        c = rng.randint(1, n - 1)
        return sorted(set(min(n - 1, max(1, c + d)) for d in range(-3, 4)))
    special = [i for i, c in enumerate(text) if c in '<>&;="\'/ #\n']
    if not special:
        return [rng.randint(1, n - 1)]
    return sorted(set(min(n - 1, max(1, rng.choice(special) + rng.choice([0, 1, 1, 2]))) for _ in range(rng.randint(1, 8))))


def fragments(text, cuts, empties=()):
    """Cut text; empties: ordinals after which an empty fragment is put"""
    n = len(text)
    pts = sorted(set(c % (n + 1) for c in cuts if isinstance(c, int)) - {0, n})
    out = []
    prev = 0
    for p in pts + [n]:
        out.append(text[prev:p])
        prev = p
    for e in sorted(empties, reverse=True):
        if isinstance(e, int):
            out.insert(e % (len(out) + 1), '')
    return out


DAMAGE_CHARS = ['<', '>', '&', '"', "'", '=', '/', ' ', ';', '#', 'a', '\x00', '\ufeff', '\x7f', 'x', '!', '\ufffe', '\n', '-', '',
                '&#x0;', '&#xD800;', '&#xFFFE;', '&bogus;', '&#10;', '&#x41', '<b>', '</a>', '<b c="', '\ud800', '&#x110000;']


def gen_damage(rng, n):
    """A list of [op, position, char]"""
    out = []
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        out.append([rng.choice(['ins', 'del', 'rep', 'dup', 'swap', 'cut']), rng.randint(0, max(0, n)), rng.choice(DAMAGE_CHARS)])
    return out


def apply_damage(text, dmg):
    for d in dmg:
        need(isinstance(d, list) and len(d) == 3 and isinstance(d[1], int) and isinstance(d[2], str), 'damage')
        op, p, c = d
        p = p % (len(text) + 1)
        if op == 'ins':
            text = text[:p] + c + text[p:]
        elif op == 'del':
            text = text[:p] + text[p + 1:]
        elif op == 'rep':
            text = text[:p] + c + text[p + 1:]
        elif op == 'dup':
            text = text[:p] + text[p:p + 3] + text[p:]
        elif op == 'swap':
            text = text[:p] + text[p + 1:p + 2] + text[p:p + 1] + text[p + 2:]
        elif op == 'cut':
            text = text[:p]
        else:
            raise BadPlan('damage op')
    return text


# -- tag soup

HTAGS = ['p', 'b', 'i', 'a', 'table', 'tr', 'td', 'div', 'ul', 'li', 'select', 'option', 'span', 'h1', 'form', 'button', 'nobr', 'title', 'pre',
         'svg', 'math', 'tbody', 'font', 'br', 'img', 'input', 'template', 'script', 'o:p', 'foreignObject', 'desc', 'annotation-xml', 'mi',
         'textarea', 'body', 'html', 'head', 'th', 'em', 'x', 'item', 'optgroup', 'caption', 'col', 'style', 'dd', 'dt']
HTEXT = ['t', 'u ', '&lt;', ' ', 'v&amp;', 'é', '\n', '&nbsp;', '&copy', '\U0001F600', '&#65;', '<', 'a < b', '"', '&', '\x0b', '\r\n', '\r', '名']


def gen_html(rng, maxn=18):
    """Pieces of tag soup which html5lib itself does not fail on, as it does on svg with html in it within a table"""
    while True:
        s = gen_soup(rng, maxn)
        if '<html' not in ''.join(s[1:]).lower():
            return s
        import html5lib
        try:
            html5lib.parse(''.join(s), treebuilder='dom')
            html5lib.parse(''.join(s), treebuilder='etree')
            return s
        except Exception:
            pass


def gen_soup(rng, maxn=18):
    """Pieces of tag soup"""
    tags = [rng.choice(HTAGS) for _ in range(rng.choice([2, 4, 8]))] if rng.random() < .6 else HTAGS
    out = []
    if rng.random() < .3:
        out.append(rng.choice(['<!DOCTYPE html>', '<!doctype HTML PUBLIC "x" "y">', '<!-- c -->', '\ufeff']))
    if rng.random() < .2:
        out.append(rng.choice(['<html>', '<html><head><title>T</title></head><body>', '<meta charset="utf-8">']))
    for _ in range(rng.randint(1, maxn)):
        k = rng.random()
        if k < .45:
            out.append('<%s%s>' % (rng.choice(tags), rng.choice(['', '', '', ' x=1', ' class="a&amp;b"', ' x=1 y', ' xlink:href="q"', ' X=2 x=3', ' href=1 xlink:href=2',
                                                                 " k='é'", ' /', rng.choice([' xml:lang="en"', ' xml:lang=x lang=y', ' xmlfoo=1 data-a=""', ' a.b=1 XML=2', ' viewbox=1 definitionurl=2'])])))
        elif k < .7:
            out.append('</%s>' % rng.choice(tags))
        elif k < .78:
            out.append(rng.choice(['<!--c%d-->' % rng.randint(0, 9), '<?pi?>', '<!x>', '<![CDATA[x]]>', '</>']))
        else:
            out.append(rng.choice(HTEXT))
    if rng.random() < .02:
        k = rng.randint(0, len(out))
        out[k:k] = [rng.choice(['<div>', '<ul><li>', '<div x=1>', '<span>'])] * rng.choice([10, 20, 40, 60])
    return out


# -- XPath expressions

AXES = ['child', 'descendant', 'descendant-or-self', 'self', 'parent', 'ancestor', 'ancestor-or-self', 'following-sibling', 'preceding-sibling',
        'following', 'attribute']


def gen_step(rng, names, anames):
    k = rng.random()
    if k < .45:
        return rng.choice(names)
    if k < .55:
        return '*'
    if k < .62:
        return 'text()'
    if k < .66:
        return 'node()'
    if k < .72:
        return '@' + rng.choice(anames + ['*'])
    if k < .76:
        return '..'
    if k < .79:
        return '.'
    ax = rng.choice(AXES)
    return ax + '::' + rng.choice(names + ['*', '*', 'node()', 'text()'] if ax != 'attribute' else anames + ['*'])


def gen_xpath(rng, names, anames, vals=('a', '1'), depth=0):
    def lit():
        return '"%s"' % rng.choice([v for v in vals if '"' not in v] or ['a'])

    def pred():
        k = rng.random()
        if k < .3:
            return '[%d]' % rng.randint(1, 3)
        if k < .5:
            return '[@%s]' % rng.choice(anames)
        if k < .65:
            return '[@%s=%s]' % (rng.choice(anames), lit())
        if k < .75:
            return '[%s]' % rng.choice(names)
        if k < .85:
            return '[contains(., %s)]' % lit()
        if k < .93:
            return '[text()=%s]' % lit()
        return '[count(%s)>%d]' % (rng.choice(names + ['*', 'node()']), rng.randint(0, 2))

    def path():
        s = rng.choice(['', '', '', '/', '/', '//', '//', '//'])
        n = rng.choice([1, 1, 2, 2, 3])
        out = s
        for i in range(n):
            if i:
                out += rng.choice(['/', '/', '/', '//'])
            out += gen_step(rng, names, anames)
            if rng.random() < .2:
                out += pred()
        return out

    k = rng.random()
    if depth > 1 or k < .6:
        return path()
    sub = gen_xpath(rng, names, anames, vals, depth + 1)
    if k < .7:
        return '%s|%s' % (path(), path())
    if k < .75:
        return 'count(%s)' % sub
    if k < .79:
        return 'string(%s)' % sub
    if k < .82:
        return 'concat(%s, %s, name(%s))' % (sub, lit(), path())
    if k < .85:
        return 'for-each(%s, "%s")' % (sub, rng.choice(names + ['.', '@' + anames[0], 'name()', 'count(node())', '..']))
    if k < .88:
        return 'boolean(%s)' % sub
    if k < .91:
        return '(%s, %s, %d)' % (sub, path(), rng.randint(0, 5))
    if k < .94:
        return '%s=%s' % (path(), lit())
    if k < .97:
        return 'not(%s)' % sub
    return rng.choice(['/', '.', '..', 'true()', '"lit"', '42', 'name()', '/*/node()', '//node()', '//@*', '//text()', '$v', '//*[$v]'])
