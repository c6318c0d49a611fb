"""Reference model: trees of the code under test put in normal form, pattern matcher, serialisation."""
import re
from .core import Violation, expect, short


def norm_elem(S, e, links=True, merge=True, depth=0):
    """Normal form of a library element: [name, {attrs}, [children]]; checks parent links"""
    out = []
    if depth > 500:
        raise Violation('tree-cycle', 'tree deeper than 500')
    for c in e.xml_children:
        if links and c.xml_parent is not e:
            raise Violation('parent-link', 'child %s of %s has parent %s' % (short(c, 60), short(e.xml_name, 60), short(c.xml_parent, 80)))
        if isinstance(c, S.tree.element):
            out.append(norm_elem(S, c, links, merge, depth + 1))
        else:
            v = c.xml_value
            if merge:
                if not v:
                    continue
                if out and isinstance(out[-1], str):
                    out[-1] += v
                    continue
            out.append(v)
    return [e.xml_name, dict(e.xml_attributes), out]


def all_nodes(S, e):
    out = [e]
    stack = [e]
    while stack:
        x = stack.pop()
        for c in x.xml_children:
            out.append(c)
            if isinstance(c, S.tree.element):
                stack.append(c)
    return out


def ev_norm(S, ev):
    """Library event to reference form"""
    P = S.parser.event
    if not isinstance(ev, tuple) or not ev:
        return ('?', repr(ev))
    if ev[0] == P.start_element and len(ev) == 4:
        return ('S', ev[1], dict(ev[2]), list(ev[3]))
    if ev[0] == P.characters and len(ev) == 2:
        return ('T', ev[1])
    if ev[0] == P.end_element and len(ev) == 3:
        return ('E', ev[1], list(ev[2]))
    return ('?', repr(ev))


def merge_text(events):
    out = []
    for ev in events:
        if ev[0] == 'T':
            if not ev[1]:
                continue
            if out and out[-1][0] == 'T':
                out[-1] = ('T', out[-1][1] + ev[1])
                continue
        out.append(ev)
    return out


def first_diff(a, b):
    for i, (x, y) in enumerate(zip(a, b)):
        if x != y:
            return 'at %d: got %s, expected %s' % (i, short(x, 150), short(y, 150))
    return 'got %d items, expected %d; first extra/missing: %s' % (
        len(a), len(b), short((a + b)[min(len(a), len(b)) if len(a) > len(b) else len(a) + min(len(a), len(b))], 150) if len(a) != len(b) else '')


# -- streaming patterns

def stage_ok(stage, name):
    if isinstance(stage, list):
        return name in stage
    return stage == '*' or stage == name


def path_matches(pattern, path):
    """Does the list of names from the document element down match the pattern ('**': zero or more)?"""
    memo = {}

    def m(i, j):
        k = (i, j)
        if k not in memo:
            if i == len(pattern):
                r = j == len(path)
            elif pattern[i] == '**':
                r = m(i + 1, j) or (j < len(path) and m(i, j + 1))
            else:
                r = j < len(path) and stage_ok(pattern[i], path[j]) and m(i + 1, j + 1)
            memo[k] = r
        return memo[k]
    return m(0, 0)


def outermost_matches(tree, pattern):
    """(path-in-tree, element) of outermost matching elements of a normal-form tree in document order"""
    out = []

    def go(t, names, where):
        names = names + [t[0]]
        if path_matches(pattern, names):
            out.append((where, t))
            return
        for i, c in enumerate(t[2]):
            if not isinstance(c, str):
                go(c, names, where + (i,))
    go(tree, [], ())
    return out


def deliveries(events, patterns):
    """Reference deliveries for reference events [(offset, ev)]: [(offset, pattern ix, subtree)] in order"""
    out = []
    stack = []                    # names
    build = [None] * len(patterns)   # per pattern: list stack of elements being built
    for off, ev in events:
        if ev[0] == 'S':
            stack.append(ev[1])
            for ix, p in enumerate(patterns):
                if build[ix]:
                    e = [ev[1], ev[2], []]
                    build[ix][-1][2].append(e)
                    build[ix].append(e)
                elif path_matches(p, stack):
                    build[ix] = [[ev[1], ev[2], []]]
        elif ev[0] == 'T':
            for ix in range(len(patterns)):
                if build[ix]:
                    ch = build[ix][-1][2]
                    if ch and isinstance(ch[-1], str):
                        ch[-1] += ev[1]
                    else:
                        ch.append(ev[1])
        else:
            stack.pop()
            for ix in range(len(patterns)):
                if build[ix]:
                    e = build[ix].pop()
                    if not build[ix]:
                        build[ix] = None
                        out.append((off, ix, e))
    return out


# -- reference serialisation

def esc(s):
    return s.replace('&', '&amp;').replace('>', '&gt;').replace('<', '&lt;')


# -- HTML: html5lib's own tree in normal form

def _ln(n):
    # A name of the source may well have braces itself
    return re.sub(r'^\{http://www\.w3\.org/[^{}]*\}', '', n).split(':')[-1]


_html = {}


def html_builder(S):
    """The simplest tree which html5lib can build: plain lists.  Its own builders lose nodes in rare cases."""
    if 'b' in _html:
        return _html['b']
    from html5lib.treebuilders import base
    HTML = 'http://www.w3.org/1999/xhtml'

    class N(base.Node):
        def __init__(self, name, namespace=None):
            base.Node.__init__(self, name)
            self.namespace = namespace
            self.nameTuple = namespace or HTML, name
            self.kids = []

        attributes = property(lambda s: s.attrs, lambda s, v: setattr(s, 'attrs', {
            '{%s}%s' % (k[2], k[1]) if isinstance(k, tuple) else k: x for k, x in (v or {}).items()}))
        childNodes = property(lambda s: [c for c in s.kids if not isinstance(c, str)], lambda s, v: None)

        def where(self, node):
            return next(i for i, c in enumerate(self.kids) if c is node)

        def appendChild(self, node):
            self.kids.append(node)
            node.parent = self

        def insertText(self, data, insertBefore=None):
            self.kids.insert(len(self.kids) if insertBefore is None else self.where(insertBefore), data)

        def insertBefore(self, node, refNode):
            self.kids.insert(self.where(refNode), node)
            node.parent = self

        def removeChild(self, node):
            del self.kids[self.where(node)]
            node.parent = None

        def reparentChildren(self, newParent):
            kids, self.kids = self.kids, []
            for c in kids:
                newParent.kids.append(c)
                if not isinstance(c, str):
                    c.parent = newParent

        def cloneNode(self):
            n = N(self.name, self.namespace)
            n.attrs = dict(self.attrs)
            return n

        def hasContent(self):
            return bool(self.kids)

    class Other(N):
        def __init__(self, *a):
            N.__init__(self, None)

    class Builder(base.TreeBuilder):
        documentClass = doctypeClass = commentClass = fragmentClass = Other
        elementClass = N
    _html['b'] = Builder
    return Builder


def html_tree(S, source, **kw):
    """What html5lib's parser makes of it: normal form of the document element, or None"""
    def norm(e):
        ch = []
        for c in e.kids:
            if isinstance(c, str):
                if c and ch and isinstance(ch[-1], str):
                    ch[-1] += c
                elif c:
                    ch.append(c)
            elif c.name is not None:
                ch.append(norm(c))
        # Namespace declarations are not kept as attributes
        return [_ln(e.name), dict((_ln(k) if k.startswith('{http://www.w3.org/') else k, v) for k, v in e.attrs.items() if not k.startswith('xmlns')), ch]
    doc = S.html5lib.HTMLParser(html_builder(S)).parse(source, **kw)
    return next((norm(c) for c in doc.kids if not isinstance(c, str) and c.name is not None), None)
