"""C21: XML documents are written so that they read back the same"""
import io
import itertools
from xml.parsers import expat

from pyslet.xml import namespace as xmlns
from pyslet.xml import parser as xmlparser
from pyslet.xml import structures as xml

LEVEL = 'model_checking'
RULE = ('all documents of up to three elements with names and attributes in '
        'namespaces and declarations in every place, all trees built or '
        'rearranged with the API, all short texts in every escaped place; '
        'read with expat and with pyslet')

XML = 'http://www.w3.org/XML/1998/namespace'


# -- trees are [(ns, name), {(ns, name): value}, [tree or text]]

def split(name):
    ns, sep, local = name.rpartition(' ')
    return (ns, local)


def expat_tree(source, namespaces=True):
    """The tree of source, None if it is refused"""
    p = expat.ParserCreate(namespace_separator=' ' if namespaces else None)
    top = []
    stack = [top]

    def start(name, attrs):
        e = [split(name), dict((split(a), v) for a, v in attrs.items()), []]
        stack[-1].append(e)
        stack.append(e[2])

    def text(s):
        if stack[-1] and isinstance(stack[-1][-1], str):
            stack[-1][-1] += s
        else:
            stack[-1].append(s)

    p.StartElementHandler = start
    p.EndElementHandler = lambda name: stack.pop()
    p.CharacterDataHandler = text
    try:
        p.Parse(source, True)
    except expat.ExpatError:
        return None
    return top[0]


def no_ns(ns):
    return '' if ns is None or ns == xmlns.NO_NAMESPACE else ns


def tree(e):
    """The tree of an element"""
    if isinstance(e, xmlns.NSElement):
        ns, name = e.get_xmlname()
        name = (no_ns(ns), name)
        attrs = dict(((no_ns(k[0]), k[1]), v)
                     for k, v in e.get_attributes().items())
    else:
        name = ('', e.xmlname)
        attrs = dict((('', k), v) for k, v in e.get_attributes().items())
    children = []
    for c in e.get_children():
        if isinstance(c, xml.Element):
            children.append(tree(c))
        elif c:
            if children and isinstance(children[-1], str):
                children[-1] += c
            else:
                children.append(str(c))
    return [name, attrs, children]


def canonical(t, preserve=False):
    """Collapses white space as writing does without xml:space"""
    name, attrs, children = t
    preserve = {'preserve': True, None: preserve}.get(
        attrs.get((XML, 'space'), attrs.get(('', 'xml:space'))), False)
    result = []
    for i, c in enumerate(children):
        if not isinstance(c, str):
            result.append(canonical(c, preserve))
        elif preserve:
            result.append(c)
        else:
            s = ''.join(' ' if x in ' \t\r\n' else x for x in c)
            while '  ' in s:
                s = s.replace('  ', ' ')
            if i == 0 and (len(children) > 1 or s != ' '):
                s = s[1:] if s[:1] == ' ' else s
            if i == len(children) - 1 and len(children) > 1:
                s = s[:-1] if s[-1:] == ' ' else s
            if s:
                result.append(s)
    return [name, attrs, result]


def reread(source, ns=True):
    doc = (xmlns.NSDocument if ns else xml.Document)()
    with xml.XMLEntity(source if isinstance(source, str)
                       else io.BytesIO(source)) as e:
        doc.read_from_entity(e)
    return doc


def outputs(doc):
    yield 'str', str(doc)
    yield 'bytes', bytes(doc)
    yield 'escape', ''.join(doc.generate_xml(xml.escape_char_data, ''))
    yield 'escape7', ''.join(doc.generate_xml(xml.escape_char_data7, ''))
    yield 'root', str(doc.root)
    for c in doc.root.get_children():
        if isinstance(c, xml.Element):
            yield 'child', c
    s = io.BytesIO()
    doc.write_xml(s)
    yield 'write', s.getvalue()


def check_writing(rec, what, doc, want, ns=True):
    """Checks that doc is written so that want can be read"""
    want = canonical(want)
    for how, s in outputs(doc):
        rec.transitions += 1
        expected = want
        if how == 'child':
            # an element on its own
            expected = canonical(tree(s))
            if ('', 'xml:space') in want[1] or (XML, 'space') in want[1]:
                continue
            s = str(s)
        got = expat_tree(s, ns)
        if got != expected:
            rec.fail('%s %s' % (what, how), 'wrote %r: %r, expected %r' % (
                s, got, expected))
            return
    rec.traces += 1
    got = tree(reread(s, ns).root)
    if got != want:
        rec.fail('%s read' % what, 'wrote %r: %r, expected %r' % (
            s, got, want))


# -- reading documents with declarations

DECLS = ['', ' xmlns="u"', ' xmlns:p="u"', ' xmlns:p="v"', ' xmlns:q="u"',
         ' xmlns=""', ' xmlns="v" xmlns:p="u"', ' xmlns:p="u" xmlns:q="u"',
         ' xmlns="u" xmlns:q="v"', ' xmlns="u" xmlns:p="u"']
NAMES = ['e', 'p:e', 'q:e']
ATTRS = ['', ' b="1"', ' p:b="2"', ' b="1" p:b="2"', ' q:b="3" p:b="4"',
         ' xml:lang="en"', ' xmlnsb="5"']


def check_reading(rec, shard):
    decl0, depth = shard
    levels = [itertools.product([decl0], NAMES, ATTRS),
              itertools.product(DECLS, NAMES, ATTRS),
              itertools.product(DECLS[:6], NAMES, ATTRS[:4:3])][:depth]
    for es in itertools.product(*[list(x) for x in levels]):
        s = ''.join('<%s%s%s>' % (n, d, a) for d, n, a in es)
        s += ''.join('</%s>' % n for d, n, a in reversed(es))
        want = expat_tree(s)
        rec.case(s)
        rec.transitions += 1
        rec.outcome(want is None)
        if want is None:
            # undeclared prefixes and the like, not specified
            continue
        doc = reread(s)
        got = tree(doc.root)
        if got != want:
            rec.fail('reading', '%r: %r, expected %r' % (s, got, want))
            continue
        check_writing(rec, 'reading', doc, want)
    rec.states += 1


# -- building documents

def build(parent, t, prefixes):
    e = parent.add_child(xmlns.NSElement, (t[0][0] or None, t[0][1]))
    for p, ns in prefixes:
        e.make_prefix(ns, p)
    for a, v in t[1].items():
        e.set_attribute(a if a[0] else a[1], v)
    for c in t[2]:
        if isinstance(c, str):
            e.add_data(c)
        else:
            build(e, c, ())
    return e


E_NAMES = [('', 'e'), ('u', 'e'), ('v', 'e')]
E_ATTRS = [{}, {('', 'b'): '1'}, {('u', 'b'): '2'},
           {('', 'b'): '1', ('u', 'b'): '2', ('v', 'b'): '3'},
           {('v', 'c'): '4', (XML, 'lang'): 'en'}]
PREFIXES = [(), (('', 'u'), ), (('p', 'u'), ), (('p', 'u'), ('q', 'u')),
            (('', 'u'), ('p', 'u')), (('', 'v'), ('p', 'u')),
            (('ns1', 'w'), ('ns2', 'v'))]


def check_building(rec, shard):
    name, prefixes, deep = shard
    if dict(prefixes).get('') and not name[0]:
        # the element can't be in no namespace
        return
    for a0, n1, a1, n2, a2, text in itertools.product(
            E_ATTRS, E_NAMES, E_ATTRS, E_NAMES,
            E_ATTRS if deep else E_ATTRS[:4:3],
            (0, 1, 2)):
        inner = [n2, dict(a2), []]
        mid = [n1, dict(a1), [inner] if text == 0 else
               ['x', inner, 'y'] if text == 1 else []]
        t = [name, dict(a0), [mid, inner] if text == 2 else [mid]]
        rec.case(repr((prefixes, t)))
        doc = xmlns.NSDocument()
        build(doc, t, prefixes)
        check_writing(rec, 'building', doc, t)
        rec.outcome(text)
        # writing twice doesn't change anything
        if str(doc) != str(doc) or tree(doc.root) != t:
            rec.fail('building twice', str(doc))
    rec.states += 1


def check_moving(rec, shard):
    """Elements copied or moved from one document to another"""
    decl0, decl1 = shard
    frames = ['<e%s%s>%s</e>', '<p:e%s%s>%s</p:e>', '<q:e%s%s>%s</q:e>']
    attrs = ['', ' b="1" p:b="2"', ' q:c="3"']
    targets = [s for s in ('<x/>', '<x xmlns="u"/>', '<p:x xmlns:p="v"/>',
                           '<x xmlns="v" xmlns:p="u"/>',
                           '<ns1:x xmlns:ns1="w" xmlns:q="v"/>')]
    for f0, a0, f1, a1, target, how in itertools.product(
            frames, attrs, frames, attrs, targets, (0, 1, 2, 3)):
        s = f0 % (decl0, a0, f1 % (decl1, a1, ''))
        want = expat_tree(s)
        if want is None:
            continue
        rec.case((s, target, how))
        doc = reread(s)
        to = reread(target)
        e = list(doc.root.get_children())[0]
        if how % 2:
            doc.root.remove_child(e)
            e.attach_to_parent(to.root)
            to.root._children.append(e)
            e.attach_to_doc()
            left = [want[0], want[1], []]
        else:
            e.deepcopy(to.root)
            left = want
        if how >= 2:
            # writing in between assigns prefixes
            str(to), str(doc), bytes(to)
        t = expat_tree(target)
        check_writing(rec, 'moving', to, [t[0], t[1], [want[2][0]]])
        check_writing(rec, 'left', doc, left)
        rec.outcome(how)
    rec.states += 1


# -- escaping

CHARS = ['a', '<', '>', '&', '"', "'", '\n', '\r', '\t', ' ', ']', ']]>',
         '\xe9', '\u20ac', '\U0001f600', '\x85', '&amp;', '\u2028', '\x7f']


def check_escaping(rec, shard):
    first, depth = shard
    for n in range(depth):
        for rest in itertools.product(CHARS, repeat=n):
            s = ''.join((first, ) + rest)
            rec.case(s)
            for ns in (True, False):
                for preserve in ('preserve', None):
                    doc = (xmlns.NSDocument if ns else xml.Document)()
                    space = (XML, 'space') if ns else ('', 'xml:space')
                    t = [('', 'e'), {('', 'b'): s}, [s]]
                    if ns:
                        e = doc.add_child(xmlns.NSElement, (None, 'e'))
                    else:
                        e = doc.add_child(xml.Element, 'e')
                    e.set_attribute('b', s)
                    if preserve:
                        e.set_space(preserve)
                        t[1][space] = preserve
                    e.add_data(s)
                    check_writing(rec, 'escaping', doc, t, ns)
            for f in (xml.escape_char_data, xml.escape_char_data7):
                x = '<a b=%s>%s</a>' % (f(s, True), f(s))
                rec.transitions += 1
                if expat_tree(x) != [('', 'a'), {('', 'b'): s}, [s]]:
                    rec.fail(f.__name__, '%r: %r' % (s, x))
                if f is xml.escape_char_data7 and any(
                        ord(c) > 127 for c in x):
                    rec.fail('ascii', '%r: %r' % (s, x))
            if '\r' not in s:
                x = '<a>%s</a>' % xml.escape_cdsect(s)
                rec.transitions += 1
                if expat_tree(x) != [('', 'a'), {}, [s]]:
                    rec.fail('escape_cdsect', '%r: %r' % (s, x))
            rec.outcome(len(s))
    rec.states += 1


# -- white space

TEXTS = ['', ' ', 'x', ' x', 'x ', ' x  y ', '\n\t', 'x\r\n', '&#13; x']
SPACES = ['', ' xml:space="preserve"', ' xml:space="default"']


def check_space(rec, shard):
    ns, s0, s1, texts = shard
    for t in itertools.product(texts, repeat=4):
        s = '<e%s>%s<f%s>%s</f>%s<g/>%s</e>' % ((s0, t[0], s1) + t[1:])
        rec.case(s)
        doc = reread(s, ns)
        want = expat_tree(s, ns)
        if tree(doc.root) != want:
            rec.fail('space read', '%r: %r' % (s, tree(doc.root)))
            continue
        check_writing(rec, 'space', doc, want, ns)
        rec.outcome((s0, s1))
    rec.states += 1


# -- pretty printing

class ElementContent(xml.Element):
    XMLCONTENT = xml.ElementType.ELEMENT_CONTENT


class NSElementContent(xmlns.NSElement):
    XMLCONTENT = xml.ElementType.ELEMENT_CONTENT


def strip(t, elements):
    """Removes white space from elements with element content"""
    if t[1].get((XML, 'space'), t[1].get(('', 'xml:space'))) == 'preserve':
        return t
    children = [strip(c, elements) if not isinstance(c, str) else c
                for c in t[2]]
    if t[0][1] in elements:
        children = [c for c in children
                    if not isinstance(c, str) or c.strip(' \t\r\n')]
    return [t[0], t[1], children]


def check_pretty(rec, shard):
    """Indentation is added only to elements with element content"""
    ns, tab = shard
    kinds = [('c', NSElementContent if ns else ElementContent),
             ('m', xmlns.NSElement if ns else xml.Element)]
    texts = ['', 'x', ' x y ', '  ']

    def make(parent, name, cls, space=None):
        e = parent.add_child(cls, ('u', name) if ns else name)
        if space:
            e.set_space(space)
        return e

    for k0, k1, k2 in itertools.product(kinds, repeat=3):
        for sp, a, b, c in itertools.product(
                (None, 'preserve', 'default'), texts, texts, texts):
            rec.case((ns, tab, k0[0], k1[0], k2[0], sp, a, b, c))
            doc = (xmlns.NSDocument if ns else xml.Document)()
            e0 = make(doc, *k0)
            e1 = make(e0, *k1, space=sp)
            for e, k, s in ((e0, k0, a), (e1, k1, b)):
                if k[0] == 'm':
                    e.add_data(s)
            e2 = make(e1, *k2)
            if k2[0] == 'm':
                e2.add_data(c)
            if k1[0] == 'm':
                e1.add_data(c)
            make(e1, *k2)
            make(e0, *k1)
            want = canonical(tree(doc.root))
            s = ''.join(doc.generate_xml(xml.escape_char_data, tab))
            got = expat_tree(s, ns)
            rec.transitions += 1
            rec.outcome(s.count('\n'))
            if got is None or strip(got, 'c') != want:
                rec.fail('pretty', '%r: %r, expected %r' % (s, got, want))
            again = strip(tree(reread(s, ns).root), 'c')
            if again != want:
                rec.fail('pretty read', '%r: %r' % (s, again))
    rec.states += 1


def run(ck):
    ck.part('reading', check_reading, [
        (d, 3 if ck.thorough else 2) for d in DECLS],
        'documents with namespace declarations, read and written')
    ck.part('building', check_building, [
        (n, p, ck.thorough) for n in E_NAMES for p in PREFIXES],
        'trees of expanded names')
    ck.part('moving', check_moving, [
        (d, e) for d in DECLS for e in DECLS],
        'elements copied and moved between documents')
    ck.part('escaping', check_escaping, [
        (c, 4 if ck.thorough else 3) for c in CHARS],
        'characters in text and attributes')
    ck.part('space', check_space, [
        (ns, a, b, TEXTS if ck.thorough else TEXTS[:2] + TEXTS[5:8])
        for ns in (True, False) for a in SPACES for b in SPACES],
        'white space')
    ck.part('pretty', check_pretty, [
        (ns, t) for ns in (True, False) for t in ('', '\t', '    ')],
        'pretty printing')
