"""C20: XML documents are accepted, refused and read as XML 1.0 defines"""
import io
import itertools
import re
from xml.parsers import expat

from pyslet.xml import parser as xmlparser
from pyslet.xml import structures as xml

LEVEL = 'model_checking'
RULE = ('all sequences of up to five markup tokens, all character strings '
        'that complete tags, comments, references and declarations up to a '
        'length, all combinations of entity and attribute declarations with '
        'uses; a tree or a refusal, as from expat')


# -- the oracle

class Refused(Exception):
    pass


def oracle(source, pes=False):
    """The tree of source: [name, {attributes}, [children]] with text"""
    p = expat.ParserCreate()
    if pes:
        p.SetParamEntityParsing(expat.XML_PARAM_ENTITY_PARSING_ALWAYS)
    top = []
    stack = [top]

    def start(name, attrs):
        e = [name, attrs, []]
        stack[-1].append(e)
        stack.append(e[2])

    def end(name):
        stack.pop()

    def text(s):
        if stack[-1] and isinstance(stack[-1][-1], str):
            stack[-1][-1] += s
        else:
            stack[-1].append(s)

    def declaration(version, encoding, standalone):
        if version is not None and not re.match('1\\.[0-9]+$', version):
            raise Refused('version')

    p.XmlDeclHandler = declaration
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = text
    try:
        p.Parse(source, True)
    except expat.ExpatError as e:
        raise Refused(str(e))
    return top[0]


# -- the code

def tree(e):
    attrs = dict(e.get_attributes())
    children = []
    for c in e.get_children():
        if isinstance(c, xml.Element):
            children.append(tree(c))
        elif c:
            # text in several pieces is the same text
            if children and isinstance(children[-1], str):
                children[-1] += c
            else:
                children.append(str(c))
    return [e.xmlname, attrs, children]


def read(source, pes=False):
    """The tree the code reads from the text or bytes source"""
    with xml.XMLEntity(source if isinstance(source, str)
                       else io.BytesIO(source)) as entity:
        p = xmlparser.XMLParser(entity)
        p.check_validity = pes
        try:
            doc = p.parse_document()
        except xmlparser.XMLFatalError as e:
            raise Refused(str(e))
    return tree(doc.root)


def outcome(f, source, pes=False):
    try:
        return f(source, pes)
    except Refused:
        return None


def compare(rec, what, source, data=None, pes=False):
    """Compares the results of both"""
    rec.case(source)
    rec.transitions += 1
    want = outcome(oracle, source.encode('utf-8'), pes)
    try:
        got = outcome(read, source if data is None else data, pes)
    except Exception as e:
        rec.fail('%s error %s' % (what, type(e).__name__),
                 '%r: %r' % (source, e))
        return
    rec.outcome(want is not None)
    if got != want:
        rec.fail('%s %s' % (what, 'accepted' if want is None else 'refused'
                            if got is None else 'read'),
                 '%r: %r, expected %r' % (source, got, want))


# -- sequences of tokens

TOKENS = ['<a>', '</a>', '<a/>', '</b>', 'x', ' \n', '&amp;', '&#65;',
          '<!--c-->', '<?p d?>', '<![CDATA[<&]]>', ']]>', '&', '<',
          '<?xml version="1.0"?>', '<!DOCTYPE a>', '&x;']


def check_tokens(rec, shard):
    first, depth = shard
    for n in range(depth):
        for rest in itertools.product(TOKENS, repeat=n):
            s = ''.join((first, ) + rest)
            compare(rec, 'tokens', s)
            if n < depth - 1:
                compare(rec, 'tokens', '<a>' + s + '</a>')
    rec.states += 1


# -- strings of characters

STRINGS = [
    ('tag', '<a%s', ' a="\'/>&', 6, 7),
    ('tag', '<a%s></a>', ' \nb="\'1:<', 6, 7),
    ('tag', '<a b="%s', '<&;#x1>"/', 6, 7),
    ('tag', '<a>x</a%s', ' \n>a/<b', 5, 6),
    ('markup', '<a><%s', '!-[CDAT?ax]>/', 4, 5),
    ('markup', '<a><%s</a>', '!-x>?', 7, 8),
    ('cdata', '<a><![CDATA[%s</a>', ']>x[&<', 6, 7),
    ('comment', '<!--%s<a/>', '->x', 8, 10),
    ('comment', '<a><!--%s</a>', '-> <&', 6, 8),
    ('comment', '<a/><!%s', '->x', 7, 9),
    ('pi', '<a/><?%s', '?> x', 7, 8),
    ('pi', '<!DOCTYPE a [<?p%s]><a/>', '?> %x;', 6, 7),
    ('pi', '<a><?%s</a>', '?>xXmMlL ', 6, 7),
    ('pi', '<?%s<a/>', '?>xXm lL', 6, 7),
    ('reference', '<a>&%s</a>', '#x1aF;l t', 5, 6),
    ('reference', '<a>&#%s;</a>', 'x0F1Dd8', 6, 7),
    ('reference', "<a b='&%s'/>", 'ampltgquos;', 4, 5),
    ('declaration', '<?xml %s?><a/>', ['version="1.0"', ' ', '=', '"1.0"',
                                       'version', "'1.0'", "'1.1'", '\n',
                                       'encoding="UTF-8"', 'encoding',
                                       "standalone='yes'", '"yes"',
                                       'standalone="x"'], 4, 5),
    ('declaration', '<?xml version=%s', ["'1.0'", '"1.0"', '?', '>', ' ',
                                         '<a/>', 'encoding="utf-8"',
                                         "standalone='no'"], 6, 7),
    ('doctype', '<!DOCTYPE%s<a/>', [' ', 'a', 'b', '[', ']', '>', 'SYSTEM',
                                    '"s"', 'PUBLIC', '%p;', '<!--x-->'], 5, 6),
    ('lines', '<a b="%s">%s</a>', '\r\nx\t', 4, 6),
]


def check_strings(rec, shard):
    i, n, thorough = shard
    j = 0
    for what, frame, chars, quick, deep in STRINGS:
        for k in range((deep if thorough else quick) + 1):
            for t in itertools.product(chars, repeat=k):
                j += 1
                if j % n == i:
                    s = ''.join(t)
                    compare(rec, what, frame.replace('%s', s))
    rec.states += 1


# -- declarations

DECLARATIONS = [
    ('entity', '<!DOCTYPE a [<!ENTITY%s]><a>&e;</a>',
     [' ', 'e', '"v"', "'<'", 'SYSTEM', 'PUBLIC', 'NDATA', '%', '>', '%p;'],
     6, 7),
    ('element', '<!DOCTYPE a [<!ELEMENT a %s>]><a/>',
     [' ', 'a', '(', ')', '|', ',', '?', '*', '#PCDATA', 'EMPTY', '+'], 5, 6),
    ('element', '<!DOCTYPE a [<!ELEMENT a (%s)>]><a/>',
     [' ', 'a', '(', ')', '|', ',', '?', '*', '#PCDATA'], 6, 7),
    ('attlist', '<!DOCTYPE a [<!ATTLIST a%s>]><a/>',
     [' ', 'b', 'CDATA', 'IDREFS', '(', '|', ')', '#IMPLIED', '#FIXED',
      '"v"', '#REQUIRED', 'NOTATION'], 5, 6),
    ('attlist', '<!DOCTYPE a [<!ATTLIST a b%s>]><a/>',
     [' ', ' (', 'NOTATION', ' b', '|', ') ', "'v'", '#FIXED', '&', '#IMPLIED'],
     6, 7),
    ('notation', '<!DOCTYPE a [<!NOTATION %s>]><a/>',
     [' ', 'n', '"v"', "'w'", 'SYSTEM', 'PUBLIC', '>', "'[]'"], 6, 7),
    ('subset', '<!DOCTYPE a [%s<a/>',
     [' ', ']', '>', '<!--x-->', '<?p d?>', '<!ENTITY % p "">', '%p;',
      '<!ELEMENT a ANY>', 'x', '<![INCLUDE[]]>', '&lt;'], 5, 6),
]


def check_declarations(rec, shard):
    i, n, thorough = shard
    j = 0
    for what, frame, parts, quick, deep in DECLARATIONS:
        for k in range((deep if thorough else quick) + 1):
            for t in itertools.product(parts, repeat=k):
                j += 1
                if j % n == i:
                    compare(rec, what, frame.replace('%s', ''.join(t)))
    rec.states += 1


ENTITY_VALUES = [
    '', 'x', '<b/>', '<b>', '</b>', '&#60;', '&#38;#60;', '&#38;', '&f;',
    '&lt;', "'", '%', '<!--', '-->', '<![CDATA[', ']]>', '&#38;f;', ']]',
    'a&#32;b', '\n', '&#13;', '&', '&#0;', ' b="c"', '&e;', '&#60;b/>',
    '<b c="&f;"/>', '&#38;#38;', '<', '</a><a>', '&g', 'p;', '&#38;#x3c;b/>',
    "&#39;", '\t']
USES = [
    '<a>&e;</a>', '<a>&e;]]&#62;</a>', '<a>&e;></a>', '<a>&e;</b></a>',
    '<a><b>&e;</a>', '<a b="&e;"/>', "<a b='x&e;y'/>", '<a&e;/>', '&e;',
    '<a>&e;&e;</a>', '<a>&e;&f;</a>', '<a b="&e;&f;"/>', '<a>&#38;e;</a>',
    '<a><![CDATA[&e;]]></a>', '<a c="&e;" c=""/>', '<a><b c="&e;"/>&f;</a>']
FRAMES = [
    '<!DOCTYPE a [<!ENTITY e "%s"><!ENTITY f "%s">]>%s',
    '<!DOCTYPE a [<!ENTITY e "%s"><!ENTITY f "%s">'
    '<!ATTLIST a d CDATA "x&e;" c NMTOKENS " &f; ">]>%s',
    '<!DOCTYPE a [<!ENTITY e "%s"><!ENTITY e "y"><!ENTITY f "%s">'
    '<!ATTLIST a b NMTOKEN #IMPLIED>]>%s']


def check_entities(rec, shard):
    i, n = shard
    j = 0
    for e, f, use in itertools.product(ENTITY_VALUES, ENTITY_VALUES, USES):
        j += 1
        if j % n == i:
            for frame in FRAMES:
                compare(rec, 'entities', frame % (e, f, use))
    rec.states += 1


ATTRIBUTE_PARTS = [' ', 'x', '&#32;', '&#10;', '\t', '&e;', '&#x9;', '\r\n',
                   '&s;']
ATTRIBUTE_FRAMES = [
    '<!DOCTYPE a [%s<!ATTLIST a b {t} #IMPLIED>]><a b="{v}"/>',
    '<!DOCTYPE a [%s<!ATTLIST a b {t} "{v}">]><a/>',
    '<!DOCTYPE a [%s<!ATTLIST a b {t} #FIXED "{v}" c CDATA "1">'
    '<!ATTLIST a b CDATA "z" c CDATA "2" d CDATA "3">]><a/>',
    '<!DOCTYPE a [%s<!ATTLIST a b {t} #IMPLIED b CDATA "z">'
    '<!ATTLIST e b CDATA "e">]><a><a b="{v}"/><a/></a>']
ATTRIBUTE_ENTITIES = '<!ENTITY e " x&#10;"><!ENTITY s "&#38;#32;&#32; ">'


def check_attributes(rec, shard):
    depth, t = shard
    for k in range(depth + 1):
        for v in itertools.product(ATTRIBUTE_PARTS, repeat=k):
            for frame in ATTRIBUTE_FRAMES:
                compare(rec, 'attributes', (frame % ATTRIBUTE_ENTITIES).replace(
                    '{t}', t).replace('{v}', ''.join(v)))
    rec.states += 1


PE_VALUES = [
    '', '<!ENTITY e "1">', '%q;', '&#37;q;', "2'>", 'x',
    '<!ATTLIST a b CDATA "c">', '<!--', '-->', ' ', '<!ENTITY &#37; q "">',
    "<!ENTITY e '&#38;#37;q;'>", '<!ENTITY',
    '<?p ', '?>', '<!ENTITY e "&#38;f;"><!ENTITY f "g">', '&#60;!ELEMENT a ANY>',
    ']', '&e;', '&#37;p;', ' e "3">', "<![INCLUDE[<!ENTITY e '4'>]]>",
    "<![IGNORE[<!ENTITY e '4'>]]>", '<![&#37;q;[<!ENTITY e "5">]]>', 'IGNORE',
    'INCLUDE']
PE_USES = ['%q;', '%p;', '%p;%q;', '%q;%p;', '<!ENTITY e "%p;">',
           '%p;<!ENTITY e "9">', '%p;<!ENTITY e "8">%q;', '', '<!--%p;-->',
           '%p;<!ENTITY f "7"><!ATTLIST a d CDATA "6">',
           '<!ENTITY % p "">%p;', '<?p %p;?>', '%r;', '<!ENTITY % r "%p;">%r;']


def check_pes(rec, shard):
    i, n = shard
    j = 0
    for p, q, use in itertools.product(PE_VALUES, PE_VALUES, PE_USES):
        j += 1
        if j % n != i:
            continue
        v = []
        for x in (q, p):
            v.append(("'%s'" if '"' in x else '"%s"') % x)
        if any(x.count(x[0]) > 2 for x in v):
            continue
        for root in ('<a>&e;</a>', '<a/>'):
            s = '<!DOCTYPE a [<!ENTITY %% q %s><!ENTITY %% p %s>%s]>%s' % (
                v[0], v[1], use, root)
            compare(rec, 'unread', s)
            compare(rec, 'parameters', s, pes=True)
    rec.states += 1


# -- characters

CHARACTER_FRAMES = ['<a%s/>', '<%s/>', '<a>%s</a>', "<a b='%s'/>",
                    '<a><?p%s?></a>']


NAME_START = re.compile(
    '[:A-Z_a-z\xc0-\xd6\xd8-\xf6\xf8-\u02ff\u0370-\u037d\u037f-\u1fff'
    '\u200c-\u200d\u2070-\u218f\u2c00-\u2fef\u3001-\ud7ff\uf900-\ufdcf'
    '\ufdf0-\ufffd\U00010000-\U000effff]$')
NAME = re.compile('[-.0-9\xb7\u0300-\u036f\u203f-\u2040]$')


def check_characters(rec, shard):
    for c in range(*shard):
        if 0xD800 <= c < 0xE000:
            continue
        for frame in CHARACTER_FRAMES:
            if frame.startswith('<a>%') or '=' in frame or c < 0x80:
                compare(rec, 'characters', frame % chr(c))
                continue
            # names are those of the fifth edition, expat has the fourth
            s = frame % chr(c)
            rec.case(s)
            rec.transitions += 1
            want = outcome(oracle, (frame % (
                'Z' if NAME_START.match(chr(c)) else
                '0' if NAME.match(chr(c)) else '*')).encode('ascii'))
            if want is not None:
                want[0] = want[0].replace('Z', chr(c)).replace('0', chr(c))
            try:
                got = outcome(read, s)
            except Exception as e:
                got = 'error %r' % e
            rec.outcome(want is not None)
            if got != want:
                rec.fail('characters in names',
                         '%r: %r, expected %r' % (s, got, want))
    rec.states += 1


ENCODED = ['x', '\xe9', '\u20ac', '\U0001f600', '\r', '\n', '<b/>', '&#233;',
           '\ufeff', ']]>', '\x85']
ENCODINGS = [
    ('utf-8', b'', ''), ('utf-8', b'\xef\xbb\xbf', ''),
    ('utf-8', b'', 'UTF-8'), ('utf-8', b'\xef\xbb\xbf', 'utf-8'),
    ('utf-16-be', b'\xfe\xff', ''), ('utf-16-le', b'\xff\xfe', ''),
    ('utf-16-be', b'\xfe\xff', 'UTF-16'), ('utf-16-le', b'\xff\xfe', 'utf-16'),
    ('iso-8859-1', b'', 'ISO-8859-1'), ('ascii', b'', 'US-ASCII')]


def check_encodings(rec, shard):
    """Bytes in several encodings, read in pieces of several sizes"""
    first, depth, sizes = shard
    size = xml.XMLEntity.chunk_size
    try:
        for n in range(depth):
            for rest in itertools.product(ENCODED, repeat=n):
                text = ''.join((first, ) + rest)
                for encoding, bom, name in ENCODINGS:
                    d = ''
                    if name:
                        d = "<?xml version='1.0' encoding='%s'?>" % name
                    s = '<a>%s</a>' % text
                    try:
                        data = bom + (d + s).encode(encoding)
                    except UnicodeEncodeError:
                        continue
                    for xml.XMLEntity.chunk_size in sizes:
                        rec.case((encoding, bom, name, text))
                        compare(rec, 'encodings %s' % encoding, s, data)
    finally:
        xml.XMLEntity.chunk_size = size
    rec.states += 1


def check_malformed(rec, shard):
    """Bytes that aren't UTF-8 are refused, others read"""
    for pattern in itertools.product(
            (0x41, 0x7f, 0x80, 0xbf, 0xc0, 0xc3, 0xe0, 0xa0, 0x9f, 0xed,
             0xf0, 0x90, 0xf4, 0xf5, 0xff), repeat=shard[1] - 1):
        data = bytes((shard[0], ) + pattern)
        for d in ('', "<?xml version='1.0' encoding='utf-8'?>"):
            b = d.encode('ascii') + b'<a>' + data + b'</a>'
            rec.case(b)
            rec.transitions += 1
            try:
                data.decode('utf-8')
                want = outcome(oracle, b)
            except UnicodeDecodeError:
                want = None
            try:
                got = outcome(read, b)
            except Exception as e:
                rec.fail('malformed error %s' % type(e).__name__,
                         '%r: %r' % (b, e))
                continue
            rec.outcome(want is None)
            if got != want:
                rec.fail('malformed', '%r: %r, expected %r' % (b, got, want))
    rec.states += 1


def run(ck):
    ck.part('tokens', check_tokens, [
        (t, 5 if ck.thorough else 4) for t in TOKENS], 'sequences of tokens')
    ck.part('strings', check_strings, [
        (i, 8, ck.thorough) for i in range(8)],
        'strings of characters within markup')
    ck.part('declarations', check_declarations, [
        (i, 8, ck.thorough) for i in range(8)], 'declarations')
    ck.part('entities', check_entities, [(i, 8) for i in range(8)],
            'two entities and uses of them')
    ck.part('attributes', check_attributes, [
        (5 if ck.thorough else 4, t) for t in (
            'CDATA', 'NMTOKEN', 'NMTOKENS', 'ID', 'IDREFS', '(x|y)', 'ENTITY',
            'NOTATION (x)')], 'attribute types, defaults and values')
    ck.part('parameters', check_pes, [(i, 8) for i in range(8)],
            'two parameter entities and uses of them')
    ck.part('characters', check_characters, [
        (c, c + 0x800) for c in range(0, 0x110000 if ck.thorough else 0x10800,
                                      0x800)] + [
        (0x10FF00, 0x110000)], 'every character in names and content')
    ck.part('encodings', check_encodings, [
        (t, 4 if ck.thorough else 3, (1, 2, 3, 5, 8192)) for t in ENCODED],
        'encodings, marks, declarations and sizes of reads')
    ck.part('malformed', check_malformed, [
        (c, 4 if ck.thorough else 3) for c in (
            0x41, 0x80, 0xbf, 0xc0, 0xc3, 0xe0, 0xed, 0xef, 0xf0, 0xf4, 0xf5,
            0xff)], 'bytes that may not be UTF-8')
