"""C24: XML Schema values and regular expressions"""
import decimal
import itertools
import math
import re
import unicodedata

from pyslet.unicode5 import CharClass, ParserError
from pyslet.xml import xsdatatypes as xsi

from mc.core import shards_of

LEVEL = 'model_checking'
RULE = ('every string to the stated length over the listed alphabets, read '
        'as each type and as a regular expression; every accepted regular '
        'expression with every target to the stated length; every number of '
        'the listed digits and exponents; against independent models of the '
        'grammars')

# --- regular expressions: an independent parser and matcher


class Bad(Exception):
    pass


U = 'ab|*?(){}[]-^\\1,.+$ \n\r\t\u00e9'
ESC = dict((c, c) for c in '\\|.-^?*+{}()[]')
ESC.update(n='\n', r='\r', t='\t')
LETTERS = 'ab\u00e9'
MULTI = {'s': ' \n\r\t', 'i': LETTERS, 'c': LETTERS + '-.1', 'd': '1',
         'w': LETTERS + '1|^+$'}


class Ref(object):

    """Parses a regular expression to a tree"""

    def __init__(self, src):
        self.s = src
        self.i = 0

    def peek(self, n=1):
        return self.s[self.i:self.i + n]

    def parse(self):
        r = self.alt()
        if self.i < len(self.s):
            raise Bad
        return r

    def alt(self):
        out = [self.branch()]
        while self.peek() == '|':
            self.i += 1
            out.append(self.branch())
        return ('alt', out)

    def branch(self):
        out = []
        while self.peek() and self.peek() not in '|)?*+{}]':
            out.append(self.piece())
        return ('seq', out)

    def piece(self):
        a = self.atom()
        c = self.peek()
        if c and c in '?*+':
            self.i += 1
            lo, hi = {'?': (0, 1), '*': (0, None), '+': (1, None)}[c]
        elif c == '{':
            m = re.match(r'\{([0-9]+)(,([0-9]*))?\}', self.s[self.i:])
            if not m:
                raise Bad
            self.i += m.end()
            lo = int(m.group(1))
            hi = lo if m.group(2) is None else \
                int(m.group(3)) if m.group(3) else None
            if hi is not None and hi < lo:
                raise Bad
        else:
            return a
        return ('rep', a, lo, hi)

    def atom(self):
        c = self.peek()
        if c == '(':
            self.i += 1
            r = self.alt()
            if self.peek() != ')':
                raise Bad
            self.i += 1
            return r
        if c == '[':
            return ('set', self.expr())
        if c == '\\':
            return ('set', self.escape()[0])
        self.i += 1
        if c == '.':
            return ('set', frozenset(U) - set('\n\r'))
        return ('set', frozenset(c))

    def escape(self):
        """Returns a set and the character if there is only one"""
        c = self.peek(2)[1:]
        self.i += 2
        if c in ESC and c:
            return frozenset(ESC[c]), ESC[c]
        if c in MULTI and c:
            return frozenset(MULTI[c]), None
        if c and c.lower() in MULTI:
            return frozenset(U) - frozenset(MULTI[c.lower()]), None
        raise Bad

    def expr(self):
        self.i += 1
        neg = self.peek() == '^'
        if neg:
            self.i += 1
        out = set()
        n = 0
        sub = None
        while True:
            c = self.peek()
            if not c or c == '[':
                raise Bad
            if c == ']':
                break
            if c == '-':
                if self.peek(2) == '-[' and n:
                    self.i += 1
                    sub = self.expr()
                    break
                if n and self.peek(2) != '-]' and self.peek(3) != '--[':
                    raise Bad
                self.i += 1
                out.add('-')
                n += 1
                continue
            first, single = self.one()
            n += 1
            if single is not None and self.peek() == '-' and \
                    self.peek(2)[1:] not in ('', '[', ']', '-'):
                save = self.i
                self.i += 1
                _, last = self.one()
                if last is None or ord(last) < ord(single):
                    raise Bad
                del save
                out.update(c for c in U if single <= c <= last)
                continue
            out |= first
        if n == 0 or self.peek() != ']':
            raise Bad
        self.i += 1
        if neg:
            out = set(U) - out
        return frozenset(out - (sub or set()))

    def one(self):
        if self.peek() == '\\':
            return self.escape()
        c = self.peek()
        self.i += 1
        return frozenset(c) & frozenset(U), c


def ends(node, s, starts):
    """The positions reached from a set of positions"""
    kind = node[0]
    if kind == 'set':
        return {i + 1 for i in starts if i < len(s) and s[i] in node[1]}
    if kind == 'seq':
        for x in node[1]:
            if not starts:
                break
            starts = ends(x, s, starts)
        return starts
    if kind == 'alt':
        out = set()
        for x in node[1]:
            out |= ends(x, s, starts)
        return out
    _, x, lo, hi = node
    for _ in range(lo):
        starts = ends(x, s, starts)
    out = set(starts)
    n = lo
    while starts and (hi is None or n < hi):
        starts = ends(x, s, starts) - out
        out |= starts
        n += 1
    return out


def ref_match(tree, s):
    return len(s) in ends(tree, s, {0})


def check_re(rec, src, targets):
    try:
        tree = Ref(src).parse()
    except Bad:
        tree = None
    try:
        r = xsi.RegularExpression(src)
    except ParserError:
        r = None
    if (r is None) != (tree is None):
        rec.fail('expression %s' % ('refused' if r is None else 'accepted'),
                 repr(src))
        return
    rec.outcome(r is None)
    if r is None:
        return
    rec.states += 1
    for t in targets:
        rec.transitions += 1
        got = r.match(t)
        if got is not ref_match(tree, t):
            rec.fail('match', repr((src, t, got)))
            return


def strings(alphabet, n):
    for k in range(n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield ''.join(t)


TARGETS = list(strings('ab1', 3)) + list('|*?(){}[]-^\\,.+$ \n\r\t\u00e9') + [
    'a' * 4, 'ab' * 3, 'a-', '-a', 'a|b', '\n\n', 'a\n', 'b' * 5, '^a']


def regexps(rec, shard):
    kind, firsts, n = shard
    if kind == 'all':
        for f in firsts:
            for rest in strings('ab|*?(){}[]-^\\1,.', n - 1):
                rec.case(f + rest)
                check_re(rec, f + rest, TARGETS)
    elif kind == 'class':
        for f in firsts:
            for rest in strings('ab1-^[]\\', n - 1):
                rec.case('[' + f + rest + ']')
                check_re(rec, '[' + f + rest + ']', list(U) + ['aa', ''])
    elif kind == 'group':
        for f in firsts:
            for rest in strings('ab|()*?', n - 1):
                rec.case(f + rest)
                check_re(rec, f + rest, LONG)
    elif kind == 'count':
        for a, q in firsts:
            for b, p in itertools.product(('', 'b', '(a|ab)', '.'), QUANTS):
                if not b and p:
                    continue
                for src in (a + q + b + p, '(' + a + q + b + p + ')*',
                            '(%s%s|%s%s)a' % (a, q, b, p)):
                    rec.case(src)
                    check_re(rec, src, LONG)
    else:
        for c in firsts:
            # every escape of one and two characters
            for src in ('\\' + c, '[\\' + c + ']', '[^\\' + c + ']',
                        '[\\' + c + '-\\' + c + ']', '\\' + c + '*'):
                rec.case(src)
                check_re(rec, src, list(U) + ['11', '', '  '])


QUANTS = ['', '?', '*', '+', '{0}', '{1}', '{2}', '{0,0}', '{0,1}', '{0,2}',
          '{1,1}', '{1,2}', '{2,2}', '{2,3}', '{0,}', '{1,}', '{2,}',
          '{2,1}', '{,1}', '{}', '{02}']
LONG = list(strings('ab', 5))


def categories(rec, shard):
    """Category and block escapes are the sets of the character database"""
    for name in shard:
        rec.case(name)
        if name.startswith('Is'):
            want = CharClass.ucd_block(name[2:])
        else:
            want = CharClass.ucd_category(name)
        try:
            r = [xsi.RegularExpression(s % name) for s in (
                '\\p{%s}', '[\\p{%s}]', '\\P{%s}', '[^\\P{%s}]', '[^\\p{%s}]',
                '[\\p{%s}-[\\P{L}]]')]
        except ParserError:
            rec.fail('category refused', name)
            continue
        lets = CharClass.ucd_category('L')
        for cp in itertools.chain(range(0x3100), range(0x3100, 0x110000,
                                                       0x3d)):
            if 0xD800 <= cp < 0xE000:
                continue
            c = chr(cp)
            w = want.test(c)
            got = [x.match(c) for x in r]
            if got != [w, w, not w, w, not w, w and lets.test(c)]:
                rec.fail('category', repr((name, cp, w, got)))
                break
        rec.outcome(name)
    for cp in itertools.chain(range(0x80), range(0x100, 0x180)):
        c = chr(cp)
        cat = unicodedata.category(c)
        ini = cat[0] == 'L' or c in '_:'
        if cp in (0x132, 0x133, 0x13f, 0x140, 0x149, 0x17f):
            # compatibility characters are not in names
            ini = None
        nam = ini if ini is None else ini or cat == 'Nd' or c in '-.'
        for e, w in (('i', ini), ('c', nam), ('d', cat == 'Nd'),
                     ('w', cat[0] not in 'PZC'),
                     ('s', c in ' \t\r\n')):
            if w is None:
                continue
            rec.case([e, cp])
            for src, x in (('\\' + e, w), ('\\' + e.upper(), not w),
                           ('[\\%s]' % e, w), ('[^\\%s]' % e, not w)):
                if xsi.RegularExpression(src).match(c) is not x:
                    rec.fail('escape', repr((src, c)))


NAMES = ['L', 'Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'M', 'Mn', 'Mc', 'Me', 'N', 'Nd',
         'Nl', 'No', 'P', 'Pc', 'Pd', 'Ps', 'Pe', 'Pi', 'Pf', 'Po', 'Z',
         'Zs', 'Zl', 'Zp', 'S', 'Sm', 'Sc', 'Sk', 'So', 'C', 'Cc', 'Cf',
         'Co', 'IsBasicLatin', 'IsLatin-1Supplement', 'IsArmenian',
         'IsCyrillic', 'IsHiragana']

# --- numbers

DEC = re.compile(r'^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)$')
INT = re.compile(r'^[+-]?[0-9]+$')
DBL = re.compile(r'^[+-]?([0-9]+(\.[0-9]*)?|\.[0-9]+)(e[+-]?[0-9]+)?$', re.I)


def same(a, b):
    return type(a) is type(b) and (
        a == b and math.copysign(1, a) == math.copysign(1, b) or
        a != a and b != b)


def attempt(f, s):
    try:
        return f(s)
    except ValueError:
        return 'refused'


def numbers(rec, shard):
    firsts, n = shard
    for f in firsts:
        for rest in strings('0195+-.eE ', n - 1):
            s = f + rest
            rec.case(s)
            lexical(rec, s)


def lexical(rec, s):
    want = int(s) if INT.match(s) else 'refused'
    got = attempt(xsi.integer_from_str, s)
    if got != want or type(got) is not type(want):
        rec.fail('integer', repr((s, got, want)))
    want = float(s) if DEC.match(s) else 'refused'
    got = attempt(xsi.decimal_from_str, s)
    if not (got == want == 'refused' or want != 'refused' != got and
            same(got, want)):
        rec.fail('decimal', repr((s, got, want)))
    want = float(s) if DBL.match(s) else 'refused'
    got = attempt(xsi.double_from_str, s)
    if not (got == want == 'refused' or want != 'refused' != got and
            same(got, want)):
        rec.fail('double', repr((s, got, want)))
    if want != 'refused':
        if abs(want) >= 2.0 ** 128:
            want = math.copysign(float('inf'), want)
        elif abs(want) <= 2.0 ** -149:
            want = math.copysign(0.0, want)
    got = attempt(xsi.float_from_str, s)
    if not (got == want == 'refused' or want != 'refused' != got and
            (same(got, want) or got == want == 0)):
        rec.fail('float', repr((s, got, want)))
    rec.outcome(want != 'refused')


def close(a, b, digits=15):
    """Equal to 15 significant digits (as they are rounded twice, to
    within one unit of the last)"""
    if a == b:
        return True
    return abs(a - b) <= abs(b) * 1.1 * 10.0 ** (1 - digits)


CANON_DEC = re.compile(r'^-?(0|[1-9][0-9]*)\.([0-9]*[1-9]|0)$')
CANON_DBL = re.compile(r'^-?(0\.0E0|[1-9]\.([0-9]*[1-9]|0)E(0|-?[1-9][0-9]*))$')


def formats(rec, shard):
    """Numbers written are canonical and read back the same"""
    for digits, exps in shard:
        for e in exps:
            for sign in ('', '-'):
                lit = '%s%sE%i' % (sign, digits, e)
                v = float(lit)
                rec.case(lit)
                if v in (float('inf'), -float('inf')):
                    continue
                if abs(v) >= 2.3e-308:
                    s = xsi.double_to_str(v)
                    if not CANON_DBL.match(s) or not close(
                            xsi.double_from_str(s), v, 14):
                        rec.fail('double written', repr((lit, s)))
                    f = xsi.float_to_str(v)
                    want = 'INF' if abs(v) >= 2.0 ** 128 else None
                    if want:
                        if f != sign + want:
                            rec.fail('float written', repr((lit, f)))
                    elif abs(v) <= 2.0 ** -149:
                        if f != '0.0E0':
                            rec.fail('float written', repr((lit, f)))
                    elif f != s:
                        rec.fail('float written', repr((lit, f)))
                    for k in (0, 1, 3):
                        s = xsi.double_to_str(v, k)
                        check_double(rec, lit, v, k, s)
                        s = xsi.double_to_str(v, k, False)
                        m, _, x = s.partition('E')
                        if k and len(m.partition('.')[2]) != k:
                            rec.fail('digits of a double',
                                     repr((lit, k, s)))
                if -12 <= e <= 12:
                    s = xsi.decimal_to_str(v)
                    if not CANON_DEC.match(s):
                        rec.fail('decimal written', repr((lit, s)))
                    elif not close(xsi.decimal_from_str(s), v):
                        if abs(v) >= 1e14 or not close(
                                xsi.decimal_from_str(s), v, 14):
                            rec.fail('decimal value', repr((lit, s)))
                    for k in (0, 1, 2, 4):
                        check_decimal(rec, lit, v, k)
                rec.outcome(len(digits))


def check_double(rec, lit, v, k, s):
    got = xsi.double_from_str(s)
    mag = 10.0 ** math.floor(math.log10(abs(v)))
    if abs(got - v) > 0.5000001 * mag * 10.0 ** -k * (1 + 1e-9):
        rec.fail('double to %i digits' % k, repr((lit, s)))


def check_decimal(rec, lit, v, k):
    if abs(v) * 10 ** k >= 1e15:
        return
    s = xsi.decimal_to_str(v, k, False)
    whole, _, frac = s.partition('.')
    if len(frac) != k or not re.match('^-?(0|[1-9][0-9]*)$', whole):
        rec.fail('digits of a decimal', repr((lit, k, s)))
        return
    err = abs(decimal.Decimal(s.rstrip('.')) - decimal.Decimal(v))
    if err > decimal.Decimal('0.5') / 10 ** k + \
            abs(decimal.Decimal(v)) * decimal.Decimal('2.3e-16'):
        rec.fail('decimal to %i digits' % k, repr((lit, s)))
    t = xsi.decimal_to_str(v, k)
    if k and not CANON_DEC.match(t) or (
            decimal.Decimal(t.rstrip('.')) != decimal.Decimal(
                s.rstrip('.'))):
        rec.fail('canonical decimal', repr((lit, k, s, t)))


def format_shards(thorough):
    digits = ['%i' % d for d in range(1, 1000) if d % 10] + \
        ['9' * k for k in range(4, 18)] + ['1' + '0' * k + '1'
                                           for k in range(2, 15)] + \
        ['5' * k for k in range(4, 17)] + ['12345678901234567',
                                           '94999999999999995', '995',
                                           '9995', '4503599627370497']
    exps = range(-325, 300) if thorough else \
        list(range(-25, 26)) + [-320, -310, -308, -307, -60, -47, -46, -45,
                                36, 37, 38, 39, 100, 200, 290, 300]
    return shards_of([(d, list(exps)) for d in digits])


# --- the rest

def others(rec, shard):
    for s in ('true', '1', 'false', '0'):
        if xsi.boolean_from_str(s) is not (s in ('true', '1')):
            rec.fail('boolean', s)
    for s in strings('01trufalse T', 2):
        rec.case(s)
        if s in ('0', '1'):
            continue
        if attempt(xsi.boolean_from_str, s) != 'refused':
            rec.fail('boolean accepted', s)
    for s in ('True', 'FALSE', 'yes', 'true ', 'truee', '01', '+1'):
        rec.case(s)
        if attempt(xsi.boolean_from_str, s) != 'refused':
            rec.fail('boolean accepted', s)
    if [xsi.boolean_to_str(x) for x in (True, False, 1, 0)] != [
            'true', 'false', 'true', 'false']:
        rec.fail('boolean written', '')
    for v in (0.0, -0.0, float('inf'), -float('inf'), float('nan')):
        s = xsi.double_to_str(v)
        rec.case(s)
        want = {'0.0': '0.0E0', '-0.0': '0.0E0', 'inf': 'INF',
                '-inf': '-INF', 'nan': 'NaN'}[repr(v)]
        if s != want or xsi.double_from_str(s) != v and v == v:
            rec.fail('special double', repr((v, s)))
        if abs(v) > 1 or v != v:
            if attempt(xsi.decimal_to_str, v) != 'refused':
                rec.fail('special decimal', repr(v))
        elif xsi.decimal_to_str(v) != '0.0':
            rec.fail('special decimal', repr(v))
    for i in itertools.chain(range(-1100, 1101), [
            s * 10 ** k + d for s in (1, -1) for k in range(4, 30)
            for d in (-1, 0, 1)]):
        rec.case(i)
        if xsi.integer_to_str(i) != str(i) or \
                xsi.integer_from_str(str(i)) != i:
            rec.fail('integer written', repr(i))


def spaces(rec, shard):
    for f in shard:
        for rest in strings('ab \t\n\r\u00a0', 6):
            s = f + rest
            rec.case(repr(s))
            want = re.sub('[\t\n\r]', ' ', s)
            if xsi.white_space_replace(s) != want:
                rec.fail('white space replaced', repr(s))
            want = re.sub(' +', ' ', want).strip(' ')
            got = xsi.white_space_collapse(s)
            if got != want:
                rec.fail('white space collapsed', repr((s, got)))
            rec.outcome(len(want))


class Fruit(xsi.Enumeration):
    decode = {'Apple': 1, 'Pear': 2, 'Orange': 3}


xsi.make_enum(Fruit, 'Pear')
xsi.make_lower_aliases(Fruit)


class Strict(xsi.Enumeration):
    decode = {'A': 1, 'b': 2, 'Cc': 3}


xsi.make_enum(Strict)


def enumerations(rec, shard):
    words = ['Apple', 'apple', 'PEAR', 'Pear', 'oRANGE', 'orange', 'x', 'A',
             'a', 'b', 'B', 'Cc', 'cc', 'CC', '']
    for cls in (Fruit, Strict):
        table = dict(cls.decode)
        canon = {1: 'Apple', 2: 'Pear', 3: 'Orange'} if cls is Fruit else {
            1: 'A', 2: 'b', 3: 'Cc'}
        for v, s in canon.items():
            if cls.to_str(v) != s or getattr(cls, s) != v:
                rec.fail('enumeration value', repr((cls, s)))
        if cls.to_str(None) != ('Pear' if cls is Fruit else None) or \
                cls.DEFAULT != (2 if cls is Fruit else None):
            rec.fail('enumeration default', repr(cls))
        for name, tr in (('from_str', lambda s: s),
                         ('from_str_lower', lambda s: s.lower()),
                         ('from_str_upper', lambda s: s.upper()),
                         ('from_str_title',
                          lambda s: s[:1].upper() + s[1:].lower())):
            f = getattr(cls, name)
            for w in words:
                rec.case([cls.__name__, name, w])
                want = table.get(tr(w), 'refused')
                for x in (w, ' ' + w + '\n'):
                    got = attempt(f, x)
                    if got != want:
                        rec.fail('enumeration decoded', repr(
                            (cls, name, x, got, want)))
            for n in range(0, 4):
                for ws in itertools.product([w for w in words if w],
                                            repeat=n):
                    vals = [table.get(tr(w), 'refused') for w in ws]
                    bad = 'refused' in vals
                    rec.case([cls.__name__, name, ws])
                    s = '  '.join(ws)
                    got = attempt(lambda s: cls.list_from_str(f, s), s)
                    if got != ('refused' if bad else vals):
                        rec.fail('enumeration list', repr((cls, s, got)))
                    want = {}
                    for v, w in zip(vals, ws):
                        want.setdefault(v, w)
                    got = attempt(lambda s: cls.dict_from_str(f, s), s)
                    if got != ('refused' if bad else want):
                        rec.fail('enumeration dictionary', repr(
                            (cls, s, got, want)))
                    rec.outcome(bad)
                    if not bad:
                        if cls.dict_to_str(want) != ' '.join(
                                canon[v] for v in sorted(want)) or \
                                cls.list_to_str(vals) != ' '.join(
                                    canon[v] for v in vals):
                            rec.fail('enumeration written', repr((cls, s)))


def durations(rec, shard):
    from pyslet import iso8601
    from pyslet.py2 import to_text
    date = ['', '1Y', '12M', '1Y2M', '0D', '3D', '1Y2M3D', '1Y3D']
    tm = ['', 'T4H', 'T5M', 'T6S', 'T6.7S', 'T4H5M6S', 'T4H6.75S', 'T0S']
    for d, t in itertools.product(date + ['1W', '15W'], tm):
        s = 'P' + d + t
        if s == 'P' or 'W' in d and t:
            continue
        plain = iso8601.Duration(s)
        for sign in ('', '-'):
            rec.case(sign + s)
            x = xsi.Duration(sign + s)
            y = xsi.Duration(x)
            z = xsi.Duration(plain)
            for v in (x, y):
                if to_text(v) != sign + to_text(plain) or \
                        v.sign != (-1 if sign else 1):
                    rec.fail('duration', repr((sign + s, to_text(v))))
            if z.sign != 1 or to_text(z) != to_text(plain):
                rec.fail('duration made positive', repr(s))
            x.set_from_string(s)
            y.set_from_duration(plain)
            if x.sign != 1 or y.sign != 1:
                rec.fail('duration set again', repr(s))


def run(ck):
    th = ck.thorough
    ck.note('where XML Schema leaves the use of - and ^ in character classes '
            'open the reading of the library is the model')
    ck.note('digits written are compared to 15 significant digits')
    A = 'ab|*?(){}[]-^\\1,.'
    ck.part('regexps', regexps,
            [('all', x, 5 if th else 4) for x in shards_of(A, 17)] +
            [('class', x, 7 if th else 6) for x in shards_of(
                'ab1-^[]\\', 8)] +
            [('group', x, 8 if th else 7) for x in shards_of(
                'ab|()*?', 7)] +
            [('count', x, 0) for x in shards_of(itertools.product(
                ('a', '(ab)', '(a|b)', '(a?)', '[ab]', '(a*b)'), QUANTS))] +
            [('escapes', shards, 0) for shards in shards_of(
                [chr(i) for i in range(32, 127)])],
            'every string as a regular expression, with every target')
    ck.part('categories', categories, shards_of(NAMES),
            'category, block and multi-character escapes')
    ck.part('lexical', numbers,
            [(x, 7 if th else 6) for x in shards_of('0195+-.eE ', 10)],
            'every string as integer, decimal, double and float')
    ck.part('written', formats, format_shards(th),
            'numbers written and read back')
    ck.part('others', others, (None,), 'booleans, special values, integers')
    ck.part('spaces', spaces, list('ab \t\n\r\u00a0') + [('',)],
            'white space replaced and collapsed')
    ck.part('enumerations', enumerations, (None,),
            'every sequence of names of enumerations')
    ck.part('durations', durations, (None,), 'signed durations')
