"""C18: OData expressions are parsed, printed and evaluated correctly"""
import decimal
import itertools
import math
import struct
import uuid

from pyslet import iso8601
from pyslet.odata2 import core as odata
from pyslet.odata2 import csdl as edm

from mc import edmx
from mc.core import shards_of

LEVEL = 'model_checking'
RULE = ('every expression of up to three operators in every arrangement, '
        'every operator and method on every combination of operands, every '
        'text of a few characters as a number; distinct expressions')

D = decimal.Decimal

#: operator -> strength
BINARY = {'mul': 7, 'div': 7, 'mod': 7, 'add': 6, 'sub': 6, 'lt': 5, 'gt': 5,
          'le': 5, 'ge': 5, 'eq': 4, 'ne': 4, 'and': 3, 'or': 2}
UNARY = {'-': 8, 'not': 8}
ONE = 'mul sub lt eq and or'.split()


# -- expressions as tuples: ('p', name), ('l', type, value), ('b', op, x, y),
# ('u', op, x), ('m', x, name), ('c', method, args), ('t', isof/cast, x or
# None, type)

def text(e, full, strength=0):
    """The text of e, with all or only the necessary brackets"""
    kind = e[0]
    if kind == 'p':
        return e[1]
    if kind == 'l':
        return literal(e[1], e[2])
    if kind == 'm':
        return text(e[1], full, 9) + '/' + e[2]
    if kind == 'c':
        return '%s(%s)' % (e[1], ','.join(text(x, full) for x in e[2]))
    if kind == 't':
        args = [text(e[2], full)] if e[2] is not None else []
        return '%s(%s)' % (e[1], ','.join(args + ["'%s'" % e[3]]))
    if kind == 'u':
        s = 8
        r = e[1] + ('' if e[1] == '-' else ' ') + text(e[2], full, s)
    else:
        s = BINARY[e[1]]
        r = '%s %s %s' % (text(e[2], full, s), e[1],
                          text(e[3], full, s + 1))
    if s < strength or full and strength:
        return '(%s)' % r
    return r


def literal(t, v):
    if v is None:
        return 'null'
    if t == 'String':
        return "'%s'" % v.replace("'", "''")
    if t == 'Boolean':
        return 'true' if v else 'false'
    if t == 'Binary':
        return "X'%s'" % v.hex()
    if t == 'Guid':
        return "guid'%s'" % v
    if t == 'DateTime':
        return "datetime'%s'" % v
    if t == 'DateTimeOffset':
        return "datetimeoffset'%s'" % v
    if t == 'Time':
        return "time'%s'" % v
    return '%s%s' % (v, {'Int32': '', 'Int64': 'L', 'Double': 'D',
                         'Single': 'F', 'Decimal': 'M'}[t])


NAMES = {odata.Operator.mul: 'mul', odata.Operator.div: 'div',
         odata.Operator.mod: 'mod', odata.Operator.add: 'add',
         odata.Operator.sub: 'sub', odata.Operator.lt: 'lt',
         odata.Operator.gt: 'gt', odata.Operator.le: 'le',
         odata.Operator.ge: 'ge', odata.Operator.eq: 'eq',
         odata.Operator.ne: 'ne', odata.Operator.boolAnd: 'and',
         odata.Operator.boolOr: 'or', odata.Operator.negate: '-',
         odata.Operator.boolNot: 'not'}


def dump(e):
    """A parsed expression as a tuple"""
    if isinstance(e, odata.PropertyExpression):
        return ('p', e.name)
    if isinstance(e, odata.LiteralExpression):
        t = e.value.type_code
        return ('l', t if t is None else edm.SimpleType.to_str(t)[4:],
                e.value.value)
    if isinstance(e, odata.CallExpression):
        return ('c', odata.Method.to_str(e.method),
                tuple(dump(x) for x in e.operands))
    if e is None:
        return ('missing', )
    ops = [dump(x) for x in e.operands]
    if isinstance(e, odata.UnaryExpression):
        return ('u', NAMES[e.operator], ops[0])
    if e.operator == odata.Operator.member:
        return ('m', ops[0], ops[1][1])
    if e.operator in (odata.Operator.isof, odata.Operator.cast):
        name = odata.Operator.to_str(e.operator)
        return ('t', name, ops[0] if len(ops) > 1 else None, ops[-1][2])
    return ('b', NAMES[e.operator], ops[0], ops[1])


def parse(s):
    return odata.CommonExpression.from_str(s)


# -- structure

def shapes(n):
    """Trees of n binary operators as nested tuples, None for a leaf"""
    if n == 0:
        return [None]
    r = []
    for i in range(n):
        r += [(a, b) for a in shapes(i) for b in shapes(n - 1 - i)]
    return r


def build(shape, ops, leaves):
    if shape is None:
        return next(leaves)
    x = build(shape[0], ops, leaves)
    op = next(ops)
    y = build(shape[1], ops, leaves)
    return ('b', op, x, y)


def leaf(kind, name):
    p = ('p', name)
    return {'p': p, '-': ('u', '-', p), 'n': ('u', 'not', p),
            'nn': ('u', 'not', ('u', 'not', p)),
            '-n': ('u', '-', ('u', 'not', p)),
            '--': ('u', '-', ('u', '-', p)),
            'm': ('m', p, 'X'), 'mm': ('m', ('m', p, 'X'), 'Y'),
            'l': ('l', 'Int32', 1), '-l': ('u', '-', ('l', 'Int64', 2)),
            'ln': ('l', 'Int32', -3), 's': ('l', 'String', "it's) or ('"),
            'c': ('c', 'concat', (p, ('b', 'or', p, p))),
            't': ('t', 'isof', p, 'Edm.String'),
            't1': ('t', 'isof', None, 'S.T'),
            'ct': ('t', 'cast', ('b', 'or', p, p), 'Edm.Int32'),
            '-m': ('u', '-', ('m', p, 'X')),
            'X': ('p', 'X'), 'T': ('p', 'Time'), 'g': ('p', 'guid'),
            'Tm': ('m', ('p', 'DateTime'), 'Binary'),
            }[kind]


def structures(thorough):
    names = 'abcd'
    # every arrangement of the operators of three levels or two
    for n, ops in ((1, sorted(BINARY)), (2, sorted(BINARY)),
                   (3, sorted(BINARY) if thorough else
                    ['mul', 'sub', 'add', 'lt', 'eq', 'and', 'or'])):
        for shape in shapes(n):
            for chosen in itertools.product(ops, repeat=n):
                yield build(shape, iter(chosen),
                            iter([('p', c) for c in names]))
    # all kinds of operands
    kinds = ['p', '-', 'n', 'nn', '-n', '--', 'm', 'mm', 'l', '-l', 'ln', 's',
             'c', 't', 't1', 'ct', '-m', 'X', 'T', 'g', 'Tm']
    for n in (0, 1, 2):
        for shape in shapes(n):
            for chosen in itertools.product(ONE, repeat=n):
                for k in itertools.product(kinds, repeat=n + 1):
                    if n == 2 and len(set(k) - {'p'}) > 2 and not thorough:
                        continue
                    yield build(shape, iter(chosen), iter(
                        [leaf(k[i], names[i]) for i in range(n + 1)]))
    # unary operators outside
    for u1, u2 in itertools.product(('-', 'not', None), repeat=2):
        for n in (1, 2):
            for shape in shapes(n):
                for chosen in itertools.product(ONE, repeat=n):
                    e = build(shape, iter(chosen),
                              iter([('p', c) for c in names]))
                    for u in (u1, u2):
                        if u:
                            e = ('u', u, e)
                    yield e
                    for op in ONE:
                        yield ('b', op, ('p', 'z'), e)
                        yield ('b', op, e, ('p', 'z'))


def fold(e):
    """Negative literals may be written as negated ones"""
    if e[0] == 'u' and e[1] == '-':
        x = fold(e[2])
        if x[0] == 'l' and x[1] in ('Int32', 'Int64', 'Double', 'Single',
                                    'Decimal') and x[2] is not None:
            return ('l', x[1], -x[2])
        return ('u', '-', x)
    if e[0] in 'ub':
        return e[:2] + tuple(fold(x) for x in e[2:])
    if e[0] == 'm':
        return ('m', fold(e[1]), e[2])
    if e[0] == 'c':
        return ('c', e[1], tuple(fold(x) for x in e[2]))
    if e[0] == 't':
        return ('t', e[1], e[2] and fold(e[2]), e[3])
    return e


def same(a, b):
    return repr(fold(a)) == repr(fold(b))


def check_structure(rec, shard):
    i, n, thorough = shard
    for e in itertools.islice(structures(thorough), i, None, n):
        for full in (False, True):
            s = text(e, full)
            rec.case(s)
            rec.transitions += 1
            try:
                x = parse(s)
            except ValueError as err:
                rec.fail('refused %s' % signature(e), '%s: %s' % (s, err))
                continue
            if not same(dump(x), e):
                rec.fail('structure %s' % signature(e),
                         '%s parsed as %r' % (s, dump(x)))
                continue
            try:
                out = str(x)
                y = parse(out)
            except Exception as err:
                rec.fail('printing %s' % signature(e), '%s: %r' % (s, err))
                continue
            if not same(dump(y), e):
                rec.fail('printed %s' % signature(e), '%s printed as %s' % (
                    s, out))
            elif str(y) != out:
                rec.fail('unstable %s' % signature(e), '%s, then %s' % (
                    out, y))
            # spaces don't matter
            if not full:
                for t in (s.replace(',', ' , ').replace('(', '( ').replace(
                        ')', ' )') if "'" not in s else s,
                        '  ' + s.replace(' ', '  ') if "'" not in s else s):
                    if not same(dump(parse(t)), e):
                        rec.fail('spaces %s' % signature(e), t)
    rec.states += 1


def signature(e):
    if e[0] == 'b':
        return '(%s %s %s)' % (signature(e[2]), e[1], signature(e[3]))
    if e[0] == 'u':
        return '%s %s' % (e[1], signature(e[2]))
    if e[0] == 't':
        return e[1] + ('' if e[2] is None else '2')
    return e[0]


# -- every sequence of tokens

TOKENS = ['a', '1', "'T'", '-', 'not', '(', ')', '/', 'add', 'eq', 'or',
          'isof', ',']


class Refused(Exception):
    pass


class Reference(object):
    """A parser of sequences of tokens by precedence climbing"""

    def __init__(self, tokens):
        self.tokens = tokens
        self.pos = 0
        self.open = False

    def peek(self):
        return self.tokens[self.pos] if self.pos < len(self.tokens) else None

    def next(self):
        self.pos += 1
        return self.tokens[self.pos - 1]

    def require(self, t):
        if self.peek() != t:
            raise Refused
        self.pos += 1

    def whole(self):
        e = self.expression(0)
        if self.peek() is not None:
            raise Refused
        return e

    def expression(self, strength):
        e = self.operand()
        while BINARY.get(self.peek(), -1) > strength:
            op = self.next()
            e = ('b', op, e, self.expression(BINARY[op]))
        return e

    def operand(self):
        t = self.peek()
        if t in ('-', 'not'):
            self.next()
            return ('u', t, self.operand())
        return self.member()

    def member(self):
        t = self.next() if self.peek() is not None else None
        if t == '(':
            e = self.expression(0)
            self.require(')')
        elif t == '1':
            e = ('l', 'Int32', 1)
        elif t == "'T'":
            e = ('l', 'String', 'T')
        elif t == 'isof':
            self.require('(')
            args = [self.expression(0)]
            if self.peek() == ',':
                self.next()
                args.append(self.expression(0))
            self.require(')')
            if args[-1] != ('l', 'String', 'T'):
                raise Refused
            e = ('t', t, args[0] if len(args) > 1 else None, 'T')
        elif t in ('a', 'add', 'eq', 'or'):
            # words are reserved only where they are expected
            if self.peek() == '(':
                raise Refused
            e = ('p', t)
        else:
            raise Refused
        while self.peek() == '/':
            if e[0] not in 'pm':
                self.open = True
            self.next()
            name = self.peek()
            if name not in ('a', 'add', 'eq', 'or'):
                self.open = True
                raise Refused
            if self.tokens[self.pos + 1:self.pos + 2] == ('(', ):
                raise Refused
            e = ('m', e, self.next())
        return e


def check_grammar(rec, shard):
    i, n, length = shard
    for tokens in itertools.islice(itertools.chain(*(
            itertools.product(TOKENS, repeat=k)
            for k in range(1, length + 1))), i, None, n):
        s = ' '.join(tokens)
        rec.case(s)
        rec.transitions += 1
        p = Reference(tokens)
        try:
            expected = p.whole()
        except Refused:
            expected = 'refused'
        if p.open:
            # what goes with / apart from names
            rec.outcome('open')
            continue
        try:
            got = dump(parse(s))
        except ValueError:
            got = 'refused'
        except Exception as err:
            rec.fail('crash', '%s: %r' % (s, err))
            continue
        rec.outcome('refused' if got == 'refused' else 'accepted')
        if 'refused' in (got, expected) and got != expected or \
                got != 'refused' and not same(got, expected):
            rec.fail('grammar', '%s is %r, expected %r' % (s, got, expected))
    rec.states += 1


# -- evaluation: values are (type, value); the model

NUMERIC = ['Int32', 'Int64', 'Decimal', 'Single', 'Double']
RANGE = {'Int32': 2 ** 31, 'Int64': 2 ** 63}


class Undefined(Exception):
    """The operation isn't defined for the operands"""


class Anything(Exception):
    """The specification leaves it open"""


def promote(a, b):
    if a[0] == b[0]:
        return a[0]
    if a[0] is None:
        return b[0]
    if b[0] is None:
        return a[0]
    if a[0] in NUMERIC and b[0] in NUMERIC:
        return NUMERIC[max(NUMERIC.index(a[0]), NUMERIC.index(b[0]))]
    raise Undefined


def convert(v, t):
    if v is None:
        return None
    if t in ('Double', 'Single'):
        return float(v)
    if t == 'Decimal':
        return D(str(v)) if isinstance(v, float) else D(v)
    return v


def clamp(t, v):
    if t in RANGE and not -RANGE[t] <= v < RANGE[t]:
        raise Undefined
    return v


def arithmetic(op, a, b):
    t = promote(a, b)
    if t is None:
        return ('Int32', None)
    if t not in NUMERIC:
        raise Undefined
    x, y = convert(a[1], t), convert(b[1], t)
    if x is None or y is None:
        return (t, None)
    if op in ('div', 'mod') and y == 0:
        raise Undefined
    if op == 'add':
        v = x + y
    elif op == 'sub':
        v = x - y
    elif op == 'mul':
        v = x * y
    elif t in RANGE:
        q = abs(x) // abs(y)
        q = q if (x < 0) == (y < 0) else -q
        v = q if op == 'div' else x - q * y
    elif op == 'div':
        v = x / y
    elif t == 'Decimal':
        v = x % y
    elif math.isinf(x):
        raise Undefined
    else:
        v = math.fmod(x, y)
    return (t, clamp(t, v))


def compare(op, a, b):
    t = promote(a, b)
    if op in ('eq', 'ne'):
        if t is not None and t not in NUMERIC + [
                'String', 'DateTime', 'DateTimeOffset', 'Guid', 'Binary']:
            if t in ('Boolean', 'Time'):
                raise Anything
            raise Undefined
        v = point(t, convert(a[1], t)) == point(t, convert(b[1], t))
        return ('Boolean', v == (op == 'eq'))
    if t is not None and t not in NUMERIC + ['String', 'DateTime',
                                             'DateTimeOffset', 'Guid']:
        if t in ('Boolean', 'Time', 'Binary'):
            raise Anything
        raise Undefined
    x, y = convert(a[1], t), convert(b[1], t)
    if x is None or y is None:
        return ('Boolean', False)
    x, y = point(t, x), point(t, y)
    return ('Boolean', {'lt': x < y, 'gt': x > y, 'le': x <= y,
                        'ge': x >= y}[op])


def point(t, v):
    if v is not None and t in ('DateTimeOffset', 'DateTime'):
        return iso8601.TimePoint.from_str(v)
    return v


def logic(op, a, b):
    t = promote(a, b)
    if t not in (None, 'Boolean'):
        raise Undefined
    if a[1] is None or b[1] is None:
        return ('Boolean', False)
    return ('Boolean', a[1] and b[1] if op == 'and' else a[1] or b[1])


def unary(op, a):
    if op == 'not':
        if a[0] not in (None, 'Boolean'):
            if a[1] is None:
                raise Anything
            raise Undefined
        return ('Boolean', None if a[1] is None else not a[1])
    t = {None: 'Int32', 'Single': 'Double'}.get(a[0], a[0])
    if t not in NUMERIC:
        raise Undefined
    return (t, None if a[1] is None else clamp(t, 0 - a[1]))


def strings(args, n):
    if len(args) != n:
        raise Undefined
    if any(x[0] not in (None, 'String') for x in args):
        raise Undefined
    return [x[1] for x in args]


def rounding(name, args):
    if len(args) != 1:
        raise Undefined
    t, v = args[0]
    if t in ('Int32', 'Int64', 'Decimal', None):
        if v is None:
            return ('Decimal', None)
        v = D(v)
        f = v.to_integral_value(decimal.ROUND_FLOOR)
        c = v.to_integral_value(decimal.ROUND_CEILING)
        if name == 'round':
            half = v - f == D('0.5')
            r = (c if v > 0 else f) if half else (
                f if v - f < D('0.5') else c)
        else:
            r = f if name == 'floor' else c
        return ('Decimal', r)
    if t not in ('Double', 'Single'):
        raise Undefined
    if v is None:
        return ('Double', None)
    if math.isinf(v):
        return ('Double', v)
    return ('Double', float({'round': round, 'floor': math.floor,
                             'ceiling': math.ceil}[name](v)))


DATE = {'year': slice(0, 4), 'month': slice(5, 7), 'day': slice(8, 10),
        'hour': slice(11, 13), 'minute': slice(14, 16),
        'second': slice(17, 19)}


def call(name, args):
    if name in DATE:
        if len(args) != 1 or args[0][0] not in (None, 'DateTime'):
            raise Undefined
        if args[0][0] is None:
            raise Anything
        v = args[0][1]
        return ('Int32', None if v is None else int(v[DATE[name]]))
    if name in ('round', 'floor', 'ceiling'):
        return rounding(name, args)
    if name == 'substring':
        if len(args) not in (2, 3):
            raise Undefined
        strings(args[:1], 1)
        if any(x[0] is None for x in args):
            raise Anything
        if any(x[0] not in (None, 'Int32') for x in args[1:]):
            raise Undefined
        if any(x[1] is not None and x[1] < 0 for x in args[1:]):
            raise Anything
        if len(args) == 3 and args[2][1] is None:
            raise Anything
        if args[0][1] is None or args[1][1] is None:
            return ('String', None)
        s = args[0][1][args[1][1]:]
        return ('String', s if len(args) < 3 else s[:args[2][1]])
    n = {'replace': 3, 'tolower': 1, 'toupper': 1, 'trim': 1,
         'length': 1}.get(name, 2)
    s = strings(args, n)
    if name in ('concat', 'length') and any(x[0] is None for x in args):
        # arguments must be strings, not even null
        raise Anything
    t = {'indexof': 'Int32', 'length': 'Int32', 'replace': 'String',
         'tolower': 'String', 'toupper': 'String', 'trim': 'String',
         'concat': 'String'}.get(name, 'Boolean')
    if None in s:
        return (t, None)
    a = s[0]
    b = s[1] if n > 1 else None
    return (t, {
        'endswith': lambda: a[len(a) - len(b):] == b and len(a) >= len(b),
        'startswith': lambda: a[:len(b)] == b,
        'substringof': lambda: a in b,
        'indexof': lambda: a.find(b),
        'replace': lambda: a.replace(b, s[2]),
        'tolower': a.lower, 'toupper': a.upper, 'trim': a.strip,
        'concat': lambda: a + b, 'length': lambda: len(a)}[name]())


def kinship(name, a, t):
    t = t[4:]
    if name == 'isof':
        if a[1] is None:
            return ('Boolean', False)
        try:
            return ('Boolean', promote(a, (t, None)) == t)
        except Undefined:
            return ('Boolean', False)
    if a[1] is None:
        return (t, None)
    if promote(a, (t, None)) != t:
        raise Undefined
    return (t, convert(a[1], t))


def evaluate(e, values):
    kind = e[0]
    if kind == 'p':
        return values[e[1]]
    if kind == 'l':
        return (e[1], clamp(e[1], e[2]))
    if kind == 'u':
        return unary(e[1], evaluate(e[2], values))
    if kind == 'b':
        a, b = evaluate(e[2], values), evaluate(e[3], values)
        if e[1] in ('and', 'or'):
            return logic(e[1], a, b)
        if BINARY[e[1]] in (4, 5):
            return compare(e[1], a, b)
        return arithmetic(e[1], a, b)
    if kind == 'c':
        return call(e[1], [evaluate(x, values) for x in e[2]])
    if kind == 't':
        return kinship(e[1], evaluate(e[2], values), e[3])
    assert kind == 'm'
    return values[e[1][1] + '/' + e[2]]


PROPERTIES = [
    ('I', 'Int32', 7), ('In', 'Int32', None), ('L', 'Int64', -3),
    ('Ln', 'Int64', None), ('C', 'Decimal', D('2.5')),
    ('F', 'Double', 0.75), ('Fn', 'Double', None), ('S', 'String', ' aBa '),
    ('Sn', 'String', None), ('B', 'Boolean', True), ('Bn', 'Boolean', None),
    ('W', 'DateTime', '2013-12-25T15:59:08.45'), ('Wn', 'DateTime', None),
    ('G', 'Guid', uuid.UUID(int=5)), ('Bi', 'Binary', b'\x01'),
    ('O', 'DateTimeOffset', '2013-12-25T15:59:08+01:00')]
LITERALS = [
    ('Int32', 0), ('Int32', 1), ('Int32', -2), ('Int32', 2147483647),
    ('Int32', -2147483648),
    ('Int64', 3), ('Int64', 9007199254740993), ('Int64', 2 ** 63 - 1),
    ('Decimal', D('0.1')), ('Decimal', D('0.3')), ('Decimal', D('-2.5')),
    ('Double', 1.5), ('Double', -0.5), ('Double', 2.5), ('Single', 0.25),
    ('Decimal', D('0')), ('Double', float('inf')),
    ('String', ''), ('String', 'a'), ('String', 'Ba'), ('String', "it's"),
    ('Boolean', True), ('Boolean', False), ('DateTime',
                                            '2013-12-25T15:59:08.45'),
    ('DateTime', '1999-01-02T03:04:05'),
    ('DateTimeOffset', '2013-12-25T14:59:08Z'),
    ('DateTimeOffset', '2013-12-25T14:59:09Z'),
    ('Guid', uuid.UUID(int=5)), ('Guid', uuid.UUID(int=4)),
    ('Binary', b'\x01'), ('Time', '01:02:03'), (None, None)]

MODEL = edmx.HEAD % (
    '        <EntitySet Name="Es" EntityType="M.E"/>',
    '<EntityType Name="E"><Key><PropertyRef Name="K"/></Key>'
    '<Property Name="K" Type="Edm.Int32" Nullable="false"/>' + ''.join(
        '<Property Name="%s" Type="Edm.%s" Nullable="true"/>' % p[:2]
        for p in PROPERTIES) +
    '<Property Name="Z" Type="M.Z" Nullable="false"/></EntityType>'
    '<ComplexType Name="Z"><Property Name="I" Type="Edm.Int32"/>'
    '<Property Name="S" Type="Edm.String"/></ComplexType>')

VALUES = {p[0]: p[1:] for p in PROPERTIES}
VALUES.update({'K': ('Int32', 1), 'Z/I': ('Int32', 4),
               'Z/S': ('String', 'z')})


def native(t, v):
    if v is not None and t in ('DateTime', 'DateTimeOffset'):
        return iso8601.TimePoint.from_str(v)
    return v


def entity():
    doc, cdef = edmx.load(MODEL)
    from pyslet.odata2 import memds
    memds.InMemoryEntityContainer(cdef)
    with cdef['Es'].open() as coll:
        e = coll.new_entity()
        e['K'].set_from_value(1)
        for n, t, v in PROPERTIES:
            if t == 'DateTimeOffset' and v:
                e[n].set_from_value(iso8601.TimePoint.from_str(v))
            else:
                e[n].set_from_value(native(t, v))
        e['Z']['I'].set_from_value(4)
        e['Z']['S'].set_from_value('z')
        coll.insert_entity(e)
        return doc, coll[1]


def operands():
    return [('p', p[0]) for p in PROPERTIES] + [
        ('m', ('p', 'Z'), 'I'), ('m', ('p', 'Z'), 'S')] + [
        ('l', t, v) for t, v in LITERALS]


METHODS1 = ('tolower toupper trim length year month day hour minute second '
            'round floor ceiling').split()
METHODS2 = ('endswith indexof startswith substringof concat '
            'substring').split()


def expressions():
    ops = operands()
    for u in ('-', 'not'):
        for a in ops:
            yield ('u', u, a)
    for a in ops:
        for op in sorted(BINARY):
            for b in ops:
                yield ('b', op, a, b)
    for m in METHODS1:
        for a in ops:
            yield ('c', m, (a, ))
            for b in ops[:3]:
                yield ('c', m, (a, b))
    for m in METHODS2:
        for a in ops:
            yield ('c', m, (a, ))
            for b in ops:
                yield ('c', m, (a, b))
    some = [('l', 'String', 'aBaBa'), ('p', 'S'), ('p', 'Sn'), ('p', 'I')]
    for a in some:
        for b in [('l', 'Int32', i) for i in (0, 1, 3, 9)] + [
                ('l', 'String', x) for x in ('a', 'B', 'x')] + [
                ('p', 'Sn'), ('p', 'In'), ('l', 'Int64', 1)]:
            for c in [('l', 'Int32', i) for i in (0, 1, 2, 9)] + [
                    ('l', 'String', x) for x in ('', 'zz')] + [
                    ('p', 'Sn'), ('p', 'Fn')]:
                yield ('c', 'substring', (a, b, c))
                yield ('c', 'replace', (a, b, c))
    for a in ops:
        for t in ('Int32', 'Int64', 'Decimal', 'Double', 'Single', 'String',
                  'DateTime', 'Boolean', 'Guid'):
            yield ('t', 'isof', a, 'Edm.' + t)
            yield ('t', 'cast', a, 'Edm.' + t)
    # two operators
    few = [('p', 'I'), ('p', 'In'), ('l', 'Int32', 2), ('l', 'Double', 0.5),
           ('l', 'Int64', 3)]
    arith = 'add sub mul div mod'.split()
    for x, y in itertools.product(arith, repeat=2):
        for a, b, c in itertools.product(few, repeat=3):
            yield ('b', x, ('b', y, a, b), c)
            yield ('b', x, a, ('b', y, b, c))
    tests = [('b', op, a, ('l', 'Int32', 7)) for op in ('lt', 'eq', 'ge')
             for a in (('p', 'I'), ('p', 'In'), ('p', 'L'))]
    tests += [('p', 'B'), ('p', 'Bn'), ('l', 'Boolean', False)]
    for x, y in itertools.product(('and', 'or'), repeat=2):
        for a, b, c in itertools.product(tests, repeat=3):
            yield ('b', x, ('b', y, a, b), c)
            yield ('b', x, a, ('u', 'not', ('b', y, b, c)))


def close(t, a, b):
    if a is None or b is None:
        return a is b
    if t in ('Double', 'Single'):
        return repr(a) == repr(b) or abs(a - b) <= 1e-9 * max(1, abs(a))
    if t in ('Decimal', ):
        return abs(a - b) <= D('1e-20') * max(1, abs(a))
    if t in ('DateTime', 'DateTimeOffset'):
        if isinstance(a, str):
            a = native(t, a)
        if t == 'DateTimeOffset':
            a, b = a.shift_zone(0, 0), b.shift_zone(0, 0)
        return a == b
    if t == 'Time':
        return True
    return type(a) is type(b) and a == b or a == b and t[:3] == 'Int'


def check_evaluation(rec, shard):
    i, n = shard
    doc, e = entity()
    for x in itertools.islice(expressions(), i, None, n):
        s = text(x, False)
        rec.case(s)
        rec.transitions += 1
        try:
            expected = evaluate(fold(x), VALUES)
        except Undefined:
            expected = 'error'
        except Anything:
            expected = None
        try:
            v = parse(s).evaluate(e)
            got = (v.type_code if v.type_code is None else
                   edm.SimpleType.to_str(v.type_code)[4:], v.value)
        except (odata.EvaluationError, ValueError) as err:
            got = 'error'
        except Exception as err:
            rec.fail('crash %s' % shape_of(x), '%s: %r' % (s, err))
            continue
        if expected is None:
            rec.outcome('open')
            continue
        if 'error' in (expected, got):
            if expected != got:
                rec.fail('evaluate %s' % shape_of(x), '%s is %r, expected %r'
                         % (s, got, expected))
            rec.outcome('error')
            continue
        rec.outcome(got[0])
        if got[0] != expected[0] or not close(got[0], expected[1], got[1]):
            rec.fail('evaluate %s' % shape_of(x), '%s is %r, expected %r' % (
                s, got, expected))
    rec.states += 1


def shape_of(x):
    try:
        def t(e):
            v = evaluate(e, VALUES)
            return '%s%s' % (v[0], '?' if v[1] is None else '')
        return '%s(%s)' % (x[1], ','.join(
            t(a) for a in (x[2] if x[0] == 'c' else [
                a for a in x[2:] if isinstance(a, tuple)])))
    except Exception:
        return str(x[1])


# -- parameters, lists of orderings

def replaced(e, name, value):
    if e == ('p', name):
        return value
    return tuple(replaced(x, name, value) if isinstance(x, tuple) else x
                 for x in e)


def parameterised():
    p = ('p', ':p')
    inner = [p, ('u', '-', p), ('u', 'not', p), ('c', 'length', (p, )),
             ('c', 'substring', (('p', 'S'), p)),
             ('t', 'isof', p, 'Edm.Int32'), ('b', 'or', p, p),
             ('c', 'concat', (('b', 'add', p, p), ('p', 'S'))),
             ('t', 'cast', ('b', 'or', p, p), 'Edm.Int32'),
             ('b', 'mul', ('p', 'a'), ('b', 'sub', p, ('p', 'a')))]
    for x in inner:
        yield x
    for op in ONE:
        for x, y in itertools.product(inner, repeat=2):
            yield ('b', op, x, y)
            yield ('u', 'not', ('b', op, x, y))
            yield ('c', 'round', (('b', op, x, y), ))


def check_params(rec, shard):
    i, n = shard
    v = edm.EDMValue.from_type(edm.SimpleType.Int32)
    for e in itertools.islice(parameterised(), i, None, n):
        for full in (False, True):
            s = text(e, full)
            rec.case(s)
            rec.transitions += 1
            try:
                x = odata.CommonExpression.from_str(s, {'p': v})
            except ValueError as err:
                rec.fail('parameter', '%s: %s' % (s, err))
                continue
            for value in (5, None, -7):
                # the value is that of the time of the evaluation
                v.set_from_value(value)
                if not same(dump(x), replaced(
                        e, ':p', ('l', 'Int32', value))):
                    rec.fail('parameter', '%s = %r: %r' % (s, value, dump(x)))
            for bad in (None, {}, {'q': v}):
                try:
                    odata.CommonExpression.from_str(s, bad)
                    rec.fail('undefined parameter', s)
                except ValueError:
                    pass
    rec.states += 1


def check_orderby(rec, shard):
    i, n = shard
    items = [('p', 'a'), ('p', 'asc'), ('m', ('p', 'a'), 'b'),
             ('b', 'sub', ('p', 'a'), ('b', 'sub', ('p', 'b'), ('p', 'c'))),
             ('u', '-', ('p', 'a')), ('c', 'concat', (('p', 'a'), ('p', 'b'))),
             ('l', 'String', 'x, y desc'), ('b', 'or', ('p', 'a'), ('p', 'b')),
             ('u', 'not', ('b', 'eq', ('p', 'a'), ('l', None, None)))]
    every = [(x, d) for x in items for d in ('', ' asc', ' desc')]
    for k in (1, 2, 3):
        for t in itertools.islice(itertools.product(
                every if k < 3 else every[::2], repeat=k), i, None, n):
            expected = [(fold(x), -1 if d == ' desc' else 1) for x, d in t]
            for comma in (',', ' , '):
                s = comma.join(text(x, False) + d for x, d in t)
                rec.case(s)
                rec.transitions += 1
                try:
                    got = odata.CommonExpression.orderby_from_str(s)
                    out = odata.CommonExpression.orderby_to_str(got)
                    again = odata.CommonExpression.orderby_from_str(out)
                except ValueError as err:
                    rec.fail('orderby refused', '%s: %s' % (s, err))
                    continue
                for what, g in (('parsed', got), ('printed', again)):
                    if repr([(fold(dump(x)), d) for x, d in g]) != repr(
                            expected):
                        rec.fail('orderby %s' % what, '%s, %s' % (s, out))
    rec.states += 1


# -- literals

def numeric_texts(n):
    alphabet = '10.-eDFML'
    for k in range(1, n + 1):
        for t in itertools.product(alphabet, repeat=k):
            yield ''.join(t)


def reference_number(s):
    """(type, value) of a number, 'error' or None (optional forms)"""
    import re
    m = re.match(r'(-?)(\d*)(\.(\d*))?([eE]([+-]?)(\d*))?([DdFfMmLl]?)\Z', s)
    if not m:
        return 'error'
    sign, left, point, right, e, esign, edigits, suffix = m.groups()
    suffix = suffix.upper()
    if not left and not right:
        return 'error'
    if suffix in ('', 'L'):
        if point or e:
            return 'error'
        return ('Int64' if suffix else 'Int32', int(sign + left))
    plain = left and (not point or right)
    if suffix == 'M':
        if e or point and not right:
            return 'error'
        v = D(s[:-1])
        return ('Decimal', v) if plain else ('maybe', 'Decimal', v)
    if e and not edigits:
        return 'error'
    t = 'Double' if suffix == 'D' else 'Single'
    v = float(s[:-1])
    if plain and not e:
        return (t, v)
    return ('maybe', t, v)


def check_numbers(rec, shard):
    i, n, length = shard
    for s in itertools.islice(numeric_texts(length), i, None, n):
        rec.case(s)
        rec.transitions += 1
        try:
            v = odata.uri_literal_from_str(s)
            got = (edm.SimpleType.to_str(v.type_code)[4:], v.value)
        except ValueError:
            got = 'error'
        expected = reference_number(s)
        if expected[0] == 'maybe':
            if got == 'error':
                continue
            expected = expected[1:]
        if got != expected or got != 'error' and type(got[1]) is not type(
                expected[1]):
            rec.fail('number %s' % ''.join('1' if c in '10' else c
                                           for c in s),
                     '%s is %r, expected %r' % (s, got, expected))
        rec.outcome(got[0] if got != 'error' else got)
    rec.states += 1


def literals():
    big = [0, 1, -1, 10, 2 ** 31 - 1, -2 ** 31]
    for v in big:
        yield 'Int32', v
    for v in big + [2 ** 63 - 1, -2 ** 63, 2 ** 53 + 1]:
        yield 'Int64', v
    for s in ('0', '1', '-1', '0.1', '-0.001', '12345678901234567890.5',
              '99999999999999999999999999999', '1.50', '100',
              '0.00000000000000000000000000001', '1E+3', '-1.5E+20',
              '1E-10'):
        yield 'Decimal', D(s)
    for v in (0.0, -0.0, 1.0, -1.5, 0.1, 1e10, 1e20, 1.5e300, -2.5e-300,
              5e-324, 123456789.123, 1.7976931348623157e308, float('inf'),
              float('-inf'), float('nan'), 1e16, 1e17, 1e-5,
              3.141592653589793):
        yield 'Double', v
    for v in (1 / 3e10, 1.23456789e20, -2.123456789e-30, 1 / 3.0):
        yield 'Single', struct.unpack('f', struct.pack('f', v))[0]
    for v in (0.0, 1.0, -1.5, 0.1, 1e10, 1e20, 1.5e30, -2.5e-30,
              float('inf'), float('-inf'), float('nan'), 3.4028234e38):
        yield 'Single', v
    for n in range(4):
        for t in itertools.product("'a% \u00e9", repeat=n):
            yield 'String', ''.join(t)
    for v in ('\U0001f600', 'a+b', 'a&b=c', 'a/b?c#d', '\r\n\t', '\\', '"'):
        yield 'String', v
    for v in (b'', b'\x00', b'\xff\x00\x0a', bytes(range(256))):
        yield 'Binary', v
    yield 'Boolean', True
    yield 'Boolean', False
    for v in (0, 1, 2 ** 128 - 1, 0x12345678123456781234567812345678):
        yield 'Guid', uuid.UUID(int=v)
    for y in ('0001', '1999', '2000', '9999'):
        for d in ('-01-01', '-12-31', '-02-28'):
            for t in ('T00:00:00', 'T23:59:59', 'T12:30:45.5',
                      'T12:30:45.1234567', 'T00:00:00.001'):
                yield 'DateTime', y + d + t
                for z in ('Z', '+01:00', '-11:30', '+14:00'):
                    if y in ('0001', '9999') and z != 'Z':
                        # comparing these needs years that don't exist
                        continue
                    yield 'DateTimeOffset', y + d + t + z
    for v in ('00:00:00', '01:02:03', '23:59:59', '12:30:45.5',
              '00:00:00.001', '24:00:00'):
        yield 'Time', v


def single(t, v):
    return struct.pack('f', v) if t == 'Single' and v == v else v


def check_literals(rec, shard):
    i, n = shard
    codes = {edm.SimpleType.to_str(getattr(edm.SimpleType, x))[4:]:
             getattr(edm.SimpleType, x) for x in (
                 'Int32', 'Int64', 'Decimal', 'Double', 'Single', 'String',
                 'Binary', 'Boolean', 'Guid', 'DateTime', 'DateTimeOffset',
                 'Time')}
    for t, x in itertools.islice(literals(), i, None, n):
        rec.case([t, repr(x)])
        rec.transitions += 1
        definition = edm.Property(None)
        definition.simpleTypeCode = codes[t]
        if '.' in str(x):
            # the number of digits in a fraction of a second is that of
            # the property
            definition.precision = len(
                str(x).rpartition('.')[2].rstrip('Z').split('+')[0].split(
                    '-')[0])
        v = edm.EDMValue.from_property(
            definition if t[:4] in ('Date', 'Time') else None)
        if v.type_code is None:
            v = edm.EDMValue.from_type(codes[t])
        if t in ('DateTime', 'DateTimeOffset', 'Time'):
            v.set_from_literal(x)
        else:
            v.set_from_value(x)
        texts = [('expression', str(odata.LiteralExpression(v)),
                  lambda s: parse(s).value)]
        for query in (True, False):
            texts.append(('uri', odata.uri_literal_to_str(v, query),
                          odata.uri_literal_from_str))
        texts.append(('key', odata.ODataURI.format_entity_key_literal(v)
                      if hasattr(odata.ODataURI, 'format_entity_key_literal')
                      else odata.ODataURI.format_literal(v),
                      lambda s: odata.LiteralExpression(
                          parse(s).evaluate(None)).value))
        for kind, s, read in texts:
            try:
                w = read(s)
            except Exception as err:
                rec.fail('%s of %s' % (kind, t), '%r as %s: %r' % (
                    x, s, err))
                continue
            ok = w.type_code == v.type_code and (
                w.value == v.value or single(t, w.value) == single(
                    t, v.value) or x != x and w.value != w.value)
            if ok and t in ('Double', 'Single', 'Decimal'):
                ok = type(w.value) is type(v.value)
            if not ok:
                rec.fail('%s of %s' % (kind, t), '%r as %s read as %r' % (
                    x, s, w.value))
            if kind == 'uri' and (
                    set(s) & set(' "<>\\^`{|}\r\n\t') or
                    any(ord(c) > 126 for c in s) or '#' in s or
                    '&' in s or '?' in s or '/' in s):
                rec.fail('%s of %s unsafe' % (kind, t), s)
    rec.states += 1


def run(ck):
    n = 24
    ck.part('structure', check_structure, [(i, n, ck.thorough)
                                           for i in range(n)],
            'expressions of up to three operators, any shape')
    ck.part('grammar', check_grammar,
            [(i, n, 6 if ck.thorough else 5) for i in range(n)],
            'sequences of tokens')
    ck.part('evaluation', check_evaluation, [(i, n) for i in range(n)],
            'operators and methods on all pairs of operands')
    ck.part('params', check_params, [(i, 8) for i in range(8)],
            'expressions with parameters')
    ck.part('orderby', check_orderby, [(i, 8) for i in range(8)],
            'lists of up to three expressions')
    ck.part('numbers', check_numbers,
            [(i, n, 6 if ck.thorough else 5) for i in range(n)],
            'texts over 10.-eDFML')
    ck.part('literals', check_literals, [(i, 8) for i in range(8)],
            'values of all types, both ways')
