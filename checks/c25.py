"""C25: QTI expressions, mappings, lookup tables and rules"""
import io
import itertools
import math
import random

from decimal import Decimal, ROUND_HALF_UP
from fractions import Fraction

from pyslet import html401 as html
from pyslet.qtiv2 import core
from pyslet.qtiv2 import expressions as ex
from pyslet.qtiv2 import variables as var
from pyslet.qtiv2 import xml as qtixml

from mc.core import shards_of
from mc.explore import explore

LEVEL = 'model_checking'
RULE = ('every operator with every combination of the listed operand values, '
        'every mapping and table of the stated shapes and every rule program '
        'of the stated size, against an independent evaluation of the QTI '
        'definitions')

TYPES = {}
for _n in ('boolean', 'directedPair', 'duration', 'float', 'identifier',
           'integer', 'pair', 'point', 'string', 'uri'):
    TYPES[_n] = getattr(var.BaseType, _n)
NAMES = dict((v, k) for k, v in TYPES.items())

# --- values: (cardinality, base type, value); None is NULL


class Err(Exception):

    """The definition does not allow these operands"""


ANY = object()


def build(v):
    card, bt, val = v
    if card is None:
        return var.Value()
    if card == 'S':
        r = var.SingleValue.new_value(None if bt is None else TYPES[bt])
        if val is not None:
            r.set_value(val)
        return r
    if card == 'R':
        r = var.RecordContainer()
        if val is not None:
            r.set_value(dict((k, build(x)) for k, x in val))
        return r
    cls = var.OrderedContainer if card == 'O' else var.MultipleContainer
    r = cls(None if bt is None else TYPES[bt])
    if val is not None:
        r.set_value(list(val))
    return r


CARDS = {None: None, var.Cardinality.single: 'S',
         var.Cardinality.ordered: 'O', var.Cardinality.multiple: 'M',
         var.Cardinality.record: 'R'}


def plain(bt, x):
    return str(x) if bt == 'uri' else x


def key(x):
    return (type(x).__name__, x)


def show(v):
    """A Value as a tuple"""
    card = CARDS[v.cardinality()]
    bt = None if v.baseType is None else NAMES[v.baseType]
    if v.value is None:
        return (card, bt, None)
    if card == 'S':
        return (card, bt, plain(bt, v.value))
    if card == 'O':
        return (card, bt, tuple(plain(bt, x) for x in v.value))
    if card == 'M':
        out = []
        for x, n in v.value.items():
            out += [plain(bt, x)] * n
        return (card, bt, tuple(sorted(out, key=key)))
    if card == 'R':
        return (card, bt, tuple(sorted((k, show(x))
                                       for k, x in v.value.items())))
    return (card, bt, repr(v.value))


def norm(v):
    card, bt, val = v
    if val is None:
        return v
    if card == 'M':
        return (card, bt, tuple(sorted(val, key=key)))
    if card == 'R':
        return (card, bt, tuple(sorted(val)))
    return v


SINGLE = {
    'boolean': [True, False],
    'directedPair': [('A', 'B'), ('B', 'A')],
    'duration': [0.0, 1.5],
    'float': [0.0, 2.5, -1.5, 2.0],
    'identifier': ['A', 'B'],
    'integer': [0, 2, -3, 5],
    'pair': [('A', 'B'), ('A', 'C')],
    'point': [(0, 0), (3, 4)],
    'string': ['A', 'ab', 'Ab'],
    'uri': ['http://h/a', 'b'],
}

U0 = (None, None, None)
S0 = ('S', None, None)


def values_of(bt, deep=2):
    out = [('S', bt, None), ('O', bt, None), ('M', bt, None)]
    vals = SINGLE[bt]
    out += [('S', bt, v) for v in vals]
    for n in range(1, deep + 1):
        for c in itertools.product(vals[:2], repeat=n):
            out.append(('O', bt, c))
        for c in itertools.combinations_with_replacement(vals[:2], n):
            out.append(('M', bt, c))
    return out


REC = [('R', None, None), ('R', None, (('f', ('S', 'integer', 2)),)),
       ('R', None, (('f', ('S', 'integer', 2)), ('g', ('S', 'string', 'A')))),
       ('R', None, (('f', ('S', 'float', 2.0)),))]


def every(deep=2):
    out = [U0, S0] + REC
    for bt in sorted(SINGLE):
        out += values_of(bt, deep)
    return out


# --- the model of each operator


def null(v):
    return v[2] is None


def need(vs, card=None, types=None):
    """Typed operands must agree with the definition"""
    for v in vs:
        if card is not None and v[0] is not None and v[0] != card:
            raise Err
        if types is not None and v[1] is not None and v[1] not in types:
            raise Err


def boolean(x):
    return ('S', 'boolean', x)


NULL = (ANY, ANY, None)
NUM = ('integer', 'float')


def collect(vs, own, other):
    out = []
    bts = set(v[1] for v in vs if v[1] is not None)
    for v in vs:
        if null(v):
            continue
        if v[0] not in ('S', own):
            raise Err
        out += [v[2]] if v[0] == 'S' else list(v[2])
    if len(bts) > 1:
        raise Err
    return (own, bts.pop() if bts else ANY, tuple(out) or None)


def m_multiple(vs, a):
    return norm(collect(vs, 'M', 'O'))


def m_ordered(vs, a):
    return collect(vs, 'O', 'M')


def m_container_size(vs, a):
    v, = vs
    if v[0] not in ('O', 'M', None):
        raise Err
    if v[0] is None:
        return NULL
    return ('S', 'integer', 0 if null(v) else len(v[2]))


def m_is_null(vs, a):
    return boolean(null(vs[0]))


def m_index(vs, a):
    v, = vs
    need(vs, 'O')
    if null(v):
        return NULL
    if a['n'] < 1:
        raise Err
    return ('S', v[1], v[2][a['n'] - 1]) if a['n'] <= len(v[2]) else NULL


def m_field(vs, a):
    v, = vs
    need(vs, 'R')
    return dict(v[2] or ()).get(a['fieldIdentifier'], NULL)


def same_type(v1, v2, deny=('duration',)):
    if v1[1] is not None and v2[1] is not None and v1[1] != v2[1]:
        raise Err
    if v1[1] in deny or v2[1] in deny:
        raise Err


def m_member(vs, a):
    v1, v2 = vs
    same_type(v1, v2)
    if v1[0] not in ('S', None) or v2[0] not in ('O', 'M', None):
        raise Err
    if null(v1) or null(v2):
        return NULL
    return boolean(v1[2] in v2[2])


def m_delete(vs, a):
    v1, v2 = vs
    same_type(v1, v2)
    if v1[0] not in ('S', None) or v2[0] not in ('O', 'M', None):
        raise Err
    if null(v1) or null(v2):
        return NULL
    return norm((v2[0], v2[1],
                 tuple(x for x in v2[2] if x != v1[2]) or None))


def m_contains(vs, a):
    v1, v2 = vs
    same_type(v1, v2)
    if v1[0] not in ('O', 'M', None) or v2[0] not in ('O', 'M', None):
        raise Err
    if None not in (v1[0], v2[0]) and v1[0] != v2[0]:
        raise Err
    if null(v1) or null(v2):
        return NULL
    x, y = v1[2], v2[2]
    if v1[0] == 'O':
        return boolean(any(y[i:i + len(x)] == x for i in range(len(y))))
    return boolean(all(x.count(i) <= y.count(i) for i in x))


def fold(a, *vs):
    return vs if a.get('caseSensitive', True) else [v.lower() for v in vs]


def m_substring(vs, a):
    need(vs, 'S', ('string',))
    if any(null(v) for v in vs):
        return NULL
    x, y = fold(a, vs[0][2], vs[1][2])
    return boolean(x in y)


def m_string_match(vs, a):
    need(vs, 'S', ('string',))
    if any(null(v) for v in vs):
        return NULL
    x, y = fold(a, vs[0][2], vs[1][2])
    return boolean(x == y)


PATTERNS = {'a': ['a'], 'A|ab': ['A', 'ab'], '[aA]b': ['ab', 'Ab'],
            'a*': [], 'a.?': ['ab'], '(': None}


def m_pattern(vs, a):
    need(vs, 'S', ('string',))
    good = PATTERNS[a['pattern']]
    if null(vs[0]) or good is None:
        return NULL
    return boolean(vs[0][2] in good)


def kleene(vs, f):
    """Over every value that the NULLs may stand for"""
    need(vs, 'S', ('boolean',))
    got = set(f(c) for c in itertools.product(
        *[[True, False] if null(v) else [v[2]] for v in vs]))
    return boolean(got.pop()) if len(got) == 1 else NULL


def m_not(vs, a):
    return kleene(vs, lambda c: not c[0])


def m_and(vs, a):
    return kleene(vs, all)


def m_or(vs, a):
    return kleene(vs, any)


def m_any_n(vs, a):
    return kleene(vs, lambda c: int(a['min']) <= sum(c) <= int(a['max']))


def m_match(vs, a):
    v1, v2 = vs
    same_type(v1, v2)
    if None not in (v1[0], v2[0]) and v1[0] != v2[0]:
        raise Err
    if null(v1) or null(v2):
        return NULL
    if v1[0] == 'R':
        # fields of different types differ, or are an error
        t1, t2 = (sorted((k, x[1]) for k, x in v[2]) for v in vs)
        if t1 != t2:
            return 'false or error'
    return boolean(v1[2] == v2[2])


def numbers(vs):
    need(vs, 'S', NUM)
    if any(null(v) for v in vs):
        return None
    return [Fraction(v[2]) for v in vs]


def m_equal(vs, a):
    n = numbers(vs)
    if n is None:
        return NULL
    x, y = n
    mode = a.get('toleranceMode', 'exact')
    if mode == 'exact':
        return boolean(x == y)
    tol = a.get('tolerance')
    if not tol:
        raise Err
    t0, t1 = Fraction(tol[0]), Fraction(tol[-1])
    if mode == 'absolute':
        lo, hi = x - t0, x + t1
    else:
        lo, hi = x * (1 - t0 / 100), x * (1 + t1 / 100)
    r = (lo < y or (a.get('includeLowerBound', True) and lo == y)) and (
        y < hi or (a.get('includeUpperBound', True) and hi == y))
    return boolean(r)


def rounded(x, mode, figures):
    if mode == 'decimalPlaces':
        f = Fraction(10) ** figures
    else:
        if x == 0:
            return Fraction(0)
        e = 0
        while abs(x) >= Fraction(10) ** (e + 1):
            e += 1
        while abs(x) < Fraction(10) ** e:
            e -= 1
        f = Fraction(10) ** (figures - 1 - e)
    z = x * f
    if z.denominator == 2:
        return None     # the way halves go is not what is checked here
    return Fraction(math.floor(z + Fraction(1, 2))) / f


def m_equal_rounded(vs, a):
    n = numbers(vs)
    if n is None:
        return NULL
    x, y = (rounded(i, a['roundingMode'], int(a['figures'])) for i in n)
    if n[0] == n[1]:
        return boolean(True)
    if x is None or y is None:
        return 'any boolean'
    return boolean(x == y)


def ordering(f):
    def model(vs, a):
        n = numbers(vs)
        return NULL if n is None else boolean(f(*n))
    return model


def durations(f):
    def model(vs, a):
        need(vs, 'S', ('duration',))
        if any(null(v) for v in vs):
            return NULL
        return boolean(f(vs[0][2], vs[1][2]))
    return model


def arithmetic(f):
    def model(vs, a):
        n = numbers(vs)
        bts = set(v[1] for v in vs)
        if n is None:
            return NULL
        r = f(n)
        if bts == {'integer'}:
            return ('S', 'integer', int(r))
        return ('S', 'float', float(r))
    return model


def product(n):
    r = 1
    for x in n:
        r *= x
    return r


def m_divide(vs, a):
    n = numbers(vs)
    if n is None or n[1] == 0:
        return NULL
    return ('S', 'float', float(n[0] / n[1]))


def m_power(vs, a):
    n = numbers(vs)
    if n is None:
        return NULL
    x, y = n
    if x == 0 and y < 0 or x < 0 and y.denominator != 1:
        return NULL
    try:
        return ('S', 'float', float(x) ** float(y))
    except OverflowError:
        return NULL


def integers(f):
    def model(vs, a):
        need(vs, 'S', ('integer',))
        if any(null(v) for v in vs) or vs[1][2] == 0:
            return NULL
        return ('S', 'integer', f(vs[0][2], vs[1][2]))
    return model


def to_int(f):
    def model(vs, a):
        need(vs, 'S', ('float',))
        v = vs[0][2]
        if v is None or v != v or v in (INF, -INF):
            return NULL
        return ('S', 'integer', f(Fraction(v)))
    return model


def m_integer_to_float(vs, a):
    need(vs, 'S', ('integer',))
    return NULL if null(vs[0]) else ('S', 'float', float(vs[0][2]))


INF = float('inf')

OPS = {
    'Multiple': m_multiple, 'Ordered': m_ordered,
    'ContainerSize': m_container_size, 'IsNull': m_is_null,
    'Index': m_index, 'FieldValue': m_field, 'Member': m_member,
    'Delete': m_delete, 'Contains': m_contains, 'SubString': m_substring,
    'Not': m_not, 'And': m_and, 'Or': m_or, 'AnyN': m_any_n,
    'Match': m_match, 'StringMatch': m_string_match,
    'PatternMatch': m_pattern, 'Equal': m_equal,
    'EqualRounded': m_equal_rounded,
    'LT': ordering(lambda x, y: x < y), 'GT': ordering(lambda x, y: x > y),
    'LTE': ordering(lambda x, y: x <= y), 'GTE': ordering(lambda x, y: x >= y),
    'DurationLT': durations(lambda x, y: x < y),
    'DurationGTE': durations(lambda x, y: x >= y),
    'Sum': arithmetic(sum), 'Product': arithmetic(product),
    'Subtract': arithmetic(lambda n: n[0] - n[1]),
    'Divide': m_divide, 'Power': m_power,
    'IntegerDivide': integers(lambda x, y: math.floor(Fraction(x, y))),
    'IntegerModulus': integers(
        lambda x, y: x - y * math.floor(Fraction(x, y))),
    'Truncate': to_int(math.trunc),
    'Round': to_int(lambda x: math.floor(x + Fraction(1, 2))),
    'IntegerToFloat': m_integer_to_float,
}

UNARY = ('ContainerSize', 'IsNull', 'Index', 'FieldValue', 'Not',
         'PatternMatch', 'Truncate', 'Round', 'IntegerToFloat', 'Random',
         'Inside')
BINARY = ('Member', 'Delete', 'Contains', 'SubString', 'Match',
          'StringMatch', 'Equal', 'EqualRounded', 'LT', 'GT', 'LTE', 'GTE',
          'DurationLT', 'DurationGTE', 'Subtract', 'Divide', 'Power',
          'IntegerDivide', 'IntegerModulus')

ATTRS = {
    'Index': [{'n': n} for n in (-1, 0, 1, 2, 3)],
    'FieldValue': [{'fieldIdentifier': n} for n in 'fgh'],
    'SubString': [{'caseSensitive': x} for x in (True, False)],
    'StringMatch': [{'caseSensitive': x} for x in (True, False)],
    'PatternMatch': [{'pattern': p} for p in sorted(PATTERNS)],
    'AnyN': [{'min': str(i), 'max': str(j)}
             for i in range(4) for j in range(i, 4)],
    'EqualRounded': [{'roundingMode': m, 'figures': f} for m, f in (
        ('decimalPlaces', '0'), ('decimalPlaces', '1'),
        ('significantFigures', '1'), ('significantFigures', '2'))],
}


class Stub(object):

    """An expression with a given value"""

    def __init__(self, value):
        self.value = value

    def evaluate(self, state):
        return build(self.value)

    Evaluate = evaluate


def element(name, vs, attrs):
    e = getattr(ex, name)(None)
    for k, v in attrs.items():
        if k == 'toleranceMode':
            v = getattr(ex.ToleranceMode, v)
        elif k == 'roundingMode':
            v = getattr(ex.RoundingMode, v)
        setattr(e, k, v)
    kids = [Stub(v) for v in vs]
    if name in UNARY:
        e.Expression = kids[0]
    else:
        e.Expression = kids
    return e


def agree(want, got):
    card, bt, val = want
    if val is None:
        return got[2] is None
    return (got[0] == card and got[1] == bt and got[2] == val and
            (card != 'S' or type(got[2]) is type(val)))


def big(want):
    return (isinstance(want, tuple) and want[0] == 'S' and
            want[1] == 'integer' and want[2] is not None and
            not -2 ** 31 <= want[2] < 2 ** 31)


def untyped(vs):
    return any(v[1] is None and (v[0] != 'R' or null(v)) for v in vs)


def evaluate(rec, name, vs, attrs, what=''):
    vs = [norm(v) for v in vs]
    try:
        want = OPS[name](vs, attrs)
    except Err:
        want = None
    case = (name, vs, sorted(attrs.items()))
    rec.case(case, want is not None and want[2] is not None)
    rec.transitions += 1
    try:
        got = show(element(name, vs, attrs).evaluate(None))
    except core.ProcessingError:
        got = None
    except Exception as e:
        if isinstance(e, ValueError) and (
                want is None or big(want) or untyped(vs)):
            rec.outcome('out of range')
            return
        rec.fail('%s%s: %s raised' % (name, what, type(e).__name__),
                 (case, e))
        return
    nulls = any(null(v) or v[0] == 'R' for v in vs)
    if want is None:
        # a NULL may hide the mistake
        if got is not None and not (got[2] is None and nulls or
                                    nulls and soft(name, got)):
            rec.fail('%s%s: bad operands accepted' % (name, what),
                     (case, got))
            return
        rec.outcome('error')
        return
    if got is None:
        if want == 'false or error' or (
                want[2] is None and untyped(vs)):
            rec.outcome('error')
            return
        rec.fail('%s%s: good operands refused' % (name, what), (case, want))
        return
    if want == 'false or error':
        ok = got[2] is False
    elif want == 'any boolean':
        ok = got[2] in (True, False) and got[1] == 'boolean'
    elif big(want):
        ok = got[2] is None
    else:
        ok = agree(want, got)
    if not ok:
        rec.fail('%s%s: wrong value' % (name, what), (case, want, got))
    rec.outcome(got[0:2] + (None if got[2] is None else 'value',))


def soft(name, got):
    """Operators that go on in spite of a NULL"""
    return name in ('Multiple', 'Ordered', 'IsNull', 'ContainerSize')




def u_ops(rec, shard):
    for name in shard:
        for attrs in ATTRS.get(name, [{}]):
            for v in every(3):
                evaluate(rec, name, [v], attrs)


def b_ops(rec, shard):
    deep, firsts = shard
    alls = every(deep)
    for v1 in firsts:
        for name in BINARY:
            for attrs in ATTRS.get(name, [{}]):
                for v2 in alls:
                    evaluate(rec, name, [v1, v2], attrs)


def deep_containers(rec, shard):
    """Contains, delete and member with longer containers"""
    size, firsts = shard

    def conts(card):
        for n in range(1, size + 1):
            if card == 'O':
                for c in itertools.product('AB', repeat=n):
                    yield (card, 'identifier', c)
            else:
                for c in itertools.combinations_with_replacement('ABC', n):
                    yield (card, 'identifier', c)
    for card in firsts:
        cs = list(conts(card[0]))
        for v2 in cs:
            for x in 'ABC':
                evaluate(rec, 'Member', [('S', 'identifier', x), v2], {})
                evaluate(rec, 'Delete', [('S', 'identifier', x), v2], {})
            for v1 in cs[card[1]::4]:
                evaluate(rec, 'Contains', [v1, v2], {})
                evaluate(rec, 'Match', [v1, v2], {})


def n_ops(rec, shard):
    """Operators with any number of operands"""
    size, names = shard
    some = [U0, S0, ('S', 'boolean', None), ('S', 'boolean', True),
            ('S', 'boolean', False)]
    nums = [U0, S0, ('S', 'integer', None), ('S', 'float', None),
            ('S', 'integer', 2), ('S', 'integer', -3), ('S', 'float', 2.5),
            ('S', 'integer', 2 ** 31 - 1), ('S', 'string', 'A'),
            ('O', 'integer', (2,)), ('S', 'float', -0.5)]
    cont = [U0, S0, ('S', 'identifier', None), ('S', 'identifier', 'A'),
            ('S', 'identifier', 'B'), ('O', 'identifier', None),
            ('M', 'identifier', None), ('O', 'identifier', ('B', 'A', 'B')),
            ('M', 'identifier', ('A', 'B', 'B')), ('S', 'string', 'A'),
            ('R', None, (('f', ('S', 'integer', 2)),))]
    for name in names:
        dom = {'And': some, 'Or': some, 'AnyN': some, 'Sum': nums,
               'Product': nums}.get(name, cont)
        low = 1 if name in ('Sum', 'Product') else 0
        for n in range(low, size + 1):
            for vs in itertools.product(dom, repeat=n):
                for attrs in ATTRS.get(name, [{}]):
                    evaluate(rec, name, list(vs), attrs)


def n_all(rec, shard):
    """The same operators with values of every type"""
    for name in ('And', 'Or', 'AnyN', 'Sum', 'Product', 'Multiple',
                 'Ordered'):
        for v1 in shard:
            for v2 in every(2):
                evaluate(rec, name, [v1, v2],
                         ATTRS.get(name, [{}])[0])


# --- numbers

FLOATS = [0.0, -0.0, 0.5, -0.5, 1.5, -1.5, 2.5, 0.49999999999999994,
          -0.49999999999999994, 0.50000000000000011, -0.50000000000000011,
          1.4999999999999998, -2.5, 1e-20, -1e-20, 3.999999, 1e9,
          2147483646.5, 2147483647.0, 2147483647.5, -2147483648.0,
          -2147483648.5, -2147483649.5, 1e30, -1e30, 4503599627370497.0]
INTS = [0, 1, -1, 2, -2, 3, -3, 7, -7, 10, 2 ** 31 - 1, -2 ** 31]
POWERS = [0.0, 1.0, -1.0, 0.5, 2.0, -2.0, 3.0, 1e200, 1e-200, 1000.0, -1000.0,
          4.0]
EQ = [0.0, 1.0, -1.0, 2.0, 1.5, 0.5, -2.0, 4.0, 3.0, 5.0, 2.5, 8.0, -3.0]


def m_numbers(rec, shard):
    for name in ('Truncate', 'Round'):
        for x in FLOATS + [INF, -INF, float('nan')]:
            evaluate(rec, name, [('S', 'float', x)], {}, ' of numbers')
    for x, y in itertools.product(INTS, INTS):
        for name in ('IntegerDivide', 'IntegerModulus', 'Sum', 'Product',
                     'Subtract', 'LT', 'GT', 'LTE', 'GTE', 'Equal', 'Divide'):
            evaluate(rec, name, [('S', 'integer', x), ('S', 'integer', y)],
                     {}, ' of numbers')
    for x in INTS:
        evaluate(rec, 'IntegerToFloat', [('S', 'integer', x)], {})
    for x, y in itertools.product(POWERS, POWERS):
        evaluate(rec, 'Power', [('S', 'float', x), ('S', 'float', y)], {},
                 ' of numbers')
        if x == int(x) and abs(x) < 100 and y == int(y) and abs(y) < 2000:
            evaluate(rec, 'Power', [('S', 'integer', int(x)),
                                    ('S', 'integer', int(y))], {},
                     ' of numbers')
    for x, y in itertools.product(EQ, EQ):
        for name in ('LT', 'GT', 'LTE', 'GTE', 'Sum', 'Product', 'Subtract',
                     'Divide'):
            evaluate(rec, name, [('S', 'float', x), ('S', 'float', y)], {})
        for mode in ('exact', 'absolute', 'relative'):
            for tol in ([], ['50'], ['25', '100'], ['0'], ['0.5'],
                        ['1', '0.5']):
                for lo, hi in itertools.product((True, False), repeat=2):
                    evaluate(rec, 'Equal', [
                        ('S', 'float', x), ('S', 'float', y)], {
                            'toleranceMode': mode, 'tolerance': tol,
                            'includeLowerBound': lo,
                            'includeUpperBound': hi})
    digits = [0.0, 1.0, 1.1, 1.04, 1.06, 1.16, 9.96, 10.0, 0.0104, 0.0106,
              -1.06, -1.1, 99.7, 100.0, 3.141, 3.144, 3.146, 1234.0, 1236.0,
              1200.0, 0.04, 0.06, 0.1, -0.04, -0.0104]
    for x, y in itertools.product(digits, digits):
        for mode in ('decimalPlaces', 'significantFigures'):
            for f in range(0 if mode[0] == 'd' else 1, 5):
                evaluate(rec, 'EqualRounded', [
                    ('S', 'float', x), ('S', 'float', y)],
                    {'roundingMode': mode, 'figures': str(f)})


# --- random


class Chance(object):

    """Stands for the random module: every choice is explored"""

    def __init__(self, ctx):
        self.ctx = ctx

    def choice(self, seq):
        return seq[self.ctx.choose(len(seq))]

    def randint(self, a, b):
        if b < a:
            raise ValueError
        return a + self.ctx.choose(b - a + 1)

    def randrange(self, a, b=None, step=1):
        r = range(a) if b is None else range(a, b, step)
        return r[self.ctx.choose(len(r))]

    def random(self):
        return (0.0, 0.25, 0.5, 1.0 - 2 ** -53)[self.ctx.choose(4)]

    def uniform(self, a, b):
        return a + (b - a) * self.random()

    def shuffle(self, x):
        for i in range(len(x) - 1, 0, -1):
            j = self.ctx.choose(i + 1)
            x[i], x[j] = x[j], x[i]

    def sample(self, seq, k):
        seq = list(seq)
        self.shuffle(seq)
        return seq[:k]


SAVED = dict((k, getattr(random, k)) for k in (
    'choice', 'randint', 'randrange', 'random', 'uniform', 'shuffle',
    'sample'))


def outcomes(make):
    """Every outcome of evaluating an expression"""
    got = []

    def run(ctx):
        c = Chance(ctx)
        for k in SAVED:
            setattr(random, k, getattr(c, k))
        try:
            got.append(show(make().evaluate(None)))
        except core.ProcessingError:
            got.append(None)
        except Exception as e:
            got.append(('raised', type(e).__name__, str(e)))
        finally:
            for k in SAVED:
                setattr(random, k, SAVED[k])
    for _ in explore(run):
        pass
    return got


def chances(rec, shard):
    for v in every(3):
        rec.case(('Random', v))
        got = outcomes(lambda: element('Random', [v], {}))
        rec.transitions += len(got)
        if v[0] not in ('O', 'M', None) and not null(v):
            if set(got) != {None}:
                rec.fail('Random: bad operand accepted', (v, got))
        elif null(v):
            if any(g is not None and g[2] is not None for g in got):
                rec.fail('Random: wrong value for NULL', (v, got))
        elif None in got or set(g[2] for g in got) != set(v[2]):
            rec.fail('Random: not every member', (v, got))
        elif any(g[:2] != ('S', v[1]) for g in got):
            rec.fail('Random: wrong type', (v, got))
        else:
            n = [[g[2] for g in got].count(x) * len(v[2]) ==
                 v[2].count(x) * len(got) for x in v[2]]
            if not all(n):
                rec.fail('Random: members not equally likely', (v, got))
    for lo, hi, step in itertools.product(range(-3, 3), range(-3, 6),
                                          (1, 2, 3, 4)):
        if hi < lo:
            continue
        rec.case(('RandomInteger', lo, hi, step))

        def make():
            e = ex.RandomInteger(None)
            e.min, e.max, e.step = str(lo), str(hi), str(step)
            return e
        got = outcomes(make)
        rec.transitions += len(got)
        if set(got) != set(('S', 'integer', x)
                           for x in range(lo, hi + 1, step)):
            rec.fail('RandomInteger: wrong values', (lo, hi, step, got))
    for lo, hi in ((0.0, 1.0), (-2.5, 2.5), (3.0, 3.0), (-4.0, -1.0)):
        rec.case(('RandomFloat', lo, hi))

        def make():
            e = ex.RandomFloat(None)
            e.min, e.max = str(lo), str(hi)
            return e
        got = outcomes(make)
        rec.transitions += len(got)
        if any(g is None or g[:2] != ('S', 'float') or
               not lo <= g[2] <= hi for g in got):
            rec.fail('RandomFloat: out of range', (lo, hi, got))
        elif lo < hi and len(set(got)) < 2:
            rec.fail('RandomFloat: constant', (lo, hi, got))


# --- shapes

SHAPES = [
    ('rect', '1,1,4,3'), ('rect', '2,0,0,2'), ('rect', '4,3,1,1'),
    ('circle', '2,2,2'), ('circle', '0,0,5'), ('circle', '3,1,0'),
    ('ellipse', '2,2,3,1'), ('ellipse', '0,1,2,4'),
    ('poly', '0,0,6,0,6,6,0,6'), ('poly', '0,0,6,0,3,6'),
    ('poly', '0,0,6,0,6,6,3,2,0,6'), ('poly', '0,0,6,0,6,6,0,6,0,0'),
    ('poly', '3,0,6,3,3,6,0,3'),
    ('default', None)]


def inside(shape, nums, x, y):
    """True, False or None when the point is on an edge"""
    if shape == 'default':
        return x >= 0 and y >= 0
    if shape == 'rect':
        x0, x1 = sorted((nums[0], nums[2]))
        y0, y1 = sorted((nums[1], nums[3]))
        if not (x0 <= x <= x1 and y0 <= y <= y1):
            return False
        return None if x == x1 or y == y1 else True
    if shape == 'circle':
        return (x - nums[0]) ** 2 + (y - nums[1]) ** 2 <= nums[2] ** 2
    if shape == 'ellipse':
        return (Fraction(x - nums[0], nums[2]) ** 2 +
                Fraction(y - nums[1], nums[3]) ** 2) <= 1
    pts = list(zip(nums[0::2], nums[1::2]))
    wind = 0
    for (ax, ay), (bx, by) in zip(pts, pts[1:] + pts[:1]):
        cross = (bx - ax) * (y - ay) - (by - ay) * (x - ax)
        if cross == 0 and min(ax, bx) <= x <= max(ax, bx) and (
                min(ay, by) <= y <= max(ay, by)):
            return None
        if ay <= y < by and cross > 0:
            wind += 1
        elif by <= y < ay and cross < 0:
            wind -= 1
    return wind != 0


def shapes(rec, shard):
    for shape, coords in shard:
        nums = [int(i) for i in coords.split(',')] if coords else []

        def make(v):
            e = element('Inside', [v], {})
            e.shape = getattr(core.Shape, shape)
            if coords:
                e.coords = html.Coords.from_str(coords)
            return e
        pts = list(itertools.product(range(-5, 9), repeat=2))
        vals = [(('S', 'point', p), inside(shape, nums, *p)) for p in pts]
        some = [p for p in pts if inside(shape, nums, *p) is not None][::7]
        for p, q in itertools.product(some, some):
            r = inside(shape, nums, *p) or inside(shape, nums, *q)
            vals += [(('O', 'point', (p, q)), r), (('M', 'point', (p, q)), r)]
        vals += [(U0, 'null'), (('S', 'point', None), 'null'),
                 (('M', 'point', None), 'null'),
                 (('S', 'integer', 1), 'error'), (REC[1], 'error')]
        for v, want in vals:
            rec.case((shape, coords, v))
            rec.transitions += 1
            try:
                got = show(make(v).evaluate(None))
            except core.ProcessingError:
                got = 'error'
            except Exception as e:
                rec.fail('inside %s: %s raised' % (shape, type(e).__name__),
                         (coords, v, e))
                continue
            if want is None:
                continue
            ok = (got == 'error' if want == 'error' else got != 'error' and (
                got[2] is None if want == 'null' else got == boolean(want)))
            if not ok:
                rec.fail('inside %s: wrong answer' % shape,
                         (coords, v, want, got))


# --- documents

HEAD = ('<?xml version="1.0" encoding="UTF-8"?>'
        '<assessmentItem xmlns="http://www.imsglobal.org/xsd/imsqti_v2p1" '
        'identifier="I" title="T" adaptive="%s" timeDependent="false">')
TAIL = '</assessmentItem>'


def load(body, adaptive='false'):
    doc = qtixml.QTIDocument()
    doc.read(src=io.BytesIO((HEAD % adaptive + body + TAIL).encode('utf-8')))
    return doc.root


def text_of(bt, val):
    if bt == 'boolean':
        return 'true' if val else 'false'
    if bt in ('pair', 'directedPair', 'point'):
        return ' '.join(str(x) for x in val)
    return str(val)


CARD_NAME = {'S': 'single', 'O': 'ordered', 'M': 'multiple', 'R': 'record'}


def declared(kind, name, v, extra=''):
    """A declaration with *v* as the default"""
    card, bt, val = v
    s = '<%sDeclaration identifier="%s" cardinality="%s" baseType="%s">' % (
        kind, name, CARD_NAME[card], bt)
    if val is not None:
        s += '<defaultValue>'
        for x in ([val] if card == 'S' else val):
            s += '<value>%s</value>' % text_of(bt, x)
        s += '</defaultValue>'
    return s + extra + '</%sDeclaration>' % kind


ENTRIES = [None, 1.5, -2.0]


def bounded(x, lo, hi):
    if lo is not None and x < lo:
        return lo
    if hi is not None and x > hi:
        return hi
    return x


def mappings(rec, shard):
    """mapResponse with every mapping and value"""
    vals = [('S', 'identifier', None), ('S', 'identifier', 'A'),
            ('S', 'identifier', 'B'), ('S', 'identifier', 'C')]
    for n in range(1, 4):
        vals += [('O', 'identifier', c)
                 for c in itertools.product('ABC', repeat=n)]
        vals += [('M', 'identifier', c) for c in
                 itertools.combinations_with_replacement('ABC', n)]
    vals += [('O', 'identifier', None), ('M', 'identifier', None)]
    for a, b, default, lo, hi in shard:
        s = '<mapping'
        for k, x in (('lowerBound', lo), ('upperBound', hi),
                     ('defaultValue', default)):
            if x is not None:
                s += ' %s="%s"' % (k, x)
        s += '>'
        table = {}
        for k, x in (('A', a), ('B', b)):
            if x is not None:
                s += '<mapEntry mapKey="%s" mappedValue="%s"/>' % (k, x)
                table[k] = x
        s += '</mapping>'
        body = ''.join(declared('response', 'R' + c, (c, 'identifier', None),
                                s) for c in 'SOM')
        for c in 'SOM':
            body += declared('outcome', 'X' + c, ('S', 'float', None))
        state = var.ItemSessionState(load(body))
        state.begin_session()
        for v in vals:
            rec.case((s, v))
            rec.transitions += 1
            name = 'R' + v[0]
            e = ex.MapResponse(None)
            e.identifier = name
            try:
                state[name] = build(v)
                got = show(e.evaluate(state))
            except Exception as err:
                rec.fail('mapResponse: %s raised' % type(err).__name__,
                         (s, v, err))
                continue
            if v[2] is None:
                want = 0.0
            else:
                seen = [v[2]] if v[0] == 'S' else sorted(set(v[2]))
                want = bounded(sum(table.get(x, default or 0.0)
                                   for x in seen), lo, hi)
            if got != ('S', 'float', want):
                rec.fail('mapResponse: wrong value', (s, v, want, got))


def map_shards():
    out = []
    for a, b in itertools.product(ENTRIES, ENTRIES):
        if a is None and b is None:
            continue
        for d in (None, -0.5, 2.0):
            for lo, hi in ((None, None), (0.0, None), (None, 1.0),
                           (-1.0, 2.0), (0.5, 0.5), (0.0, 0.0), (1.0, None)):
                out.append((a, b, d, lo, hi))
    return shards_of(out, 8)


AREAS = [('rect', '0,0,4,4'), ('circle', '4,4,2'), ('rect', '2,2,6,6'),
         ('default', None)]


def areas(rec, shard):
    """mapResponsePoint: one area for each point, each area once"""
    pts = [(1, 1), (3, 3), (5, 5), (9, 9), (4, 5)]
    vals = [('S', 'point', None), ('M', 'point', None), ('O', 'point', None)]
    vals += [('S', 'point', p) for p in pts]
    for n in (1, 2, 3):
        vals += [('O', 'point', c) for c in itertools.product(pts, repeat=n)]
        vals += [('M', 'point', c) for c in
                 itertools.combinations_with_replacement(pts, n)]
    for ks, default, lo, hi in shard:
        m = var.AreaMapping(None)
        m.lowerBound, m.upperBound, m.defaultValue = lo, hi, default
        m.AreaMapEntry = []
        for j, i in enumerate(ks):
            e = var.AreaMapEntry(m)
            e.shape = getattr(core.Shape, AREAS[i][0])
            if AREAS[i][1]:
                e.coords = html.Coords.from_str(AREAS[i][1])
            e.mappedValue = (1.0, 2.0, -4.0)[j]
            m.AreaMapEntry.append(e)
        for v in vals:
            rec.case((ks, default, lo, hi, v))
            rec.transitions += 1
            try:
                got = show(m.map_value(build(v), 10, 10))
            except Exception as err:
                rec.fail('mapResponsePoint: %s raised' % type(err).__name__,
                         (ks, v, err))
                continue
            if v[2] is None:
                want = 0.0
            else:
                hit = set()
                want = 0.0
                for p in [v[2]] if v[0] == 'S' else (
                        v[2] if v[0] == 'O' else sorted(set(v[2]))):
                    for j, i in enumerate(ks):
                        nums = [int(x) for x in AREAS[i][1].split(',')
                                ] if AREAS[i][1] else []
                        if inside(AREAS[i][0], nums, *p):
                            hit.add(j)
                            break
                    else:
                        want += default
                want = bounded(want + sum((1.0, 2.0, -4.0)[j] for j in hit),
                               lo, hi)
            ordered_repeat = v[0] == 'O' and v[2] is not None and (
                len(set(v[2])) < len(v[2])) and default
            if got != ('S', 'float', want) and not ordered_repeat:
                rec.fail('mapResponsePoint: wrong value',
                         (ks, default, lo, hi, v, want, got))


def area_shards():
    out = []
    for n in (1, 2, 3):
        for ks in itertools.permutations(range(4), n):
            for d in (0.0, -0.5):
                for lo, hi in ((None, None), (0.0, 2.5)):
                    out.append((ks, d, lo, hi))
    return shards_of(out, 8)


def tables(rec, shard):
    """Match tables and interpolation tables"""
    default, = shard
    dflt = '' if default is None else ' defaultValue="%s"' % default
    ints = [('S', 'integer', x) for x in (-1, 0, 1, 2, 3)]
    nums = ints + [('S', bt, x) for bt in ('float', 'duration')
                   for x in (-0.5, 0.0, 1.0, 1.5, 2.0, 9.5)]
    nulls = [U0, S0, ('S', 'integer', None)]
    progs = []
    for n in range(1, 4):
        for ks in itertools.permutations((0, 1, 2), n):
            progs.append(('match', [(k, None) for k in ks]))
        for ks in itertools.permutations((0, 1, 2), n):
            for bs in itertools.product((None, 'true', 'false'), repeat=n):
                progs.append(('interpolation', list(zip(ks, bs))))
    for kind, rows in progs:
        s = '<%sTable%s>' % (kind, dflt)
        for i, (k, b) in enumerate(rows):
            s += '<%sTableEntry sourceValue="%s" targetValue="%s"%s/>' % (
                kind, k, 'PQR'[i],
                '' if b is None else ' includeBoundary="%s"' % b)
        s += '</%sTable>' % kind
        body = declared('outcome', 'X', ('S', 'identifier', None), s)
        state = var.ItemSessionState(load(body))
        state.begin_session()
        table = state.get_declaration('X').LookupTable
        for v in (ints if kind == 'match' else nums) + nulls:
            rec.case((s, v))
            rec.transitions += 1
            want = None
            if v[2] is not None:
                want = default
                for i, (k, b) in enumerate(rows):
                    if (k == v[2] if kind == 'match' else
                            k < v[2] or (b != 'false' and k == v[2])):
                        want = 'PQR'[i]
                        break
            try:
                got = show(table.lookup(build(v)))
            except Exception as e:
                rec.fail('%s table: %s raised' % (kind, type(e).__name__),
                         (s, v, e))
                continue
            if not agree(('S', 'identifier', want), got):
                rec.fail('%s table: wrong value' % kind, (s, v, want, got))


# --- assignment


def assignments(rec, shard):
    """Each value to variables of each declaration"""
    targets = [(c, bt) for c in 'SOM' for bt in sorted(SINGLE)]
    body = ''
    for i, (c, bt) in enumerate(targets):
        v = (c, bt, None)
        # start with a value, the last one listed
        first = SINGLE[bt][-1]
        body += declared('outcome', 'X%i' % i,
                         v[:2] + ((first if c == 'S' else (first,)),))
    for v in shard:
        state = var.ItemSessionState(load(body))
        state.begin_session()
        for i, (c, bt) in enumerate(targets):
            name = 'X%i' % i
            rec.case((v, c, bt))
            rec.transitions += 1
            before = show(state[name])
            src = build(v)
            fits = v[0] in (None, c) and v[1] in (None, bt)
            try:
                state[name] = src
                ok = True
            except (ValueError, core.ProcessingError):
                ok = False
            except Exception as e:
                rec.fail('assignment: %s raised' % type(e).__name__,
                         (v, c, bt, e))
                continue
            after = show(state[name])
            if ok != fits:
                rec.fail('assignment: %s' % ('accepted' if ok else 'refused'),
                         (v, c, bt))
            elif not ok and after != before:
                rec.fail('assignment: changed when refused', (v, c, bt))
            elif ok and after != norm((c, bt, v[2])):
                rec.fail('assignment: wrong value', (v, c, bt, after))
            elif show(src) != norm(v):
                rec.fail('assignment: source changed', (v, show(src)))
    for v in shard:
        if v[0] in (None, 'R') or v[1] is None:
            continue
        rec.case(('copy', v))
        try:
            got = show(var.Value.copy_value(build(v)))
        except Exception as e:
            rec.fail('copy: %s raised' % type(e).__name__, (v, e))
            continue
        if got != norm(v):
            rec.fail('copy: wrong value', (v, got))


# --- rules: response and template processing

CONDS = {
    'T': '<baseValue baseType="boolean">true</baseValue>',
    'F': '<baseValue baseType="boolean">false</baseValue>',
    'N': '<null/>',
    'X': '<equal toleranceMode="exact"><variable identifier="X"/>'
         '<baseValue baseType="integer">1</baseValue></equal>',
}


def rule_xml(r, kind):
    k = r[0]
    if k == 'exit':
        return '<exit%s/>' % ('Response' if kind == 'response' else
                              'Template')
    setter = 'setOutcomeValue' if kind == 'response' else 'setTemplateValue'
    if k == 'inc':
        return ('<%s identifier="%s"><sum><variable identifier="%s"/>'
                '<baseValue baseType="integer">1</baseValue></sum></%s>' % (
                    setter, r[1], r[1], setter))
    if k == 'null':
        return '<%s identifier="%s"><null/></%s>' % (setter, r[1], setter)
    out = '<%sCondition>' % kind
    for i, (cond, body) in enumerate(r[1]):
        tag = kind + ('If' if i == 0 else 'ElseIf')
        out += '<%s>%s%s</%s>' % (tag, CONDS[cond], ''.join(
            rule_xml(x, kind) for x in body), tag)
    if r[2] is not None:
        out += '<%sElse>%s</%sElse>' % (kind, ''.join(
            rule_xml(x, kind) for x in r[2]), kind)
    return out + '</%sCondition>' % kind


class Stop(Exception):
    pass


def perform(rules, st):
    for r in rules:
        if r[0] == 'exit':
            raise Stop
        if r[0] == 'inc':
            if st[r[1]] is not None:
                st[r[1]] += 1
        elif r[0] == 'null':
            st[r[1]] = None
        else:
            for cond, body in r[1]:
                if cond == 'T' or (cond == 'X' and st['X'] == 1):
                    perform(body, st)
                    break
            else:
                perform(r[2] or [], st)


LEAVES = [('inc', 'X'), ('inc', 'Y'), ('exit',), ('null', 'X')]


def conditions(bodies):
    out = []
    for c in 'TFNX':
        for b in bodies:
            out.append(('if', [(c, b)], None))
            out.append(('if', [(c, b)], [('inc', 'Y')]))
            for c2 in 'TFNX':
                out.append(('if', [(c, b), (c2, [('inc', 'Y')])],
                            [('null', 'X')]))
    return out


def programs(thorough):
    leaf = [[x] for x in LEAVES]
    small = conditions(leaf)
    nested = conditions([[x, ('inc', 'X')] for x in small[::7]])
    one = LEAVES + small
    for x in one:
        yield [x]
    for x in nested:
        yield [x]
        yield [('inc', 'X'), x, ('inc', 'Y')]
    for x, y in itertools.product(one, one if thorough else one[::3]):
        yield [x, y]
    for x, y in itertools.product(LEAVES, small):
        for z in LEAVES:
            yield [x, y, z]
        yield [x, x, y]


def rules(rec, shard):
    kind, progs = shard
    for prog in progs:
        rec.case((kind, prog))
        rec.states += 1
        want = {'X': 0, 'Y': 0}
        if kind == 'template':
            decl = declared('template', 'X', ('S', 'integer', 0)) + declared(
                'template', 'Y', ('S', 'integer', 0))
        else:
            decl = declared('outcome', 'X', ('S', 'integer', 0)) + declared(
                'outcome', 'Y', ('S', 'integer', 0))
        body = decl + '<%sProcessing>%s</%sProcessing>' % (kind, ''.join(
            rule_xml(r, kind) for r in prog), kind)
        try:
            state = var.ItemSessionState(load(
                body, 'true' if kind == 'response' else 'false'))
            state.begin_session()
            if kind == 'template':
                state.select_clone()
        except Exception as e:
            rec.fail('%s rules: %s raised' % (kind, type(e).__name__),
                     (prog, e))
            continue
        for attempt in range(1 if kind == 'template' else 2):
            rec.transitions += 1
            try:
                perform(prog, want)
            except Stop:
                pass
            try:
                if kind == 'response':
                    state.end_attempt()
                got = dict((k, state[k].value) for k in 'XY')
            except Exception as e:
                rec.fail('%s rules: %s raised' % (kind, type(e).__name__),
                         (prog, e))
                break
            if got != want:
                rec.fail('%s rules: wrong result' % kind,
                         (prog, attempt, want, got))
                break


def rule_shards(th):
    ps = list(programs(th))
    return [('response', x) for x in shards_of(ps, 16)] + [
        ('template', x) for x in shards_of(ps[::1 if th else 3], 8)]


# --- expressions as documents

EXPRS = {
    'sum': 'n', 'product': 'n', 'subtract': 2, 'lt': 2, 'gte': 2,
    'integerDivide': 2, 'multiple': 'n', 'ordered': 'n', 'match': 2,
    'isNull': 1, 'containerSize': 1, 'not': 1, 'and': 'n', 'or': 'n',
    'member': 2, 'delete': 2, 'contains': 2, 'substring': 2,
    'integerToFloat': 1, 'index': 1,
}
CLASSES = dict((getattr(ex, n).XMLNAME[1], n) for n in OPS)


def leaf_xml(v):
    return '<null/>' if v == U0 else '<baseValue baseType="%s">%s' \
        '</baseValue>' % (v[1], text_of(v[1], v[2]))


XLEAVES = [U0, ('S', 'integer', 2), ('S', 'boolean', True),
           ('S', 'boolean', False), ('S', 'float', 2.5)]


def tree_values(tree):
    """The value of an expression tree, Err when it is refused"""
    if tree[0] is None or tree[0] == 'S':
        return tree
    vs = [tree_values(t) for t in tree[1]]
    got = OPS[CLASSES[tree[0]]]([norm(v) for v in vs], tree[2])
    if got[2] is None and got[1] is ANY:
        raise Loose
    return got


class Loose(Exception):

    """The type of a NULL matters: only the operators are checked"""


def tree_xml(tree):
    if tree[0] is None or tree[0] == 'S':
        return leaf_xml(tree)
    return '<%s%s>%s</%s>' % (tree[0], ''.join(
        ' %s="%s"' % i for i in sorted(tree[2].items())),
        ''.join(tree_xml(t) for t in tree[1]), tree[0])


def trees(rec, shard):
    inner = []
    for op in sorted(EXPRS):
        n = EXPRS[op]
        attrs = {'n': 1} if op == 'index' else {}
        if n == 1:
            inner += [(op, (x,), attrs) for x in XLEAVES]
        else:
            inner += [(op, (x, y), attrs) for x in XLEAVES for y in XLEAVES]
    for op in shard:
        n = EXPRS[op]
        attrs = {'n': 1} if op == 'index' else {}
        for t in inner:
            alts = [(t,)] if n == 1 else (
                [(t, x) for x in XLEAVES] + [(x, t) for x in XLEAVES])
            if n == 'n':
                alts += [(x, t, XLEAVES[1]) for x in XLEAVES]
            for kids in alts:
                tree = (op, kids, attrs)
                try:
                    want = tree_values(tree)
                except Loose:
                    continue
                except Err:
                    continue
                s = tree_xml(tree)
                rec.case(s)
                rec.transitions += 1
                body = declared('outcome', 'X', ('S', 'integer', 0)) + (
                    '<responseProcessing><setOutcomeValue identifier="X">%s'
                    '</setOutcomeValue></responseProcessing>' % s)
                try:
                    item = load(body)
                    e = item.ResponseProcessing.ResponseRule[0].Expression
                    got = show(e.evaluate(var.ItemSessionState(item)))
                except core.ProcessingError:
                    if want[2] is not None:
                        rec.fail('document: refused', (s, want))
                    continue
                except Exception as err:
                    rec.fail('document: %s raised' % type(err).__name__,
                             (s, err))
                    continue
                if not agree(want, got):
                    rec.fail('document: wrong value', (s, want, got))


def run(ck):
    th = ck.thorough
    ck.note('a NULL operand without a type may hide operands that the '
            'definitions do not allow; results outside the integers may be '
            'refused or NULL but not wrong')
    ck.part('unary', u_ops, shards_of(
        [n for n in UNARY if n not in ('Random', 'Inside')], 9),
        'operators of one operand')
    ck.part('binary', b_ops, [(4 if th else 3, x) for x in shards_of(
        every(2), 16)], 'operators of two operands')
    ck.part('containers', deep_containers, [
        (7 if th else 6, [(c, i)]) for c in 'OM' for i in range(4)],
        'longer containers')
    ck.part('n-ary', n_ops, [(5 if th else 4, [n]) for n in (
        'And', 'Or', 'AnyN', 'Sum', 'Product', 'Multiple', 'Ordered')],
        'operators of any number of operands')
    ck.part('n-ary-types', n_all, shards_of(every(2), 8),
            'the same with operands of every type')
    ck.part('numbers', m_numbers, (None,), 'arithmetic and comparisons')
    ck.part('random', chances, (None,), 'every outcome of random operators')
    ck.part('inside', shapes, shards_of(SHAPES, 7), 'shapes and points')
    ck.part('mappings', mappings, map_shards(), 'mapResponse')
    ck.part('areas', areas, area_shards(), 'mapResponsePoint')
    ck.part('tables', tables, [(None,), ('D',)],
            'match tables and interpolation tables')
    ck.part('assignment', assignments, shards_of(every(3), 8),
            'values kept in variables, and copies')
    ck.part('rules', rules, rule_shards(th),
            'programs of response and template rules')
    ck.part('documents', trees, [[x] for x in sorted(EXPRS)],
            'expressions of two levels read from documents')
