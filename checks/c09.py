"""C09: character classes are sets, the basic parser is a cursor"""
import itertools
import re
import unicodedata
import warnings

from pyslet.py2 import character
from pyslet.unicode5 import BasicParser, CharClass, ParserError

LEVEL = 'model_checking'
RULE = ('character classes: every subset of a window of consecutive code '
        'points at each of several places, and every operation on it; as the '
        'representation is checked to be canonical the states are closed '
        'under every history; parser: every source to the stated length and '
        'every history of operations')

W = 8
BASES = [0, 0x41, 0xFC, 0xD7FC, 0xFFFC, 0x10FFF8]
MAX = 0x10FFFF


def build(base, bits):
    return [base + i for i in range(W) if bits >> i & 1]


def make(cps):
    """A class made in the most basic way, in a scrambled order"""
    c = CharClass()
    for cp in cps[1::2] + cps[0::2]:
        c.add_char(chr(cp))
    return c


def ranges_of(cps):
    out = []
    for cp in sorted(cps):
        if out and out[-1][1] == cp - 1:
            out[-1][1] = cp
        else:
            out.append([cp, cp])
    return [[chr(a), chr(z)] for a, z in out]


def probe(rec, what, c, base, want, case, neg=False):
    """Compares the class with a set of code points"""
    pts = [p for p in list(range(base - 2, base + W + 2)) +
           [0, 0x100, 0xFFFF, 0x10000, MAX, base - 0x100, base + 0x100]
           if 0 <= p <= MAX]
    for p in pts:
        w = (p in want) != neg
        ch = chr(p)
        if c.test(ch) is not w or bool(c.test_slow(ch)) != w:
            rec.fail(what, repr((case, p, c.test(ch), c.test_slow(ch), w)))
            return False
    if c.test(None):
        rec.fail('None is a member', repr(case))
    if not neg and c.ranges != ranges_of(want):
        rec.fail('not canonical after ' + what, repr((case, c)))
        return False
    if neg:
        c2 = CharClass(c)
        c2.negate()
        if c2.ranges != ranges_of(want):
            rec.fail('double negation', repr((case, c, c2)))
    return True


def classes(rec, shard):
    base, lows = shard
    for bits in lows:
        cps = build(base, bits)
        s = set(cps)
        rec.states += 1
        for op in range(W):
            for name, want in (('add_char', s | {base + op}),
                               ('subtract_char', s - {base + op})):
                rec.case([base, bits, name, op])
                c = make(cps)
                c.test(chr(base + op))
                getattr(c, name)(chr(base + op))
                probe(rec, name, c, base, want, rec._case)
                rec.transitions += 1
        for a in range(W):
            for z in range(W):
                rng = set(range(base + min(a, z), base + max(a, z) + 1))
                for name, want in (('add_range', s | rng),
                                   ('subtract_range', s - rng)):
                    rec.case([base, bits, name, a, z])
                    c = make(cps)
                    c.test(chr(base + a))
                    getattr(c, name)(chr(base + a), chr(base + z))
                    probe(rec, name, c, base, want, rec._case)
                    rec.transitions += 1
        for bits2 in range(1 << W):
            cps2 = build(base, bits2)
            rec.case([base, bits, 'class', bits2])
            c, d = make(cps), make(cps2)
            c.add_class(d)
            ok = probe(rec, 'add_class', c, base, s | set(cps2), rec._case)
            # later changes to the copy must not reach the original
            if ok and cps2:
                c.subtract_char(chr(cps2[0]))
                c.subtract_char(chr(cps2[-1]))
                if d.ranges != ranges_of(cps2):
                    rec.fail('argument modified', repr(rec._case))
            c = make(cps)
            if (c == d) != (bits == bits2) or (c != d) != (bits != bits2):
                rec.fail('equality', repr(rec._case))
            c.subtract_class(d)
            probe(rec, 'subtract_class', c, base, s - set(cps2), rec._case)
            if d.ranges != ranges_of(cps2):
                rec.fail('argument modified', repr(rec._case))
            rec.transitions += 2
        rec.case([base, bits, 'negate'])
        c = make(cps)
        c.test(chr(base))
        if c.negate() is not c:
            rec.fail('negate result')
        probe(rec, 'negate', c, base, s, rec._case, neg=True)
        d = CharClass(make(cps))
        d.add_class(c)
        if d.ranges != [[chr(0), chr(MAX)]]:
            rec.fail('union with the complement', repr((rec._case, d)))
        d = make(cps)
        d.subtract_class(c)
        if d.ranges != ranges_of(s):
            rec.fail('less the complement', repr((rec._case, d)))
        # the constructor in every form
        txt = ''.join(chr(x) for x in cps)
        for d in (CharClass(txt), CharClass(*[(chr(a), chr(a))
                                              for a in cps[::-1]]),
                  CharClass(make(cps)), CharClass(*txt)):
            probe(rec, 'constructor', d, base, s, rec._case)
        if eval(repr(make(cps))) != make(cps):
            rec.fail('repr', repr(make(cps)))
        rec.outcome(len(s))
    rec.traces += rec.transitions


SPECIAL = '\\]^-[a\n\x08&~|.'


def regex(rec, shard):
    """The string form is a regular expression for the class"""
    warnings.simplefilter('ignore')
    pts = [chr(x) for x in range(0, 256)] + ['\uffff', '\U0010ffff']
    for bits in shard:
        s = set(SPECIAL[i] for i in range(len(SPECIAL)) if bits >> i & 1)
        for rng in ((), ('[', '^'), ('\\', ']'), ('*', '-'), ('Z', 'b')):
            c = CharClass(''.join(sorted(s)))
            want = set(s)
            if rng:
                c.add_range(*rng)
                want |= set(chr(x) for x in range(ord(rng[0]),
                                                  ord(rng[1]) + 1))
            for neg in (False, True):
                rec.case([bits, rng, neg])
                rec.states += 1
                if neg:
                    c.negate()
                try:
                    r = re.compile(str(c))
                    if c.ranges:
                        r2 = re.compile('[^%s]' % c.format_re())
                except re.error as e:
                    rec.fail('regular expression', repr((rec._case, str(c),
                                                         str(e))))
                    continue
                for p in pts:
                    w = (p in want) != neg
                    if bool(r.fullmatch(p)) != w:
                        rec.fail('regular expression', repr(
                            (rec._case, str(c), p, w)))
                        break
                    if c.ranges and bool(r2.fullmatch(p)) == w:
                        rec.fail('format_re', repr(
                            (rec._case, c.format_re(), p, w)))
                        break
            rec.outcome('ok')


CATS = ('Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps Pe Pi Pf Po Sm Sc Sk So '
        'Zs Zl Zp Cc Cf Cs Co Cn').split()


def ucd(rec, shard):
    """Each code point is in one category, and its general category"""
    lo, hi = shard
    minors = [(m, CharClass.ucd_category(m)) for m in CATS
              if m != 'Cn' or True]
    old = unicodedata.ucd_3_2_0
    for cp in range(lo, hi):
        ch = chr(cp)
        if not cp & 0xFF:
            rec.case(cp)
        got = [m for m, c in minors if c.test(ch)]
        rec.states += 1
        if cp > 0xEFFFF and not got:
            continue
        if len(got) != 1:
            if got == [] and old.category(ch) == 'Cn':
                continue
            rec.fail('categories', repr((cp, got)))
            continue
        if not CharClass.ucd_category(got[0][0]).test(ch):
            rec.fail('major category', repr((cp, got)))
        now, then = unicodedata.category(ch), old.category(ch)
        if now == then and got[0] != now:
            rec.fail('category value', repr((cp, got, now)))
        rec.outcome(got[0])


def blocks(rec, shard):
    for name, lo, hi in (('Basic Latin', 0, 0x7f),
                         ('Latin-1 Supplement', 0x80, 0xff),
                         ('latin_1 supplement', 0x80, 0xff),
                         ('CYRILLIC', 0x400, 0x4ff),
                         ('CJKUnifiedIdeographs', 0x4e00, 0x9fff),
                         ('Gothic', 0x10330, 0x1034f),
                         ('Specials', 0xfff0, 0xffff),
                         ('High Surrogates', 0xd800, 0xdb7f),
                         ('Supplementary Private Use Area-B', 0x100000,
                          0x10ffff)):
        rec.case(name)
        if CharClass.ucd_block(name).ranges != [[chr(lo), chr(hi)]]:
            rec.fail('block', repr(name))
    rec.outcome('ok')


# -- parser ---------------------------------------------------------------

class Model(object):
    """A cursor on a string"""

    def __init__(self, src):
        self.src = src
        self.pos = 0
        self.err = None

    def rest(self):
        return self.src[self.pos:]


DIG = '0123456789'
HEXD = DIG + 'abcdefABCDEF'


class Err(Exception):
    pass


def run_len(s, cs, hi):
    n = 0
    while n < len(s) and (hi is None or n < hi) and s[n] in cs:
        n += 1
    return n


def m_take(m, n):
    r = m.src[m.pos:m.pos + n]
    m.pos += n
    return r


def op_match(x):
    return ('match', (x,), lambda m: m.rest().startswith(x) and
            m.pos < len(m.src))


def op_parse(x):
    return ('parse', (x,), lambda m: m_take(m, len(x))
            if m.rest().startswith(x) else None)


def m_error(m, production):
    """parser_error: the most advanced error wins if none is named"""
    if not production and m.err is not None and m.pos <= m.err:
        pos = m.err
    else:
        pos = m.pos
    if m.err is None or pos > m.err:
        m.err = pos
    m.pos = pos
    raise Err(pos)


def op_require(x):
    def f(m):
        if not m.rest().startswith(x):
            m_error(m, x)
        return m_take(m, len(x))
    return ('require', (x,), f)


def op_pi(x):
    return ('parse_insensitive', (x,), lambda m: m_take(m, len(x))
            if m.rest().lower().startswith(x) else None)


def op_until(x):
    def f(m):
        i = -1 if x is None else m.src.find(x, m.pos)
        return m_take(m, (len(m.src) if i < 0 else i) - m.pos)
    return ('parse_until', (x,), f)


def op_digits(name, cs, lo, hi):
    def f(m):
        n = run_len(m.rest(), cs, hi)
        return m_take(m, n) if n >= lo else None
    return (name, (lo, hi), f)


def op_int(lo, hi, md):
    def f(m):
        n = run_len(m.rest(), DIG, md)
        if not n:
            return None
        v = int(m.rest()[:n])
        if v < (lo or 0) or (hi is not None and v > hi):
            return None
        m.pos += n
        return v
    return ('parse_integer', (lo, hi, md), f)


def op_one(x):
    return ('parse_one', (x,), lambda m: m_take(m, 1)
            if m.pos < len(m.src) and m.rest()[0] in x else None)


def op_prod(name, inner):
    """parse_production rewinds on failure"""
    def f(m):
        save = m.pos
        try:
            return inner[2](m)
        except Err:
            m.pos = save
            return None
    return ('production', inner, f)


def m_end(m):
    if m.pos < len(m.src):
        m_error(m, 'end')


def menu():
    out = [op_match('1'), op_match('a1'), op_parse('1'), op_parse('a1'),
           op_parse('aA'), op_require('a'), op_require('1A'), op_pi('a'),
           op_pi('aa'), op_until('A'), op_until('1a'), op_until(None),
           op_one('1A'), op_one('ax'),
           ('match_digit', (), lambda m: m.rest()[:1] in DIG and
            m.pos < len(m.src)),
           ('match_hex_digit', (), lambda m: m.rest()[:1] in HEXD and
            m.pos < len(m.src)),
           ('match_end', (), lambda m: m.pos >= len(m.src)),
           ('parse_digit', (), lambda m: m_take(m, 1) if m.rest()[:1] and
            m.rest()[0] in DIG else None),
           ('parse_digit_value', (), lambda m: int(m_take(m, 1))
            if m.rest()[:1] and m.rest()[0] in DIG else None),
           ('parse_hex_digit', (), lambda m: m_take(m, 1) if m.rest()[:1] and
            m.rest()[0] in HEXD else None),
           ('require_end', (), m_end),
           ('peek', (2,), lambda m: m.rest()[:2]),
           ('parser_error', ('p',), lambda m: m_error(m, 'p')),
           ('parser_error', (), lambda m: m_error(m, None)),
           op_digits('parse_digits', DIG, 0, None),
           op_digits('parse_digits', DIG, 1, 2),
           op_digits('parse_digits', DIG, 2, 2),
           op_digits('parse_hex_digits', HEXD, 0, 2),
           op_digits('parse_hex_digits', HEXD, 2, None),
           op_int(None, None, None), op_int(2, 11, None), op_int(0, 1, 2),
           op_int(1, None, 1), op_prod('p', op_require('a1')),
           op_prod('p', op_require('1'))]
    out.append(('require_production_end', (None,), lambda m: m_error(
        m, None)))
    return out


def enc(x, raw):
    if isinstance(x, str):
        return x.encode('ascii') if raw else x
    return x


def parser(rec, shard):
    srcs, depth = shard
    ops = menu()
    for src in srcs:
        for raw in (False, True):
            explore_src(rec, src, raw, ops, depth)


def explore_src(rec, src, raw, ops, depth):
    for hist in itertools.product(range(len(ops)), repeat=depth):
        rec.case([src, raw, hist])
        p = BasicParser(enc(src, raw))
        m = Model(src)
        for i in hist:
            name, args, f = ops[i]
            rec.transitions += 1
            try:
                if name == 'production':
                    got = p.parse_production(
                        getattr(p, args[0]), *[enc(a, raw)
                                               for a in args[1]])
                else:
                    got = getattr(p, name)(*[enc(a, raw) for a in args])
            except ParserError as e:
                got = ('error', e.pos)
            try:
                want = f(m)
            except Err as e:
                want = ('error', e.args[0])
            want = enc(want, raw)
            if raw and name in ('parse_one', 'parse_digit',
                                'parse_hex_digit') and want is not None:
                want = want[0]
            if got != want or type(got) != type(want):
                rec.fail(name, repr((src, raw, hist, args, got, want)))
                return
            tc = m.src[m.pos] if m.pos < len(m.src) else None
            tc = enc(tc, raw)
            if raw and tc is not None:
                tc = tc[0]
            if p.pos != m.pos or p.the_char != tc:
                rec.fail('position after ' + name, repr(
                    (src, raw, hist, p.pos, m.pos)))
                return
    rec.states += 1
    rec.outcome((len(src), raw))


def run(ck):
    ck.part('classes', classes,
            [(b, range(i, 1 << W, 8)) for b in BASES for i in range(8)],
            'all subsets of %i code points at %i places x every operation' % (
                W, len(BASES)))
    ck.part('regular expressions', regex,
            [range(i, 1 << len(SPECIAL), 16) for i in range(16)],
            'all subsets of %r with 5 ranges, and complements' % SPECIAL)
    ck.part('categories', ucd,
            [(i, i + 0x4000) for i in range(0, MAX, 0x4000)],
            'every code point')
    ck.part('blocks', blocks)
    n = 4 if ck.thorough else 3
    srcs = [''.join(t) for k in range(n + 1)
            for t in itertools.product('1aAx', repeat=k)]
    ck.part('parser', parser, [([s], 3 if len(s) == n and ck.thorough or
                                len(s) <= 1 else 2)
                               for s in srcs],
            'sources over 1aAx to length %i, all histories of 2-3 of %i '
            'operations' % (n, len(menu())))
