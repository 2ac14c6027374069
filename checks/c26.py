"""C26: HTTP header values"""
import base64
import datetime
import itertools
import re

from pyslet.http import auth, grammar, messages, params
from pyslet import iso8601 as iso

from mc.core import shards_of

LEVEL = 'model_checking'
RULE = ('every byte string of the stated lengths over an alphabet of '
        'delimiters, every sequence of words up to the stated length for each '
        'header, every placement of white space, every accept list and list '
        'of alternatives of the stated sizes, every day of the stated years, '
        'against a model written from RFC 2616 and RFC 2617')

SEPS = b'()<>@,;:\\"/[]?={} \t'
TOKCHAR = bytes(c for c in range(33, 127) if c not in SEPS)
TOK = b'[' + re.escape(TOKCHAR) + b']+'
LWS = b'(?:\r\n)?[ \t]+'
RE_TOKEN = re.compile(TOK)
RE_LWS = re.compile(LWS)
RE_TEXT = re.compile(b'(?:' + LWS + b'|[^\x00-\x1f\x7f])+')
RE_CTEXT = re.compile(b'(?:' + LWS + b'|[^\x00-\x1f\x7f()\\\\])+')
RE_QDTEXT = re.compile(b'(?:' + LWS + b'|[^\x00-\x1f\x7f"\\\\])+')
RE_PAIR = re.compile(b'\\\\[\x00-\x7f]')
RE_QS = re.compile(b'"(?:' + LWS + b'|[^\x00-\x1f\x7f"\\\\]|'
                   b'\\\\[\x00-\x7f])*"')
RE_FOLD = re.compile(b'\r\n[ \t]+')


class Bad(Exception):
    pass


def m_re(r):
    def f(s, i):
        m = r.match(s, i)
        return m.end() if m else None
    return f


def m_comment(s, i):
    """End of the comment at i, None if there is none"""
    if s[i:i + 1] != b'(':
        return None
    i += 1
    while True:
        c = s[i:i + 1]
        if c == b')':
            return i + 1
        elif c == b'(':
            i = m_comment(s, i)
        elif c == b'\\':
            m = RE_PAIR.match(s, i)
            if not m:
                raise Bad
            i = m.end()
        else:
            m = RE_CTEXT.match(s, i)
            if not m:
                raise Bad
            i = m.end()


def m_quoted(s, i):
    if s[i:i + 1] != b'"':
        return None
    m = RE_QS.match(s, i)
    if not m:
        raise Bad
    return m.end()


PRODUCTIONS = [
    ('parse_lws', m_re(RE_LWS), False),
    ('parse_token', m_re(RE_TOKEN), False),
    ('parse_text', m_re(RE_TEXT), True),
    ('parse_ctext', m_re(RE_CTEXT), True),
    ('parse_qdtext', m_re(RE_QDTEXT), True),
    ('parse_quoted_pair', m_re(RE_PAIR), False),
    ('parse_comment', m_comment, True),
    ('parse_quoted_string', m_quoted, True)]


def unfold(s):
    # inside a quoted pair the CR is data, not the start of a fold
    out = b''
    i = 0
    while i < len(s):
        if s[i:i + 1] == b'\\' and i + 1 < len(s):
            out += s[i:i + 2]
            i += 2
            continue
        m = RE_FOLD.match(s, i)
        if m:
            out += b' '
            i = m.end()
        else:
            out += s[i:i + 1]
            i += 1
    return out


ATOMS = [b'a', b' ', b'\t', b'\r\n', b'\r', b'"', b'\\', b'(', b')', b'\xe9',
         b'\x7f', b',']


def strings(atoms, n):
    for k in range(n + 1):
        for t in itertools.product(atoms, repeat=k):
            yield b''.join(t)


def do_nesting(rec, shard):
    depth, mod, of = shard
    for i, s in enumerate(strings([b'(', b')', b'a', b'\\', b'"'], depth)):
        if i % of != mod:
            continue
        rec.case(s)
        for name, model in (('parse_comment', m_comment),
                            ('parse_quoted_string', m_quoted)):
            try:
                end = model(s, 0)
                want = None if end is None else s[:end]
            except Bad:
                want = 'error'
            p = grammar.OctetParser(s)
            try:
                got = getattr(p, name)()
                if p.pos != (end or 0):
                    got = (got, p.pos)
            except ValueError:
                got = 'error'
            if got != want:
                rec.fail('production %s %r' % (name, s),
                         '%r instead of %r' % (got, want))
            rec.outcome(want if want in ('error', None) else 'matched')
        m_words(rec, s)


def do_octets(rec, shard):
    depth, mod, of = shard
    for i, s in enumerate(strings(ATOMS, depth)):
        if i % of != mod:
            continue
        for name, model, text in PRODUCTIONS:
            for uf in ((False, True) if text else (None,)):
                rec.case((name, s, uf))
                try:
                    end = model(s, 0)
                    want = None if end is None else s[:end]
                    if uf and want is not None and name != 'parse_text':
                        want = unfold(want) if name in (
                            'parse_comment', 'parse_quoted_string') else \
                            RE_FOLD.sub(b' ', want)
                    elif uf and want is not None:
                        want = RE_FOLD.sub(b' ', want)
                except Bad:
                    end, want = None, 'error'
                p = grammar.OctetParser(s)
                try:
                    got = getattr(p, name)(uf) if text else \
                        getattr(p, name)()
                except ValueError:
                    got = 'error'
                except Exception as e:
                    got = repr(e)
                if want == 'error' and got == 'error':
                    rec.outcome('refused')
                    continue
                pos = p.pos
                if got != want or pos != (end or 0):
                    rec.fail('production %s' % name + ' ' + repr((s, uf)),
                             'got %r and position %s instead of %r and %s' %
                             (got, pos, want, end or 0))
                rec.outcome('matched' if want is not None else 'no match')
        m_words(rec, s)


def tokenise(s, sp):
    """The words of s (RFC 2616, section 2.2)"""
    words = []
    i = 0
    while i < len(s):
        m = RE_LWS.match(s, i)
        if m:
            if sp and (not words or words[-1] != b' '):
                words.append(b' ')
            i = m.end()
            continue
        c = s[i:i + 1]
        if c == b'(':
            j = m_comment(s, i)
            words.append(unfold(s[i:j]))
        elif c == b'"':
            j = m_quoted(s, i)
            words.append(unfold(s[i:j]))
        elif c in SEPS:
            j = i + 1
            words.append(c)
        else:
            m = RE_TOKEN.match(s, i)
            if not m:
                raise Bad
            j = m.end()
            words.append(m.group())
        i = j
    return words


def m_words(rec, s):
    for sp in (False, True):
        rec.case((s, sp))
        try:
            want = tokenise(s, sp)
        except Bad:
            want = 'error'
        try:
            got = [w if isinstance(w, bytes) else bytes((w,)) for w in
                   grammar.WordParser(s, ignore_sp=not sp).words]
        except ValueError:
            got = 'error'
        except Exception as e:
            got = repr(e)
        if got != want:
            rec.fail('words' + ' ' + repr((s, sp)), '%r instead of %r' % (got, want))


QATOMS = [bytes((c,)) for c in range(256)]


def do_quote(rec, shard):
    depth, mod, of = shard
    small = [b'a', b'"', b'\\', b'\r', b'\n', b' ', b'\t', b',', b'\xe9',
             b'\x00', b'\x7f', b'\x80']
    todo = itertools.chain(strings(QATOMS, 1), strings(small, depth))
    for i, s in enumerate(todo):
        if i % of != mod:
            continue
        for force in (True, False):
            rec.case((s, force))
            try:
                q = grammar.quote_string(s, force)
                if not force and RE_TOKEN.fullmatch(s):
                    ok = q == s
                else:
                    ok = RE_QS.fullmatch(q) and \
                        grammar.decode_quoted_string(q) == s
                    p = grammar.WordParser(q)
                    ok = ok and p.parse_quoted_string() == s and \
                        p.match_end()
            except Exception as e:
                ok, q = False, repr(e)
            if not ok:
                rec.fail('quoting' + ' ' + repr((s, force)), 'gives %r' % (q,))


# -- header values as sequences of words -------------------------------------

T = RE_TOKEN.fullmatch


def tok(w):
    if not w or not T(w[0]):
        raise Bad
    return w.pop(0)


def sep(w, c):
    if not w or w[0] != c:
        raise Bad
    w.pop(0)


def value(w):
    """token | quoted-string"""
    if w and w[0][:1] == b'"':
        q = w.pop(0)[1:-1]
        return re.sub(b'\\\\(.)', b'\\1', q, flags=re.S)
    return tok(w)


class Any(Exception):
    """The specification does not settle this one"""
    pass


def parameters(w, stop=None, optional=False):
    result = {}
    while w and w[0] == b';':
        if stop and len(w) > 1 and w[1].lower() == stop:
            break
        w.pop(0)
        n = tok(w).lower()
        if optional and (not w or w[0] != b'='):
            # extensions may go without a value
            v = None
        else:
            sep(w, b'=')
            v = value(w)
        if n in result:
            raise Any
        result[n] = v
    return tuple(sorted(result.items()))


def end(w):
    if w:
        raise Bad


def listof(item):
    def f(w):
        out = []
        if not w:
            raise Any
        while True:
            while w and w[0] == b',':
                # null elements need not be understood
                raise Any
            out.append(item(w))
            if not w:
                return tuple(out)
            sep(w, b',')
            if not w:
                raise Any
    return f


def k_media(w):
    t = tok(w).lower()
    sep(w, b'/')
    s = tok(w).lower()
    return (t, s, parameters(w))


def k_qvalue(w):
    q = tok(w)
    if not re.fullmatch(b'0(\\.[0-9]{0,3})?|1(\\.0{0,3})?', q):
        if re.fullmatch(b'[0-9]+(\\.[0-9]*)?', q):
            raise Any
        raise Bad
    return float(q)


def k_accept_item(w):
    t = tok(w).lower()
    sep(w, b'/')
    s = tok(w).lower()
    if t == b'*' and s != b'*':
        raise Any
    p = parameters(w, b'q')
    q, ext = 1.0, ()
    if w and w[0] == b';':
        w.pop(0)
        tok(w)
        sep(w, b'=')
        q = k_qvalue(w)
        ext = parameters(w, optional=True)
    return (t, s, p, q, ext)


def k_accept_token(w):
    t = tok(w).lower()
    q = 1.0
    if w and w[0] == b';':
        w.pop(0)
        if tok(w).lower() != b'q':
            raise Bad
        sep(w, b'=')
        q = k_qvalue(w)
    return (t, q)


def k_version(w):
    if tok(w).upper() != b'HTTP':
        raise Bad
    sep(w, b'/')
    m = re.fullmatch(b'([0-9]+)\\.([0-9]+)', tok(w))
    if not m:
        raise Bad
    return int(m.group(1)), int(m.group(2))


def k_transfer(w):
    t = tok(w).lower()
    if t == b'chunked':
        if w and w[0] == b';':
            raise Any
        return (t, ())
    return (t, parameters(w))


def k_chunk(w):
    n = tok(w)
    if not re.fullmatch(b'[0-9A-Fa-f]+', n):
        raise Bad
    return (int(n, 16), parameters(w, optional=True))


def k_product(w):
    t = tok(w)
    v = None
    if w and w[0] == b'/':
        w.pop(0)
        v = tok(w)
    return (t, v)


def k_products(w):
    if not w:
        raise Any
    out = [k_product(w)]
    while w:
        out.append(k_product(w))
    return tuple(out)


def k_language(w):
    t = tok(w)
    if not re.fullmatch(b'[A-Za-z0-9]{1,8}(-[A-Za-z0-9]{1,8})*', t):
        raise Any
    return tuple(t.lower().split(b'-'))


def k_etag(w):
    weak = False
    if w and w[0][:1] != b'"':
        if tok(w).upper() != b'W':
            raise Bad
        sep(w, b'/')
        weak = True
    if not w or w[0][:1] != b'"':
        raise Bad
    return (value(w), weak)


def k_range(w):
    if tok(w).lower() != b'bytes':
        raise Bad
    s = tok(w)
    if s == b'*':
        f = l = None
    else:
        m = re.fullmatch(b'([0-9]+)-([0-9]+)', s)
        if not m:
            raise Bad
        f, l = int(m.group(1)), int(m.group(2))
    sep(w, b'/')
    n = tok(w)
    if n == b'*':
        n = None
    elif n.isdigit():
        n = int(n)
    else:
        raise Bad
    return (f, l, n)


def k_ranges(w):
    v = listof(lambda w: tok(w).lower())(w)
    if b'none' in v:
        if len(v) > 1:
            raise Bad
        return ()
    return v


def k_challenge(w):
    scheme = tok(w).lower()
    out = []
    seen = set()
    if not w or w[0] == b',':
        if scheme == b'basic':
            raise Any
        return (scheme, ())
    while True:
        n = tok(w).lower()
        sep(w, b'=')
        v = value(w)
        if n in seen:
            raise Any
        seen.add(n)
        out.append((n, v))
        # a comma and a name with a value go on with this challenge
        if len(w) > 2 and w[0] == b',' and T(w[1]) and w[2] == b'=':
            w.pop(0)
            continue
        return (scheme, tuple(sorted(out)))


def k_cache(w):
    out = []
    n = None
    while True:
        if w and w[0] == b',':
            raise Any
        n = tok(w).lower()
        v = None
        if w and w[0] == b'=':
            w.pop(0)
            v = value(w)
        if n in [o[0] for o in out]:
            raise Any
        out.append((n, v))
        if not w:
            return tuple(out)
        sep(w, b',')
        if not w:
            raise Any


def lat(s):
    return s.encode('latin-1') if isinstance(s, str) else s


def g_params(d):
    return tuple(sorted((lat(k), v[1]) for k, v in d.items()))


def g_media(m):
    return (lat(m.type).lower(), lat(m.subtype).lower(),
            g_params(m.parameters))


def g_item(a):
    return g_media(a.range) + (a.q, g_params(a.params))


def g_challenge(c):
    have = {}
    for n, v, q in c:
        have[lat(n).lower()] = v
    return (lat(c.scheme).lower(), have)


def m_challenge(m):
    """Adds the realm that is understood"""
    d = dict(m[1])
    d.setdefault(b'realm', b'Default')
    return (m[0], d)


def g_cache(cc):
    out = []
    for d in cc:
        n, v = d if isinstance(d, tuple) else (d, None)
        if isinstance(v, tuple):
            v = b', '.join(lat(str(x)) if not isinstance(x, bytes) else x
                           for x in v)
        elif v is not None and not isinstance(v, bytes):
            v = lat(str(v))
        out.append((lat(n), v))
    return tuple(out)


def unordered(m):
    return sorted(m, key=repr)


def text(x):
    return x.to_bytes() if hasattr(x, 'to_bytes') else lat(str(x))


def texts(sep):
    def f(v):
        return sep.join(text(i) for i in v)
    return f


PW = [b'a', b'/', b';', b'=', b'B', b'"x\\"y"', b',', b'q', b'""']
#     name, read, model, got, write, words, hashed, spaces refused
KINDS = {
    'media type': (
        params.MediaType.from_str, k_media, g_media, text,
        [b'a', b'/', b';', b'=', b'B', b'"x\\"y"', b',', b'""']),
    'media range': (
        messages.MediaRange.from_str, lambda w: k_media(w), g_media, text,
        [b'a', b'/', b';', b'=', b'*', b'"x"']),
    'accept item': (
        messages.AcceptItem.from_str, k_accept_item, g_item, text,
        [b'a', b'/', b';', b'=', b'*', b'q', b'0.5', b'1', b'x']),
    'accept list': (
        messages.AcceptList.from_str, listof(k_accept_item),
        lambda v: unordered(g_item(i) for i in v), text,
        [b'a', b'/', b';', b'=', b'*', b'q', b'0.5', b',', b'Q']),
    'accept charset': (
        messages.AcceptCharsetList.from_str, listof(k_accept_token),
        lambda v: unordered((lat(i.token).lower(), i.q) for i in v), text,
        [b'a', b';', b'=', b'*', b'q', b'0.5', b',', b'0.', b'1.000']),
    'accept encoding': (
        messages.AcceptEncodingList.from_str, listof(k_accept_token),
        lambda v: unordered((lat(i.token).lower(), i.q) for i in v), text,
        [b'gzip', b';', b'=', b'*', b'Q', b'0.001', b',', b'0']),
    'accept language': (
        messages.AcceptLanguageList.from_str, listof(k_accept_token),
        lambda v: unordered((lat(i.token).lower(), i.q) for i in v), text,
        [b'en-GB', b'fr', b';', b'=', b'*', b'q', b'0.7', b',']),
    'HTTP version': (
        params.HTTPVersion.from_str, k_version,
        lambda v: (v.major, v.minor), text,
        [b'HTTP', b'http', b'/', b'1.1', b'1.0', b'10.12', b'1', b'1.x']),
    'transfer encoding': (
        params.TransferEncoding.from_str, k_transfer,
        lambda v: (lat(v.token), g_params(v.parameters)), text,
        [b'gzip', b'Chunked', b';', b'=', b'a', b'"x y"', b',']),
    'transfer encodings': (
        params.TransferEncoding.list_from_str, listof(k_transfer),
        lambda v: tuple((lat(i.token), g_params(i.parameters)) for i in v),
        texts(b', '),
        [b'gzip', b'chunked', b';', b'=', b'a', b',', b'"x, y"']),
    'chunk': (
        params.Chunk.from_str, k_chunk,
        lambda v: (v.size, g_params(v.extensions)), text,
        [b'0', b'1F', b'g', b';', b'=', b'a', b'"x"']),
    'product token': (
        params.ProductToken.from_str, k_product,
        lambda v: (lat(v.token), v.version and lat(v.version)), text,
        [b'a', b'/', b'1.0', b',', b'"x"']),
    'product tokens': (
        params.ProductToken.list_from_str, k_products,
        lambda v: tuple((lat(i.token), i.version and lat(i.version))
                        for i in v), texts(b' '),
        [b'a', b'/', b'1.0', b',', b'"x"', b'Bc']),
    'language tag': (
        params.LanguageTag.from_str, k_language,
        lambda v: tuple(lat(v.primary).lower().split(b'-')) +
        tuple(lat(t).lower() for t in v.subtags), text,
        [b'en', b'en-GB', b'x-a-B', b',', b';', b'"en"']),
    'language tags': (
        params.LanguageTag.list_from_str, listof(k_language),
        lambda v: tuple((lat(i.primary).lower(),) + tuple(
            lat(t).lower() for t in i.subtags) for i in v), texts(b', '),
        [b'en', b'en-GB', b'x-a-B', b',', b';', b'"en"']),
    'entity tag': (
        params.EntityTag.from_str, k_etag, lambda v: (v.tag, v.weak), text,
        [b'W', b'w', b'/', b'"x"', b'""', b'"a\\"b\\\\"', b'x', b'"W/"']),
    'content range': (
        messages.ContentRange.from_str, k_range,
        lambda v: (v.first_byte, v.last_byte, v.total_len), text,
        [b'bytes', b'Bytes', b'0-9', b'5-', b'*', b'/', b'10', b'x']),
    'accept ranges': (
        messages.AcceptRanges.from_str, k_ranges,
        lambda v: tuple(i.lower() for i in v), text,
        [b'bytes', b'none', b',', b'Lines', b'/', b'"x"']),
    'allow': (
        messages.Allow.from_str,
        listof(lambda w: tok(w).upper()),
        lambda v: tuple(v), text,
        [b'GET', b'post', b',', b'/', b'"x"', b'X-y']),
    'challenge': (
        auth.Challenge.from_str, lambda w: m_challenge(k_challenge(w)),
        g_challenge, text,
        [b'Basic', b'x', b'realm', b'=', b',', b'"r \\"s"', b'""', b'y']),
    'challenges': (
        auth.Challenge.list_from_str,
        lambda w: [m_challenge(c) for c in listof(k_challenge)(w)],
        lambda v: [g_challenge(c) for c in v], texts(b', '),
        [b'Basic', b'x', b'realm', b'=', b',', b'"r"', b'y']),
    'cache control': (
        messages.CacheControl.from_str, k_cache, g_cache, text,
        [b'no-cache', b'max-age', b'=', b'10', b',', b'"a, b"', b'X']),
}
UNORDERED = ('accept list', 'accept charset', 'accept encoding',
             'accept language')


def join(words):
    """The shortest text with these words: adjacent tokens need a space"""
    out = b''
    last = None
    for w in words:
        if last is not None and len(last) and T(last) and T(w):
            out += b' '
        out += w
        last = w
    return out


def expect(kind, words):
    model = KINDS[kind][1]
    w = list(words)
    try:
        v = model(w)
        end(w)
        if kind in UNORDERED:
            v = unordered(v)
        return v
    except Bad:
        return 'error'
    except Any:
        return 'any'


def read(kind, src):
    try:
        return KINDS[kind][0](src), None
    except ValueError:
        return None, 'error'
    except Exception as e:
        return None, repr(e)


def one_value(rec, kind, src, want):
    get, write = KINDS[kind][2:4]
    obj, err = read(kind, src)
    if err:
        got = err
    else:
        try:
            got = get(obj)
        except Exception as e:
            got = repr(e)
    if want == 'any':
        if got != 'error' and err:
            rec.fail('%s crashes' % kind + ' ' + repr(src), got)
        rec.outcome('unsettled')
        return None
    if got != want:
        rec.fail('%s read' % kind + ' ' + repr(src),
                 'gives %r instead of %r' % (got, want))
        return None
    if want == 'error':
        rec.outcome('refused')
        return None
    rec.outcome('read')
    try:
        out = write(obj)
        again = get(KINDS[kind][0](out))
    except Exception as e:
        out, again = None, repr(e)
    if again != want:
        rec.fail('%s written' % kind + ' ' + repr(src),
                 'written as %r, which reads as %r instead of %r' %
                 (out, again, want))
    return obj


SPACES = [b'', b' ', b'\t ', b'\r\n ']


def inner_space(kind, words, i):
    """Is white space between words i-1 and i settled by the grammar?"""
    if kind in ('media type', 'media range', 'accept item', 'accept list'):
        return words[i - 1] not in (b'/', b'=') and \
            words[i] not in (b'/', b'=')
    if kind in ('product token', 'product tokens', 'entity tag',
                'HTTP version', 'content range', 'chunk'):
        return words[i - 1] != b'/' and words[i] != b'/'
    if kind in ('accept ranges', 'allow'):
        return True
    return True


def do_values(rec, shard):
    kind, depth, mod, of = shard
    words = KINDS[kind][4]
    n = 0
    for k in range(depth + 1):
        for t in itertools.product(words, repeat=k):
            n += 1
            if n % of != mod:
                continue
            rec.case((kind, t))
            want = expect(kind, t)
            obj = one_value(rec, kind, join(t), want)
            if obj is None or k > 6:
                continue
            # white space may stand between any two words
            for i in range(k + 1):
                if 0 < i < k and not inner_space(kind, t, i):
                    continue
                if i in (0, k):
                    # a header value reaches its parser stripped
                    continue
                for s in SPACES[1:]:
                    rec.case((kind, t, i, s))
                    src = join(t[:i]) + s + join(t[i:])
                    one_value(rec, kind, src, want)


# longer values, on from one that is well formed
PREFIXES = {
    'media type': [[b'a', b'/', b'B'], [b'a', b'/', b'B', b';', b'a', b'=']],
    'media range': [[b'a', b'/', b'*'], [b'a', b'/', b'a', b';', b'a', b'=']],
    'accept item': [[b'a', b'/', b'*', b';'],
                    [b'a', b'/', b'x', b';', b'x', b'=', b'x'],
                    [b'a', b'/', b'*', b';', b'q', b'=', b'0.5']],
    'accept list': [[b'a', b'/', b'*', b';', b'q', b'=', b'0.5', b','],
                    [b'*', b'/', b'*', b',', b'a', b'/', b'a']],
    'accept charset': [[b'a', b';', b'q', b'='],
                       [b'*', b';', b'q', b'=', b'0.5', b',']],
    'accept encoding': [[b'gzip', b';', b'Q', b'='],
                        [b'*', b';', b'Q', b'=', b'0', b',']],
    'accept language': [[b'en-GB', b';', b'q', b'='],
                        [b'fr', b',', b'en-GB', b',']],
    'transfer encoding': [[b'gzip', b';', b'a', b'=']],
    'transfer encodings': [[b'gzip', b';', b'a', b'='],
                           [b'gzip', b',', b'chunked']],
    'chunk': [[b'1F', b';', b'a', b'='], [b'0', b';', b'a', b';']],
    'challenge': [[b'x', b'y', b'=', b'"r \\"s"'],
                  [b'Basic', b'realm', b'=']],
    'challenges': [[b'x', b'realm', b'=', b'"r"', b','],
                   [b'Basic', b'realm', b'=', b'"r"', b',', b'x', b'y']],
    'cache control': [[b'no-cache', b'=', b'"a, b"', b','],
                      [b'X', b',', b'max-age', b'=']],
}


def do_longer(rec, shard):
    kind, n, depth = shard
    pre = PREFIXES[kind][n]
    for k in range(depth + 1):
        for t in itertools.product(KINDS[kind][4], repeat=k):
            t = tuple(pre) + t
            rec.case((kind, t))
            one_value(rec, kind, join(t), expect(kind, t))


# -- equality, order and hashing ----------------------------------------------

SORTED = ['media type', 'transfer encoding', 'chunk', 'HTTP version',
          'product token', 'language tag', 'entity tag', 'accept ranges',
          'allow']


VARIANTS = {
    'media type': ['a/b;c=d', 'a/b;c=D', 'A/b;C=d', 'a/B; c="d"', 'a/b',
                   'a/b;c=d;e=f', 'a/b;e=f;c=d', 'a/b;c="\\d"'],
    'transfer encoding': ['GZIP', 'gzip;a=x', 'gzip;a=X', 'gzip;A=x',
                          'gzip;a=x;b=y', 'gzip;b=y;a=x'],
    'chunk': ['1f', '1F', '01f', '1f;a=x', '1f;A=x', '1f;a=X', '1f;a'],
    'HTTP version': ['HTTP/1.9', 'HTTP/1.10', 'http/1.9', 'HTTP/2.0',
                     'HTTP/01.9'],
    'product token': ['A/1', 'a/1', 'a/1.0', 'a/1.9', 'a/1.10', 'a/1.9b2',
                      'a/1.9b10', 'a/1.9B2', 'a/01'],
    'language tag': ['EN', 'en-gb', 'en-GB', 'en-gb-x', 'en-a'],
    'entity tag': ['"x"', '"X"', 'W/"x"', 'w/"x"', '"\\x"', '"W/x"'],
    'accept ranges': ['a, b', 'b, a', 'A, b', 'a'],
    'allow': ['GET, PUT', 'PUT, GET', 'get, put', 'GET'],
}


def pool(kind, size):
    """Texts of a kind of value with what they mean, shortest first"""
    out = []
    words = KINDS[kind][4]
    for v in VARIANTS[kind]:
        v = v.encode()
        out.append((v, expect(kind, tokenise(v, False))))
    size += len(out)
    for k in range(8):
        for pre in [[]] + PREFIXES.get(kind, []):
            for t in itertools.product(words, repeat=max(0, k - len(pre))):
                t = tuple(pre) + t
                if len(t) != k:
                    continue
                v = expect(kind, t)
                if v not in ('error', 'any'):
                    if (join(t), v) not in out:
                        out.append((join(t), v))
            if len(out) >= size:
                return out[:size]
    return out


def version_key(v):
    """Numbers compare as numbers, a qualifier makes a version earlier"""
    out = []
    for item in v.split('.'):
        key = []
        for num, q in re.findall('([0-9]+)|([^0-9]+)', item):
            if num:
                key.append(int(num))
            else:
                if not key:
                    key.append(-1)
                key.append(q)
        if key and isinstance(key[-1], int):
            key.append('~')
        out.append(tuple(key))
    return tuple(out)


def same_as(kind, v):
    """What counts for equality"""
    if kind in ('accept ranges', 'allow'):
        return tuple(sorted(v))
    if kind == 'product token':
        return (v[0], version_key(v[1].decode()) if v[1] else ())
    return v


def do_order(rec, shard):
    kind, size = shard
    values = pool(kind, size)
    objs = [(KINDS[kind][0](t), same_as(kind, v), t) for t, v in values]
    for a, ma, ta in objs:
        for b, mb, tb in objs:
            rec.case((kind, ta, tb))
            try:
                got = (a == b, a != b, a < b, a <= b, a > b, a >= b,
                       b < a, a == tb.decode('latin-1'))
                h = hash(a) == hash(b)
            except Exception as e:
                rec.fail('%s comparison %r %r' % (kind, ta, tb), repr(e))
                continue
            eq = ma == mb
            lt = got[2]
            if got != (eq, not eq, lt, lt or eq, not (lt or eq), not lt,
                       not (lt or eq), eq) or (lt and eq):
                rec.fail('%s comparison %r %r' % (kind, ta, tb), repr(got))
            if eq and not h:
                rec.fail('%s hash %r %r' % (kind, ta, tb), 'differ')
            rec.outcome('equal' if eq else 'different')
    # an order
    s = sorted(o[0] for o in objs)
    for i in range(len(s)):
        for j in range(i, len(s)):
            if s[j] < s[i]:
                rec.fail('%s order %r %r' % (kind, text(s[i]), text(s[j])),
                         'not transitive')


def do_versions(rec, shard):
    depth, mod, of = shard
    vs = []
    for k in range(1, depth + 1):
        for t in itertools.product('19ab.', repeat=k):
            v = ''.join(t)
            if '..' in v or v[0] == '.' or v[-1] == '.':
                continue
            vs.append((version_key(v), v, params.ProductToken('a', v)))
    rec.case('explode')
    for t, want in (("2.15", ((2, "~"), (15, "~"))),
                    ("2.17b3", ((2, "~"), (17, "b", 3, "~"))),
                    ("2.b3", ((2, "~"), (-1, "b", 3, "~")))):
        if params.ProductToken.explode(t) != want or version_key(t) != want:
            rec.fail('explode %s' % t, params.ProductToken.explode(t))
    for i, (ka, va, a) in enumerate(vs):
        if i % of != mod:
            continue
        for kb, vb, b in vs:
            rec.case((va, vb))
            if (a < b, a == b, a > b) != (ka < kb, ka == kb, ka > kb):
                rec.fail('versions %s %s' % (va, vb), 'wrong order')
        rec.outcome('compared')


# -- choosing between alternatives --------------------------------------------

RANGES = [b'*/*', b'a/*', b'a/b', b'a/b;x=1', b'a/b;x=2', b'A/C', b'b/*']
TYPES = [b'a/b', b'a/b;x=1', b'a/c', b'b/d', b'A/B;x=1;y=2']
QS = [None, b'0', b'0.3', b'0.75']


def qtext(r, q):
    return r if q is None else r + b';q=' + q


def qnum(q):
    return 1.0 if q is None else float(q)


def range_rank(r, t):
    """How closely range r matches type t, 0 for not at all"""
    r = r.lower().split(b';')
    t = t.lower().split(b';')
    rt, rs = r[0].split(b'/')
    tt, ts = t[0].split(b'/')
    if rt == b'*':
        return 1
    if rt != tt:
        return 0
    if rs == b'*':
        return 2
    if rs != ts or set(r[1:]) - set(t[1:]):
        return 0
    return 3 + len(r) - 1


def best(alternatives, q):
    """q(t): the set of qualities t may have"""
    answers = set()
    for qs in itertools.product(*[q(t) for t in alternatives]):
        m = max(qs) if qs else 0
        answers.add(alternatives[qs.index(m)] if m > 0 else None)
    return answers


def choices(menu, n):
    for k in range(n + 1):
        for t in itertools.permutations(menu, k):
            yield t


def do_types(rec, shard):
    n, mod, of = shard
    types = [(t, [params.MediaType.from_str(x) for x in t])
             for t in choices(TYPES, 3)]
    i = 0
    for k in range(1, n + 1):
        for rs in itertools.permutations(RANGES, k):
            for qs in itertools.product(QS, repeat=k):
                i += 1
                if i % of != mod:
                    continue
                src = b', '.join(qtext(r, q) for r, q in zip(rs, qs))
                al = messages.AcceptList.from_str(src)

                def q(t):
                    ranks = [(range_rank(r, t), qnum(x))
                             for r, x in zip(rs, qs)]
                    m = max(r for r, x in ranks)
                    return {x for r, x in ranks if r == m} if m else {0}
                cache = dict((t, q(t)) for t in TYPES)
                for names, objs in types:
                    rec.case((src, names))
                    got = al.select_type(objs)
                    want = best(names, cache.get)
                    if got is not None:
                        got = names[[o is got for o in objs].index(True)]
                    if got not in want:
                        rec.fail('select type %r from %r' % (names, src),
                                 '%r instead of %r' % (got, want))
                    rec.outcome('chosen' if got else 'none')


NEGOTIATE = {
    'accept charset': (messages.AcceptCharsetList, [
        'a', 'B', '*', 'iso-8859-1'], ['A', 'b', 'c', 'ISO-8859-1']),
    'accept encoding': (messages.AcceptEncodingList, [
        'gzip', 'X', '*', 'identity'], ['GZIP', 'x', 'c', 'identity']),
    'accept language': (messages.AcceptLanguageList, [
        'en', 'en-gb', '*', 'fr', 'e', 'en-GB-x'],
        ['en', 'en-GB', 'en-us', 'fr-CA', 'EN-gb-X', 'e-n']),
}


def token_quality(kind, items, t):
    t = t.lower()
    found = None
    for r, q in items:
        r = r.lower()
        if r == '*':
            rank = 0
        elif r == t:
            rank = 100
        elif kind == 'accept language' and t.startswith(r + '-'):
            rank = len(r.split('-'))
        else:
            continue
        if found is None or rank > found[0]:
            found = (rank, q)
    if found:
        return {found[1]}
    if kind == 'accept charset' and t == 'iso-8859-1':
        return {1.0}
    if kind == 'accept encoding' and t == 'identity':
        # acceptable, after everything that is asked for
        return {1e-9}
    return {0}


def do_tokens(rec, shard):
    kind, n, mod, of = shard
    cls, ranges, tokens = NEGOTIATE[kind]
    menus = list(choices(tokens, 3))
    i = 0
    for k in range(1, n + 1):
        for rs in itertools.permutations(ranges, k):
            for qs in itertools.product(QS, repeat=k):
                i += 1
                if i % of != mod:
                    continue
                items = [(r, qnum(q)) for r, q in zip(rs, qs)]
                src = b','.join(qtext(r.encode(), q)
                                for r, q in zip(rs, qs))
                al = cls.from_str(src)
                cache = dict((t, token_quality(kind, items, t))
                             for t in tokens)
                for names in menus:
                    rec.case((src, names))
                    got = al.select_token(list(names))
                    want = best(names, cache.get)
                    if kind == 'accept language' and got:
                        # comes back as a language tag
                        got = {t.lower(): t for t in names}.get(got.lower())
                    if got not in want:
                        rec.fail('%s %r from %r' % (kind, names, src),
                                 '%r instead of %r' % (got, want))
                    rec.outcome('chosen' if got else 'none')


# -- dates ---------------------------------------------------------------------

DAYS = ['Monday', 'Tuesday', 'Wednesday', 'Thursday', 'Friday', 'Saturday',
        'Sunday']
MONTHS = ['Jan', 'Feb', 'Mar', 'Apr', 'May', 'Jun', 'Jul', 'Aug', 'Sep',
          'Oct', 'Nov', 'Dec']


def date_text(form, y, mo, d, dow, h=8, m=49, s=37):
    if form == 'rfc1123':
        return '%s, %02i %s %04i %02i:%02i:%02i GMT' % (
            DAYS[dow][:3], d, MONTHS[mo - 1], y, h, m, s)
    elif form == 'rfc850':
        return '%s, %02i-%s-%02i %02i:%02i:%02i GMT' % (
            DAYS[dow], d, MONTHS[mo - 1], y % 100, h, m, s)
    else:
        return '%s %s %2i %02i:%02i:%02i %04i' % (
            DAYS[dow][:3], MONTHS[mo - 1], d, h, m, s, y)


FORMS = ['rfc1123', 'rfc850', 'asctime']


def read_date(src):
    try:
        tp = params.FullDate.from_http_str(src)
        c, y, mo, d, h, m, s = tp.get_calendar_time_point()
        return (c * 100 + y, mo, d, h, m, s) + tuple(tp.get_zone()[:1]), tp
    except ValueError:
        return 'error', None
    except Exception as e:
        return repr(e), None


def one_date(rec, form, y, mo, d, dow, h=8, m=49, s=37):
    rec.case((form, y, mo, d, dow, h, m, s))
    src = date_text(form, y, mo, d, dow, h, m, s)
    try:
        real = datetime.datetime(y, mo, d, h, m, s)
        want = (y, mo, d, h, m, s, 0) if real.weekday() == dow else 'error'
    except ValueError:
        want = 'error'
    got, tp = read_date(src)
    if got != want:
        rec.fail('date %s' % src, '%r instead of %r' % (got, want))
    elif tp is not None:
        out = tp.to_bytes().decode()
        if out != date_text('rfc1123', y, mo, d, dow, h, m, s):
            rec.fail('date %s' % src, 'written as %r' % out)
    rec.outcome('refused' if want == 'error' else 'read')


def do_dates(rec, years):
    one = datetime.timedelta(1)
    for y in years:
        day = datetime.date(y, 1, 1)
        while day.year == y:
            for form in FORMS:
                if form == 'rfc850' and not 1990 <= y < 2090:
                    continue
                one_date(rec, form, y, day.month, day.day, day.weekday())
            if day == datetime.date(9999, 12, 31):
                break
            day += one
        for mo in range(1, 13):
            for d in (0, 1, 15, 28, 29, 30, 31, 32):
                for dow in range(7):
                    for form in FORMS[::2]:
                        one_date(rec, form, y, mo, d, dow)


def do_times(rec, hours):
    for h in hours:
        for m in range(62):
            for s in range(60):
                form = FORMS[(h + m + s) % 3]
                # the end of a day as 24:00:00 is ISO 8601, not HTTP
                if (m < 60 or s == 0) and (h, m, s) != (24, 0, 0):
                    one_date(rec, form, 1994, 11, 6, 6, h, m, s)
    # zones are taken out when a date is written
    for h in hours:
        if h > 23:
            continue
        for off in range(-14 * 60, 14 * 60 + 1, 15):
            rec.case(('zone', h, off))
            tp = params.FullDate(
                date=iso.Date(century=20, year=0, month=1, day=1),
                time=iso.Time(hour=h, minute=30, second=5,
                              zdirection=(off > 0) - (off < 0),
                              zhour=abs(off) // 60, zminute=abs(off) % 60)
                if off else
                iso.Time(hour=h, minute=30, second=5, zdirection=0))
            real = datetime.datetime(2000, 1, 1, h, 30, 5) - \
                datetime.timedelta(minutes=off)
            want = date_text('rfc1123', real.year, real.month, real.day,
                             real.weekday(), real.hour, real.minute,
                             real.second)
            if tp.to_bytes().decode() != want:
                rec.fail('date in zone %i:30 %i' % (h, off),
                         '%r instead of %s' % (tp.to_bytes(), want))


# -- credentials and the header table ----------------------------------------

def do_basic(rec, shard):
    n, firsts = shard
    chars = ['a', ':', '\xe9', ' ', '\xff']
    users = [''.join(t) for k in range(n + 1)
             for t in itertools.product(chars, repeat=k)]
    for u in users:
        if ':' in u or (u[:1] or '-') not in firsts:
            continue
        for p in users:
            rec.case((u, p))
            c = auth.BasicCredentials()
            c.userid, c.password = u, p
            want = b'Basic ' + base64.b64encode(
                (u + ':' + p).encode('latin-1'))
            req = messages.Request()
            try:
                out = c.to_bytes()
                req.set_authorization(c)
                for d in (auth.Credentials.from_str(out),
                          req.get_authorization()):
                    got = (d.userid, d.password, d.scheme)
                    if out != want or got != (u, p, 'Basic'):
                        rec.fail('basic credentials %r' % ((u, p), ),
                                 '%r %r' % (out, got))
                rec.outcome('read')
            except Exception as e:
                rec.fail('basic credentials %r' % ((u, p), ), repr(e))


NAMES = ['X-a', 'x-A', b'X-B']
HVALUES = ['1', b'2', 'a, b']


def do_table(rec, shard):
    """Every history of changes to a message's headers"""
    n, firsts = shard
    ops = [(name, value, mode) for name in NAMES for value in HVALUES
           for mode in (False, True)] + [(name, None, False)
                                         for name in NAMES]
    for k in range(1, n + 1):
        for h in itertools.product(ops, repeat=k):
            if ops.index(h[0]) not in firsts:
                continue
            rec.case(h)
            msg = messages.Request()
            model = {}
            for name, value, mode in h:
                msg.set_header(name, value, mode)
                key = name.lower() if isinstance(name, bytes) else \
                    name.lower().encode()
                v = value.encode() if isinstance(value, str) else value
                if v is None:
                    model.pop(key, None)
                elif mode:
                    model.setdefault(key, []).append(v)
                else:
                    model[key] = [v]
                rec.transitions += 1
            ok = msg.get_headerlist() == sorted(model)
            for key in (b'x-a', b'x-b'):
                want = model.get(key)
                for name in (key, key.upper(), key.decode()):
                    ok = ok and msg.has_header(name) == (want is not None)
                    got = msg.get_header(name)
                    ok = ok and got == (None if want is None else
                                        b', '.join(want))
                    got = msg.get_header(name, True)
                    ok = ok and (None if got is None else b', '.join(got)) \
                        == (None if want is None else b', '.join(want))
            if not ok:
                rec.fail('header table %r' % (h, ), repr(msg.headers))
            rec.outcome('held')


ACCESS = [
    # class, name of the accessors, header, text, value
    ('Request', 'allow', 'Allow', ['GET, PUT', 'GET'], messages.Allow.from_str),
    ('Request', 'cache_control', 'Cache-Control',
     ['no-cache', 'max-age=10, private="a, b"'],
     messages.CacheControl.from_str),
    ('Request', 'connection', 'Connection', ['close', 'close, upgrade'],
     lambda t: set(t.split(', '))),
    ('Response', 'content_encoding', 'Content-Encoding',
     ['gzip', 'gzip, deflate'], lambda t: t.split(', ')),
    ('Response', 'content_language', 'Content-Language',
     ['en', 'en-GB, fr'], params.LanguageTag.list_from_str),
    ('Request', 'content_length', 'Content-Length', ['0', '10'], int),
    ('Response', 'content_md5', 'Content-MD5', ['AAECAwQFBgcICQoLDA0ODw=='],
     base64.b64decode),
    ('Response', 'content_range', 'Content-Range',
     ['bytes 0-9/10', 'bytes */*', 'bytes 5-9/*'],
     messages.ContentRange.from_str),
    ('Request', 'content_type', 'Content-Type',
     ['text/plain', 'text/plain; charset=utf-8', 'a/b; x="y z"'],
     params.MediaType.from_str),
    ('Response', 'date', 'Date', ['Sun, 06 Nov 1994 08:49:37 GMT'],
     params.FullDate.from_http_str),
    ('Response', 'last_modified', 'Last-Modified',
     ['Sun, 06 Nov 1994 08:49:37 GMT'], params.FullDate.from_http_str),
    ('Request', 'transfer_encoding', 'Transfer-Encoding',
     ['chunked', 'gzip, chunked'], params.TransferEncoding.list_from_str),
    ('Request', 'upgrade', 'Upgrade', ['HTTP/2.0', 'a, b/1'],
     lambda t: [params.ProductToken.from_str(x) for x in t.split(', ')]),
    ('Request', 'accept', 'Accept', ['text/html, */*; q=0.5', 'a/*'],
     messages.AcceptList.from_str),
    ('Request', 'accept_charset', 'Accept-Charset', ['a;q=0.5, *', 'b'],
     messages.AcceptCharsetList.from_str),
    ('Request', 'accept_encoding', 'Accept-Encoding', ['gzip;q=0.5, *'],
     messages.AcceptEncodingList.from_str),
    ('Response', 'accept_ranges', 'Accept-Ranges', ['bytes', 'none'],
     messages.AcceptRanges.from_str),
    ('Response', 'age', 'Age', ['0', '10'], int),
    ('Response', 'etag', 'ETag', ['"a"', 'W/"a\\"b"'],
     params.EntityTag.from_str),
    ('Response', 'www_authenticate', 'WWW-Authenticate',
     ['Basic realm="a"', 'Basic realm="a", X y="b", z=c'],
     auth.Challenge.list_from_str),
]


def same_value(a, b):
    if isinstance(a, (int, set, bytes)) or a is None:
        return a == b and type(a) is type(b)
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same_value, a, b))
    return text(a) == text(b) if not isinstance(a, str) else a == b


def do_access(rec, shard):
    for cname, name, header, texts, value in ACCESS:
        cls = getattr(messages, cname)
        new = (lambda: messages.Request()) if cname == 'Request' else \
            (lambda: messages.Response(messages.Request()))
        for seq in itertools.chain([[t] for t in texts + [None]],
                                   itertools.product(texts + [None],
                                                     repeat=2)):
            for how in ('set', 'header'):
                rec.case((name, how, seq))
                msg = new()
                try:
                    for t in seq:
                        v = None if t is None else value(t)
                        if how == 'header':
                            msg.set_header(header, t)
                        elif v is None and name.startswith('accept'):
                            msg.set_header(header, None)
                        else:
                            getattr(msg, 'set_' + name)(v)
                    got = getattr(msg, 'get_' + name)()
                except Exception as e:
                    rec.fail('%s %s %r' % (how, name, seq), repr(e))
                    continue
                if t is None:
                    ok = not got and not msg.has_header(header)
                else:
                    ok = same_value(v, got) and msg.has_header(header)
                if not ok:
                    rec.fail('%s %s %r' % (how, name, seq),
                             'gives %r' % (got, ))
                rec.outcome('held')



def run(ck):
    q = not ck.thorough
    d = 4 if q else 5
    ck.part('octet productions', do_octets,
            [(d, m, 16) for m in range(16)],
            'every string of up to %i atoms (%i atoms), 8 productions and '
            'the split into words' % (d, len(ATOMS)))
    d = 8 if q else 9
    ck.part('nesting', do_nesting, [(d, m, 16) for m in range(16)],
            'comments and quoted strings of up to %i bytes' % d)
    d = 3 if q else 4
    ck.part('quoting', do_quote, [(d, m, 8) for m in range(8)],
            'every byte alone and every string of up to %i of 12 awkward '
            'bytes' % d)
    depth = {7: 6, 8: 5, 9: 5, 6: 6, 5: 7}
    shards = []
    for kind in KINDS:
        n = len(KINDS[kind][4])
        k = depth[n] + (0 if q else 1)
        for m in range(4):
            shards.append((kind, k, m, 4))
    ck.part('header values', do_values, shards,
            'every sequence of 5 to %i words for each of %i kinds of header '
            'value, with every placement of white space' %
            (7 if q else 8, len(KINDS)))
    ck.part('longer values', do_longer,
            [(kind, n, 4 if q else 5) for kind in PREFIXES
             for n in range(len(PREFIXES[kind]))],
            'every continuation by up to %i words of well-formed beginnings' %
            (4 if q else 5))
    ck.part('comparison', do_order, [(kind, 60 if q else 120)
                                     for kind in SORTED],
            'every pair of up to %i values of %i kinds' %
            (60 if q else 120, len(SORTED)))
    ck.part('versions', do_versions, [(4, m, 8) for m in range(8)],
            'every pair of product versions of up to 4 characters')
    ck.part('media negotiation', do_types,
            [(3 if q else 4, m, 16) for m in range(16)],
            'every Accept list of up to %i of %i ranges, in every order, with '
            'every quality, and every choice of up to 3 types' %
            (3 if q else 4, len(RANGES)))
    ck.part('token negotiation', do_tokens,
            [(k, 3 if q else 4, m, 4) for k in NEGOTIATE for m in range(4)],
            'the same for character sets, codings and languages')
    years = list(range(1968, 2101)) + [1, 99, 100, 1582, 1600, 1899, 1900,
                                       9999]
    ck.part('dates', do_dates, shards_of(years, 16),
            'every day of %i years in three formats, and wrong days' %
            len(years))
    ck.part('times', do_times, shards_of(list(range(26)), 13),
            'every second of a day and a grid of zones')
    ck.part('basic credentials', do_basic,
            [(3 if q else 4, [c]) for c in ('-', 'a', '\xe9', ' ', '\xff')],
            'every user and password of up to %i awkward characters' %
            (3 if q else 4))
    ck.part('header table', do_table,
            [(3, s) for s in shards_of(list(range(21)), 7)],
            'every history of up to 3 changes of headers')
    ck.part('accessors', do_access, (None,),
            'every header accessor, set, replaced and removed')
