"""C07: URIs and URNs parse, format, canonicalise, compare and escape"""
import itertools
import re

from pyslet import rfc2396 as uri
from pyslet import urn
import pyslet.http.params       # noqa (registers http and https)

from mc.core import shards_of

LEVEL = 'model_checking'
RULE = ('every string over the stated alphabets up to the stated length and '
        'every composition of URI components from a menu; the model is the '
        'regular expression of RFC2396 appendix B plus character sets '
        'written out again here')

ALPHA = 'abcdefghijklmnopqrstuvwxyz'
ALNUM = set(ALPHA + ALPHA.upper() + '0123456789')
UNRES = ALNUM | set("-_.!~*'()")
RES = set(";/?:@&=+$,[]")
OK = UNRES | RES
HEX = set('0123456789abcdefABCDEF')
APPB = re.compile(r'^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?$',
                  re.DOTALL)
SERVER = re.compile(r'([^@]*@)?([^@:\[\]]*|\[[^\[\]@]*\])(:[0-9]*)?\Z')
SCHEME = re.compile(r'[A-Za-z][A-Za-z0-9+.-]*\Z')


def uric(s):
    """The length of the leading run of URI characters"""
    i = 0
    while i < len(s):
        if s[i] in OK:
            i += 1
        elif s[i] == '%' and len(s) > i + 2 and s[i + 1] in HEX and \
                s[i + 2] in HEX:
            i += 3
        else:
            break
    return i


def model(s):
    """Components of a URI reference, None if not one"""
    head, hsh, frag = s.partition('#')
    if uric(head) != len(head) or uric(frag) != len(frag):
        return None
    m = APPB.match(s)
    scheme, auth, path, query = m.group(2), m.group(4), m.group(5), m.group(7)
    if scheme is not None and not SCHEME.match(scheme):
        # the first path segment must not contain a colon
        return 'invalid'
    if scheme is None and path.startswith(':'):
        return 'invalid'
    d = dict(scheme=scheme, authority=auth, opaque_part=None, abs_path=None,
             rel_path=None, query=query, scheme_specific_part=None,
             fragment=frag if hsh else None)
    if scheme is not None:
        ssp = head[len(scheme) + 1:]
        d['scheme_specific_part'] = ssp
        if ssp and not ssp.startswith('/'):
            d['opaque_part'] = ssp
            d['query'] = None
            return d
        if not ssp:
            return d
    if path.startswith('/'):
        d['abs_path'] = path
    elif auth is None:
        d['rel_path'] = path
    return d


def is_str(x):
    return x is None or type(x) is str


def check_one(rec, s, cls=None):
    m = model(s)
    if m == 'invalid':
        rec.outcome('invalid')
        try:
            u = uri.URI.from_octets(s)
        except uri.URIException:
            return
        if str(u) != s:
            rec.fail('format', repr((s, str(u))))
        return
    if m is not None and m['scheme'] is not None and \
            m['scheme'].lower() == 'urn':
        m2 = re.match(r'[a-zA-Z0-9][a-zA-Z0-9-]{0,31}:', m['opaque_part'] or
                      '')
        if not m2 or m2.group()[:-1].lower() == 'urn' or re.search(
                r"[^a-zA-Z0-9()+,.:=@;$_!*'%/?#-]", m['opaque_part']):
            m = None
    try:
        u = uri.URI.from_octets(s)
    except uri.URIException:
        if m is not None:
            rec.fail('rejected', repr(s))
        rec.outcome('rejected')
        return
    if m is None:
        rec.fail('accepted', repr(s))
        return
    got = dict((k, getattr(u, k)) for k in m)
    if got != m:
        rec.fail('components', repr((s, got, m)))
        return
    if str(u) != s or not all(is_str(x) for x in got.values()):
        rec.fail('format', repr((s, str(u))))
    if u.is_absolute() != (m['scheme'] is not None):
        rec.fail('is_absolute', repr(s))
    rec.outcome('%s%s%s%s' % tuple(
        'n' if m[k] is None else k[0] for k in (
            'scheme', 'authority', 'query', 'fragment')))
    if m['authority'] and not SERVER.match(m['authority']):
        # nothing is promised for an ill-formed host and port
        return u
    c = u.canonicalize()
    if str(c.canonicalize()) != str(c):
        rec.fail('canonical form not stable', repr((s, str(c))))
    if not (u == c and c == u and hash(u) == hash(c) and u.match(c)):
        rec.fail('not equal to its canonical form', repr((s, str(c))))
    return u


def short_strings(rec, shard):
    alphabet, n, first = shard
    for k in range(0, n):
        for t in itertools.product(alphabet, repeat=k):
            s = first + ''.join(t)
            rec.case(s)
            rec.states += 1
            check_one(rec, s)


def ascii_chars(rec, shard):
    """Every octet in every position of a URI"""
    for base in shard:
        for i in range(len(base) + 1):
            for o in range(256):
                s = base[:i] + chr(o) + base[i:]
                if o > 127 and (model(base[:i]) is None or
                                base.startswith('urn')):
                    continue
                if o > 127:
                    enc = base[:i] + ''.join(
                        '%%%02X' % b for b in chr(o).encode('utf-8')) + \
                        base[i:]
                    rec.case(s)
                    e = uri.encode_unicode_uri(s)
                    if e != enc:
                        rec.fail('encode_unicode_uri', repr((s, e)))
                    if str(uri.URI.from_octets(s)) != enc:
                        rec.fail('unicode', repr(s))
                    try:
                        uri.URI.from_octets(s, strict=True)
                        rec.fail('strict accepts', repr(s))
                    except uri.URIException:
                        pass
                else:
                    rec.case(s)
                    check_one(rec, s)
    return


DEFPORT = {'http': 80, 'https': 443}


def canon_model(s):
    """The canonical form of a hierarchical server-based URI"""
    m = model(s)
    scheme = m['scheme'].lower()
    if scheme not in DEFPORT and scheme != 'file':
        return scheme + s[len(scheme):]
    r = [scheme, ':']
    a = m['authority']
    if m['opaque_part'] is not None:
        r.append(m['opaque_part'])
    if a is not None:
        m3 = re.match(r'(?:([^@]*)@)?(.*?)(?::([0-9]*))?\Z', a)
        user, host, port = m3.groups()
        r.append('//')
        if user is not None:
            r.append(user + '@')
        r.append(host.lower())
        if port and int(port) != DEFPORT.get(scheme):
            r.append(':%i' % int(port))
    path, query = m['abs_path'], m['query']
    if scheme in DEFPORT:
        if path is None and a is not None:
            path = '/'
        path, query = unesc(path), unesc(query)
    r.append(path or '')
    if query is not None:
        r.append('?' + query)
    if m['fragment'] is not None:
        r.append('#' + m['fragment'])
    return ''.join(r)


def unesc(x):
    if x is None:
        return x

    def sub(m):
        c = chr(int(m.group(1), 16))
        return c if c in UNRES else m.group().upper()
    return re.sub('%(..)', sub, x)


def compositions():
    out = []
    for sc in ('http', 'HTTP', 'https', 'file', 'FILE', 'ftp', 'fTp'):
        for au in (None, '', 'h', 'H', 'h:', 'h:80', 'h:443', 'h:080', 'H:81',
                   'u@h', 'U:80@h', 'u:1@H:80', '[::1]', '[::A]:80', '@h',
                   'h:8x'):
            for pa in ('', '/', '/a', '/%61', '/%2f', '/%2F', '/A', 'op',
                       '/a:b@c', '/a/../b'):
                if au is not None and pa == 'op':
                    continue
                if au is None and not pa:
                    continue
                for q in (None, '', 'q', '%71', '%26', 'a=b/?c'):
                    if pa == 'op' and q is not None:
                        continue
                    for f in (None, '', 'f', '%66'):
                        out.append(sc + ':' + (
                            '' if au is None else '//' + au) + pa + (
                            '' if q is None else '?' + q) + (
                            '' if f is None else '#' + f))
    return out


def canon(rec, shard):
    for s in shard:
        rec.case(s)
        u = check_one(rec, s)
        if u is None:
            continue
        want = canon_model(s)
        if str(u.canonicalize()) != want:
            rec.fail('canonical form', repr((s, str(u.canonicalize()), want)))
        m = model(want)
        root = m['scheme'] + ':' + ('' if m['authority'] is None else
                                    '//' + m['authority'])
        if str(u.get_canonical_root()) != root:
            rec.fail('canonical root', repr((s,
                                             str(u.get_canonical_root()))))
        if m['scheme'] in DEFPORT and m['authority']:
            host, port = u.get_addr()
            m3 = re.match(r'(?:([^@]*)@)?(.*?)(?::([0-9]*))?\Z',
                          model(s)['authority'])
            if (u.userinfo, u.host, u.port) != m3.groups():
                rec.fail('server', repr((s, u.userinfo, u.host, u.port)))
            if host != m3.group(2) or port != int(
                    m3.group(3) or DEFPORT[m['scheme']]):
                rec.fail('address', repr((s, host, port)))


def compare(rec, shard):
    """Equality, order and hash follow the canonical form"""
    urls, part = shard
    us = [(s, uri.URI.from_octets(s), canon_model(s)) for s in urls]
    for s, u, k in us[part::16]:
        for s2, u2, k2 in us:
            rec.case([s, s2])
            rec.transitions += 1
            if (u == u2) != (k == k2) or (u != u2) != (k != k2) or \
                    (u < u2) != (k < k2) or (u <= u2) != (k <= k2) or \
                    (u > u2) != (k > k2) or (u >= u2) != (k >= k2):
                rec.fail('comparison', repr((s, s2)))
            if (u == s2) != (k == k2):
                rec.fail('comparison with a string', repr((s, s2)))
            if k == k2 and hash(u) != hash(u2):
                rec.fail('hash', repr((s, s2)))
            rec.outcome(k == k2)


def escaping(rec, shard):
    """Every two-octet string under every escaping rule"""
    tests = [(uri.is_reserved, uri.is_allowed, RES, OK),
             (uri.is_path_segment_reserved, uri.is_allowed, set('/;=?'), OK),
             (uri.is_path_segment_reserved, uri.is_allowed_2396, set('/;=?'),
              OK - set('[]')),
             (uri.is_reserved_1738, uri.is_allowed_1738, set(';/?:@&='),
              OK - set('[]~')),
             (uri.is_query_reserved, uri.is_allowed, set(';/?:@&=+,$'), OK),
             (uri.is_authority_reserved, uri.is_allowed, set(';:@?/'), OK),
             (lambda c: False, uri.is_allowed, set(), OK)]
    esc = [[('%%%02X' % o) if chr(o) in res or chr(o) not in ok else chr(o)
            for o in range(256)] for rt, at, res, ok in tests]
    for a in shard:
        for b in range(-1, 256):
            data = bytes([a] if b < 0 else [a, b])
            rec.case(repr(data))
            rec.states += 1
            for i, (rt, at, res, ok) in enumerate(tests):
                e = uri.escape_data(data, rt, at)
                if e != ''.join(esc[i][o] for o in data):
                    rec.fail('escape', repr((data, i, e)))
                if uri.unescape_data(e) != data:
                    rec.fail('unescape', repr((data, e)))
                if not i and max(data) < 128 and uri.escape_data(
                        data.decode('ascii')) != e:
                    rec.fail('escape text', repr((data, e)))
                if not i:
                    c = uri.canonicalize_data(e)
                    if uri.unescape_data(c) != data or \
                            uri.canonicalize_data(c) != c:
                        rec.fail('canonicalize', repr((data, e, c)))
            if max(data) < 128:
                s = data.decode('ascii')
                if uri.parse_uric(s) != uric(s):
                    rec.fail('parse_uric', repr(s))
                if '%' not in s:
                    c = uri.canonicalize_data(s)
                    want = ''.join(x if x in OK else '%%%02X' % ord(x)
                                   for x in s)
                    if c != want:
                        rec.fail('canonicalize text', repr((s, c)))
                h = '%%%02x%%%02X' % (a, max(b, 0))
                if uri.canonicalize_data(h) != ''.join(
                        chr(o) if chr(o) in UNRES else '%%%02X' % o
                        for o in (a, max(b, 0))):
                    rec.fail('canonicalize escapes', repr(h))
    rec.outcome('ok')


def partial_escapes(rec, shard):
    """unescape_data leaves what is not an escape alone"""
    for first in shard:
        for k in range(0, 6):
            for t in itertools.product('%4aGz', repeat=k):
                s = first + ''.join(t)
                rec.case(s)
                rec.states += 1
                n = uri.parse_uric(s)
                if n != uric(s):
                    rec.fail('parse_uric', repr((s, n)))
                if uric(s) == len(s):
                    want = re.sub('%(..)', lambda m: chr(
                        int(m.group(1), 16)), s).encode('latin-1')
                    if uri.unescape_data(s) != want:
                        rec.fail('unescape', repr((s, uri.unescape_data(s))))
                rec.outcome(n == len(s))


def urns(rec, shard):
    nids = ['a', 'A', '0', 'a-', 'isbn', 'ISBN', 'iSbN', 'a' * 32, 'a' * 33,
            'urn', 'URN', 'urna', '-a', '', 'a_', 'ur-n']
    for nid in nids[shard::8]:
        valid = re.match(r'[a-zA-Z0-9][a-zA-Z0-9-]{0,31}\Z', nid) and \
            nid.lower() != 'urn'
        for k in (1, 2):
            for t in itertools.product(
                    ['a', 'A', '%2f', '%2F', '%61', '(', '&', '~', '"', '/',
                     ':', ','], repeat=k):
                nss = ''.join(t)
                ok = valid and not set(nss) & set('&~"')
                for sc in ('urn', 'URN'):
                    s = '%s:%s:%s' % (sc, nid, nss)
                    rec.case(s)
                    rec.states += 1
                    try:
                        u = uri.URI.from_octets(s)
                    except uri.URIException:
                        if ok:
                            rec.fail('urn rejected', s)
                        continue
                    if not ok:
                        rec.fail('urn accepted', s)
                        continue
                    if not isinstance(u, urn.URN) or (u.nid, u.nss) != (
                            nid, nss) or str(u) != s:
                        rec.fail('urn parts', repr((s, u.nid, u.nss)))
                    want = 'urn:%s:%s' % (
                        nid.lower(),
                        re.sub('%..', lambda m: m.group().upper(), nss))
                    if str(u.canonicalize()) != want:
                        rec.fail('urn canonical', repr((s, str(
                            u.canonicalize()))))
                    for s2 in (s + '#f', s + '#'):
                        if uri.URI.from_octets(s2) == u:
                            rec.fail('urn fragment', repr(s2))
                    if sc == 'urn' and str(urn.URN(nid=nid, nss=nss)) != s:
                        rec.fail('urn constructor', s)
    if shard == 0:
        for i in list(range(1, 0x3000)) + [0xD7FF, 0xE000, 0xFFFD, 0xFFFF,
                                           0x10000, 0x10FFFF]:
            c = chr(i)
            rec.case(i)
            x = urn.translate_to_urnchar(c)
            t = set("()+,-.:=@;$_!*'") | ALNUM
            want = c if c in t else ''.join(
                '%%%02X' % b for b in c.encode('utf-8'))
            if x != want or urn.translate_from_urnchar(x) != c or \
                    urn.translate_to_urnchar(c.encode('utf-8')) != want:
                rec.fail('urn translation', repr((i, x)))
            if urn.translate_to_urnchar(c + 'b.' + c, lambda x: x == '.') != \
                    ('%2E' if c == '.' else want) + 'b%2E' + \
                    ('%2E' if c == '.' else want):
                rec.fail('urn reserved', repr((i, x)))
        for bad in ('%00', 'a%00b', 'a"', 'a b', '\x7f'):
            rec.case(bad)
            try:
                urn.translate_from_urnchar(bad)
                rec.fail('urn character accepted', bad)
            except ValueError:
                pass
        try:
            urn.translate_to_urnchar('a\x00')
            rec.fail('zero accepted')
        except ValueError:
            pass
    rec.outcome('ok')


def run(ck):
    alphabet = 'ab/:?#.%@1' if not ck.thorough else 'aA/:?#.%@1[ ~'
    n = 6
    ck.part('every short string', short_strings,
            [(alphabet, n, '')] and [(alphabet, n - 1, c + d)
                                     for c in alphabet for d in alphabet] +
            [(alphabet, 2, '')],
            'every string over %r to length %i' % (alphabet, n))
    for pre in ('http://', 'file:', 'http:/'):
        a = 'a/:?#@8'
        ck.part('short strings after ' + pre, short_strings,
                [(a, 6 if ck.thorough else 5, pre + c) for c in a],
                'every string over %r after %s' % (a, pre))
    ck.part('every octet', ascii_chars,
            [[b] for b in ('http://h/p?q#f', 'x:y', 'a/b', '%41',
                           'file:///%7Ea', 'urn:a:b')],
            'each of 256 characters inserted at each position')
    comps = compositions()
    ck.part('canonical form', canon, shards_of(comps),
            'components composed from a menu')
    small = comps[::19] if not ck.thorough else comps[::5]
    ck.part('comparison', compare, [(small, i) for i in range(16)],
            'all pairs of %i URIs' % len(small))
    ck.part('escaping', escaping, shards_of(range(256)),
            'all octet strings of length 1 and 2 under 7 rules')
    ck.part('partial escapes', partial_escapes, [[c] for c in '%4aGz'],
            'strings over "%4aGz" to length 6')
    ck.part('urns', urns, range(8), 'namespaces x specific strings; every '
            'character below U+3000')
