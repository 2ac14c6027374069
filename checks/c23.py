"""C23: HTTP cookies are parsed, stored, sent and confined as in RFC 6265"""
import calendar
import datetime
import itertools
import logging
import re

from pyslet.http import client as httpclient
from pyslet.http import cookie
from pyslet.http import params
from pyslet.rfc2396 import URI

from checks import c12
from mc.core import shards_of
from mc.explore import explore
from mc.fakenet import Hang

LEVEL = 'model_checking'
RULE = ('every Set-Cookie string made from the listed attributes, every '
        'cookie date made from the listed tokens, every history of setting, '
        'waiting, expiring and searching, every list of public suffix rules '
        'from a pool with every domain of a small alphabet, every history '
        'of responses to a client; against a model of RFC 6265')

T0 = 1000000000     # the time at which histories start
logging.disable(logging.CRITICAL)


class Clock(object):

    """Stands in for the time module"""

    def __init__(self):
        self.now = T0

    def time(self):
        return self.now


# --- the reference

def ref_date(s):
    """RFC 6265 section 5.1.1, a unix time or None"""
    tm = dom = mon = year = None
    toks = re.split(b'[\x09\x20-\x2f\x3b-\x40\x5b-\x60\x7b-\x7e]+', s)
    for t in toks:
        if not t:
            continue
        if tm is None:
            m = re.match(
                b'^([0-9]{1,2}):([0-9]{1,2}):([0-9]{1,2})(?:[^0-9].*)?$',
                t, re.S)
            if m:
                tm = tuple(int(x) for x in m.groups())
                continue
        if dom is None:
            m = re.match(b'^([0-9]{1,2})(?:[^0-9].*)?$', t, re.S)
            if m:
                dom = int(m.group(1))
                continue
        if mon is None:
            i = b'jan feb mar apr may jun jul aug sep oct nov dec'.split()
            if t[:3].lower() in i:
                mon = i.index(t[:3].lower()) + 1
                continue
        if year is None:
            m = re.match(b'^([0-9]{2,4})(?:[^0-9].*)?$', t, re.S)
            if m:
                year = int(m.group(1))
                if 70 <= year <= 99:
                    year += 1900
                elif year <= 69:
                    year += 2000
                continue
    if None in (tm, dom, mon, year):
        return None
    if year < 1601 or tm[0] > 23 or tm[1] > 59 or tm[2] > 59:
        return None
    try:
        datetime.date(year, mon, dom)
    except ValueError:
        return None
    return calendar.timegm((year, mon, dom) + tm)


def ref_parse(s, now, quirk=False):
    """RFC 6265 section 5.2; a dictionary or None

    quirk: attributes with no value are not recognised after a space"""
    nv, sep, rest = s.partition(b';')
    if b'=' not in nv:
        return None
    name, _, value = nv.partition(b'=')
    name = name.strip(b' \t')
    value = value.strip(b' \t')
    if not name:
        return None
    c = dict(name=name, value=value, expires=None, max_age=None, domain=None,
             path=None, secure=False, http_only=False)
    for av in rest.split(b';') if sep else ():
        an, eq, av = av.partition(b'=')
        if eq or not quirk:
            an = an.strip(b' \t')
        an = an.lower()
        av = av.strip(b' \t')
        if an == b'expires':
            d = ref_date(av)
            if d is not None:
                c['expires'] = d
        elif an == b'max-age':
            if re.match(b'^-?[0-9]+$', av):
                c['max_age'] = int(av)
        elif an == b'domain':
            if av:
                c['domain'] = (av[1:] if av[:1] == b'.' else
                               av).lower().decode() or None
        elif an == b'path':
            c['path'] = av.decode() if av[:1] == b'/' else None
        elif an == b'secure':
            c['secure'] = True
        elif an == b'httponly':
            c['http_only'] = True
    if c['max_age'] is not None:
        c['until'] = now + c['max_age'] if c['max_age'] > 0 else 0
    else:
        c['until'] = c['expires']
    return c


def ref_public(rules, domain, depth=1):
    """The number of labels in the public suffix of domain (a list)

    rules: a list of lists of labels, '!' before those of exceptions;
    the suffixes of up to depth labels are always public"""
    best = min(depth, len(domain))
    for r in rules:
        exc = r[0].startswith('!')
        labels = [r[0].lstrip('!')] + r[1:]
        if len(labels) > len(domain):
            continue
        if all(a == '*' or a == b for a, b in
               zip(reversed(labels), reversed(domain))):
            if exc:
                return len(labels) - 1
            best = max(best, len(labels))
    return best


def is_ip(host):
    return host.startswith('[') or bool(
        re.match(r'^[0-9]+(\.[0-9]+){3}$', host))


class Model(object):

    """RFC 6265 sections 5.3 and 5.4

    rules: None if all domains are public"""

    def __init__(self, rules):
        self.rules = rules
        self.cookies = {}
        self.n = 0

    def public(self, domain):
        if self.rules is None:
            return True
        d = domain.split('.')
        return ref_public(self.rules, d) >= len(d)

    def match(self, host, domain):
        return host == domain or (host.endswith('.' + domain) and
                                  not is_ip(host))

    def set(self, scheme, host, path, c, now):
        """Returns True if the cookie is accepted"""
        host = host.lower()
        host_only = False
        domain = c['domain']
        if domain is None:
            host_only = True
            domain = host
        elif not self.match(host, domain):
            return False
        elif is_ip(host):
            host_only = True
        elif self.public(domain):
            if domain != host:
                return False
            host_only = True
        cpath = c['path']
        if not cpath:
            if path[:1] != '/' or path.count('/') == 1:
                cpath = '/'
            else:
                cpath = path[:path.rindex('/')]
        key = (domain, cpath, c['name'])
        # expired cookies are not in the store
        self.live(now)
        old = self.cookies.pop(key, None)
        self.n += 1
        if c['until'] is not None and c['until'] < now:
            return True
        self.cookies[key] = dict(
            c, host_only=host_only, path=cpath, domain=domain,
            created=old['created'] if old else (now, self.n))
        return True

    def live(self, now):
        for k in list(self.cookies):
            u = self.cookies[k]['until']
            if u is not None and u < now:
                del self.cookies[k]

    def end_session(self, now):
        self.live(now)
        for k in list(self.cookies):
            if self.cookies[k]['until'] is None:
                del self.cookies[k]

    def search(self, scheme, host, path, now):
        host = host.lower()
        path = path or '/'
        out = []
        for c in self.cookies.values():
            if c['until'] is not None and c['until'] < now:
                continue
            if c['host_only']:
                if c['domain'] != host:
                    continue
            elif not self.match(host, c['domain']):
                continue
            p = c['path']
            if not (p == path or path.startswith(p) and (
                    p.endswith('/') or path[len(p):len(p) + 1] == '/')):
                continue
            if c['secure'] and scheme != 'https':
                continue
            out.append(c)
        out.sort(key=lambda c: (-len(c['path']), c['created'][0]))
        return [(c['name'], c['value']) for c in out]

    def ties(self, scheme, host, path, now):
        """Whether the order of the result is not defined"""
        seen = [(len(c['path']), c['created'][0])
                for c in self.cookies.values()]
        return len(set(seen)) < len(seen)


# --- dates

TOKENS = [b'08:49:37', b'8:4:3', b'24:00:00', b'23:59:59x', b'08:49', b'1',
          b'31', b'32', b'06x', b'007', b'Nov', b'february', b'Foo',
          b'1994', b'94', b'69', b'70', b'1600', b'1601', b'9999', b'12345',
          b'GMT']


def check_date(rec, s):
    p = cookie.CookieParser(s)
    got = p.require_cookie_date()
    want = ref_date(s)
    if got is not None:
        got = got.get_unixtime()
    if got != want:
        rec.fail('cookie date', repr((s, got, want)))
    rec.outcome(want is None)


def dates(rec, shard):
    kind, items = shard
    for item in items:
        if kind == 'tokens':
            for n in (2, 3):
                for rest in itertools.product(TOKENS, repeat=n):
                    s = b' '.join((item,) + rest)
                    rec.case(s.decode())
                    check_date(rec, s)
        elif kind == 'perm':
            for sep in (b' ', b'-', b', '):
                s = sep.join(item)
                rec.case(s.decode())
                check_date(rec, s)
        elif kind == 'byte':
            base = b'Wed, 09 Jun 2021 10:18:14 GMT'
            for i in range(len(base) + 1):
                for s in (base[:i] + bytes([item]) + base[i:],
                          base[:i] + bytes([item]) + base[i + 1:]):
                    rec.case(repr(s))
                    check_date(rec, s)
        else:
            for m in 'jan feb mar apr may jun jul aug sep oct nov dec'.split():
                for d in range(0, 33):
                    s = ('%02i-%s-%s 00:00:0%i' % (
                        d, m.upper(), item, d % 10)).encode()
                    rec.case(s.decode())
                    check_date(rec, s)


def dates_shards(thorough):
    out = [('tokens', x) for x in shards_of(TOKENS, 22)]
    perms = []
    for t in itertools.product((b'10:18:14', b'1:2:3'), (b'09', b'5'),
                               (b'Jun', b'DEC'), (b'2021', b'85', b'12'),
                               (b'GMT', b'Wed')):
        perms.extend(itertools.permutations(t))
    out += [('perm', x) for x in shards_of(perms, 8)]
    out += [('byte', x) for x in shards_of(range(256), 8)]
    years = list(range(0, 100)) if thorough else [0, 1, 24, 68, 69, 70, 99]
    years = ['%02i' % y for y in years] + \
        ['1599', '1600', '1601', '1900', '2000', '2001', '2004', '0070',
         '100', '999', '9999']
    out += [('day', x) for x in shards_of(years, 4)]
    return out


# --- Set-Cookie

NAMES = [b'n=v', b'n=', b'=v', b'n', b'', b' n = v ', b'n=v=w', b'n="v;w"',
         b'\tn\t=\tv w\t']
ATTRS = [b'Secure', b'secure', b' Secure', b'HttpOnly', b' httponly ',
         b'Secure=x', b' HttpOnly=', b'Path=/a', b' path = /b/ ', b'Path',
         b' Path=c', b'Path=', b'Domain=a.b', b' DOMAIN=.A.b', b'Domain=',
         b' Domain', b'Max-Age=5', b' max-age=-1', b'Max-Age=0',
         b'Max-Age=5x', b'Max-Age=-x', b'Max-Age', b' Max-Age=007',
         b'Expires=Wed, 09 Jun 2021 10:18:14 GMT',
         b' expires=1-Jan-70 00:00:01', b'Expires=x', b'Expires', b'', b' ',
         b'Other=1', b' path2=/x', b'=/a', b'MaxAge=3']
FIELDS = ('name', 'value', 'max_age', 'domain', 'path', 'secure',
          'http_only', 'until')


def seen(c):
    """What is seen of a cookie"""
    return dict(name=c.name, value=c.value, max_age=c.max_age,
                domain=c.domain, path=c.path, secure=bool(c.secure),
                http_only=bool(c.http_only), until=c.expires_time)


def check_parse(rec, s):
    c = cookie.Cookie.from_str(s)
    want = ref_parse(s, T0)
    if c is None or want is None:
        if (c is None) != (want is None):
            rec.fail('Set-Cookie refused or accepted', repr((s, c)))
        rec.outcome(None)
        return
    got = seen(c)
    rec.outcome((got['path'], got['domain'], got['until'], got['secure']))
    if all(got[k] == want[k] for k in FIELDS):
        return
    q = ref_parse(s, T0, True)
    if all(got[k] == q[k] for k in FIELDS):
        rec.fail('Secure and HttpOnly after a space', repr(s))
        return
    rec.fail('Set-Cookie: ' + ' '.join(
        k for k in FIELDS if got[k] != want[k]), repr((s, got, want)))


def set_cookie_strings(rec, shard):
    cookie.time = Clock()
    first, thorough = shard
    for name in NAMES:
        few = name != b'n=v'
        for n in range(0, 3 if few else 4 if thorough else 3):
            for rest in itertools.product(ATTRS, repeat=n):
                for a in first:
                    s = b';'.join((name, a) + rest)
                    rec.case(repr(s))
                    check_parse(rec, s)
            if few and n == 1:
                break


def domains_pool():
    return [None, 'a.b', '.A.b', u'\u98df\u72ee.com', 'xn--85x722f.com']


def roundtrip(rec, shard):
    """Cookies made by an application, written and read back"""
    cookie.time = Clock()
    date = params.FullDate.from_http_str(
        b'Wed, 09 Jun 2021 10:18:14 GMT')
    for name, value, path, domain in shard:
        for expires, age, sec, ho, ext in itertools.product(
                (None, date), (None, 0, 5, -1), (0, 1), (0, 1),
                (None, ['x=y'], ['flag', 'q'])):
            for cls in (cookie.Cookie, cookie.Section4Cookie):
                rec.case([cls.__name__, name, value, path, domain,
                          expires and str(expires), age, sec, ho, ext])
                try:
                    c = cls(name, value, path, domain, expires, age,
                            bool(sec), bool(ho), ext)
                    s = c.to_bytes()
                    d = cls.from_str(s)
                except Exception as e:
                    rec.fail('cookie does not read back',
                             repr(e))
                    continue
                a, b = seen(c), seen(d)
                if a['domain']:
                    a['domain'] = cookie.encode_domain(a['domain'])
                rec.outcome(len(s))
                if a == b:
                    continue
                a.update(secure=b['secure'], http_only=b['http_only'])
                if cls is cookie.Cookie and a == b and not b['secure'] and \
                        not b['http_only']:
                    rec.fail('Secure and HttpOnly after a space', repr(s))
                else:
                    if age == -1 and cls is cookie.Section4Cookie:
                        # not an age in the syntax of section 4
                        continue
                    rec.fail('cookie reads back as another',
                             repr((cls, s, a, b)))


def roundtrip_shards():
    return shards_of(itertools.product(
        ('n', b'n', 'N-1'), ('', 'v', b'"v"', '1%20'),
        (None, '/', '/a/b'), domains_pool()))


# --- the store

def url_of(u):
    return URI.from_octets('%s://%s%s' % u)


URLS = [('http', 'd.com', '/'), ('http', 'd.com', '/a/b'),
        ('https', 's.d.com', '/a/'), ('http', 'S.D.com', ''),
        ('http', 't.s.d.com', '/ab?/x'), ('http', '10.0.0.1', '/a')]
COOKIES = [b'n=1', b'n=2;Domain=d.com', b'm=3;Domain=.s.d.com;Path=/a',
           b'n=4;Path=/a;Secure', b'm=5;Max-Age=3', b'n=6;Max-Age=0',
           b'm=7;Domain=com', b'n=8;Path=/a/;Domain=D.com;Max-Age=5']
MORE = [b'n=9;Domain=0.0.1', b'm=0;Expires=Sun, 09 Sep 2001 01:46:44 GMT',
        b'n=1;HttpOnly;Path=/a/b', b'm=2;Domain=10.0.0.1', b'm=3;Path=x',
        b'n=4;Domain=t.s.d.com;Secure;Max-Age=4;Path=/ab']
PROBES = [(s, h, p) for s, h, p in itertools.product(
    ('http', 'https'), ('d.com', 's.d.com'),
    ('', '/', '/a', '/ab', '/a/b/c?q=/'))] + [
    ('http', 'xd.com', '/a'), ('http', 'com', '/a'),
    ('https', 'T.S.D.COM:8080', '/ab'), ('http', '10.0.0.1', '/a/b'),
    ('http', '20.0.0.1', '/a'), ('http', '0.0.1', '/a'),
    ('http', '[::1]', '/')]
RULES = {'none': None, 'com': [['com']]}
OPS = [('set', u, c) for u in range(len(URLS)) for c in range(len(COOKIES))
       ] + [('wait', 4, 0), ('expire', 0, 0), ('end', 0, 0),
            ('search', 0, 0)]
OPS_MORE = [('set', u, len(COOKIES) + c) for u in range(len(URLS))
            for c in range(len(MORE))] + [('wait', 2, 0), ('set6', 0, 0)]


def path_of(p):
    return p.split('?')[0]


def store_run(rec, conf, ops, parsed):
    clock = Clock()
    cookie.time = clock
    st = cookie.CookieStore()
    if RULES[conf] is not None:
        st.set_public_list('\n'.join('.'.join(r) for r in RULES[conf]))
    m = Model(RULES[conf])
    info = (conf, ops)
    for op, a, b in ops:
        rec.transitions += 1
        clock.now += 1
        if op == 'wait':
            clock.now += a
        elif op == 'expire':
            st.expire_cookies()
        elif op == 'end':
            st.end_session()
            m.end_session(clock.now)
        elif op == 'search':
            for u in PROBES:
                st.search(url_of2(u))
        else:
            u = URLS[a] if op == 'set' else ('http', '[::1]', '/')
            text = (COOKIES + MORE)[b]
            want = m.set(u[0], u[1], path_of(u[2]),
                         ref_parse(text, clock.now), clock.now)
            try:
                st.set_cookie(url_of2(u), cookie.Cookie.from_str(text))
                got = True
            except cookie.CookieError:
                got = False
            if got != want:
                rec.fail('cookie %s' % ('accepted' if got else 'refused'),
                         repr((info, u, text)))
                return
    clock.now += 1
    found = 0
    for u in PROBES:
        got = st.search(url_of2(u))
        want = m.search(u[0], u[1].split(':')[0] if u[1][0] != '['
                        else u[1], path_of(u[2]), clock.now)
        gv = [(c.name, c.value) for c in got]
        if gv != want:
            rec.fail('cookies found', repr((info, u, gv, want)))
            return
        if any(c.access_time != clock.now for c in got):
            rec.fail('access time', repr((info, u)))
        found += len(want)
    rec.outcome(found)


CACHE = {}


def url_of2(u):
    if u not in CACHE:
        CACHE[u] = url_of(u)
    return CACHE[u]


def store(rec, shard):
    for conf, ops in shard:
        rec.case([conf, ops])
        store_run(rec, conf, ops, None)
        rec.states += 1


def store_deep(rec, shard):
    conf, firsts, pool, n = shard
    for f in firsts:
        for rest in itertools.product(pool, repeat=n - 1):
            ops = (f,) + rest
            rec.case([conf, ops])
            store_run(rec, conf, ops, None)
            rec.states += 1


DEEP = [('set', 0, 0), ('set', 0, 1), ('set', 1, 7), ('set', 2, 2),
        ('set', 2, 3), ('set', 2, 4), ('set', 3, 0), ('set', 3, 1),
        ('set', 0, 5), ('set', 4, 4), ('wait', 4, 0), ('end', 0, 0),
        ('expire', 0, 0)]


def store_shards(thorough):
    out = []
    every = OPS + OPS_MORE
    for conf in RULES:
        for x in shards_of(every, 30):
            out.append((conf, x, every, 2))
        if conf != 'none':
            for x in shards_of(OPS if thorough else OPS[::3], 18):
                out.append((conf, x, OPS if thorough else OPS[::3] + OPS[-4:],
                            3))
            for x in shards_of(DEEP, 13):
                out.append((conf, x, DEEP, 6 if thorough else 5))
    return out


# --- public suffixes

POOL = ['com', 'a.com', 'b.a.com', '*.com', '*.a.com', '!b.com', '!a.com',
        '!b.a.com', 'b', '*.b', 'c.b.a.com']
LABELS = ['com', 'a', 'b']


def suffix_case(rec, rules, depth):
    st = cookie.CookieStore()
    st.set_public_list('// list\n\n' + '\n'.join(rules) + '\n', depth)
    parsed = [r.split('.') for r in rules]
    for n in range(1, 5):
        for d in itertools.product(LABELS, repeat=n):
            if n == 4 and d[-1] == 'a':
                continue
            name = '.'.join(d)
            k = ref_public(parsed, list(d), depth)
            want = '.'.join(d[len(d) - k - 1:]) if k < n else None
            got = st.get_registered_domain(name)
            if got != want:
                rec.fail('registered domain', repr(
                    (rules, depth, name, got, want)))
                return
            pub = st.test_public_domain(name)
            if bool(pub) != (k >= n):
                rec.fail('public domain', repr((rules, depth, name, pub)))
                return
            rec.outcome((n, k))
    for d in itertools.product(LABELS, repeat=3):
        # setting cookies agrees
        for k in (1, 2, 3):
            dom = '.'.join(d[3 - k:])
            want = ref_public(parsed, list(d[3 - k:]), depth) < k or k == 3
            try:
                st.set_cookie(url_of2(('http', '.'.join(d), '/')),
                              cookie.Cookie('n', 'v', domain=dom))
                got = True
            except cookie.CookieError:
                got = False
            if got != want:
                rec.fail('cookie of a public domain', repr(
                    (rules, depth, d, dom, got)))
                return
    for d in itertools.product(LABELS, repeat=3):
        # and changes nothing
        name = '.'.join(d)
        k = ref_public(parsed, list(d), depth)
        if st.get_registered_domain(name) != (
                '.'.join(d[len(d) - k - 1:]) if k < 3 else None):
            rec.fail('registered domain after cookies', repr(
                (rules, depth, name)))
            return


def consistent(rules):
    """Exceptions follow the wildcards they are exceptions of

    As in the published list: an exception is to a wildcard, given before
    it and rules below an exception do not occur"""
    for i, r in enumerate(rules):
        if r[0] == '!':
            if '*.' + r.split('.', 1)[1] not in rules[:i]:
                return False
            if any(x == r[1:] or x.endswith('.' + r[1:]) for x in rules):
                return False
    return True


def suffixes(rec, shard):
    rules, depths = shard
    for r in rules:
        for depth in depths:
            rec.case([r, depth])
            rec.traces += 1
            suffix_case(rec, r, depth)


def suffix_shards(thorough):
    lists = [r for n in range(0, 5 if thorough else 4)
             for r in itertools.permutations(POOL, n) if consistent(r)]
    return [(x, (1, 2)) for x in shards_of(lists, 16)]


# --- the client

RESPONSES = [
    (b'a=1',), (b'a=2;Path=/x', b'b=3;Domain=d.com'),
    (b'a=4;Domain=s.d.com;Max-Age=0',), (b'=', b'c=5'),
    (b'c=6;Domain=other.com', b'a=7;Path=/'), (b'b=8;Domain=!bad!', b'c=9'),
    (b'c=1;Expires=x;Secure', b'b=2;Expires=Wed, 09 Jun 1999 10:18:14 GMT'),
    ()]
CLIENT_URLS = [('http', 's.d.com', '/x/y'), ('http', 'd.com', '/'),
               ('http', 't.s.d.com', '')]


class CookieServer(c12.Server):

    def answer(self, method, uri, headers, kind):
        k = self.conn.net.reply
        return (b'HTTP/1.1 200 OK\r\n' + b''.join(
            b'Set-Cookie: ' + c + b'\r\n' for c in RESPONSES[k]) +
            b'Content-Length: 2\r\n\r\nok', False)


def client_run(rec, ctx, seq):
    net, c, reqs = c12.setup(ctx, (), ())
    net.server = lambda conn: CookieServer(conn, net.log)
    clock = Clock()
    cookie.time = clock
    st = cookie.CookieStore()
    st.set_public_list('com')
    c.set_cookie_store(st)
    m = Model([['com']])
    try:
        for k, u in seq + ((7, 0), (7, 1), (7, 2)):
            clock.now += 1
            net.reply = k
            scheme, host, path = CLIENT_URLS[u]
            del net.log[:]
            r = httpclient.ClientRequest('%s://%s%s' % CLIENT_URLS[u])
            c.process_request(r)
            if r.status != 200 or len(net.log) != 1:
                rec.fail('request', repr((seq, k, u, r.status,
                                          str(r.error))))
                return
            sent = net.log[0][4].get(b'cookie')
            want = m.search(scheme, host, path, clock.now)
            want = [b'; '.join(b'%s=%s' % x for x in want)] if want else None
            # those of one response have no order
            ok = sent == want or (sent and want and sorted(
                sent[0].split(b'; ')) == sorted(want[0].split(b'; ')))
            if not ok:
                rec.fail('cookies sent', repr((seq, k, u, sent, want)))
                return
            rec.outcome(sent and sent[0])
            for text in RESPONSES[k]:
                p = ref_parse(text, clock.now)
                if p is None or (p['domain'] or '').startswith('!'):
                    continue
                m.set(scheme, host, path, p, clock.now)
    except Hang as e:
        rec.fail('client does not finish', repr((seq, str(e))))
    finally:
        c.close()
        c12.restore()


def client(rec, shard):
    for seq in shard:
        rec.case(seq)
        for ctx in explore(lambda ctx: client_run(rec, ctx, seq), 0):
            rec.transitions += len(ctx.choices)
            rec.traces += 1


def client_shards(thorough):
    ops = list(itertools.product(range(7), range(3)))
    return shards_of([s for n in ((1, 2, 3) if thorough else (1, 2))
                      for s in itertools.product(ops, repeat=n)])


def cookie_headers(rec, shard):
    """The Cookie header read back by a server"""
    from pyslet.http import messages
    names = [b'a', b'b', b'A']
    values = [b'', b'1', b'2', b'"q"', b'x=y']
    pairs = [(n, v) for n in names for v in values]
    for n in range(1, 5 if shard else 4):
        for seq in itertools.product(pairs, repeat=n):
            if n == 4 and seq[0] > seq[1]:
                continue
            rec.case([[x.decode() for x in p] for p in seq])
            req = messages.Request()
            req.set_cookie([cookie.Cookie(a, b) for a, b in seq])
            got = req.get_cookie()
            want = {}
            for a, b in seq:
                want.setdefault(a, set()).add(b)
            norm = {k: v if isinstance(v, set) else {v}
                    for k, v in got.items()}
            if norm != want or any(isinstance(v, set) and len(v) < 1
                                   for v in got.values()):
                rec.fail('cookie header', repr((seq, got)))
            rec.outcome(tuple(sorted(want)))
            if n > 2:
                continue
            for sep in (b';', b'; ', b';  ', b' ; ', b';\t'):
                s = sep.join(a + b'=' + b for a, b in seq)
                p = cookie.CookieParser(b' ' + s)
                got = p.require_cookie_string()
                norm = {k: v if isinstance(v, set) else {v}
                        for k, v in got.items()}
                if norm != want:
                    rec.fail('cookie string', repr((s, got)))


def run(ck):
    th = ck.thorough
    ck.note('the clock is virtual; the client and its sockets are real code '
            'over a simulated network (as in C12)')
    ck.note('Domain attributes ending in a dot, non-HTTP schemes and '
            'Section4Cookie beyond reading back what it writes are left out')
    ck.note('exceptions of public suffix lists come after the wildcard they '
            'are exceptions of and no rule is below them, as in the '
            'published list; other rules come in every order; wildcards are '
            'the first label of a rule')
    ck.part('dates', dates, dates_shards(th),
            'cookie dates from every sequence of tokens, every byte in a '
            'date, every day and month of years at the boundaries')
    ck.part('set-cookie', set_cookie_strings,
            [(x, True) for x in shards_of(ATTRS, 16)],
            'Set-Cookie strings from every sequence of attributes')
    ck.part('roundtrip', roundtrip, roundtrip_shards(),
            'cookies written and read back')
    ck.part('headers', cookie_headers, [th],
            'Cookie headers written and read back')
    ck.part('store', store_deep, store_shards(th),
            'every history of the store, with searches from many URLs')
    ck.part('suffixes', suffixes, suffix_shards(True),
            'every list of public suffix rules from a pool, every domain')
    ck.part('client', client, client_shards(True),
            'every history of responses to a client with a cookie store')
