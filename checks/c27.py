"""C27: web applications: dispatch, static files, signatures, sessions"""
import datetime
import hashlib
import io
import itertools
import logging
import os
import re
import shutil
import tempfile
import urllib.parse

from pyslet import iso8601 as iso
from pyslet import wsgi
from pyslet.odata2 import memds, metadata as edmx

from mc.core import shards_of

LEVEL = 'model_checking'
RULE = ('every set of path patterns and every path of the stated sizes, every '
        'path below a directory of static files, every change to a signature, '
        'every history of key changes, every sequence of requests of two '
        'browsers up to the stated depth (states identified up to renaming), '
        'every byte of a URL, query, form and cookie, against a model')

logging.getLogger('pyslet').setLevel(logging.CRITICAL + 1)
logging.getLogger().setLevel(logging.CRITICAL + 1)


class Clock(object):
    """Stands in for the time module in wsgi and iso8601"""
    EPOCH = 1800000000

    def __init__(self, real):
        self._real = real
        self.now = self.EPOCH

    def time(self):
        return float(self.now)

    def gmtime(self, t=None):
        return self._real.gmtime(self.now if t is None else t)

    def localtime(self, t=None):
        return self._real.localtime(self.now if t is None else t)

    def __getattr__(self, name):
        return getattr(self._real, name)


import time as _time     # noqa
CLOCK = Clock(_time)
wsgi.time = CLOCK
iso.pytime = CLOCK



class Octets(object):
    """Stands in for the os module in wsgi, urandom gives known octets"""

    def __init__(self):
        self.n = 0

    def urandom(self, size):
        self.n += 1
        return hashlib.sha512(b'%i' % self.n).digest()[:size]

    def __getattr__(self, name):
        return getattr(os, name)


OCTETS = wsgi.os = Octets()
SECRET = 'correct horse'
ROOT = 'http://localhost:8080'


class Options(object):
    static = private = settings = logging = port = interactive = None
    create_tables = False
    in_memory = True
    sqlout = False


def request(app, path='/', query='', method='GET', cookies='', ua=None,
            body=b'', ctype=None, wrapper=False):
    """Sends one request, returns status, headers and body

    Path is given as bytes, and passed as WSGI defines"""
    if not isinstance(path, bytes):
        path = path.encode('utf-8')
    env = {'REQUEST_METHOD': method, 'SCRIPT_NAME': '',
           'PATH_INFO': path.decode('latin-1'), 'QUERY_STRING': query,
           'SERVER_NAME': 'localhost', 'SERVER_PORT': '8080',
           'SERVER_PROTOCOL': 'HTTP/1.1', 'REMOTE_ADDR': '127.0.0.1',
           'wsgi.version': (1, 0), 'wsgi.url_scheme': 'http',
           'wsgi.input': io.BytesIO(body), 'wsgi.errors': io.StringIO(),
           'wsgi.multithread': True, 'wsgi.multiprocess': False,
           'wsgi.run_once': False, 'CONTENT_LENGTH': str(len(body))}
    if ctype:
        env['CONTENT_TYPE'] = ctype
    if cookies:
        env['HTTP_COOKIE'] = cookies
    if ua is not None:
        env['HTTP_USER_AGENT'] = ua
    got = []

    def start_response(status, headers, exc_info=None):
        got.append((status, headers))

    call = app.call_wrapper if wrapper else app
    data = b''.join(call(env, start_response))
    assert len(got) == 1, 'start_response called %i times' % len(got)
    return int(got[0][0].split()[0]), got[0][1], data


def header(headers, name):
    v = [y for x, y in headers if x.lower() == name]
    return v[0] if v else None


# Dispatch

def m_match(pats, segs, pre=()):
    """The pattern that path segments are routed to

    pats maps the segments of patterns to themselves; a named segment is
    always preferred to a star, and a star at the end takes what is left."""
    if not segs:
        if pre in pats:
            return pre
        if pre + ('*', ) in pats:
            return pre + ('*', )
        return None
    for s in (segs[0], '*'):
        nxt = pre + (s, )
        if any(p[:len(nxt)] == nxt for p in pats):
            r = m_match(pats, segs[1:], nxt)
            if r is not None:
                return r
    if pre + ('*', ) in pats:
        return pre + ('*', )
    return None


def patterns(depth):
    out = []
    for n in range(1, depth + 1):
        for segs in itertools.product(('a', 'b', '*'), repeat=n):
            out.append('/' + '/'.join(segs))
    return ['/'] + out + ['/a/', '/a/b/', '/*/a/']


def paths(depth):
    out = ['/']
    for n in range(1, depth + 1):
        for segs in itertools.product(('a', 'b', 'c'), repeat=n):
            out.append('/' + '/'.join(segs))
            out.append('/' + '/'.join(segs) + '/')
    return out


def page_for(p, log):
    def page(context):
        log.append(p)
        context.set_status(200)
        return context_app[0].text_response(context, b'ok')
    return page


context_app = [None]


class PlainApp(wsgi.WSGIApp):
    pass


PlainApp.setup(Options())


def dispatch(rec, shard):
    for pats, pths in shard:
        rec.case({'patterns': list(pats)})
        for order in (pats, pats[::-1]) if len(pats) > 1 else (pats, ):
            log = []
            app = context_app[0] = PlainApp()
            for p in order:
                app.set_method(p, page_for(p, log))
            model = {tuple(p.split('/')): p for p in pats}
            for path in pths:
                rec.transitions += 1
                del log[:]
                code = request(app, path)[0]
                want = m_match(model, tuple(path.split('/')))
                want = None if want is None else model[want]
                got = log[0] if log else None
                if len(log) > 1 or got != want or \
                        code != (404 if want is None else 200):
                    rec.fail('dispatch:%s:%s' % (','.join(pats), path),
                             'patterns %r: %s is routed to %r (%i), not %r' %
                             (pats, path, got, code, want))
                rec.outcome(want is None)


# Responses

ERRORS = [(wsgi.BadRequest, 400), (wsgi.PageNotAuthorized, 403),
          (wsgi.PageNotFound, 404), (wsgi.MethodNotAllowed, 405),
          (ValueError, 500), (KeyError, 500), (RuntimeError, 500),
          (UnicodeError, 500), (wsgi.SessionError, 500)]


def responses(rec, _):
    datas = [b'', b'x', b'caf\xc3\xa9', u'', u'x', u'caf\xe9', u'\u20ac' * 9]
    for wrapper in (False, True):
        for exc, want in ERRORS:
            for when in ('page', 'status'):
                rec.case({'exception': exc.__name__, 'when': when,
                          'wrapper': wrapper})
                app = PlainApp()

                def page(context):
                    if when == 'status':
                        context.set_status(200)
                    raise exc('oops')
                app.set_method('/*', page)
                code, headers, data = request(app, '/x', wrapper=wrapper)
                if code != want:
                    rec.fail('error:%s' % exc.__name__,
                             '%s in a page gives status %i' %
                             (exc.__name__, code))
                if header(headers, 'content-length') != str(len(data)):
                    rec.fail('error-length:%s' % exc.__name__, 'length')
        for kind in ('html', 'text', 'json', 'error'):
            for d in datas:
                for status in (200, 201, 404):
                    rec.case({'response': kind, 'data': repr(d),
                              'status': status, 'wrapper': wrapper})
                    app = PlainApp()

                    def page(context):
                        if kind == 'error':
                            return app.error_page(context, status, d)
                        context.set_status(status)
                        return getattr(app, kind + '_response')(context, d)
                    app.set_method('/', page)
                    code, headers, data = request(app, '/', wrapper=wrapper)
                    want = d if isinstance(d, bytes) else d.encode('utf-8')
                    ct = header(headers, 'content-type')
                    if code != status or data != want or \
                            header(headers, 'content-length') != \
                            str(len(want)):
                        rec.fail('response:%s:%r' % (kind, d),
                                 'status %i body %r headers %r' %
                                 (code, data, headers))
                    base = {'html': 'text/html', 'text': 'text/plain',
                            'json': 'application/json',
                            'error': 'text/plain'}[kind]
                    if ct.split(';')[0] != base:
                        rec.fail('response-type:%s' % kind, ct)
                    if not isinstance(d, bytes) and kind != 'json' and \
                            any(ord(c) > 127 for c in d) and \
                            'charset=utf-8' not in ct:
                        rec.fail('response-charset:%s' % kind, ct)
        for loc in ('http://localhost:8080/x', '/x?a=b&c=%22d"', '/<">&'):
            for status in (301, 302, 303, 307):
                rec.case({'redirect': loc, 'status': status})
                app = PlainApp()
                app.set_method(
                    '/', lambda c: app.redirect_page(c, loc, status))
                code, headers, data = request(app, '/', wrapper=wrapper)
                if code != status or header(headers, 'location') != loc or \
                        header(headers, 'content-length') != str(len(data)):
                    rec.fail('redirect:%s' % loc, '%r' % headers)
                import html
                m = re.search(rb'<a href=("[^"]*"|\'[^\']*\')>', data)
                if not m or html.unescape(
                        m.group(1)[1:-1].decode('utf-8')) != loc:
                    rec.fail('redirect-link:%s' % loc, repr(data))


# Static files

FILES = {'f.txt': b'top', 'a/f.txt': b'in a', 'a/b/f.txt': b'in a/b',
         'a/f.html': b'<p>', 'a/big.bin': b'x' * 70000, 'a/g.ico': b'',
         'noext': b'secret', '.hid': b'secret', 'a/.h.txt': b'secret',
         'a/x.y.txt': b'secret', 'a/-f.txt': b'secret',
         'a/f-.txt': b'secret', '_d/f.txt': b'secret', 'd.x/f.txt': b'secret',
         u'\xe9/f.txt': b'secret', u'a/\xe9.txt': b'secret'}
OUTSIDE = {'f.txt': b'outside', 'a/f.txt': b'outside'}
SEGS = ['', '.', '..', 'a', 'b', 'f.txt', 'a.txt', 'f.html', 'big.bin',
        'g.ico', 'noext', '.hid', '.h.txt', 'x.y.txt', '-f.txt', 'f-.txt',
        '_d', 'd.x', u'\xe9', u'\xe9.txt', 'a\0', 'a\\b', 'dir.txt', 'nosuch']
LABEL = re.compile(r'[A-Za-z0-9]([A-Za-z0-9-]{0,61}[A-Za-z0-9])?\Z')


def m_static(path):
    """The name of the file at path, None if there's none to be served"""
    segs = path.split('/')
    name = segs.pop()
    segs = [s for s in segs if s]
    parts = name.split('.')
    if len(parts) != 2:
        return None
    for s in segs + parts:
        if not LABEL.match(s):
            return None
    name = '/'.join(segs + [name])
    return name if name in FILES else None


def static(rec, shard):
    base = tempfile.mkdtemp(prefix='c27-')
    try:
        root = os.path.join(base, 'static')
        for d, files in ((root, FILES), (base, OUTSIDE)):
            for name, data in files.items():
                fp = os.path.join(d, name)
                if not os.path.isdir(os.path.dirname(fp)):
                    os.makedirs(os.path.dirname(fp))
                with open(fp, 'wb') as f:
                    f.write(data)
                os.utime(fp, (1234567890, 1234567890))
        os.mkdir(os.path.join(root, 'dir.txt'))

        class StaticApp(wsgi.WSGIApp):
            pass
        StaticApp.setup(Options())
        StaticApp.static_files = root
        app = StaticApp()
        app.set_method('/*', app.static_page)
        for segs in shard:
            path = '/' + '/'.join(segs)
            rec.case({'path': path})
            code, headers, data = request(app, path)
            want = m_static(path)
            if want is None:
                if code != 404 or data in FILES.values():
                    rec.fail('static-refused:%s' % path,
                             '%s: status %i, %r' % (path, code, data[:40]))
            elif code != 200 or data != FILES[want] or \
                    header(headers, 'content-length') != str(len(data)) or \
                    header(headers, 'last-modified') != \
                    'Fri, 13 Feb 2009 23:31:30 GMT':
                rec.fail('static:%s' % path, '%s: status %i, %r %r' % (
                    path, code, data[:40], headers))
            else:
                want = {'txt': 'text/plain', 'html': 'text/html',
                        'bin': 'application/octet-stream',
                        'ico': 'image/vnd.microsoft.icon'}[
                            want.split('.')[1]]
                if header(headers, 'content-type') != want:
                    rec.fail('static-type:%s' % path, repr(headers))
            rec.outcome(want)
    finally:
        shutil.rmtree(base)


# Keys and signatures

KEY_SCHEMA = """<edmx:Edmx Version="1.0"
    xmlns:edmx="http://schemas.microsoft.com/ado/2007/06/edmx"
    xmlns:m="http://schemas.microsoft.com/ado/2007/08/dataservices/metadata">
    <edmx:DataServices m:DataServiceVersion="2.0">
        <Schema Namespace="KeySchema"
            xmlns="http://schemas.microsoft.com/ado/2006/04/edm">
            <EntityContainer Name="KeyDatabase"
                    m:IsDefaultEntityContainer="true">
                <EntitySet Name="AppKeys" EntityType="KeySchema.AppKey"/>
            </EntityContainer>
            <EntityType Name="AppKey">
                <Key><PropertyRef Name="KeyNum"/></Key>
                <Property Name="KeyNum" Nullable="false" Type="Edm.Int32"/>
                <Property Name="KeyString" Nullable="false"
                    Type="Edm.String" MaxLength="256" Unicode="false"/>
                <Property Name="Expires" Nullable="false"
                    Type="Edm.DateTime" Precision="0"/>
            </EntityType>
        </Schema>
    </edmx:DataServices>
</edmx:Edmx>"""


class ToyAES(object):
    """Stands in for Crypto.Cipher.AES, a keyed stream"""
    block_size = 16
    MODE_CFB = 3

    @classmethod
    def new(cls, key, mode, iv):
        self = cls()
        self.stream = hashlib.sha512(key + iv).digest() * 20
        return self

    def encrypt(self, data):
        return bytes(x ^ y for x, y in zip(data, self.stream))

    decrypt = encrypt


class ToyRandom(object):
    def new(self):
        return self

    def read(self, n):
        return os.urandom(n)


if not getattr(wsgi, 'got_crypto', False):
    wsgi.AES = ToyAES
    wsgi.Random = ToyRandom()


def key_set():
    doc = edmx.Document()
    doc.read(src=KEY_SCHEMA)
    c = doc.root.DataServices['KeySchema.KeyDatabase']
    memds.InMemoryEntityContainer(c)
    return c['AppKeys']


def key_bytes(n):
    return ('key number %i \x00\xff-:%%' % n).encode('latin-1')


def timepoint(t):
    return iso.TimePoint.from_unix_time(t).with_zone(0)


MESSAGES = [b'', b'Hello', b'a-b-c', b'caf\xc3\xa9 %41+&=;,"', b'\x00\xff:']
KEY_OPS = ['now', 'later', 'late2', 'tick', 'restart']


def key_histories(rec, shard):
    """Histories of key changes, time passing and processes restarting

    A second process starts with the first key and stays unaware of
    every change."""
    for cls, hist in shard:
        rec.case({'cipher': cls, 'history': list(hist)})
        CLOCK.now = Clock.EPOCH
        keys = key_set()
        make = wsgi.AppCipher if cls == 'plain' else wsgi.AESAppCipher
        num = 0
        when = 0
        app = make(num, key_bytes(num), keys)
        other = make(num, key_bytes(num), keys)
        # number and end of the key in use before
        made = []
        cur = 0
        pending = None
        nrep = 0
        for op in hist + ('end', ):
            if op == 'tick':
                CLOCK.now += 60
            elif op in ('now', 'later', 'late2'):
                d = {'now': -1, 'later': 30, 'late2': 90}[op]
                when = CLOCK.now + d
                pending = (num, when)
                num += 1
                app.change_key(num, key_bytes(num), timepoint(when))
            elif op == 'restart':
                if pending and pending[1] >= CLOCK.now:
                    if nrep:
                        # more than one key could be found in the store
                        rec.outcome('ambiguous')
                    app = make(num, key_bytes(num), keys,
                               timepoint(pending[1]))
                else:
                    app = make(num, key_bytes(num), keys)
            rec.transitions += 1
            if pending and CLOCK.now > pending[1]:
                pending = None
            cur = num if pending is None else pending[0]
            nrep = 1 if num > 1 else 0
            msg = MESSAGES[len(made) % len(MESSAGES)]
            try:
                e = app.encrypt(msg)
                s = app.sign(msg)
                a = app.ascii_sign(msg)
            except Exception as err:
                rec.fail('keys-raise:%s:%s' % (cls, '.'.join(hist)),
                         'history %r, %r' % (hist, err))
                return
            for x in (e, s, a):
                if not isinstance(x, str) or not x.isascii():
                    rec.fail('keys-ascii:%s' % cls, repr(x))
            used = [int(re.match('[0-9]+', x).group()) for x in (e, s, a)]
            if not nrep and used != [cur] * 3:
                rec.fail('keys-current:%s:%s' % (cls, '.'.join(hist)),
                         'keys %r used, not %i' % (used, cur))
            if cls == 'plain':
                want = hashlib.sha256(
                    bytes.fromhex(s.split('-')[1]) + msg +
                    key_bytes(used[1])).hexdigest()
                if s.split('-')[2] != want:
                    rec.fail('keys-hash:%s' % '.'.join(hist),
                             'the signature is not made with the key')
            made.append((msg, e, s, a, max(used)))
            for msg, e, s, a, k in made:
                for who, p in (('app', app), ('other', other)):
                    if who == 'other' and k > 0:
                        # not told of this key
                        continue
                    try:
                        ok = (p.decrypt(e) == msg and
                              p.check_signature(s, msg) == msg and
                              p.check_signature(a, msg) == msg and
                              (not msg or p.check_signature(a) == msg))
                    except Exception as err:
                        ok = repr(err)
                    if ok is not True:
                        rec.fail('keys-read:%s:%s:%s' % (
                            cls, who, '.'.join(hist)),
                            'history %r: data made with key %i is not read '
                            'back by %s: %r' % (hist, k, who, ok))


ALPHA = '0123456789abfzAZ-:%. =\u0664\xe9'


def signatures(rec, shard):
    """Every signature changed in one place is refused"""
    keys = key_set()
    for cls, msg in shard:
        make = wsgi.AppCipher if cls == 'plain' else wsgi.AESAppCipher
        app = make(0, key_bytes(0), keys)
        app.change_key(1, key_bytes(1), timepoint(CLOCK.now - 1))
        old = make(0, key_bytes(0), keys)

        def refused(sig, m, what, want=ValueError):
            rec.case({'cipher': cls, 'message': repr(msg), 'signature': sig,
                      'given': repr(m)})
            try:
                r = app.check_signature(sig, m)
            except ValueError:
                return
            except Exception as e:
                r = e
            rec.fail('sig-%s:%s' % (what, cls),
                     'signature %r of %r, with message %r: %r' %
                     (sig, msg, m, r))

        for signer in (app, old):
            s = signer.sign(msg)
            a = signer.ascii_sign(msg)
            for other in MESSAGES:
                if other != msg:
                    refused(s, other, 'other')
                    refused(a, other, 'other')
            refused(s, None, 'none')
            for sig in (s, a):
                head = len(s)
                full = sig is a
                for i in range(len(sig) + 1):
                    for c in ALPHA:
                        for new in (sig[:i] + c + sig[i:],
                                    sig[:i] + c + sig[i + 1:]):
                            if new.lower() == sig.lower() and i < head:
                                continue
                            m = None if full else msg
                            if m_accepts(new, m, sig, msg):
                                continue
                            refused(new, m, 'changed')
                    new = sig[:i] + sig[i + 1:]
                    if not m_accepts(new, None if full else msg, sig, msg):
                        refused(new, None if full else msg, 'changed')
            for k in (0, 1, 2, 99):
                new = re.sub('^[0-9]+', str(k), s)
                if new != s:
                    refused(new, msg, 'key')
        for junk in ('', '-', '--', '---', 'MISSING', '0', '0-', '0-00',
                     '0-00-00', '1-00-00-x', 'x-00-00-x', '0-0-0-0',
                     '-1-00-00-x', '99-00-00-x', '0-zz-00-x', u'\xe9'):
            refused(junk, None, 'junk')
            refused(junk, msg, 'junk')


def m_accepts(new, m, s, msg):
    """Whether a changed signature means the same"""
    f = new.split('-', 3)
    g = s.split('-')
    if len(f) < 3:
        return False
    try:
        if int(f[0]) != int(g[0]):
            return False
        if [bytes.fromhex(x) for x in f[1:3]] != \
                [bytes.fromhex(x) for x in g[1:3]]:
            return False
    except ValueError:
        return False
    if len(f) > 3:
        if m is None and not f[3]:
            return False
        if f[3] and not re.match(r'([^%]|%[0-9A-Fa-f]{2})*\Z', f[3]):
            # not a message that could have been escaped, left open
            return True
        if f[3]:
            return urllib.parse.unquote_to_bytes(f[3]) == msg
    return m is not None


# Sessions

class SApp(wsgi.SessionApp):

    def init_dispatcher(self):
        wsgi.SessionApp.init_dispatcher(self)
        self.set_method('/p', self.page)
        self.set_method('/*', self.page)
        self.ran = []

    @wsgi.session_decorator
    def page(self, context):
        self.ran.append((context.environ['REQUEST_METHOD'],
                         context.environ['PATH_INFO'],
                         context.environ['QUERY_STRING'],
                         context.session.sid, context.session.established))
        context.set_status(200)
        return self.html_response(context, b'page')


def session_app():
    SApp.setup(Options())
    SApp.settings['WSGIDataApp']['secret'] = SECRET
    return SApp()


def m_verify(value, secret=SECRET):
    """Session in a cookie: (sid, established, when), None if not valid"""
    f = value.split('-', 3)
    if len(f) != 4:
        return None
    try:
        salt = bytes.fromhex(f[1])
        msg = urllib.parse.unquote_to_bytes(f[3])
        if hashlib.sha256(salt + msg + secret.encode('utf-8')).hexdigest() != \
                f[2] or f[0] != '0':
            return None
    except ValueError:
        return None
    return m_session(msg.decode('utf-8'))


def m_session(s):
    f = s.split('-')
    t = datetime.datetime.strptime(f[2], '%Y%m%dT%H%M%SZ')
    t = t.replace(tzinfo=datetime.timezone.utc).timestamp()
    return (f[0], f[1] == '1', int(t))


def set_cookies(jar, headers):
    jar = dict(jar)
    for n, v in headers:
        if n.lower() != 'set-cookie':
            continue
        parts = [p.strip() for p in v.split(';')]
        name, value = parts[0].split('=', 1)
        attrs = {}
        for p in parts[1:]:
            k, _, w = p.partition('=')
            attrs[k.lower()] = w
        if attrs.get('max-age') == '0':
            jar.pop(name, None)
        else:
            jar[name] = value
    return jar


def cookie_header(jar):
    return '; '.join('%s=%s' % x for x in sorted(jar.items()))


class Browser(object):
    """Cookies, the address it was last sent to and the token it was given"""
    __slots__ = ('jar', 'loc', 'token', 'ua')

    def __init__(self, ua):
        self.jar = {}
        self.loc = None
        self.token = None
        self.ua = ua

    def copy(self):
        b = Browser(self.ua)
        b.jar, b.loc, b.token = self.jar, self.loc, self.token
        return b


class World(object):
    __slots__ = ('now', 'browsers', 'exposed')

    def copy(self):
        w = World()
        w.now = self.now
        w.browsers = [b.copy() for b in self.browsers]
        w.exposed = set(self.exposed)
        return w

    def key(self):
        """What is known, with sessions renamed and times made relative"""
        names = {}

        def sess(x):
            if x is None:
                return None
            sid, e, t = x
            return (names.setdefault(sid, len(names)), e,
                    min(self.now - t, 601))

        out = []
        for b in self.browsers:
            c = b.jar.get('sid')
            loc = b.loc
            if loc is not None:
                u = urllib.parse.urlsplit(loc)
                q = dict(urllib.parse.parse_qsl(u.query))
                if 's' in q:
                    # signed for which browser?
                    loc = (u.path, sess(m_session(q['s'])), q['return'],
                           q.get('framed'), sig_of(q))
            tok = b.token
            if tok is not None:
                tok = names.setdefault(tok, len(names))
            out.append(('ctest' in b.jar, c is not None,
                        sess(m_verify(c)) if c else None, loc, tok))
        return tuple(out)


UAS = ['Mozilla/5.0', 'Mozilla/4.0']


def sig_of(q):
    return tuple(m_signed(q, ua) for ua in UAS)


def m_signed(q, ua, secret=SECRET):
    try:
        n, salt, h = q['sig'].split('-')
        return n == '0' and hashlib.sha256(
            bytes.fromhex(salt) + (q['s'] + q['return'] + ua).encode('utf-8') +
            secret.encode('utf-8')).hexdigest() == h
    except ValueError:
        return False


class Sessions(object):
    """Runs one request and compares what happened with the model"""

    def __init__(self, rec, app):
        self.rec = rec
        self.app = app

    def fail(self, key, detail):
        self.rec.fail('session-%s' % key, detail)

    def run(self, w, who, url, method='GET', token=None):
        self.rec.transitions += 1
        CLOCK.now = w.now
        b = w.browsers[who]
        u = urllib.parse.urlsplit(url)
        if url.startswith('http') and not url.startswith(ROOT + '/'):
            self.fail('redirect-outside', url)
            return
        body = b'' if token is None else (
            'x=1&csrftoken=' + token).encode('ascii')
        del self.app.ran[:]
        before = b.jar
        code, headers, data = request(
            self.app, urllib.parse.unquote_to_bytes(u.path), u.query, method,
            cookie_header(before), b.ua, body,
            'application/x-www-form-urlencoded' if method == 'POST' else None)
        b.jar = set_cookies(before, headers)
        loc = header(headers, 'location')
        ran = list(self.app.ran)
        c0 = m_verify(before['sid']) if 'sid' in before else None
        c1 = m_verify(b.jar['sid']) if 'sid' in b.jar else None
        test = 'ctest' in before
        detail = '%s %s token %r, cookies %r (session %r) -> %i, page ran ' \
            '%r, location %r, session %r' % (method, url, token, before, c0,
                                             code, ran, loc, c1)
        bad = lambda key: self.fail(key, detail)    # noqa
        # what set_session must give: ('same'/'new', established)
        if test and c0 and c0[1] and w.now - c0[2] <= 600:
            sess = (c0[0], True)
        elif test and c0 and not c0[1] and w.now - c0[2] <= 120:
            sess = (None, True)
        else:
            sess = (None, False)

        def check_session(got, key):
            """got: (sid, established)"""
            if got is None or got[1] != sess[1]:
                bad(key + '-established')
            elif sess[0] is not None and got[0] != sess[0]:
                bad(key + '-lost')
            elif sess[0] is None and (
                    (c0 and got[0] == c0[0]) or got[0] in w.exposed):
                bad(key + '-not-new')

        q = dict(urllib.parse.parse_qsl(u.query))
        if u.path not in ('/ctest', '/wlaunch'):
            if method == 'POST' and not (
                    token and c0 and token == c0[0]):
                if code != 403 or ran:
                    bad('csrf')
            elif not test:
                if code != 303 or ran or loc is None or \
                        not loc.startswith(ROOT + '/ctest?'):
                    bad('no-test')
                else:
                    lq = dict(urllib.parse.parse_qsl(
                        urllib.parse.urlsplit(loc).query))
                    if lq.get('return') != url or \
                            not m_signed(lq, b.ua) or c1 is None or \
                            m_session(lq['s']) != c1 or \
                            'ctest' not in b.jar:
                        bad('test-url')
                check_session(c1 and c1[:2], 'no-test')
            else:
                if code != 200 or len(ran) != 1:
                    bad('page')
                else:
                    check_session(ran[0][3:], 'page')
                    if ran[0][0] != method or ran[0][1] != u.path:
                        bad('wrong-page')
                    if c1 is None or c1[:2] != ran[0][3:] or \
                            c1[2] != w.now:
                        bad('cookie')
                    if ran[0][3] in w.exposed:
                        bad('exposed')
                    b.token = ran[0][3]
        elif 's' not in q or 'sig' not in q or 'return' not in q:
            if code != 400:
                bad('missing')
        elif u.path == '/ctest' and not test:
            if q.get('framed') == '1':
                if code != 200 or b'blocked cookies' not in data or loc:
                    bad('blocked')
            else:
                import html
                m = re.search(rb'<a href=("[^"]*"|\'[^\']*\')', data)
                t = html.unescape(m.group(1)[1:-1].decode('utf-8')) if m \
                    else ''
                tu = urllib.parse.urlsplit(t)
                if code != 200 or \
                        not t.startswith(ROOT + '/wlaunch?') or \
                        dict(urllib.parse.parse_qsl(tu.query)) != \
                        {k: q[k] for k in ('s', 'sig', 'return')}:
                    bad('launch-link')
                loc = t
        elif not m_signed(q, b.ua) or m_session(q['s'])[1]:
            if code != 400 or 'sid' in b.jar:
                bad('query-tampered')
        elif u.path == '/ctest':
            if not c0 or c0[1] or c0[0] != m_session(q['s'])[0]:
                if code != 400 or 'sid' in b.jar:
                    bad('cookie-mismatch')
            else:
                if code != 303 or loc != q['return']:
                    bad('return')
                check_session(c1 and c1[:2], 'ctest')
        else:
            if not test:
                if code != 303 or c1 != m_session(q['s']) or \
                        'ctest' not in b.jar or \
                        not (loc or '').startswith(ROOT + '/ctest?'):
                    bad('launch')
                elif dict(urllib.parse.parse_qsl(
                        urllib.parse.urlsplit(loc).query)) != dict(
                            [(k, q[k]) for k in ('s', 'sig', 'return')],
                            framed='1'):
                    bad('launch-url')
            else:
                if code != 303 or loc != q['return']:
                    bad('launch-return')
                check_session(c1 and c1[:2], 'launch')
        if u.path in ('/ctest', '/wlaunch') and ran:
            bad('ran')
        b.loc = loc
        if loc:
            lq = dict(urllib.parse.parse_qsl(
                urllib.parse.urlsplit(loc).query))
            if 's' in lq:
                s = m_session(lq['s'])
                if s[1]:
                    bad('established-in-url')
                w.exposed.add(s[0])
        self.rec.outcome((u.path, code, bool(ran), sess[1]))


def flip(value, i):
    return value[:i] + ('1' if value[i] != '1' else '0') + value[i + 1:]


V, A = 0, 1


def session_ops(w, full):
    """Every step that can be taken: (name, function)"""
    ops = []
    for who, n in ((V, 'V'), (A, 'A')):
        b = w.browsers[who]
        ops.append((n + '.get', lambda e, w, who=who: e.run(
            w, who, ROOT + '/p')))
        if b.loc:
            ops.append((n + '.follow', lambda e, w, who=who: e.run(
                w, who, w.browsers[who].loc)))
        if b.token and (who == V or full):
            ops.append((n + '.post', lambda e, w, who=who: e.run(
                w, who, ROOT + '/p', 'POST', w.browsers[who].token)))
    v, a = w.browsers
    if a.loc and '?' in a.loc:
        ops.append(('V.visit-A', lambda e, w: e.run(
            w, V, w.browsers[A].loc)))
        ops.append(('V.launch-A', lambda e, w: e.run(
            w, V, w.browsers[A].loc.replace('/ctest?', '/wlaunch?'))))
        ops.append(('V.visit-A-elsewhere', lambda e, w: e.run(
            w, V, re.sub('return=[^&]*', 'return=http%3A%2F%2Fevil.com%2F',
                         w.browsers[A].loc))))
        ops.append(('V.launch-A-elsewhere', lambda e, w: e.run(
            w, V, re.sub('return=[^&]*', 'return=http%3A%2F%2Fevil.com%2F',
                         w.browsers[A].loc).replace(
                             '/ctest?', '/wlaunch?'))))
    if a.token:
        ops.append(('V.post-A', lambda e, w: e.run(
            w, V, ROOT + '/p', 'POST', w.browsers[A].token)))
    if v.jar:
        ops.append(('V.post-none', lambda e, w: e.run(
            w, V, ROOT + '/p', 'POST', '')))
    c = v.jar.get('sid')
    if c:
        def change(f):
            def g(e, w):
                b = w.browsers[V]
                b.jar = dict(b.jar)
                f(b.jar)
            return g
        ops.append(('V.drop-session', change(lambda j: j.pop('sid'))))
        ops.append(('V.tamper-hash', change(
            lambda j: j.update(sid=flip(j['sid'], 12)))))
        ops.append(('V.tamper-sid', change(
            lambda j: j.update(sid=flip(j['sid'], 78)))))
        ops.append(('V.establish', change(
            lambda j: j.update(sid=re.sub('-0-(?=[0-9]{8}T)', '-1-',
                                          j['sid'])))))
        if full:
            ops.append(('V.garbage', change(
                lambda j: j.update(sid='MISSING'))))
            ops.append(('V.foreign', change(
                lambda j: j.update(sid='caf\xe9'))))
    if 'ctest' in v.jar:
        def drop(e, w):
            b = w.browsers[V]
            b.jar = {k: x for k, x in b.jar.items() if k != 'ctest'}
        ops.append(('V.drop-test', drop))
    if v.jar or a.jar:
        for d in (100, 20, 1, 480) if full else (120, 1, 480):
            def tick(e, w, d=d):
                w.now += d
            ops.append(('tick-%i' % d, tick))
    return ops


def world(same):
    w = World()
    w.now = Clock.EPOCH
    w.browsers = [Browser(UAS[0]), Browser(UAS[0 if same else 1])]
    w.exposed = set()
    return w


def sessions(rec, shard):
    """Breadth first from a state with no cookies

    From the third step on, shard k of n follows every n-th state"""
    same, k, n, depth, full = shard
    OCTETS.n = 0
    app = session_app()
    e = Sessions(rec, app)
    frontier = [(world(same), ())]
    seen = set()
    for d in range(depth):
        if d == 2:
            frontier = frontier[k::n]
        nxt = []
        for w, hist in frontier:
            for name, op in session_ops(w, full):
                rec.case({'same_agent': same, 'history': list(hist) + [name]})
                w2 = w.copy()
                op(e, w2)
                key = w2.key()
                if key not in seen:
                    seen.add(key)
                    nxt.append((w2, hist + (name, )))
        frontier = nxt
    rec.states += len(seen)


REKEY_OPS = ['get', 'post', 'now', 'later', 'tick']


def rekeyed(rec, shard):
    """Sessions survive changes of the application's key"""
    for hist in shard:
        rec.case({'history': list(hist)})
        CLOCK.now = Clock.EPOCH
        app = session_app()
        jar = {}
        loc = '/p'
        for hop in range(3):
            u = urllib.parse.urlsplit(loc)
            code, headers, data = request(
                app, u.path, u.query, 'GET', cookie_header(jar), UAS[0])
            jar = set_cookies(jar, headers)
            loc = header(headers, 'location') or '/p'
        sid = app.ran[-1][3] if app.ran else None
        if sid is None or not app.ran[-1][4]:
            rec.fail('rekey-start', 'no session: %r' % app.ran)
            return
        key = 0
        for i, op in enumerate(hist):
            rec.transitions += 1
            if op == 'tick':
                CLOCK.now += 60
            elif op in ('now', 'later'):
                key += 1
                app.app_cipher.change_key(
                    key, key_bytes(key),
                    timepoint(CLOCK.now + (-1 if op == 'now' else 50)))
            else:
                del app.ran[:]
                code, headers, data = request(
                    app, '/p', '', op.upper(), cookie_header(jar), UAS[0],
                    ('csrftoken=' + sid).encode('ascii')
                    if op == 'post' else b'',
                    'application/x-www-form-urlencoded')
                jar = set_cookies(jar, headers)
                if code != 200 or [r[3:] for r in app.ran] != [(sid, True)]:
                    rec.fail('rekey:%s' % '.'.join(hist[:i + 1]),
                             'after %r: status %i, page %r, session was %r' %
                             (hist[:i + 1], code, app.ran, sid))


def returns(rec, shard):
    """First visits end at the page that was asked for"""
    app = session_app()
    e = Sessions(rec, app)
    for path, query in shard:
        rec.case({'path': repr(path), 'query': query})
        jar = {}
        url = (path, query)
        for hop in range(5):
            del app.ran[:]
            code, headers, data = request(
                app, url[0], url[1], 'GET', cookie_header(jar), UAS[0])
            jar = set_cookies(jar, headers)
            loc = header(headers, 'location')
            if loc is None:
                break
            u = urllib.parse.urlsplit(loc)
            if (u.scheme, u.netloc) != ('http', 'localhost:8080'):
                rec.fail('return-outside:%r' % path, loc)
                break
            url = (urllib.parse.unquote_to_bytes(u.path), u.query)
        want = (path.decode('latin-1'), query)
        if code != 200 or [r[1:3] for r in app.ran] != [want]:
            rec.fail('return:%r:%s' % (path, query),
                     'path %r query %r: status %i, page %r' %
                     (path, query, code, app.ran))
        elif not app.ran[0][4]:
            rec.fail('return-unestablished', repr(app.ran))


# Values

class ValueApp(wsgi.WSGIApp):
    pass


ValueApp.setup(Options())


def values(rec, shard):
    """Queries, forms, cookies and URLs read to the values sent"""
    got = {}
    app = ValueApp()

    def page(context):
        got['query'] = dict(context.get_query())
        got['cookies'] = dict(context.get_cookies())
        got['url'] = str(context.get_url())
        got['a'] = context.get_form_string('a')
        got['b'] = context.get_form_string('b')
        context.set_status(200)
        return app.text_response(context, b'')
    app.set_method('/*', page)
    for kind, text in shard:
        rec.case({'kind': kind, 'text': repr(text)})
        got.clear()
        if kind == 'path':
            path = b'/x' + text
            code = request(app, path)[0]
            want = path
            url = got.get('url', '')
            if code != 200 or not url.startswith(ROOT + '/') or \
                    urllib.parse.unquote_to_bytes(url[len(ROOT):]) != want \
                    or not re.match(r"[!-~]+\Z", url) or '?' in url or \
                    '#' in url:
                rec.fail('url:%r' % text, 'path %r: %i, URL %s' %
                         (path, code, url))
        elif kind in ('query', 'form', 'multipart'):
            ctype = None
            body = b''
            q = urllib.parse.urlencode([('a', x) for x in text] + [
                ('c', 'z')])
            if kind == 'query':
                code = request(app, '/', q)[0]
                r = got.get('query', {}).get('a', '')
            elif kind == 'form':
                code = request(
                    app, '/', 'a=no&b=no', 'POST', '', None, q.encode('ascii'),
                    'application/x-www-form-urlencoded')[0]
                r = got.get('a')
            else:
                body = b''.join(
                    b'--XX\r\nContent-Disposition: form-data; name="a"\r\n'
                    b'\r\n' + x.encode('utf-8') + b'\r\n' for x in text)
                code = request(
                    app, '/', 'a=no&b=no', 'POST', '', None,
                    body + b'--XX--\r\n',
                    'multipart/form-data; boundary=XX')[0]
                r = got.get('a')
            want = ','.join(x for x in text if x or kind != 'query')
            if code != 200 or r != want:
                rec.fail('%s:%r' % (kind, text), '%s %r: %i, %r, not %r' %
                         (kind, text, code, r, want))
            if kind != 'query' and got.get('b'):
                rec.fail('form-query', 'query seen in a form')
        elif kind == 'cookie':
            code = request(app, '/', cookies='; '.join(
                'a=' + x for x in text))[0]
            r = got.get('cookies', {}).get(b'a')
            want = ','.join(sorted(set(text))).encode('latin-1')
            if code != 200 or r != want:
                rec.fail('cookie:%r' % (text, ), '%i %r not %r' %
                         (code, r, want))


def run(ck):
    pats = patterns(3)
    sets = [c for n in (1, 2) for c in itertools.combinations(pats, n)]
    small = patterns(2) + ['/a/b/c', '/a/*/c', '/*/b/*', '/*/*/c', '/a/b/*']
    sets += list(itertools.combinations(pats if ck.thorough else small, 3))
    pths = paths(4 if ck.thorough else 3)
    ck.part('dispatch', dispatch, shards_of([(p, pths) for p in sets]),
            'sets of path patterns against every path')
    ck.part('responses', responses, (None, ),
            'exceptions and responses of pages')
    n = 4 if ck.thorough else 3
    ps = [p for k in range(1, n + 1)
          for p in itertools.product(SEGS, repeat=k)]
    ck.part('static', static, shards_of(ps), 'paths of static files')
    hists = [(c, h) for c in ('plain', 'aes')
             for k in range(6 if ck.thorough else 5)
             for h in itertools.product(KEY_OPS, repeat=k)]
    ck.part('keys', key_histories, shards_of(hists), 'key change histories')
    ck.part('signatures', signatures,
            [[(c, m)] for c in ('plain', 'aes') for m in MESSAGES],
            'changed signatures')
    full = ck.thorough
    sh = [(same, k, 8, 7 if full else 6, full)
          for same in (True, False) for k in range(8)]
    ck.part('sessions', sessions, sh,
            'requests of a browser and an attacker')
    rk = [h + (x, ) for k in range(5 if ck.thorough else 4)
          for h in itertools.product(REKEY_OPS, repeat=k)
          for x in ('get', 'post')]
    ck.part('rekeyed', rekeyed, shards_of(rk),
            'sessions and changes of key')
    one = [bytes([b]) for b in range(256)]
    ret = [(b'/' + x, '') for x in one if x not in (b'/', b'*')] + \
        [(b'/x' + x + b'y/', '') for x in one if x != b'/'] + \
        [(b'/p', q) for q in
         ['a=b', 'a=b&c=d', 'a=%26%3D', 'return=x', 's=1&sig=2', 'a=+%2B',
          'a=%C3%A9', 'framed=1', 'a', '=', '&', 'a=b;c']] + \
        [(b'//p', ''), (b'//evil.com/', ''), (b'/caf\xc3\xa9/x', 'a=b'),
         (b'/%41', ''), (b'/a%2Fb', ''), (b'/ctestx', ''), (b'/', 'a=b')]
    ck.part('returns', returns, shards_of(ret), 'first visits to URLs')
    chars = [chr(c) for c in list(range(1, 256)) + [0x20ac, 0x1f600]]
    vals = [('path', x) for x in one + [b'\xc3\xa9', b'%41', b'%', b'//',
                                        b'/..', b'?a=b#c']]
    for kind in ('query', 'form', 'multipart'):
        cs = [c for c in chars if kind != 'multipart' or ord(c) < 128]
        vals += [(kind, ('x' + c + 'y', )) for c in cs]
        vals += [(kind, t) for k in (0, 1, 2, 3)
                 for t in itertools.product(('', 'p', 'q,r'), repeat=k)]
    ck_ok = ''.join(chr(c) for c in range(33, 127) if chr(c) not in '",;\\')
    vals += [('cookie', ('v' + c + 'w', )) for c in ck_ok]
    vals += [('cookie', t) for k in (1, 2, 3)
             for t in itertools.product(('p', 'q', 'r'), repeat=k)]
    ck.part('values', values, shards_of(vals),
            'URLs, queries, forms and cookies')
