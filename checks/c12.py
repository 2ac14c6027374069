"""C12: the HTTP client"""
import io
import itertools
import re

from pyslet.http import client as httpclient
from pyslet.http import params
from pyslet.http import auth
from pyslet.rfc2396 import URI

from mc.core import shards_of
from mc.explore import explore
from mc.fakenet import Net, Hang

LEVEL = 'model_checking'
RULE = ('every pipeline of the stated requests, every position at which the '
        'server may close, reset or go silent, and every pattern of partial '
        'or blocked sends and receives up to the deviation bound, against a '
        'model server that logs what it received')

CRLF = b'\r\n'
HEAD_RE = re.compile(rb'^([A-Z]+) (\S+) HTTP/1\.([01])\r\n')


def parse_request(data):
    """(method, uri, headers, body, used) or None if more is needed

    headers None means only the head has arrived"""
    i = data.find(b'\r\n\r\n')
    if i < 0:
        return None
    top = data[:i].split(CRLF)
    m = HEAD_RE.match(data)
    if not m:
        raise ValueError("bad request line %r" % data)
    headers = {}
    for l in top[1:]:
        k, v = l.split(b': ', 1)
        headers.setdefault(k.lower(), []).append(v)
    i += 4
    if b'transfer-encoding' in headers:
        if b'content-length' in headers:
            raise ValueError("both framings")
        body = b''
        while True:
            j = data.find(CRLF, i)
            if j < 0:
                return m.group(1), m.group(2), headers, None, i
            n = int(data[i:j], 16)
            if len(data) < j + 2 + n + 2:
                return m.group(1), m.group(2), headers, None, i
            body += data[j + 2:j + 2 + n]
            if data[j + 2 + n:j + n + 4] != CRLF:
                raise ValueError("bad chunk")
            i = j + n + 4
            if n == 0:
                break
    else:
        n = int(headers.get(b'content-length', [b'0'])[0])
        if len(data) < i + n:
            return m.group(1), m.group(2), headers, None, i
        body = data[i:i + n]
        i += n
    return m.group(1), m.group(2), headers, body, i


def body_of(uri):
    """The unique body of the response to uri"""
    return b'<' + uri + b'>'


def response(kind, uri, method):
    """(response bytes, close afterwards)"""
    b = body_of(uri)
    head = method == b'HEAD'
    if kind == 'len':
        return b'HTTP/1.1 200 OK\r\nContent-Length: %i\r\n\r\n' % len(b) + \
            (b'' if head else b), False
    elif kind == 'chunk':
        return (b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n' +
                (b'' if head else b'2\r\n' + b[:2] + b'\r\n%x\r\n' %
                 (len(b) - 2) + b[2:] + b'\r\n0\r\n\r\n')), False
    elif kind == 'close':
        return (b'HTTP/1.1 200 OK\r\nConnection: close\r\n\r\n' +
                (b'' if head else b)), True
    elif kind == 'lenclose':
        return (b'HTTP/1.1 200 OK\r\nConnection: close\r\nContent-Length: '
                b'%i\r\n\r\n' % len(b) + (b'' if head else b)), True
    elif kind == 'http10':
        return (b'HTTP/1.0 200 OK\r\nContent-Length: %i\r\n\r\n' % len(b) +
                (b'' if head else b)), True
    elif kind == '204':
        return b'HTTP/1.1 204 No Content\r\n\r\n', False
    elif kind == '404':
        return (b'HTTP/1.1 404 Not Found\r\nContent-Length: %i\r\n\r\n'
                % len(b) + (b'' if head else b)), False
    elif kind == '102':
        r, c = response('len', uri, method)
        return b'HTTP/1.1 102 Processing\r\n\r\n' + r, c
    elif kind == 'crlf':
        r, c = response('len', uri, method)
        return r, c
    raise ValueError(kind)


class Server(object):
    """Answers each request as its URI says: /KIND/N"""

    def __init__(self, conn, log):
        self.conn = conn
        self.log = log
        self.pos = 0
        self.expected = None

    def feed(self, data):
        while self.pos < len(data):
            req = parse_request(data[self.pos:])
            if req is None:
                return
            method, uri, headers, body, used = req
            kind = uri.split(b'/')[1].split(b'-')
            kind = [k.decode() for k in kind]
            if headers.get(b'expect') and self.expected != self.pos:
                self.expected = self.pos
                if 'continue' in kind:
                    self.conn.write(b'HTTP/1.1 100 Continue\r\n\r\n')
                    self.conn.net.heads[self.conn.n, uri] = len(
                        self.conn.out)
                elif 'fail' in kind:
                    # final answer without waiting for the body
                    self.conn.write(b'HTTP/1.1 417 Expectation Failed\r\n'
                                    b'Content-Length: 2\r\n\r\nno')
                    self.conn.net.early.append(uri)
                    return
                elif 'early' in kind:
                    self.conn.write(response('len', uri, method)[0])
                    self.conn.net.early.append(uri)
                    self.conn.net.heads[self.conn.n, uri] = len(
                        self.conn.out)
                    self.conn.net.ends.append((self.conn.n, uri,
                                               len(self.conn.out)))
            if body is None:
                return
            self.pos += used
            self.log.append((self.conn.n, method, uri, body, headers,
                             self.conn.net.now))
            if uri in self.conn.net.early:
                continue
            if self.conn.state != 'open':
                continue
            r = self.answer(method, uri, headers, kind[0])
            self.conn.write(r[0])
            self.conn.net.ends.append((self.conn.n, uri,
                                       len(self.conn.out)))
            if r[1]:
                self.conn.close()
                return

    def answer(self, method, uri, headers, kind):
        return response(kind, uri, method)


class Body(io.RawIOBase):
    """A seekable request body that may block once"""

    def __init__(self, ctx, data):
        self.ctx = ctx
        self.data = data
        self.p = 0
        self.blocked = 0

    def readable(self):
        return True

    def seekable(self):
        return True

    def seek(self, pos, whence=0):
        self.p = pos
        return pos

    def tell(self):
        return self.p

    def readinto(self, b):
        if self.blocked < 2 and self.ctx.choose(2, tag='body'):
            self.blocked += 1
            return None
        n = min(len(b), len(self.data) - self.p)
        b[:n] = self.data[self.p:self.p + n]
        self.p += n
        return n


#: (method, response kind)
METHODS = ('GET', 'HEAD', 'PUT', 'POST', 'DELETE', 'PUTS')
KINDS = ('len', 'chunk', 'close', 'lenclose', 'http10', '204', '404', '102')


def setup(ctx, spec, plans, timeout=None, server=Server, sink=False,
          max_retries=3):
    net = Net(ctx, None, plans)
    net.log = []
    net.early = []
    net.ends = []
    net.heads = {}
    net.server = lambda conn: server(conn, net.log)
    httpclient.socket = net.socket
    httpclient.select = net.select
    httpclient.time = net.time
    httpclient.random = net.random
    c = httpclient.Client(timeout=timeout)
    reqs = []
    for i, (method, kind) in enumerate(spec):
        uri = '/%s/%i' % (kind, i)
        kw = {}
        expect = False
        body = b''
        m = method
        if method in ('PUT', 'POST', 'PUTX', 'POSTX'):
            body = b'body%i' % i
            kw['entity_body'] = body
        elif method in ('PUTS', 'POSTS'):
            body = b'body%i' % i
            kw['entity_body'] = Body(ctx, body)
        if m.startswith('PUT'):
            m = 'PUT'
        elif m.startswith('POST'):
            m = 'POST'
        if sink:
            kw['res_body'] = io.BytesIO()
        r = httpclient.ClientRequest('http://h.example' + uri, method=m,
                                     max_retries=max_retries, **kw)
        if method.endswith('X'):
            r.set_expect_continue(True)
        r.mc_stream = method == 'PUTS'
        r.mc = (m.encode(), uri.encode(), body, kind, kw.get('res_body'))
        reqs.append(r)
    return net, c, reqs


def restore():
    import random
    import select
    import socket
    import time
    httpclient.socket = socket
    httpclient.select = select
    httpclient.time = time
    httpclient.random = random


def check_wire(rec, net, reqs, info):
    """What was sent on each connection"""
    want = dict((r.mc[1], r.mc) for r in reqs)
    sent = {}
    for conn in net.conns:
        if conn is None:
            continue
        data = conn.arrived
        while data:
            try:
                req = parse_request(data)
            except (ValueError, KeyError) as e:
                rec.fail('malformed request on the wire',
                         repr((info, conn.arrived, str(e))))
                return
            if req is None or req[3] is None:
                if req is not None:
                    check_timing(rec, net, conn,
                                 len(conn.arrived) - len(data), req, info)
                # a partial request is a prefix of one of the requests
                m = HEAD_RE.match(data)
                if m:
                    sent.setdefault(m.group(2), []).append(conn.n)
                    body = want.get(m.group(2), [0, 0, None])[2]
                    if body is None:
                        rec.fail('unknown request', repr((info, data)))
                else:
                    for u in want:
                        start = want[u][0] + b' ' + u + b' HTTP/1.'
                        if start.startswith(data) or data.startswith(start):
                            sent.setdefault(u, []).append(conn.n)
                            break
                    else:
                        rec.fail('garbage on the wire',
                                 repr((info, conn.arrived)))
                break
            method, uri, headers, body, used = req
            check_timing(rec, net, conn, len(conn.arrived) - len(data), req,
                         info)
            if uri not in want:
                rec.fail('unknown request', repr((info, uri)))
                return
            if (method, body) != (want[uri][0], want[uri][2]):
                rec.fail('request changed', repr((info, req)))
            if headers.get(b'host') != [b'h.example']:
                rec.fail('host header', repr((info, req)))
            sent.setdefault(uri, []).append(conn.n)
            data = data[used:]
    for r in reqs:
        method, uri, body, kind, sink = r.mc
        n = sent.get(uri, [])
        if len(set(n)) != len(n):
            rec.fail('sent twice on one connection', repr((info, uri, n)))
        if method == b'POST' and len(n) > 1:
            rec.fail('POST sent again', repr((info, uri, n)))
        if len(n) > r.mc_max + 1:
            rec.fail('too many attempts', repr((info, uri, n)))
    return sent


def check_timing(rec, net, conn, offset, req, info):
    """When the parts of a request were sent"""
    method, uri, headers, body, used = req
    if method == b'POST':
        # only once everything before it has been answered
        event = [e for e in conn.events if e[0] <= offset][-1]
        if offset != 0:
            done = [e for e in net.ends if e[0] == conn.n and
                    e[2] <= event[2]]
            before = conn.arrived[:offset].count(b' HTTP/1.')
            if len(done) < before:
                rec.fail('POST sent before the responses due', repr(
                    (info, uri, before, done)))
    if b'expect' in headers:
        head = conn.arrived.index(b'\r\n\r\n', offset) + 4
        if len(conn.arrived) == head:
            return
        if b'-fail' in uri and body is None:
            rec.fail('body sent after a failed expectation', repr(
                (info, uri)))
        if method not in (b'POST', b'PUT'):
            return
        e0 = [e for e in conn.events if e[0] < head][-1]
        e1 = [e for e in conn.events if e[0] <= head][-1]
        if e1[0] < head:
            rec.fail('body sent with the headers', repr((info, uri)))
        elif e1[1] - e0[1] < 5 and (
                b'-none' in uri or
                net.heads.get((conn.n, uri), 1 << 30) > e1[2]):
            rec.fail('body sent without waiting', repr((info, uri)))


def answered(net, uri):
    """The connections on which the server (began to) answer uri"""
    return [e[0] for e in net.log if e[2] == uri]


def check_results(rec, net, reqs, faults, info, timeout=None):
    for r in reqs:
        method, uri, body, kind, sink = r.mc
        kinds = kind.split('-')
        data = r.res_body if sink is None else sink.getvalue()
        want = b'' if (method == b'HEAD' or kinds[0] == '204') else \
            body_of(uri)
        status = {'204': 204, '404': 404}.get(kinds[0], 200)
        if kinds[-1] == 'fail':
            status, want = 417, b'no'
        rec.outcome((method, kind, r.status))
        if r.status == 0:
            if 'Length required' in str(r.error) and r.mc_stream:
                # its body blocked before the protocol was known
                pass
            elif r.error is None:
                rec.fail('failed without an error', repr((info, uri)))
            elif not faults:
                rec.fail('failed without a fault', repr((info, uri,
                                                         str(r.error))))
        else:
            ok = r.status == status and data == want
            if not ok and kinds[0] == 'close' and r.status == status and \
                    want.startswith(data) and faults:
                ok = True       # the end can not be told from a failure
            if not ok:
                rec.fail('wrong response', repr((info, uri, r.status, data)))
            if kinds[-1] != 'fail' and r.error is None and \
                    'early' not in kinds and not answered(net, uri):
                rec.fail('response to a request not received',
                         repr((info, uri)))


def check_idle(rec, net, c, reqs, info):
    if c.active_count() or c.thread_active_count():
        rec.fail('connection still active', repr((info,)))
    for r in reqs:
        if r.connection is not None:
            rec.fail('request still connected', repr((info, r.mc[1])))


def run_one(rec, ctx, spec, plans, timeout=None, sequential=False,
            sink=False, max_retries=3):
    info = (spec, plans, timeout, ctx.choices)
    net, c, reqs = setup(ctx, spec, plans, timeout, sink=sink,
                         max_retries=max_retries)
    for r in reqs:
        r.mc_max = max_retries
    ctx.net = net
    try:
        try:
            if sequential:
                for r in reqs:
                    c.process_request(r)
            else:
                for r in reqs:
                    c.queue_request(r)
                c.thread_loop()
        except Hang as e:
            rec.fail('client does not finish', repr((info, str(e))))
            return
        check_wire(rec, net, reqs, info)
        # what counts as a fault: something the server did not intend
        faults = [p for p in plans if p]
        used = [conn for conn in net.conns if conn is None or
                conn.plan and conn.state != 'open' or
                conn.state == 'reset']
        check_results(rec, net, reqs, used, info, timeout)
        check_idle(rec, net, c, reqs, info)
        check_retries(rec, net, reqs, info)
    finally:
        c.close()
        restore()


def check_retries(rec, net, reqs, info):
    """An idempotent request is not lost to a connection on which the
    server did not begin to answer it, unless all attempts are used"""
    failed = False
    for r in reqs:
        method, uri, body, kind, sink = r.mc
        if failed:
            # the requests that follow one that fails may fail too
            break
        failed = r.status == 0
        if r.status or method == b'POST':
            continue
        if 'Length required' in str(r.error) and r.mc_stream:
            continue
        # connections on which the client saw part of the response
        seen = False
        attempts = 0
        for conn in net.conns:
            if conn is None:
                attempts += 1
                continue
            if method + b' ' + uri in conn.arrived:
                attempts += 1
            # the offset of the response in the output of the server
            off = 0
            for e in net.log:
                if e[0] != conn.n:
                    continue
                if e[2] == uri:
                    if conn.read > off:
                        seen = True
                    break
                k = e[2].split(b'/')[1].decode()
                off += len(response(k.split('-')[0], e[2], e[1])[0]) + (
                    25 if '-continue' in k else 0)
            if b'417' in conn.out or b'100 Continue' in conn.out or \
                    uri in net.early:
                seen = True
        if seen:
            continue
        if attempts <= r.mc_max and 'ime' not in str(r.error):
            rec.fail('idempotent request given up early', repr(
                (info, uri, attempts, str(r.error))))


# -- parts

def dry(spec, sequential=False):
    """(bytes in, bytes out, ) of the first connection without faults"""
    res = []

    def go(ctx):
        net, c, reqs = setup(ctx, spec, ())
        try:
            if sequential:
                for r in reqs:
                    c.process_request(r)
            else:
                for r in reqs:
                    c.queue_request(r)
                c.thread_loop()
        finally:
            c.close()
            restore()
        res.append((len(net.conns[0].arrived), len(net.conns[0].out)))

    for ctx in explore(go, 0):
        pass
    return res[0]


def fragmentation(rec, shard):
    specs, bound, sequential = shard
    for spec in specs:
        def go(ctx):
            rec.case([spec, sequential, list(ctx.prefix)])
            run_one(rec, ctx, spec, (), sequential=sequential,
                    sink=(len(spec) == 1))
        for ctx in explore(go, bound):
            rec.transitions += len(ctx.choices)
            rec.traces += 1


def faults(rec, shard):
    specs, bound, step, sequential, timeout, second = shard
    for spec in specs:
        nin, nout = dry(spec, sequential)
        plans = []
        for kind in ('eof', 'reset') + (('silent', ) if timeout else ()):
            for where, n in (('in', nin), ('out', nout)):
                for i in range(0, n + 1, step):
                    plans.append((kind, where, i))
        rec.states += len(plans)
        pairs = [(p,) for p in plans]
        if second:
            few = plans[::second]
            pairs += [(p, q) for p in few for q in few]
            pairs += [('refuse',)] + [(p, 'refuse') for p in few]
        for p in pairs:
            def go(ctx):
                rec.case([spec, p, sequential, timeout, list(ctx.prefix)])
                run_one(rec, ctx, spec, p, timeout=timeout,
                        sequential=sequential)
            for ctx in explore(go, bound):
                rec.transitions += len(ctx.choices)
                rec.traces += 1


# -- redirection and authorisation

PLACES = ('h1:/a/x', 'h1:/a/b/y', 'h1:/b/z', 'h1:/pub', 'h2:/a/x',
          'h1:/r/local', 'h1:/r/away', 'h2:/r/back', 'h1:/r/rel',
          'h1:/a/away')
TARGETS = {'/r/local': 'http://h1.example/a/x',
           '/r/away': 'http://h2/a/x',
           '/a/away': 'http://h2/a/x',
           '/r/back': 'http://h1.example/b/z',
           '/r/rel': '../a/x?q=1'}
#: the second host may be another port of the first
SECOND = ('h2.example', 'h1.example:8080')


def target(path, second):
    return TARGETS[path].replace('//h2/', '//%s/' % second)


def host_of(address):
    return 'h2' if address[1] == 8080 else address[0].split('.')[0]


USERS = {'A': b'Basic dTpB', 'B': b'Basic dTpC', 'H2': b'Basic dTpIMg==',
         'bad': b'Basic dTpiYWQ='}


def realm_of(host, path):
    if host == 'h2':
        return 'H2' if path.startswith('/a') else None
    if path.startswith('/a/b'):
        return 'B'
    if path.startswith('/a'):
        return 'A'
    if path.startswith('/b'):
        return 'B'
    return None


class AuthServer(Server):
    STATUS = 301
    SECOND = SECOND[0]

    def answer(self, method, uri, headers, kind):
        host = host_of(self.conn.address)
        path = uri.decode().split('?')[0]
        b = b'<' + host.encode() + uri + b'>'
        realm = realm_of(host, path)
        given = headers.get(b'authorization', [None])[0]
        if realm is not None and given != USERS[realm]:
            head = (b'HTTP/1.1 401 Unauthorized\r\nWWW-Authenticate: '
                    b'Basic realm="%s"\r\n' % realm.encode())
            b = b'denied'
        elif path in TARGETS:
            head = b'HTTP/1.1 %i Moved\r\nLocation: %s\r\n' % (
                self.STATUS, target(path, self.SECOND).encode())
            b = b'moved'
        else:
            head = b'HTTP/1.1 200 OK\r\n'
        return (head + b'Content-Length: %i\r\n\r\n' % len(b) +
                (b'' if method == b'HEAD' else b)), False


def make_credentials(name, second=SECOND[0]):
    """NAME, NAME! (any realm) or bad-NAME"""
    c = auth.BasicCredentials()
    base = name.strip('!').split('-')[-1]
    user = 'bad' if name.startswith('bad-') else base
    c.set_basic_credentials(USERS[user].split()[1])
    c.protectionSpace = URI.from_octets(
        'http://%s/' % second if base == 'H2' else 'http://h1.example/'
    ).get_canonical_root()
    if not name.endswith('!'):
        c.realm = base
    return c


def authorisation(rec, shard):
    items, length = shard
    for creds, status, first, second in items:
        for rest in itertools.product(PLACES, repeat=length - 1):
            for method in ('GET', 'HEAD', 'POST'):
                if method == 'POST' and status != 302 or \
                        method == 'HEAD' and status != 303:
                    continue
                seq = (first,) + rest
                rec.case([creds, status, method, seq, second])
                auth_case(rec, creds, status, method, seq, second)


def auth_case(rec, creds, status, method, seq, second):
    info = (creds, status, method, seq, second)
    server = type('S', (AuthServer,), {'STATUS': status, 'SECOND': second})
    for ctx in explore(lambda ctx: auth_run(rec, ctx, server, info), 0):
        rec.transitions += len(ctx.choices)
        rec.traces += 1


def auth_run(rec, ctx, server, info):
    creds, status, method, seq, second = info
    names = {'h1': 'h1.example', 'h2': second}
    net, c, reqs = setup(ctx, (), ())
    net.server = lambda conn: server(conn, net.log)
    good = {}
    for n in creds:
        c.add_credentials(make_credentials(n, second))
        if not n.startswith('bad-'):
            good[n.strip('!')] = n
    wasted = False
    success = {}        # user -> list of (host, prefix)
    dead = set()
    try:
        for place in seq:
            host, path = place.split(':')
            del net.log[:]
            r = httpclient.ClientRequest(
                'http://%s%s' % (names[host], path), method=method)
            c.process_request(r)
            realm = realm_of(host, path)
            follow = path in TARGETS and not (status == 302 and
                                              method == 'POST')
            if realm is not None and (realm not in good or (
                    good[realm].endswith('!') and wasted and
                    r.status == 401)):
                follow = False
            if follow:
                t = URI.from_octets(target(path, second)).resolve(
                    URI.from_octets('http://%s%s' % (names[host], path)))
                host = host_of(t.get_addr())
                path = str(t.abs_path)
            realm = realm_of(host, path)
            if path in TARGETS and (realm is None or realm in good):
                want = status
            elif realm is None or realm in good:
                want = 200
            else:
                want = 401
            if want != 401 and r.status == 401 and \
                    good.get(realm, '').endswith('!') and wasted:
                # credentials for any realm are dropped once refused
                want = 401
            if realm == 'B' and 'A!' in creds:
                wasted = True
            if r.status != want:
                rec.fail('authorisation outcome', repr(
                    (info, place, r.status, want, str(r.error))))
            if want == 200 and method != 'HEAD' and r.res_body != \
                    b'<%s%s>' % (host.encode(), (path + (
                        '?q=1' if place.endswith('rel') else '')).encode()):
                rec.fail('body after redirection', repr((info, place,
                                                         r.res_body)))
            if method == 'POST' and len([
                    e for e in net.log if e[1] == b'POST']) > 2 + len(creds):
                rec.fail('too many attempts', repr((info, place)))
            if len(net.log) > 3 + len(creds):
                rec.fail('too many requests', repr((info, place,
                                                    len(net.log))))
            prev = None
            for n, m, uri, body, headers, t in net.log:
                h = host_of(net.conns[n].address)
                given = headers.get(b'authorization', [None])[0]
                if headers[b'host'] != [names[h].encode()]:
                    rec.fail('host header', repr((info, place)))
                rec.outcome((h, given, want))
                if given is None:
                    prev = (h, uri)
                    continue
                user = [k for k in USERS if USERS[k] == given][0]
                if user == 'bad':
                    ok = any(x.startswith('bad-') and
                             (x.startswith('bad-H2') == (h == 'h2'))
                             for x in creds)
                    if realm_of(h, uri.decode()) is not None:
                        if (h, realm_of(h, uri.decode())) in dead and \
                                len(creds) == 1:
                            rec.fail('refused credentials sent again',
                                     repr((info, place)))
                        dead.add((h, realm_of(h, uri.decode())))
                else:
                    ok = (user == 'H2') == (h == 'h2')
                if not ok:
                    rec.fail('credentials sent to the wrong host', repr(
                        (info, place, h, uri, given)))
                if prev != (h, uri):
                    # without a challenge: below a known good path
                    p = uri.decode().split('?')[0]
                    if not any(p.startswith(x) for x in
                               success.get((h, user), ())):
                        rec.fail('credentials sent unasked', repr(
                            (info, place, h, uri, given)))
                prev = (h, uri)
                p = uri.decode().split('?')[0]
                # anything but a 401 is a success
                rr = realm_of(h, p)
                if rr is None or USERS[rr] == given:
                    success.setdefault((h, user), []).append(
                        p[:p.rindex('/') + 1])
    except Hang as e:
        rec.fail('client does not finish', repr((info, str(e))))
    finally:
        c.close()
        restore()


def run(ck):
    one = [((m, k),) for m in METHODS for k in KINDS]
    two = [a + b for a in one for b in one]
    few = [((m, k),) for m in ('GET', 'PUT', 'POST', 'HEAD')
           for k in ('len', 'chunk', 'close', '404')]
    expect = [((m, 'len-' + k),) for m in ('PUTX', 'POSTX')
              for k in ('continue', 'none', 'early', 'fail')]
    b = 2 if ck.thorough else 1
    ck.part('one request', fragmentation,
            [(s, b + 1, False) for s in shards_of(one + expect, 16)],
            'one request, %i kinds, partial and blocked transfers up to %i'
            % (len(one + expect), b + 1))
    mixed = two + [a + c for a in few for c in expect] + \
        [c + a for a in few for c in expect]
    ck.part('pipelines', fragmentation,
            [(s, b, False) for s in shards_of(mixed, 64)],
            'pipelines of two requests, %i kinds' % len(mixed))
    ck.part('keep alive', fragmentation,
            [(s, b, True) for s in shards_of(two, 64)],
            'two requests one after the other')
    three = [a + m + c for a in few[::3] for m in few for c in few[::3]]
    ck.part('three', fragmentation,
            [(s, b, False) for s in shards_of(three, 64)],
            'pipelines of three requests, %i kinds' % len(three))
    ck.part('faults one', faults,
            [(s, b, 1, False, None, 20) for s in shards_of(
                one + expect, 64)],
            'one request, the server closes or resets at every byte of the '
            'first connection (and at every 20th of the second)')
    ck.part('faults two', faults,
            [(s, 0, 1, False, None, 0) for s in shards_of(
                [a + c for a in few + expect for c in few + expect], 64)],
            'two requests, the server closes or resets at every byte')
    ck.part('faults keep alive', faults,
            [(s, 0, 1, True, None, 0) for s in shards_of(
                [a + c for a in few for c in few], 64)],
            'two requests one after the other, the server closes or resets '
            'at every byte')
    ck.part('silence', faults,
            [(s, 0, 3, False, 30, 0) for s in shards_of(
                one + expect + [a + c for a in few[::2] for c in few[::2]],
                64)],
            'a server that stops answering at every third byte, with a '
            'timeout')
    names = ('A', 'A!', 'bad-A', 'B', 'H2', 'H2!', 'bad-A!', 'bad-H2!')
    one = [()] + [(a,) for a in names]
    pairs = [(a, b) for a in names for b in names if a != b]
    status = (301, 302, 303, 307) if ck.thorough else (302,)
    for what, sets, k in (('one', one, 3 + ck.thorough),
                          ('two', pairs, 2 + ck.thorough)):
        items = [(c, st, p, x) for c in sets for st in status
                 for p in PLACES for x in SECOND]
        ck.part('authorisation %s' % what, authorisation,
                [(s, k) for s in shards_of(items, 64)],
                'every sequence of %i requests over %i resources (two hosts,'
                ' nested realms, redirections) with %i sets of credentials'
                % (k, len(PLACES), len(sets)))
