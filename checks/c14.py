"""C14: the HTTP server"""
import itertools
import re
import select as real_select
import socketserver
import threading
import time
import types

from pyslet.http import params
from pyslet.http import server as httpserver

from mc import explore, sched
from mc.core import shards_of

LEVEL = 'model_checking'
RULE = ('every pipeline of the stated requests to the stated applications, '
        'every way the bytes may be split over reads and writes at one '
        'position, every position at which the client may hang up, and every '
        'schedule of the threads of the server up to the preemption bound')

FILES = ('pyslet/http/server.py', )
CRLF = b'\r\n'


class World(object):
    """The client end of one connection"""

    def __init__(self, segments, cuts=(), sendmax=None, hangup=None,
                 close=True):
        self.cond = threading.Condition()
        self.segments = list(segments)  # (gate, bytes)
        self.input = b''
        self.pos = 0
        self.cuts = cuts        # offsets no read goes beyond
        self.sendmax = sendmax
        self.hangup = hangup    # number of bytes of output we wait for
        self.out = b''
        self.close = close      # whether we close after the last segment
        self.shut = False
        self.gone = False
        self.release()

    def release(self):
        while self.segments:
            gate, data = self.segments[0]
            if gate is not None and self.out.count(gate[0]) < gate[1]:
                break
            self.input += data
            del self.segments[0]

    def readable(self):
        return self.pos < len(self.input) or self.shut or self.gone or (
            not self.segments and self.close)

    # -- the interface of the socket

    def setblocking(self, flag):
        pass

    def recv(self, n):
        with self.cond:
            if self.gone:
                raise OSError(104, 'reset')
            end = min(len(self.input), self.pos + n)
            for c in self.cuts:
                if self.pos < c < end:
                    end = c
            data = self.input[self.pos:end]
            self.pos = end
            if not data and not self.readable():
                raise BlockingIOError(11, 'again')
            return data

    def send(self, data):
        with self.cond:
            if self.gone or self.shut:
                raise BrokenPipeError(32, 'broken pipe')
            n = len(data)
            if self.sendmax and n > self.sendmax:
                n = self.sendmax
            self.out += bytes(data[:n])
            if self.hangup is not None and len(self.out) >= self.hangup:
                self.out = self.out[:self.hangup]
                self.gone = True
            self.release()
            self.cond.notify_all()
            return n

    def shutdown(self, how):
        with self.cond:
            self.shut = True
            self.cond.notify_all()

    def sendall(self, data):
        raise NotImplementedError


def do_select(r, w, x, timeout=None):
    if w:
        return [], list(w), []
    s, = r
    with s.cond:
        s.cond.wait_for(s.readable, timeout)
        if s.readable():
            return [s], [], []
        return [], [], []


SELECT = types.SimpleNamespace(select=do_select, error=real_select.error)


# -- applications

class Result(object):
    """An application result with a close method"""

    def __init__(self, log, items):
        self.log = log
        self.items = items

    def __iter__(self):
        return iter(self.items)

    def close(self):
        self.log.append('closed')


def application(log):
    def app(environ, start_response):
        path = environ['PATH_INFO']
        how = path.split('/')[1]
        src = environ['wsgi.input']
        if how == 'noread':
            data = b''
        elif how == 'part':
            data = src.read(2)
        else:
            data = src.read()
        body = b'%s %s?%s %s' % (
            environ['REQUEST_METHOD'].encode(), path.encode(),
            environ['QUERY_STRING'].encode(), data)
        log.append((environ['REQUEST_METHOD'], path))
        if how in ('slow', 'pause'):
            # within and beyond the time allowed
            time.sleep(30 if how == 'slow' else 5)
        if how == 'fail':
            raise ValueError('failed')
        headers = [('X-App', how)]
        if how in ('len', 'noread', 'part', 'short', 'long'):
            n = len(body) + {'short': 5, 'long': -3}.get(how, 0)
            headers.append(('Content-Length', str(n)))
        if how == 'close':
            headers.append(('Connection', 'close'))
        if how == '204':
            start_response('204 No Content', headers)
            return []
        if how == '404':
            start_response('404 Not Found', headers)
            return [body]
        write = start_response('200 OK', headers)
        if how == 'fail2':
            raise ValueError('failed')
        if how == 'none':
            return []
        if how == 'write':
            write(body[:3])
            return [body[3:]]
        if how in ('stall', 'rest'):
            def gen():
                yield body[:3]
                time.sleep(30 if how == 'stall' else 5)
                yield body[3:]
            return Result(log, gen())
        if how == 'fail3':
            def gen():
                yield body[:3]
                raise ValueError('failed')
            return Result(log, gen())
        if how == 'gen':
            def gen():
                yield body[:3]
                yield b''
                yield body[3:]
            return Result(log, gen())
        if how == 'obj':
            return Result(log, [body])
        return [body]
    return app


APPS = ('len', 'list', 'gen', 'write', 'none', 'noread', 'part', 'fail',
        'fail2', 'fail3', 'close', '204', '404', 'short', 'long', 'obj',
        'slow', 'pause', 'stall', 'rest')


def request(i, kind, how):
    """(segments, model) of a request

    model is (method, uri, body, version, keep alive, 100 allowed)"""
    uri = b'/%s/%i?q' % (how.encode(), i)
    m = (b'GET', uri, b'', 1, True)
    if kind == 'get':
        return [(None, b'GET %s HTTP/1.1\r\nHost: h\r\n\r\n' % uri)], m
    if kind == 'head':
        return ([(None, b'HEAD %s HTTP/1.1\r\nHost: h\r\n\r\n' % uri)],
                (b'HEAD',) + m[1:])
    if kind == 'get10':
        return ([(None, b'GET %s HTTP/1.0\r\n\r\n' % uri)],
                m[:3] + (0, False))
    if kind == 'getclose':
        return ([(None, b'GET %s HTTP/1.1\r\nHost: h\r\nConnection: close'
                  b'\r\n\r\n' % uri)], m[:4] + (False,))
    if kind == 'abs':
        return ([(None, b'GET http://h%s HTTP/1.1\r\nHost: x\r\n\r\n' % uri)],
                m)
    body = b'data%i' % i
    m = (b'POST', uri, body, 1, True)
    head = b'POST %s HTTP/1.1\r\nHost: h\r\n' % uri
    if kind == 'post':
        return [(None, head + b'Content-Length: 5\r\n\r\n' + body)], m
    chunked = (head + b'Transfer-Encoding: chunked\r\n',
               b'2\r\nda\r\n3;x=y\r\nta%i\r\n0\r\nT: t\r\n\r\n' % i)
    if kind == 'chunk':
        return [(None, chunked[0] + CRLF + chunked[1])], m
    if kind == 'expect':
        return ([(None, head + b'Expect: 100-continue\r\nContent-Length: 5'
                  b'\r\n\r\n'), 'continue', body], m)
    if kind == 'impatient':
        # does not wait for the 100 response
        return ([(None, head + b'Expect: 100-continue\r\nContent-Length: 5'
                  b'\r\n\r\n' + body)], m)
    bad = {'badline': b'GET /x\r\nHost: h\r\n\r\n',
           'badlen': b'POST /len/0 HTTP/1.1\r\nHost: h\r\n'
           b'Content-Length: 1x\r\n\r\n',
           'badchunk': b'POST /len/0 HTTP/1.1\r\nHost: h\r\n'
           b'Transfer-Encoding: chunked\r\n\r\nxyz\r\n\r\n',
           'badhost': b'GET /len/0 HTTP/1.1\r\nHost: other\r\n\r\n',
           'badte': b'POST /len/0 HTTP/1.1\r\nHost: h\r\n'
           b'Transfer-Encoding: gzip\r\n\r\n',
           'badcoding': b'POST /len/0 HTTP/1.1\r\nHost: h\r\n'
           b'Transfer-Encoding: x-none, chunked\r\n\r\n0\r\n\r\n'}
    return [(None, bad[kind])], kind


GOOD = ('get', 'head', 'get10', 'getclose', 'abs', 'post', 'chunk', 'expect',
        'impatient')
BAD = ('badline', 'badlen', 'badchunk', 'badhost', 'badte', 'badcoding')


def expected(kind, how, model):
    """What the response must look like

    (status, body, close, complete)"""
    if isinstance(model, str):
        if model == 'badhost':
            return 400, None, None, True
        return (400, 501) if model == 'badcoding' else 400, None, True, True
    method, uri, data, minor, keep = model
    path, q = uri.split(b'?')
    given = {'noread': b'', 'part': data[:2]}.get(how, data)
    body = b'%s %s?%s %s' % (method, path, q, given)
    status = 200
    complete = True
    close = not keep
    if how in ('fail', 'fail2'):
        return 500, None, None, True
    if how == 'slow':
        return 500, None, True, True
    if how in ('fail3', 'stall'):
        body = body[:3]
        complete = None
        close = True
    if how == 'short':
        complete = None
        close = True
        status = (200, 500)
    if how == 'long':
        body = body[:-3]
        close = None
        status = (200, 500)
    if how == 'close':
        close = True
    if how == 'none':
        body = b''
    if how == '204':
        status, body = 204, b''
    if how == '404':
        status = 404
    if method == b'HEAD':
        body = b''
        if complete is None:
            complete, close = True, None
            status = (200, 500)
    if kind in ("expect", "impatient") and how == "404":
        close = None
    if minor == 0 and how in ('gen', 'write', 'fail3', 'obj', 'stall', 'rest'):
        close = True
    return status, body, close, complete


def parse_response(data, method):
    """(status, headers, body, used, framing) or None if incomplete"""
    i = data.find(b'\r\n\r\n')
    if i < 0:
        return None
    lines = data[:i].split(CRLF)
    m = re.match(rb'^HTTP/1\.([01]) ([1-5][0-9][0-9]) [^\r\n]*$', lines[0])
    if not m:
        raise ValueError("bad status line %r" % lines[0])
    status = int(m.group(2))
    headers = {}
    for l in lines[1:]:
        k, v = l.split(b': ', 1)
        headers.setdefault(k.lower(), []).append(v)
    headers[b'minor'] = int(m.group(1))
    i += 4
    if method == b'HEAD' or status // 100 == 1 or status in (204, 304):
        return status, headers, b'', i, 'none'
    if b'transfer-encoding' in headers:
        if b'content-length' in headers:
            raise ValueError('both framings')
        body = b''
        while True:
            j = data.find(CRLF, i)
            if j < 0:
                return None
            n = int(data[i:j], 16)
            if len(data) < j + n + 4:
                return None
            body += data[j + 2:j + 2 + n]
            if data[j + 2 + n:j + n + 4] != CRLF:
                raise ValueError('bad chunk')
            i = j + n + 4
            if n == 0:
                return status, headers, body, i, 'chunked'
    if b'content-length' in headers:
        cl, = headers[b'content-length']
        n = int(cl)
        if len(data) < i + n:
            return None
        return status, headers, data[i:i + n], i + n, 'length'
    return status, headers, data[i:], len(data), 'close'


def judge(out, models, log, truncated=False):
    """Checks all the output of a connection, returns a problem or None

    truncated: the client hung up, the output may stop anywhere"""
    n = 0
    for kind, how, model in models:
        method = model[0] if isinstance(model, tuple) else b'GET'
        status, body, close, complete = expected(kind, how, model)
        while True:
            try:
                r = parse_response(out, method)
            except ValueError as e:
                return 'malformed response: %s %r' % (e, out)
            if r is None:
                if truncated:
                    return
                if complete is None:
                    return      # as it should be, cut short
                return 'response %i missing or cut short: %r' % (n, out)
            if r[0] == 100:
                if kind not in ('expect', 'impatient'):
                    return '100 response not asked for'
                out = out[r[3]:]
                continue
            break
        ok = status if isinstance(status, tuple) else (status,)
        if r[0] not in ok:
            return 'request %i: status %i, expected %r' % (n, r[0], status)
        if truncated and r[4] == 'close':
            return
        if r[0] == 500:
            body = None
            complete = True
            how = 'fail'
        if body is not None and r[2] != body:
            if not (complete is None and r[4] == 'close' and
                    body.startswith(r[2])):
                return 'request %i: body %r, expected %r' % (n, r[2], body)
        if complete is None and r[4] != 'close':
            return 'request %i: failed but looks complete: %r' % (n, out)
        conn = b','.join(r[1].get(b'connection', [])).lower()
        minor = model[3] if isinstance(model, tuple) else 1
        if r[1].get(b'transfer-encoding') and minor == 0:
            return 'transfer coding to an HTTP/1.0 client'
        keep = not isinstance(model, tuple) or model[4]
        closing = b'close' in conn or not keep
        if r[4] == 'close' and not closing:
            return 'request %i: unbounded response but no close' % n
        if close and not closing:
            return 'request %i: connection is not to be closed' % n
        if close is False and closing:
            return 'request %i: connection is to be closed' % n
        if isinstance(model, tuple) and how not in (
                'fail', 'fail2', 'slow') and \
                r[1].get(b'x-app') != [how.encode()]:
            return 'request %i: headers %r' % (n, r[1])
        out = out[r[3]:]
        n += 1
        if closing:
            break
    if out:
        return 'unexpected output: %r' % out


def execute(ctx, specs, cuts=(), sendmax=None, hangup=None, close=True,
            lines=False, stop=None, limit=None, early=False):
    """One connection: (problem, output)"""
    segments = []
    models = []
    conts = 0
    for i, (kind, how) in enumerate(specs):
        segs, model = request(i, kind, how)
        if len(segs) == 3:
            # released by the response, be it final or not
            segments += [segs[0], ((b'HTTP/1.1 100 Continue', conts + 1),
                                   segs[2])]
            conts += 1
        else:
            segments += segs
        if kind == 'impatient':
            conts += 0
        models.append((kind, how, model))
    if stop is not None:
        # the client hangs up in the middle of its request
        data = b''.join(s[1] for s in segments)
        segments = [(None, data[:stop])]
    s = sched.Scheduler(ctx, FILES if lines else (), max_points=40000,
                        early_timeouts=early)
    log = []
    saved = httpserver.select
    init = socketserver.TCPServer.__init__
    res = None
    w = None
    with s.patch():
        httpserver.select = SELECT
        qt = httpserver.queue.time
        httpserver.queue.time = lambda: s.now
        socketserver.TCPServer.__init__ = \
            lambda self, address, handler: None
        try:
            srv = httpserver.Server(80, app=application(log),
                                    authorities=['h'])
            socketserver.TCPServer.__init__ = init
            if limit is not None:
                srv.con_max = limit
            w = World(segments, cuts, sendmax, hangup, close)

            def serve():
                httpserver.Connection(w, ('10.0.0.1', 1234), srv)
            s.spawn(serve, 'serve')
            try:
                s.run()
            except sched.Deadlock as e:
                res = 'deadlock: %s' % e
            except sched.Horizon as e:
                res = 'livelock: %s' % e
            for t in s.threads:
                if t.error and res is None:
                    res = '%s raised %r' % (t.name, t.error)
            if res is None and srv.connections:
                res = 'connection still counted'
        finally:
            socketserver.TCPServer.__init__ = init
            httpserver.select = saved
            httpserver.queue.time = qt
    if res is None and s.now > 1000000.0 + 60:
        res = 'took %f seconds' % (s.now - 1000000.0)
    if res is None:
        res = judge_case(w, models, log, hangup, stop, segments)
    return res, w.out if w else b'', log, s.npoints


def judge_case(w, models, log, hangup, stop, segments):
    if stop is not None:
        # the last request may not have been received
        for n in range(len(models), -1, -1):
            pass
        return judge_stopped(w, models, log, segments)
    res = judge(w.out, models, log, hangup is not None)
    if res is None:
        gens = [m for m in log if isinstance(m, tuple) and
                m[1].split('/')[1] in (
                    'gen', 'fail3', 'obj', 'stall', 'rest')]
        if log.count('closed') != len(gens):
            return 'application results closed %i times, not %i' % (
                log.count('closed'), len(gens))
    return res


def judge_stopped(w, models, log, segments):
    """Requests received in full get a response, an incomplete one
    either none, an error or the answer of an application that does not
    care for the rest of it"""
    data = segments[0][1]
    out = w.out
    for kind, how, model in models:
        segs = [s for s in request(0, kind, how)[0] if s != 'continue']
        whole = b''.join(s[1] if isinstance(s, tuple) else s for s in segs)
        if len(data) >= len(whole):
            data = data[len(whole):]
            r = parse_response(out, model[0])
            status, body, close, complete = expected(kind, how, model)
            if r is None:
                if complete is None:
                    return
                return 'complete request not answered: %r' % out
            while r and r[0] == 100:
                out = out[r[3]:]
                r = parse_response(out, model[0])
            if r is None and complete is None:
                return
            if r is None or r[0] not in (
                    status if isinstance(status, tuple) else (status, )):
                return 'complete request: %r' % (r,)
            out = out[r[3]:]
            if r[1].get(b'connection') == [b'close'] or model[3] == 0:
                return 'unexpected output' if out else None
            continue
        # cut short
        i = data.find(b'\r\n\r\n')
        r = parse_response(out, model[0]) if out else None
        if r is not None and r[0] == 100:
            out = out[r[3]:]
            r = parse_response(out, model[0]) if out else None
        if i < 0:
            if any(isinstance(e, tuple) and e[1].endswith(
                    '/%i' % models.index((kind, how, model))) for e in log):
                return 'incomplete request processed'
        if r is not None and r[0] < 400 and how not in (
                'noread', 'part') and model[0] == b'POST' and \
                len(model[2]) and model[2] in r[2]:
            return 'incomplete request answered: %r' % (r,)
        return


def run_case(rec, ctx, specs, **kw):
    rec.case([specs, kw, list(ctx.prefix)])
    res, out, log, n = execute(ctx, specs, **kw)
    rec.transitions += n
    rec.traces += 1
    rec.outcome(out[:20])
    if res:
        rec.fail(res.split(':')[0], repr((specs, kw, res, out)))
    return out


def whole(rec, shard):
    """Default schedule: splits of input and output"""
    for specs, mode in shard:
        ctx = explore.Ctx([], [])
        if mode == 'plain':
            run_case(rec, ctx, specs)
            run_case(rec, explore.Ctx([], []), specs, close=False)
            run_case(rec, explore.Ctx([], []), specs, sendmax=1)
        elif mode == 'cuts':
            n = sum(len(s[1]) if isinstance(s, tuple) else len(s)
                    for i, (k, h) in enumerate(specs)
                    for s in request(i, k, h)[0] if s != 'continue')
            for i in range(1, n):
                run_case(rec, explore.Ctx([], []), specs, cuts=(i,))
            run_case(rec, explore.Ctx([], []), specs, cuts=tuple(range(n)))
            for i in range(0, n):
                run_case(rec, explore.Ctx([], []), specs, stop=i)
            rec.states += n
        elif mode == 'hangup':
            out = run_case(rec, ctx, specs)
            for i in range(len(out)):
                run_case(rec, explore.Ctx([], []), specs, hangup=i)
                rec.states += 1


def schedules(rec, shard):
    specs, kw, bound, lines, part = shard
    got = {}

    def run1(ctx):
        got['r'] = execute(ctx, specs, lines=lines, **kw)
    for ctx in explore.explore(run1, bound=bound, shard=part):
        res, out, log, n = got['r']
        rec.case([specs, kw, 'lines' if lines else 'sync', ctx.choices])
        rec.transitions += n
        rec.traces += 1
        rec.states += 1
        rec.outcome(out[:20])
        if res:
            rec.fail(res.split(':')[0], repr((specs, kw, res, out, log)))
            break


def run(ck):
    good = [(k, h) for k in GOOD for h in APPS]
    bad = [(k, 'len') for k in BAD]
    one = [(x,) for x in good + bad]
    two = [(a, b) for a in good for b in good + bad]
    ck.part('single', whole, shards_of([(s, 'plain') for s in one], 16),
            'one request, %i kinds' % len(one))
    if not ck.thorough:
        few = [x for x in good if x[0] in (
            'get', 'post', 'expect', 'head', 'impatient')]
        two = [(a, b) for a in good for b in few + bad]
    ck.part('pipelines', whole, shards_of([(s, 'plain') for s in two], 64),
            'two requests in one go, %i kinds' % len(two))
    some = [x for x in good if x[1] in ('len', 'gen', 'noread', 'fail3')]
    cuts = [(s, 'cuts') for s in one] + [
        ((a, b), 'cuts') for a in some[::2] for b in (('get', 'len'),
                                                      ('post', 'gen'))]
    ck.part('splits', whole, shards_of(cuts, 64),
            'input split, or cut short, at every byte: %i pipelines'
            % len(cuts))
    hang = [(s, 'hangup') for s in one] + [
        ((a, b), 'hangup') for a in some[::2] for b in (('get', 'len'),)]
    ck.part('hang up', whole, shards_of(hang, 64),
            'the client hangs up at every byte of the output')
    hows = ('len', 'gen', 'noread', 'fail', 'fail3', 'write')
    single = [((k, h),) for k in ('get', 'post', 'expect', 'head')
              for h in hows if k not in ('head', 'expect') or h != 'write']
    pairs = [(('get', a), ('get', h)) for a in ('len', 'gen', 'fail')
             for h in ('gen', 'none')]
    pairs += [(('post', 'noread'), ('expect', 'len')),
              (('expect', '404'), ('get', 'len')),
              (('badhost', 'len'), ('get', 'len')),
              (('get', 'len'), ('badlen', 'len')),
              (('chunk', 'close'), ('get', 'len'))]
    if not ck.thorough:
        single = [x for x in single if x[0][0] != 'head' or x[0][1] == 'gen']
        pairs = [(('get', 'gen'), ('get', 'none')),
                 (('expect', '404'), ('get', 'len'))]
    single += [(('get', 'slow'),), (('post', 'stall'),)]
    n = 16
    b = 2 if ck.thorough else 1
    ck.part('schedules', schedules,
            [(s, {}, b if len(s) == 1 else 1, False, (i, n))
             for s in single + pairs for i in range(n)],
            '%i requests with preemption bound %i and %i pipelines with '
            'bound 1, at synchronisation points' % (
                len(single), b, len(pairs)))
    some = [(('post', 'len'),), (('expect', 'fail3'),)]
    if ck.thorough:
        some = single
    ck.part('lines', schedules,
            [(s, {}, 1, True, (i, n)) for s in some for i in range(n)],
            '%i requests, preemption bound 1 at every line of the server'
            % len(some))
    ck.note('the text of error responses is not checked')
