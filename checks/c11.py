"""C11: HTTP message framing"""
import io
import itertools
import re
import zlib

from pyslet.http import grammar, messages, params

from mc.core import shards_of
from mc.explore import explore

LEVEL = 'model_checking'
RULE = ('every message of the stated grid, every way its body stream may '
        'deliver or block and its sink may accept or block (deviation bound), '
        'every fragmentation of what recv asks for, against an independent '
        'RFC 2616 section 4.4 parser; every string of the stated alphabets '
        'as a framing header; every operation sequence on WSGI input')

CRLF = b'\r\n'


class Source(io.RawIOBase):
    """A body stream, each read delivers 1..n bytes or blocks"""

    def __init__(self, ctx, data, seekable=True):
        self.ctx = ctx
        self.data = data
        self.p = 0
        self.nblock = 0
        self.canseek = seekable

    def readable(self):
        return True

    def tell(self):
        if not self.canseek:
            raise IOError("no tell")
        return self.p

    def seek(self, pos, whence=0):
        self.p = pos
        return pos

    def readinto(self, b):
        left = min(len(b), len(self.data) - self.p)
        opts = [left] if left <= 0 else list(range(left, 0, -1))
        if self.nblock < 3:
            opts.append(None)
        n = opts[self.ctx.choose(len(opts), tag='source')]
        if n is None:
            self.nblock += 1
            return None
        b[:n] = self.data[self.p:self.p + n]
        self.p += n
        return n


class Sink(io.RawIOBase):
    """A body sink, each write accepts 0..n bytes or blocks"""

    def __init__(self, ctx):
        self.ctx = ctx
        self.data = b''
        self.nblock = 0
        self.flushed = 0

    def writable(self):
        return True

    def tell(self):
        return len(self.data)

    def seek(self, pos, whence=0):
        return pos

    def truncate(self, n=None):
        self.data = self.data[:n]

    def write(self, b):
        b = bytes(b)
        opts = list(range(len(b), 0, -1))
        if self.nblock < 3:
            opts.append(None)
        n = opts[self.ctx.choose(len(opts), tag='sink')] if opts else 0
        if n is None:
            self.nblock += 1
            return None
        self.data += b[:n]
        return n

    def flush(self):
        if self.nblock < 3 and not self.closed and \
                self.ctx.choose(2, tag='flush'):
            self.nblock += 1
            raise BlockingIOError(11, 'Resource temporarily unavailable')
        self.flushed = len(self.data)


class FileLike(object):
    """A minimal file-like sink whose write returns nothing"""

    def __init__(self):
        self.data = b''

    def write(self, b):
        self.data += b

    def flush(self):
        pass

    def tell(self):
        return 0


# -- reference

def ref_parse(wire, head=False, req_method=None, eof=True):
    """Independent parser: (start, headers, body, framing, rest)"""
    top, rest = wire.split(b'\r\n\r\n', 1)
    lines = top.split(CRLF)
    headers = {}
    for h in lines[1:]:
        k, v = h.split(b':', 1)
        headers.setdefault(k.lower(), []).append(v.strip())
    is_resp = lines[0].startswith(b'HTTP/')
    status = int(lines[0].split()[1]) if is_resp else None
    if is_resp and (head or status // 100 == 1 or status in (204, 304)):
        return lines[0], headers, b'', 'none', rest
    te = b','.join(headers.get(b'transfer-encoding', [])).replace(b' ', b'')
    codings = [t for t in te.split(b',') if t and t != b'identity']
    if codings:
        if codings[-1] == b'chunked':
            body = b''
            while True:
                size, rest = rest.split(CRLF, 1)
                n = int(size.split(b';')[0], 16)
                if n == 0:
                    break
                body += rest[:n]
                assert len(rest) >= n + 2 and rest[n:n + 2] == CRLF
                rest = rest[n + 2:]
            while True:
                t, rest = rest.split(CRLF, 1)
                if not t:
                    break
            framing = 'chunked'
            codings = codings[:-1]
        else:
            assert is_resp
            body, rest, framing = rest, b'', 'close'
        for c in reversed(codings):
            assert c == b'gzip'
            d = zlib.decompressobj(31)
            body = d.decompress(body) + d.flush()
            assert d.eof
        return lines[0], headers, body, framing, rest
    if b'content-length' in headers:
        cl, = headers[b'content-length']
        n = int(cl)
        assert len(rest) >= n, "short body"
        return lines[0], headers, rest[:n], 'length', rest[n:]
    if is_resp:
        return lines[0], headers, rest, 'close', b''
    return lines[0], headers, b'', 'none', rest


# -- sending

def send_all(msg, protocol=None):
    if protocol is None:
        msg.start_sending()
    else:
        msg.start_sending(protocol)
    out = [msg.send_start(), msg.send_header()]
    n = 0
    while True:
        data = msg.send_body()
        n += 1
        if n > 200:
            raise RuntimeError("send_body does not end")
        if data is None:
            continue
        if not isinstance(data, bytes):
            raise RuntimeError("send_body returned %r" % (data,))
        if not data:
            break
        out.append(data)
    again = msg.send_body()
    if again != b'':
        raise RuntimeError("send_body after the end: %r" % (again,))
    return b''.join(out)


BODIES = (None, b'', b'a', b'\r\n', b'xyz')
TES = (None, 'chunked', 'gzip, chunked', 'gzip')


def messages_grid():
    """(kind, method/status, body, stream?, te, cl, version)"""
    grid = []
    for version in ('HTTP/1.1', 'HTTP/1.0'):
        for body in BODIES:
            for stream in ((False,) if body is None else (False, True)):
                for te in TES:
                    for cl in (False, True):
                        if cl and (te or not stream):
                            continue
                        for kind in ('GET', 'POST', 'PUT', 'HEAD', 'DELETE'):
                            if te == 'gzip':
                                continue    # not allowed in a request
                            if body is None and te:
                                continue
                            if kind in ('GET', 'HEAD', 'DELETE') and \
                                    body is not None:
                                continue
                            grid.append((kind, body, stream, te, cl, version))
                        for kind in (200, 404, 204, 304, 100, 'HEAD 200'):
                            if body and kind not in (200, 404):
                                continue
                            if body is not None and stream and \
                                    kind not in (200, 404):
                                continue
                            grid.append((kind, body, stream, te, cl, version))
    return grid


def build(ctx, spec):
    kind, body, stream, te, cl, version = spec
    eb = body
    if stream:
        eb = Source(ctx, body)
    v = params.HTTPVersion.from_str(version)
    if isinstance(kind, str) and not kind.startswith('HEAD '):
        m = messages.Request(entity_body=eb, protocol=v)
        m.set_method(kind)
        m.set_request_uri('/p?q')
        m.set_host('h')
        proto = v
    else:
        r = messages.Request(protocol=v)
        r.set_method('HEAD' if isinstance(kind, str) else 'GET')
        m = messages.Response(r, entity_body=eb, protocol=v)
        m.set_status(200 if isinstance(kind, str) else kind)
        proto = None
    m.set_header('X-First', 'one')
    m.set_header('x-first', 'two', append_mode=True)
    if te:
        m.set_transfer_encoding(te)
    if cl:
        m.set_content_length(len(body))
    return m, proto


def fresh(spec, sink):
    kind, body, stream, te, cl, version = spec
    if isinstance(kind, str) and not kind.startswith('HEAD '):
        return messages.Request(entity_body=sink)
    r = messages.Request(protocol=params.HTTPVersion.from_str(version))
    r.set_method('HEAD' if isinstance(kind, str) else 'GET')
    return messages.Response(r, entity_body=sink)


def feed(msg, wire, cut, eof=True):
    """Feeds wire to msg as recv_mode asks, returns what is left

    cut(n) chooses how many of the n available bytes to pass."""
    msg.start_receiving()
    n = 0
    while True:
        mode = msg.recv_mode()
        n += 1
        if n > 300:
            raise RuntimeError("receiving does not end")
        if mode is None:
            return wire
        elif mode == 0:
            msg.recv(None)
        elif mode == msg.RECV_LINE:
            i = wire.index(CRLF) + 2
            line, wire = wire[:i], wire[i:]
            msg.recv(line)
        elif mode == msg.RECV_HEADERS:
            if wire.startswith(CRLF):
                i = 2
            else:
                i = wire.index(b'\r\n\r\n') + 4
            lines = wire[:i].split(CRLF)[:-1]
            wire = wire[i:]
            msg.recv([l + CRLF for l in lines])
        elif mode == msg.RECV_ALL:
            k = cut(len(wire)) if wire else 0
            data, wire = wire[:k], wire[k:]
            msg.recv(data)
        else:
            if not wire:
                raise EOFError
            k = cut(min(mode, len(wire)))
            data, wire = wire[:k], wire[k:]
            msg.recv(data)


NEXT = b'NEXT MESSAGE'


def roundtrip(rec, shard):
    specs, bound, sinks = shard
    for spec in specs:
        kind, body, stream, te, cl, version = spec
        is_req = isinstance(kind, str) and not kind.startswith('HEAD ')
        want = body or b''
        wires = set()

        def sending(ctx):
            rec.case(['send', spec, list(ctx.prefix)])
            try:
                m, proto = build(ctx, spec)
                wire = send_all(m, proto)
                ctx.wire = wire
                # a second transmission, as after a lost connection
                ctx.again = send_all(m, proto)
            except RuntimeError as e:
                rec.fail('sending', repr((spec, ctx.choices, e)))
                ctx.wire = None
            except messages.HTTPException:
                # an HTTP/1.0 request of unknown length may be refused
                if not (is_req and stream and not cl and
                        version == 'HTTP/1.0'):
                    raise
                ctx.wire = None

        for ctx in explore(sending, bound):
            rec.transitions += len(ctx.choices)
            wire = ctx.wire
            if wire is None:
                continue
            for w in (wire, ctx.again):
                try:
                    start, headers, got, framing, rest = ref_parse(
                        w, head=isinstance(kind, str) and kind == 'HEAD 200')
                except Exception as e:
                    rec.fail('sent message not well formed',
                             repr((spec, w, repr(e))))
                    continue
                if got != want and not (not is_req and kind not in
                                        (200, 404)):
                    rec.fail('sent body', repr((spec, w, got)))
                if rest:
                    rec.fail('sent too much', repr((spec, w, rest)))
                if version == 'HTTP/1.0' and (
                        b'transfer-encoding' in headers):
                    rec.fail('transfer coding to HTTP/1.0', repr((spec, w)))
                if framing == 'close' and headers.get(b'connection') != [
                        b'close']:
                    rec.fail('connection left open', repr((spec, w)))
                if te and version == 'HTTP/1.1' and \
                        kind in (200, 404, 'POST', 'PUT') and \
                        body is not None:
                    if b', '.join(headers.get(b'transfer-encoding', [])
                                  ) != te.encode():
                        rec.fail('transfer coding', repr((spec, w)))
                if is_req and b'x-first' in headers and \
                        headers[b'x-first'] != [b'one', b'two']:
                    rec.fail('headers sent', repr((spec, w)))
                rec.outcome((framing, len(got)))
            wires.add(wire)
            wires.add(ctx.again)
        rec.states += len(wires)
        # receiving
        for wire in sorted(wires):
            try:
                start, headers, got, framing, rest = ref_parse(
                    wire, head=isinstance(kind, str) and kind == 'HEAD 200')
            except Exception:
                continue
            for sinkname in sinks:

                def receiving(ctx):
                    rec.case(['recv', spec, wire, sinkname,
                              list(ctx.prefix)])
                    if sinkname == 'bytes':
                        sink = None
                    elif sinkname == 'raw':
                        sink = Sink(ctx)
                    else:
                        sink = FileLike()
                    m = fresh(spec, sink)
                    tail = b'' if framing == 'close' else NEXT
                    try:
                        left = feed(m, wire + tail, lambda n: n - ctx.choose(
                            n, tag='cut'))
                    except RuntimeError as e:
                        rec.fail('receiving', repr((spec, wire, str(e),
                                                    ctx.choices)))
                        return
                    if sinkname == 'bytes':
                        data = m.entity_body.getvalue()
                    else:
                        data = sink.data
                    if data != got:
                        rec.fail('received body', repr(
                            (spec, wire, data, ctx.choices)))
                    if left != tail:
                        rec.fail('boundary of message', repr(
                            (spec, wire, left)))
                    if m.get_header('X-FIRST') != b'one, two' or \
                            m.get_header('x-First', True) != [b'one', b'two']:
                        rec.fail('received headers', repr(
                            (spec, wire, m.headers)))
                    if is_req:
                        ok = (m.method, m.request_uri) == (kind, '/p?q')
                    else:
                        ok = m.status == int(start.split()[1])
                    if not ok or str(m.protocol) != version:
                        rec.fail('start line', repr((spec, wire)))
                    if m.keep_alive != (version == 'HTTP/1.1' and
                                        framing != 'close'):
                        rec.fail('keep alive', repr((spec, wire,
                                                     m.keep_alive)))
                    # ready to be received again, e.g. after a retry
                    if sinkname != 'file':
                        feed(m, wire, lambda n: n)
                        data = (m.entity_body.getvalue()
                                if sinkname == 'bytes' else sink.data)
                        if data != got:
                            rec.fail('received again', repr(
                                (spec, wire, data)))

                for ctx in explore(receiving, bound):
                    rec.transitions += len(ctx.choices)
                    rec.traces += 1


def chunkings(rec, shard):
    """Every way to chunk a body, with extensions and trailers"""
    items, bound = shard
    for body, cuts, size_fmt, trailer, multi in items:
        parts = []
        p = 0
        for c in cuts:
            parts.append(body[p:p + c])
            p += c
        wire = b''.join(size_fmt[0] % len(x) + size_fmt[1] + CRLF + x + CRLF
                        for x in parts)
        wire += b'0' * multi + size_fmt[1] + CRLF + trailer + CRLF
        head = (b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n'
                b'Content-Length: 2\r\n\r\n')
        for sinkname in ('bytes', 'raw'):

            def receiving(ctx):
                rec.case([head + wire, sinkname, list(ctx.prefix)])
                r = messages.Request()
                r.set_method('GET')
                sink = Sink(ctx) if sinkname == 'raw' else None
                m = messages.Response(r, entity_body=sink)
                left = feed(m, head + wire + NEXT,
                            lambda n: n - ctx.choose(n, tag='cut'))
                data = sink.data if sink else m.entity_body.getvalue()
                if data != body or left != NEXT:
                    rec.fail('chunked body', repr((wire, data, left,
                                                   ctx.choices)))
                if trailer and m.get_header('X-Trailer') != b't':
                    rec.fail('trailer', repr((wire, m.headers)))
                rec.outcome(len(parts))

            for ctx in explore(receiving, bound):
                rec.transitions += len(ctx.choices)
        # the same through the WSGI reader, which reads as it likes
        def reading(ctx):
            rec.case(['wsgi', wire, list(ctx.prefix)])
            src = io.BufferedReader(Source(ctx, wire + NEXT))
            src = ShortReader(ctx, wire + NEXT)
            r = messages.ChunkedReader(src)
            data = b''
            while True:
                n = (1, 2, 100)[ctx.choose(3, tag='size')]
                d = r.read(n)
                if not d:
                    break
                data += d
            if data != body or r.read(5) != b'':
                rec.fail('chunked reader', repr((wire, data)))
            if src.read(100) != NEXT[:100]:
                rec.fail('chunked reader boundary', repr((wire, src.p)))

        for ctx in explore(reading, bound):
            rec.transitions += len(ctx.choices)


class ShortReader(object):
    """Blocking binary input in which read may return fewer bytes"""

    def __init__(self, ctx, data):
        self.ctx = ctx
        self.data = data
        self.p = 0

    def read(self, n=-1):
        left = len(self.data) - self.p
        if n is None or n < 0:
            n = left
        n = min(n, left)
        if n > 1 and self.ctx is not None and left > len(NEXT):
            n -= self.ctx.choose(min(n, 3), tag='short')
        d = self.data[self.p:self.p + n]
        self.p += n
        return d

    def readline(self, limit=-1):
        i = self.data.find(b'\n', self.p)
        i = len(self.data) if i < 0 else i + 1
        d = self.data[self.p:i]
        self.p = i
        return d


DIGITS = re.compile(rb'^[0-9]+$')
HEX = re.compile(rb'^[0-9A-Fa-f]+$')


def lengths(rec, shard):
    """Every string as the value of Content-Length or a chunk size"""
    for s in shard:
        b = s.encode('latin-1')
        for kind in ('request', 'response'):
            rec.case(['length', kind, s])
            head = (b'PUT / HTTP/1.1' if kind == 'request' else
                    b'HTTP/1.1 200 OK')
            wire = head + b'\r\nContent-Length: ' + b + b'\r\n\r\n'
            ok = DIGITS.match(b.strip(b' \t'))
            n = int(b) if ok else None
            m = new(kind)
            check_framing(rec, m, wire, b'x' * 300, n, ('length', kind, s))
            rec.case(['chunk', kind, s])
            wire = head + b'\r\nTransfer-Encoding: chunked\r\n\r\n' + b + CRLF
            v = b.strip(b' \t')
            n = int(v, 16) if HEX.match(v) else None
            m = new(kind)
            if n is not None and n <= 300:
                data = b'x' * n + (CRLF + b'0' + CRLF if n else b'') + CRLF
                check_framing(rec, m, wire + data, NEXT, (n, NEXT),
                              ('chunk', kind, s))
            elif n is None:
                check_framing(rec, m, wire, b'x' * 300, None,
                              ('chunk', kind, s))


def new(kind):
    r = messages.Request()
    if kind == 'request':
        return r
    r.set_method('GET')
    return messages.Response(r)


REFUSED = (messages.HTTPException, ValueError, NotImplementedError)


def check_framing(rec, m, wire, follow, want, what):
    try:
        left = feed(m, wire + follow, lambda n: n)
        got = m.entity_body.getvalue()
    except EOFError:
        got = 'more'
        left = None
    except REFUSED:
        got = left = None
    if isinstance(want, tuple):
        ok = got == b'x' * want[0] and left == want[1]
    elif want is None:
        ok = got is None
    elif want > len(follow):
        ok = got == 'more'
    else:
        ok = got == follow[:want] and left == follow[want:]
    rec.outcome('refused' if got is None else 'accepted')
    if not ok:
        rec.fail('framing %s' % what[0], repr((what, got, left)))


def codings(rec, shard):
    """Every list of up to three transfer codings"""
    names = ('chunked', 'Chunked', 'gzip', 'identity', 'x-none')
    for te in shard:
        for kind in ('request', 'response'):
            rec.case(['coding', kind, te])
            low = [t.lower() for t in te]
            core = [t for t in low if t != 'identity']
            body = b'hello'
            data = body
            if 'x-none' in low or 'chunked' in low[:-1]:
                want = 'refused'
            elif core and core[-1] != 'chunked' and kind == 'request':
                want = 'refused'
            else:
                want = body
                for t in core:
                    if t == 'gzip':
                        c = zlib.compressobj(6, zlib.DEFLATED, 31)
                        data = c.compress(data) + c.flush()
                    elif t == 'chunked':
                        data = b'%X\r\n%s\r\n0\r\n\r\n' % (len(data), data)
                if not core:
                    data = body if kind == 'response' else b''
                    want = data
            head = (b'PUT / HTTP/1.1' if kind == 'request' else
                    b'HTTP/1.1 200 OK')
            wire = (head + b'\r\nTransfer-Encoding: ' +
                    ', '.join(te).encode() + b'\r\n\r\n')
            close = kind == 'response' and (
                not core or core[-1] != 'chunked')
            m = new(kind)
            try:
                left = feed(m, wire + data + (b'' if close else NEXT),
                            lambda n: n)
                got = m.entity_body.getvalue()
                if left != (b'' if close else NEXT):
                    got = (got, left)
            except REFUSED as e:
                got = 'refused'
            except EOFError:
                got = 'more'
            if got != want:
                rec.fail('coding', repr((kind, te, got, want)))
            rec.outcome(str(got)[:7])


def truncations(rec, shard):
    """A message cut at any byte is never complete"""
    for wire, eof_ok in shard:
        for i in range(len(wire)):
            rec.case(['cut', wire, i])
            r = messages.Request()
            r.set_method('GET')
            m = messages.Response(r)
            try:
                feed(m, wire[:i], lambda n: n)
                done = True
            except (EOFError, ValueError):
                done = False
            except messages.HTTPException:
                done = False
            head = wire.index(b'\r\n\r\n') + 4
            if done and not (eof_ok and i >= head):
                rec.fail('truncated message complete', repr((wire, i)))
            rec.outcome(done)
        # the end of data is only the end of the message when nothing
        # else says where the message ends
        if not eof_ok:
            for i in range(wire.index(b'\r\n\r\n') + 4, len(wire)):
                rec.case(['eof', wire, i])
                m = messages.Response(r)
                try:
                    feed(m, wire[:i], lambda n: n)
                except EOFError:
                    try:
                        m.recv(b'')
                        if m.recv_mode() is None:
                            rec.fail('truncated by eof', repr((wire, i)))
                    except messages.HTTPException:
                        pass
                except (messages.HTTPException, ValueError):
                    pass


def truncated_reader(rec, shard):
    for wire in shard:
        for i in range(len(wire)):
            rec.case(['reader', wire, i])
            r = messages.ChunkedReader(io.BytesIO(wire[:i]))
            try:
                data = b''
                while True:
                    d = r.read(3)
                    if not d:
                        break
                    data += d
                # complete only if the last chunk has been seen
                if b'\r\n0' not in wire[:i]:
                    rec.fail('truncated input complete', repr((wire, i)))
            except (IOError, ValueError, messages.HTTPException):
                pass


# -- WSGI input

OPS = ([('read', n) for n in (-1, None, 0, 1, 2, 3)] +
       [('readline', n) for n in (-1, 2)] +
       [('readinto', n) for n in (0, 1, 3)] +
       [('seek', o, w) for o, w in ((0, 0), (2, 0), (5, 0), (9, 0), (-1, 0),
                                    (1, 1), (-1, 1), (0, 2), (-2, 2))] +
       [('tell',), ('iter',), ('readlines',), ('readall',)])


class Model(object):

    def __init__(self, data, limit, length):
        self.f = io.BytesIO(data)
        self.limit = limit
        self.length = length

    def op(self, op):
        f = self.f
        if op[0] == 'seek':
            if f.tell() > self.limit:
                return 'IOError'
            if op[2] == 2:
                if self.length is None:
                    return 'IOError'
                new = self.length + op[1]
            else:
                new = op[1] + (f.tell() if op[2] else 0)
            if new < 0:
                return 'IOError'
            return f.seek(new)
        return apply(f, op)


def apply(f, op):
    if op[0] == 'iter':
        return list(itertools.islice(f, 50))
    if op[0] == 'readinto':
        b = bytearray(op[1])
        n = f.readinto(b)
        return n, bytes(b[:n])
    if op[0] == 'readall':
        return f.read()
    return getattr(f, op[0])(*op[1:])


def wsgi_input(rec, shard):
    configs, depth = shard
    for content, how, seek_size, short, first in configs:
        if how == 'chunked':
            wire = b''.join(b'%x\r\n%s\r\n' % (len(x), x) for x in
                            (content[:2], content[2:]) if x) + \
                b'0\r\n\r\n'
            env = {'HTTP_TRANSFER_ENCODING': 'chunked'}
        elif how == 'length':
            wire = content + b'NEXT'
            env = {'CONTENT_LENGTH': str(len(content))}
        else:
            wire = content
            env = {}
        limit = min(seek_size, len(content))
        seen = {}

        def make():
            class Short(ShortReader):
                def read(self, n=-1):
                    if short and n and n > 1:
                        n = 1
                    return ShortReader.read(self, n)
            src = Short(None, wire)
            env['wsgi.input'] = src
            return messages.WSGIInputWrapper(env, seek_size), src

        for ops in itertools.product(OPS, repeat=depth):
            if ops[0] != first:
                continue
            rec.case([content, how, seek_size, short, ops])
            rec.traces += 1
            w, src = make()
            m = Model(content, limit, len(content) if how == 'length'
                      else None)
            for i, op in enumerate(ops):
                rec.transitions += 1
                want = m.op(op)
                try:
                    got = apply(w, op)
                except IOError:
                    got = 'IOError'
                if (short or how == 'chunked') and \
                        op[0] in ('read', 'readinto') and \
                        got != want and got != 'IOError':
                    # short reads are allowed, but not at the end
                    g = got if op[0] == 'read' else got[1]
                    x = want if op[0] == 'read' else want[1]
                    if g and x.startswith(g):
                        m.f.seek(len(g) - len(x), 1)
                        want = got
                if got != want:
                    rec.fail('wsgi input %s' % op[0], repr(
                        (content, how, seek_size, short, ops[:i + 1], got,
                         want)))
                    break
                if w.tell() != m.f.tell():
                    rec.fail('wsgi input position', repr(
                        (content, how, seek_size, ops[:i + 1], w.tell())))
                    break
                if w.seekable() != (m.f.tell() <= limit):
                    rec.fail('wsgi input seekable', repr(
                        (content, how, seek_size, ops[:i + 1])))
                    break
            if how == 'length' and src.p > len(content):
                rec.fail('read beyond the content length', repr(
                    (content, how, seek_size, ops, src.p)))
            seen[m.f.tell()] = 1
        rec.states += len(seen)
        rec.outcome(how)


def compositions(n):
    if n == 0:
        yield ()
        return
    for i in range(1, n + 1):
        for c in compositions(n - i):
            yield (i,) + c


def run(ck):
    bound = 4 if ck.thorough else 3
    grid = messages_grid()
    ck.part('round trip', roundtrip,
            [(s, bound, ('bytes', 'raw', 'file'))
             for s in shards_of(grid, 32)],
            '%i messages (requests and responses, every framing, both '
            'protocol versions) x body stream and sink deviations up to %i'
            % (len(grid), bound))
    items = []
    for n in range(0, 5 if ck.thorough else 4):
        for cuts in compositions(n):
            for fmt in ((b'%X', b''), (b'%x', b';a=b'), (b'00%x', b''),
                        (b'%x', b' ;a="1\\";2"')):
                for trailer in (b'', b'X-Trailer: t\r\n',
                                b'X-Trailer: t\r\nY: 1\r\nZ: 2\r\n'):
                    for multi in (1, 3):
                        items.append((b'\r\n0\r'[:n], cuts, fmt, trailer,
                                      multi))
    ck.part('chunkings', chunkings,
            [(s, bound) for s in shards_of(items, 32)],
            'every chunking of bodies up to %i bytes' % n)
    alpha = '019aF-+_ x,.;"'
    k = 3 if not ck.thorough else 4
    strings = [''.join(t) for i in range(0, k + 1)
               for t in itertools.product(alpha, repeat=i)]
    strings += ['\xb2', '1\xb2', '0x1', '1e1', '\xa01', '256', '0100']
    strings = [s for s in strings if ';' not in s and ',' not in s or
               len(s) <= 2]
    strings = [s for s in strings if ';' not in s]
    ck.part('lengths', lengths, shards_of(strings, 32),
            'every string over %r up to length %i as Content-Length and as '
            'chunk size' % (alpha, k))
    names = ('chunked', 'Chunked', 'gzip', 'identity', 'x-none')
    tes = [t for i in range(1, 4) for t in itertools.product(names, repeat=i)]
    ck.part('codings', codings, shards_of(tes, 8),
            'every list of up to three transfer codings')
    c = zlib.compressobj(6, zlib.DEFLATED, 31)
    gz = c.compress(b'hello') + c.flush()
    wires = [
        (b'HTTP/1.1 200 OK\r\nContent-Length: 5\r\n\r\nhello', False),
        (b'HTTP/1.1 200 OK\r\nTransfer-Encoding: chunked\r\n\r\n'
         b'3\r\nhel\r\n2;x=y\r\nlo\r\n0\r\nX-T: t\r\n\r\n', False),
        (b'HTTP/1.1 200 OK\r\nTransfer-Encoding: gzip, chunked\r\n\r\n'
         b'%x\r\n%s\r\n0\r\n\r\n' % (len(gz), gz), False),
        (b'HTTP/1.1 200 OK\r\nX-A: b\r\n\r\nhello', True)]
    ck.part('truncations', truncations, shards_of(wires, 4),
            'every prefix of four responses')
    ck.part('truncated input', truncated_reader,
            shards_of([b'5\r\nhello\r\n0\r\n\r\n',
                       b'3;a=b\r\nhel\r\n2\r\nlo\r\n0\r\nX: y\r\n\r\n'], 2),
            'every prefix of two chunked inputs')
    depth = 3
    configs = [(content, how, seek, short, op)
               for content in (b'', b'ab\ncd', b'abcdefg')
               for how in ('length', 'chunked', 'eof')
               for seek in (0, 1, 3, 50)
               for short in (False, True)
               for op in OPS]
    if ck.thorough:
        depth = 4
        configs = [c for c in configs if c[0] == b'ab\ncd']
    ck.part('wsgi input', wsgi_input,
            [(s, depth) for s in shards_of(configs, 64)],
            'every sequence of %i operations out of %i in %i configurations'
            % (depth, len(OPS), len(configs) // len(OPS)))
    ck.note('the body given for a 204, 304, 1xx or HEAD response is empty')
    ck.note('gzip content is not truncated inside complete chunked framing')
