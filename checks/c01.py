"""C01: pipes and buffered wrappers are exact byte FIFOs"""
import errno
import io
import itertools

from pyslet import streams
from mc import seqs
from mc.core import exc_name

LEVEL = 'model_checking'
RULE = ('every sequence of operations of the stated length over the stated '
        'alphabet on a real Pipe, each step compared with a bytes FIFO; '
        'every source chunking and every read/seek/peek sequence on a real '
        'BufferedStreamWrapper compared with slices of the data; '
        'each sequence is distinct')


class Mismatch(Exception):
    pass


class FakeEvent(object):
    def __init__(self):
        self.flag = False

    def set(self):
        self.flag = True

    def clear(self):
        self.flag = False

    def is_set(self):
        return self.flag
    isSet = is_set


class Model(object):

    def __init__(self, bmax, rblocking=False):
        self.max = bmax
        self.pending = b''
        self.eof = False
        self.closed = False
        self.n = 0
        self.rblocking = rblocking

    def fresh(self, pat):
        """pat: 'x' stands for a fresh letter"""
        out = bytearray()
        for c in pat:
            if c == 'x':
                out.append(97 + self.n % 26)
                self.n += 1
            else:
                out.append(ord(c))
        return bytes(out)


def call(f, *args):
    try:
        return ('ok', f(*args))
    except io.BlockingIOError as e:
        return ('blocking', e.errno)
    except (IOError, OSError) as e:
        return ('ioerror', e.errno)
    except Exception as e:
        return ('exc', exc_name(e))


EPIPE = ('ioerror', errno.EPIPE)


def step(p, m, op, flag):
    """Performs op on pipe p and model m, raises Mismatch"""
    name, arg = op
    if name == 'write':
        kind, pat = arg
        data = m.fresh(pat)
        src = data
        if kind == 'ba':
            src = bytearray(data)
        elif kind == 'mv':
            src = memoryview(data)
        got = call(p.write, src)
        if kind == 'ba':
            # the pipe must own a copy: scribble on the source
            for i in range(len(src)):
                src[i] = 0x21
        space = m.max - len(m.pending)
        if m.closed or m.eof:
            want = EPIPE
        elif space <= 0:
            want = ('ok', None)
        else:
            if kind == 'ba':
                data = data[:space]
            want = ('ok', len(data))
            m.pending += data
    elif name in ('read', 'readinto'):
        if name == 'read':
            got = call(p.read, arg)
            res = got[1]
        else:
            b = bytearray(b'!' * arg)
            got = call(p.readinto, b)
            if got[0] == 'ok' and got[1]:
                res = bytes(b[:got[1]])
                if bytes(b[got[1]:]) != b'!' * (arg - got[1]):
                    raise Mismatch("readinto wrote beyond count")
            elif got == ('ok', 0):
                res = b''
            else:
                res = got[1]
        if got[0] != 'ok':
            raise Mismatch("%s(%i) raised %r" % (name, arg, got))
        if m.pending:
            if not res or len(res) > arg or not isinstance(res, bytes):
                raise Mismatch("%s(%i) returned %r with %r pending" % (
                    name, arg, res, m.pending))
            if m.pending[:len(res)] != res:
                raise Mismatch("%s(%i) returned %r, pending %r" % (
                    name, arg, res, m.pending))
            m.pending = m.pending[len(res):]
            if not flag.flag:
                raise Mismatch("reader flag not set by %s" % name)
            return
        want = b'' if m.eof else None
        if res != want or (want is None) != (res is None):
            raise Mismatch("%s(%i) returned %r, expected %r" % (
                name, arg, res, want))
        return
    elif name == 'readmatch':
        got = call(p.readmatch, *((arg, ) if arg else ()))
        match = arg or b'\r\n'
        i = m.pending.find(match)
        if i >= 0:
            want = ('ok', m.pending[:i + len(match)])
            m.pending = m.pending[i + len(match):]
            if not flag.flag:
                raise Mismatch("reader flag not set by readmatch")
        elif m.eof:
            want = ('ok', b'')
        elif len(m.pending) >= m.max:
            want = ('ioerror', errno.ENOBUFS)
        else:
            want = ('ok', None)
    elif name == 'readall':
        if not m.eof:
            return
        mode = p.readblocking()
        got = call(p.read) if arg else call(p.readall)
        if p.readblocking() != mode:
            raise Mismatch("readall changed the blocking mode of the pipe")
        want = ('ok', m.pending)
        m.pending = b''
    elif name == 'readline':
        if b'\n' not in m.pending and not m.eof:
            return
        got = call(p.readline)
        i = m.pending.find(b'\n')
        i = len(m.pending) if i < 0 else i + 1
        if m.closed:
            return
        want = ('ok', m.pending[:i])
        m.pending = m.pending[i:]
    elif name == 'canwrite':
        got = call(p.canwrite)
        if m.closed or m.eof:
            want = EPIPE
        else:
            want = ('ok', max(0, m.max - len(m.pending)))
            if want[1] == 0 and flag.flag:
                raise Mismatch("reader flag not cleared by canwrite == 0")
    elif name == 'canread':
        got = call(p.canread)
        want = EPIPE if m.closed else ('ok', bool(m.pending or m.eof))
    elif name == 'eof':
        if m.closed:
            return
        got = call(p.write_eof)
        m.eof = True
        want = ('ok', None)
    elif name == 'close':
        got = call(p.close)
        m.eof = m.closed = True
        m.pending = b''
        want = ('ok', None)
        if not flag.flag:
            raise Mismatch("reader flag not set by close")
    elif name == 'flush':
        if m.closed:
            return
        got = call(p.flush)
        want = (('blocking', errno.EWOULDBLOCK) if m.pending
                else ('ok', None))
    else:
        raise RuntimeError(name)
    if got != want:
        raise Mismatch("%s%r returned %r, expected %r" % (
            name, op[1:], got, want))


def W(pat, kind='b'):
    return ('write', (kind, pat))


ALPHABETS = {
    'data': (4, 6, 7, [W('x'), W('xx'), W('xxxxx', 'ba'), ('read', 1),
                       ('read', 2), ('read', 9), ('readinto', 2),
                       ('canwrite', 0)]),
    'types': (3, 6, 7, [W('', 'b'), W('', 'ba'), W('xx', 'mv'),
                        W('xx', 'ba'), ('read', 1), ('read', 4),
                        ('eof', 0)]),
    'match': (5, 6, 7, [W('x\r'), W('\nx'), W('\r\n'), ('readmatch', None),
                        ('read', 1), ('read', 3), ('canwrite', 0),
                        ('eof', 0)]),
    'match2': (6, 6, 7, [W('xab'), W('ax'), W('b'), ('readmatch', b'ab'),
                         ('readmatch', b'b'), ('readinto', 1),
                         ('canread', 0)]),
    'life': (2, 6, 7, [W('x'), W('xx\n'), ('read', 1), ('canwrite', 0),
                       ('canread', 0), ('eof', 0), ('close', 0),
                       ('flush', 0)]),
    'line': (6, 6, 7, [W('x'), W('x\nx'), W('\n'), ('readline', 0),
                       ('read', 2), ('readall', 0), ('readall', 1),
                       ('eof', 0)]),
}


def run_pipe(rec, shard):
    name, depth, prefix = shard
    bmax, _, _, ops = ALPHABETS[name]
    states = set()
    for seq in seqs.sequences(len(ops), depth, prefix):
        case = [name] + [ops[i] for i in seq]
        rec.case(case)
        p = streams.Pipe(bmax, rblocking=False, wblocking=False)
        flag = FakeEvent()
        p.set_rflag(flag)
        m = Model(bmax)
        try:
            for i in seq:
                flag0 = flag.flag
                step(p, m, ops[i], flag)
                rec.transitions += 1
                if not m.closed:
                    if p.buffered() != len(m.pending):
                        raise Mismatch("buffered() is %r with %r pending" % (
                            p.buffered(), m.pending))
                    if p.empty() != (not m.pending):
                        raise Mismatch("empty() wrong with %r" % m.pending)
                    if not m.pending:
                        # a drained pipe accepts a full buffer again
                        if not m.eof and p.canwrite() != m.max:
                            raise Mismatch(
                                "canwrite() is %r on a drained pipe" %
                                p.canwrite())
                states.add((len(m.pending), m.eof, m.closed, flag0))
        except Mismatch as e:
            rec.fail('pipe:%s:%s' % (name, e), str(e))
        rec.outcome((len(m.pending), m.eof, m.closed))
        rec.traces += 1
    rec.states += len(states)


# -- BufferedStreamWrapper

class Src(object):
    """A source that returns the given chunks, None means blocked"""

    def __init__(self, chunks):
        self.chunks = list(chunks)

    def read(self, n=-1):
        if not self.chunks:
            return b''
        c = self.chunks[0]
        if c is None:
            del self.chunks[0]
            return None
        if n is None or n < 0:
            n = len(c)
        data, rest = c[:n], c[n:]
        if rest:
            self.chunks[0] = rest
        else:
            del self.chunks[0]
        return data


def compositions(n):
    if n == 0:
        yield ()
    for i in range(1, n + 1):
        for rest in compositions(n - i):
            yield (i, ) + rest


WOPS = [('read', 1), ('read', 3), ('readinto', 2), ('peek', 2),
        ('seek', (0, 0)), ('seek', (2, 0)), ('seek', (1, 1)),
        ('seek', (-1, 2)), ('tell', 0), ('readall', 0)]


def run_wrapper(rec, shard):
    length, buffsize, depth = shard
    data = bytes(bytearray(range(97, 97 + length)))
    states = set()
    for comp in compositions(length):
        for blocked in [None] + list(range(len(comp) + 1)):
            chunks = []
            pos = 0
            for k, c in enumerate(comp):
                if blocked == k:
                    chunks.append(None)
                chunks.append(data[pos:pos + c])
                pos += c
            if blocked == len(comp):
                chunks.append(None)
            # is the whole source buffered at construction?
            nblocked = (sum(comp[:blocked]) if blocked is not None
                        else None)
            full = length < buffsize and blocked is None
            for seq in itertools.product(range(len(WOPS)), repeat=depth):
                ops = [WOPS[i] for i in seq]
                rec.case([length, buffsize, comp, blocked, ops])
                try:
                    run_wrapper_case(data, buffsize, chunks, nblocked, full,
                                     ops, rec, states)
                except Mismatch as e:
                    rec.fail('wrapper:%s' % e, str(e))
                rec.traces += 1
    rec.states += len(states)


def run_wrapper_case(data, buffsize, chunks, nblocked, full, ops, rec,
                     states):
    w = streams.BufferedStreamWrapper(Src(chunks), buffsize)
    if w.seekable() != full:
        raise Mismatch("seekable() is %r, expected %r" % (
            w.seekable(), full))
    if w.length != (len(data) if full else None):
        raise Mismatch("length is %r for %i bytes" % (w.length, len(data)))
    pos = 0
    blocked_used = full or nblocked is None or nblocked < buffsize
    for name, arg in ops:
        rec.transitions += 1
        states.add((pos, full, len(data), buffsize))
        if name in ('read', 'readinto', 'readall'):
            if name == 'read':
                res = w.read(arg)
            elif name == 'readall':
                res = w.readall()
                if not blocked_used:
                    blocked_used = True
                    if res is not None and data[pos:pos + len(res)] != res:
                        raise Mismatch("readall: wrong data")
                    pos += len(res or b'')
                    continue
                if res != data[pos:]:
                    raise Mismatch("readall at %i returned %r" % (pos, res))
                pos = max(pos, len(data))
                continue
            else:
                b = bytearray(arg)
                n = w.readinto(b)
                res = None if n is None else bytes(b[:n])
            if res is None:
                if blocked_used:
                    raise Mismatch("read blocked on a ready source")
                blocked_used = True
                continue
            if pos < len(data):
                if not res or data[pos:pos + len(res)] != res or \
                        len(res) > arg:
                    raise Mismatch("%s(%i) at %i returned %r" % (
                        name, arg, pos, res))
                pos += len(res)
            elif res != b'':
                raise Mismatch("%s at EOF returned %r" % (name, res))
        elif name == 'peek':
            res = w.peek(arg)
            if data[pos:pos + len(res)] != res or len(res) > arg:
                raise Mismatch("peek at %i returned %r" % (pos, res))
            if full and res != data[pos:pos + arg]:
                raise Mismatch("peek at %i returned %r" % (pos, res))
        elif name == 'tell':
            got = call(w.tell)
            if full:
                if got != ('ok', pos):
                    raise Mismatch("tell at %i returned %r" % (pos, got))
            elif got[0] == 'ok':
                raise Mismatch("tell on a non-seekable stream")
        elif name == 'seek':
            off, whence = arg
            new = {0: off, 1: pos + off, 2: len(data) + off}[whence]
            if new < 0:
                continue
            got = call(w.seek, off, whence)
            if full:
                if got[0] != 'ok':
                    raise Mismatch("seek(%i,%i) gave %r" % (off, whence,
                                                           got))
                if got[1] != new:
                    raise Mismatch("seek(%i,%i) returned %r not %i" % (
                        off, whence, got[1], new))
                pos = new
            elif got[0] == 'ok':
                raise Mismatch("seek on a non-seekable stream")
    # the rest of the data is all there
    out = []
    for i in range(100):
        res = w.read(100)
        if res is None:
            if blocked_used:
                raise Mismatch("read blocked on a ready source")
            blocked_used = True
        elif not res:
            break
        else:
            out.append(res)
    if b''.join(out) != data[pos:]:
        raise Mismatch("remaining data is %r, expected %r" % (
            b''.join(out), data[pos:]))
    rec.outcome((full, pos))


def run(ck):
    ck.note('data values beyond letters, CR and LF do not influence the pipe')
    for name, (bmax, dq, dt, ops) in ALPHABETS.items():
        depth = dt if ck.thorough else dq
        ck.part('pipe-' + name, run_pipe,
                [(name, depth, pre) for pre in seqs.first_shards(ops, depth)],
                'all %i-operation sequences over %i operations, buffer size '
                '%i' % (depth, len(ops), bmax))
    depth = 4 if ck.thorough else 3
    ck.part('wrapper', run_wrapper,
            [(n, b, depth) for n in range(0, 5) for b in range(1, 6)],
            'sources of 0-4 bytes in every chunking, blocked at any point, '
            'buffer 1-5, all %i-operation sequences' % depth)
