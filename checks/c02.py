"""C02: a pipe shared by a writer and a reader thread, all interleavings"""
import errno
import threading

from pyslet import streams
from mc import explore, sched

LEVEL = 'model_checking'
RULE = ('every schedule of the scenario with at most the stated number of '
        'preemptions, on the real Pipe with the threading primitives and '
        'clock under control; an execution is non-trivial when the schedule '
        'has at least one choice; schedules are distinct by construction')

FILES = ('pyslet/streams.py', )


def w_blocking(p, chunks):
    for c in chunks:
        while c:
            n = p.write(c)
            c = c[n:]
    p.write_eof()


def r_until_eof(p, n):
    out = []
    while True:
        d = p.read(n)
        if not d:
            return b''.join(out)
        out.append(d)


def s_stream(kind):
    """blocking writer, reader of various kinds"""
    def make(s):
        p = streams.Pipe(2)
        s.pipe = p
        if kind == 'ba':
            chunks = [bytearray(b'abc'), bytearray(b'de')]
        else:
            chunks = [b'ab', b'c', b'de']
        s.spawn(lambda: w_blocking(p, chunks), 'writer')
        if kind == 'readall':
            s.spawn(p.readall, 'reader')
        elif kind == 'readinto':
            def reader():
                out = b''
                while True:
                    b = bytearray(2)
                    n = p.readinto(b)
                    if not n:
                        return out
                    out += bytes(b[:n])
            s.spawn(reader, 'reader')
        else:
            s.spawn(lambda: r_until_eof(p, 1 if kind == 'r1' else 3),
                    'reader')

    def check(s):
        w, r = s.threads
        if w.error or r.error:
            return 'raised %r %r' % (w.error, r.error)
        if r.result != b'abcde':
            return 'received %r' % r.result
        if s.pipe.buffered() or not s.pipe.empty():
            return 'not drained'
    return make, check


def s_flag():
    """non-blocking writer waiting on the reader flag"""
    def make(s):
        p = streams.Pipe(2, wblocking=False)
        flag = threading.Event()
        p.set_rflag(flag)
        s.pipe = p

        def writer():
            data = [b'ab', b'cd', b'e']
            while data:
                if p.canwrite():
                    n = p.write(data[0])
                    if n is None:
                        return 'write refused after canwrite'
                    if n != len(data[0]):
                        return 'bytes not accepted whole'
                    del data[0]
                else:
                    flag.wait()
            p.write_eof()
        s.spawn(writer, 'writer')
        s.spawn(lambda: r_until_eof(p, 1), 'reader')

    def check(s):
        w, r = s.threads
        if w.error or r.error or w.result:
            return 'writer %r %r, reader %r' % (w.result, w.error, r.error)
        if r.result != b'abcde':
            return 'received %r' % r.result
    return make, check


def s_match():
    """reader parses lines, writer splits CRLF over writes"""
    def make(s):
        p = streams.Pipe(8)
        s.pipe = p
        s.spawn(lambda: w_blocking(p, [b'a\r', b'\nb', b'c\r\n', b'xy']),
                'writer')

        def reader():
            out = [p.readmatch(), p.readmatch()]
            out.append(r_until_eof(p, 4))
            return out
        s.spawn(reader, 'reader')

    def check(s):
        w, r = s.threads
        if w.error or r.error:
            return 'raised %r %r' % (w.error, r.error)
        if r.result != [b'a\r\n', b'bc\r\n', b'xy']:
            return 'received %r' % r.result
    return make, check


def s_matchflag():
    """a non-blocking writer woken by a reader waiting in readmatch"""
    def make(s):
        p = streams.Pipe(4)
        flag = threading.Event()
        p.set_rflag(flag)

        def writer():
            flag.wait()
            p.write(b'a\r\nb')
            p.flush_wait()
            p.write_eof()
        s.spawn(writer, 'writer')

        def reader():
            return [p.readmatch(), p.read(10), p.read(10)]
        s.spawn(reader, 'reader')

    def check(s):
        w, r = s.threads
        if w.error or r.error:
            return 'raised %r %r' % (w.error, r.error)
        if r.result != [b'a\r\n', b'b', b'']:
            return 'received %r' % r.result
    return make, check


def s_close(how):
    """the reader closes the pipe while the writer may be waiting"""
    def make(s):
        p = streams.Pipe(2)
        flag = threading.Event()
        p.set_rflag(flag)

        def writer():
            try:
                if how == 'flush':
                    p.write(b'ab')
                    p.flush()
                    return 'flushed'
                elif how == 'flush_wait':
                    p.write(b'ab')
                    p.flush_wait()
                    return 'flushed'
                elif how == 'write_wait':
                    p.write(b'ab')
                    p.write_wait()
                    p.write(b'c')
                    return 'written'
                elif how == 'flag':
                    p.write(b'ab')
                    while not p.canwrite():
                        flag.wait()
                    p.write(b'c')
                    return 'written'
                else:
                    p.write(b'ab')
                    p.write(b'cd')
                    return 'written'
            except IOError as e:
                return e.errno
        s.spawn(writer, 'writer')

        def reader():
            try:
                x = p.read(1)
                return x
            finally:
                p.close()
        s.spawn(reader, 'reader')

    def check(s):
        w, r = s.threads
        if w.error or r.error:
            return 'raised %r %r' % (w.error, r.error)
        if r.result != b'a':
            return 'reader got %r' % r.result
        if how in ('flush', 'flush_wait'):
            if w.result not in ('flushed', errno.EPIPE):
                return 'writer got %r' % (w.result, )
        elif w.result not in ('written', errno.EPIPE):
            return 'writer got %r' % (w.result, )
    return make, check


def s_flush():
    """flush returns only when everything written was read"""
    def make(s):
        p = streams.Pipe(4)
        s.seen = []

        def writer():
            p.write(b'ab')
            p.write(b'c')
            p.flush()
            a = len(b''.join(s.seen)) + s.inflight[0]
            p.write(b'de')
            p.flush_wait()
            b = len(b''.join(s.seen)) + s.inflight[0]
            p.write_eof()
            return a, b

        s.inflight = [0]

        def reader():
            while True:
                # counts data handed over but not recorded yet
                s.inflight[0] = 2
                d = p.read(2)
                s.seen.append(d)
                s.inflight[0] = 0
                if not d:
                    return b''.join(s.seen)
        s.spawn(writer, 'writer')
        s.spawn(reader, 'reader')

    def check(s):
        w, r = s.threads
        if w.error or r.error:
            return 'raised %r %r' % (w.error, r.error)
        if r.result != b'abcde':
            return 'received %r' % r.result
        if w.result[0] < 3 or w.result[1] < 5:
            return 'flush returned early: %r' % (w.result, )
    return make, check


def s_timeout(how):
    """timeouts happen, never early, and never when there is progress"""
    def make(s):
        p = streams.Pipe(2, timeout=5.0)
        s.t0 = s.now

        def main():
            try:
                if how == 'read':
                    p.read(1)
                elif how == 'readmatch':
                    p.write(b'a')
                    p.readmatch()
                elif how == 'write':
                    p.write(b'ab')
                    p.write(b'c')
                elif how == 'flush':
                    p.write(b'ab')
                    p.flush()
                elif how == 'read_wait':
                    p.read_wait(3.0)
                elif how == 'write_wait':
                    p.write(b'ab')
                    p.write_wait(3.0)
                elif how == 'flush_wait':
                    p.write(b'ab')
                    p.flush_wait(3.0)
                return None
            except IOError as e:
                return e.errno, s.now - s.t0
        s.spawn(main, 'main')

        def idle():
            # looks but does not touch
            p.canread()
            p.buffered()
        s.spawn(idle, 'idle')

    def check(s):
        w, r = s.threads
        if w.error or r.error:
            return 'raised %r %r' % (w.error, r.error)
        if not w.result or w.result[0] != errno.ETIMEDOUT:
            return 'expected a timeout, got %r' % (w.result, )
        want = 3.0 if how.endswith('_wait') else 5.0
        if not want <= w.result[1] < want + 1:
            return 'timed out after %r' % w.result[1]
    return make, check


def s_progress(how):
    """a slow but live partner: no timeout may be reported"""
    def make(s):
        p = streams.Pipe(2, timeout=5.0)
        import time

        def a():
            if how == 'read':
                return r_until_eof(p, 2)
            elif how == 'write':
                for c in (b'ab', b'cd', b'e'):
                    p.write(c)
                p.write_eof()
            elif how == 'flush':
                # longer than the timeout in total, but progressing
                p.write(b'abcde')
                p.flush()
                p.write_eof()

        def b():
            if how == 'read':
                for c in (b'ab', b'cd', b'e'):
                    time.sleep(3)
                    p.write(c)
                p.write_eof()
            else:
                out = b''
                while True:
                    time.sleep(3)
                    d = p.read(1 if how == 'flush' else 2)
                    if not d:
                        return out
                    out += d
        s.spawn(a, 'a')
        s.spawn(b, 'b')

    def check(s):
        w, r = s.threads
        if w.error or r.error:
            return 'raised %r %r' % (w.error, r.error)
        got = w.result if how == 'read' else r.result
        if got != b'abcde':
            return 'received %r' % got
    return make, check


def s_writers():
    """two writers: nothing lost, each writer's order is kept"""
    def make(s):
        p = streams.Pipe(2)
        s.left = [2]

        def writer(a, b):
            p.write(a)
            p.write(b)
            s.left[0] -= 1
            if not s.left[0]:
                p.write_eof()
        s.spawn(lambda: writer(b'ab', b'c'), 'w1')
        s.spawn(lambda: writer(b'x', b'yz'), 'w2')
        s.spawn(lambda: r_until_eof(p, 2), 'reader')

    def check(s):
        for t in s.threads:
            if t.error:
                return '%s raised %r' % (t.name, t.error)
        r = s.threads[2].result
        if sorted(bytearray(r)) != sorted(bytearray(b'abcxyz')):
            return 'received %r' % r
        one = bytes(bytearray(c for c in bytearray(r)
                              if c in bytearray(b'abc')))
        two = bytes(bytearray(c for c in bytearray(r)
                              if c in bytearray(b'xyz')))
        if one != b'abc' or two != b'xyz' or b'ab' not in r or \
                b'yz' not in r:
            return 'received %r' % r
    return make, check


def s_waiters(how):
    """several threads blocked at once: one event releases all of them"""
    def make(s):
        p = streams.Pipe(2)

        def waiter():
            try:
                if how == 'write':
                    p.write(b'cd')
                    return 'written'
                elif how == 'mixed':
                    p.read_wait()
                    return p.read(1)
                else:
                    return p.read(1)
            except IOError as e:
                return e.errno
        if how == 'write':
            p.write(b'ab')
        s.spawn(waiter, 'w1')
        s.spawn(waiter, 'w2')

        def ender():
            if how == 'write':
                p.close()
            else:
                p.write_eof()
        s.spawn(ender, 'ender')

    def check(s):
        want = errno.EPIPE if how == 'write' else b''
        for t in s.threads[:2]:
            if t.error or t.result != want:
                return '%s: %r %r' % (t.name, t.result, t.error)
    return make, check


def s_readers():
    """two readers: every byte goes to exactly one of them"""
    def make(s):
        p = streams.Pipe(2)
        s.spawn(lambda: r_until_eof(p, 1), 'r1')
        s.spawn(lambda: r_until_eof(p, 2), 'r2')

        def writer():
            for c in (b'ab', b'c'):
                p.write(c)
            p.write_eof()
        s.spawn(writer, 'writer')

    def check(s):
        for t in s.threads:
            if t.error:
                return '%s raised %r' % (t.name, t.error)
        a, b = s.threads[0].result, s.threads[1].result
        if sorted(bytearray(a + b)) != sorted(bytearray(b'abc')) or \
                sorted(a) != list(a) or sorted(b) != list(b):
            return 'received %r %r' % (a, b)
    return make, check


def s_poll():
    """read_wait / write_wait with non-blocking ends"""
    def make(s):
        p = streams.Pipe(1, rblocking=False, wblocking=False)

        def writer():
            for c in (b'a', b'b', b'c'):
                p.write_wait()
                if p.write(c) != 1:
                    return 'write refused after write_wait'
            p.flush_wait()
            p.write_eof()

        def reader():
            out = b''
            while True:
                p.read_wait()
                d = p.read(5)
                if d is None:
                    return 'read blocked after read_wait'
                if not d:
                    return out
                out += d
        s.spawn(writer, 'writer')
        s.spawn(reader, 'reader')

    def check(s):
        w, r = s.threads
        if w.error or r.error or w.result:
            return 'writer %r %r reader %r' % (w.result, w.error, r.error)
        if r.result != b'abc':
            return 'received %r' % r.result
    return make, check


SCENARIOS = {
    'stream-r1': s_stream('r1'), 'stream-r3': s_stream('r3'),
    'stream-readall': s_stream('readall'),
    'stream-readinto': s_stream('readinto'), 'stream-ba': s_stream('ba'),
    'flag': s_flag(), 'match': s_match(), 'matchflag': s_matchflag(),
    'close-write': s_close('write'), 'close-flush': s_close('flush'),
    'close-flush_wait': s_close('flush_wait'),
    'close-write_wait': s_close('write_wait'),
    'close-flag': s_close('flag'), 'flush': s_flush(),
    'timeout-read': s_timeout('read'), 'timeout-write': s_timeout('write'),
    'timeout-readmatch': s_timeout('readmatch'),
    'timeout-flush': s_timeout('flush'),
    'timeout-read_wait': s_timeout('read_wait'),
    'timeout-write_wait': s_timeout('write_wait'),
    'timeout-flush_wait': s_timeout('flush_wait'),
    'progress-read': s_progress('read'),
    'progress-write': s_progress('write'),
    'progress-flush': s_progress('flush'),
    'waiters-read': s_waiters('read'), 'waiters-mixed': s_waiters('mixed'),
    'waiters-write': s_waiters('write'), 'readers': s_readers(),
    'writers': s_writers(), 'poll': s_poll(),
}


def execute(ctx, name, lines):
    make, check = SCENARIOS[name]
    s = sched.Scheduler(ctx, FILES if lines else (), max_points=5000)
    with s.patch():
        make(s)
        try:
            s.run()
            res = check(s)
        except sched.Deadlock as e:
            res = 'deadlock: %s' % e
        except sched.Horizon as e:
            res = 'livelock: %s' % e
    obs = repr([(t.name, t.result, repr(t.error)) for t in s.threads])
    return res, obs, s.npoints


def run_scenario(rec, shard):
    name, lines, bound, limit, part = shard
    got = {}

    def run1(ctx):
        got['r'] = execute(ctx, name, lines)
    outcomes = set()
    for ctx in explore.explore(run1, bound=bound, limit=limit,
                               shard=part):
        res, obs, npoints = got['r']
        rec.case([name, 'lines' if lines else 'sync', ctx.choices],
                 len(ctx.choices) > 0)
        rec.transitions += npoints
        rec.traces += 1
        rec.outcome(name + ' ' + obs)
        outcomes.add(tuple(ctx.choices))
        if res:
            # the same schedule must fail every time
            again = execute(explore.Ctx(ctx.choices, [
                p[0] for p in ctx.points]), name, lines)
            if again[0] != res:
                raise RuntimeError("schedule does not replay: %r %r" % (
                    res, again))
            rec.fail('%s: %s' % (name, res), obs)
            break
        if getattr(ctx, 'truncated', False):
            rec.capped = 'schedules of %s capped at %s' % (name, limit)
    rec.states += len(outcomes)


def run(ck):
    ck.note('switches only at lock operations, waits and (lines part) '
            'source lines of the pipe; sequentially consistent memory '
            'under the interpreter lock; a virtual clock')
    bs, bl = (4, 2) if ck.thorough else (3, 1)
    ck.part('sync', run_scenario,
            [(n, False, bs, None, (i, 8)) for n in SCENARIOS
             for i in range(8)],
            'preemption bound %i at synchronisation points' % bs)
    ck.part('lines', run_scenario,
            [(n, True, bl, None, (i, 8)) for n in SCENARIOS
             for i in range(8)],
            'preemption bound %i at every source line' % bl)
