"""C13: the pool of HTTP connections, over all interleavings"""
import threading
import time

from pyslet.http import client as httpclient
from pyslet.http import messages

from mc import explore, sched

LEVEL = 'model_checking'
RULE = ('every schedule of 2-3 threads sharing a client with 1-2 connections '
        'with at most the stated number of preemptions, at synchronisation '
        'points and at every line of the client; each schedule is distinct')

FILES = ('pyslet/http/client.py', )


class Watch(object):

    def __init__(self, s, limit):
        self.s = s
        self.limit = limit
        self.bad = None
        self.log = []
        self.conns = []
        self.client = None

    def fail(self, what):
        if self.bad is None:
            self.bad = what


class Request(object):
    """What the pool needs to know of a request"""

    def __init__(self, w, name, host, steps=2):
        self.w = w
        self.name = name
        self.scheme = 'http'
        self.hostname = host
        self.port = 80
        self.steps = steps
        self.done = 0
        self.thread = None

    def has_header(self, name):
        return True

    def set_client(self, client):
        self.client = client


class Conn(httpclient.Connection):
    """A connection that talks to nobody

    Each request takes a number of steps, it waits after each step."""

    watch = None

    def __init__(self, *args, **kws):
        super(Conn, self).__init__(*args, **kws)
        self.inside = None
        self.todo = []
        self.gone = False
        self.watch.conns.append(self)

    def connection_task(self):
        w = self.watch
        me = threading.current_thread().ident
        if self.inside is not None:
            w.fail('connection in use by two threads')
        self.inside = me
        if self.closed:
            self.inside = None
            raise messages.HTTPException("killed")
        if self.thread_id != me:
            w.fail('connection not bound to its thread')
        self.last_active = time.time()
        c = w.client
        with c.managerLock:
            n = len(c.cActiveThreadTargets) + len(c.cIdleList)
        if n > w.limit:
            w.fail('%i connections in the pool' % n)
        self.todo.extend(self.request_queue)
        self.request_queue = []
        for r in self.todo:
            if (r.hostname, r.port) != (self.host, self.port):
                w.fail('request on a connection to another host')
        if self.todo:
            r = self.todo[0]
            r.steps -= 1
            if not r.steps:
                r.done += 1
                r.thread = me
                w.log.append((r.name, self.id))
                del self.todo[0]
        if not self.todo and not self.request_queue:
            self.inside = None
            self.manager._deactivate_connection(self)
            return None, None, None
        self.inside = None
        return None, None, 0.5

    def close(self, err=None):
        if self.inside is not None and \
                self.inside != threading.current_thread().ident:
            self.watch.fail('connection closed while in use')
        if self.thread_id is None:
            self.gone = True
        self.todo = []
        super(Conn, self).close(err)


def make(s, limit):
    w = Watch(s, limit)
    cls = type('Client', (httpclient.Client,),
               {'ConnectionClass': type('C', (Conn,), {'watch': w})})
    w.client = cls(max_connections=limit)
    return w


def worker(w, name, hosts, timeout=None, batch=False, steps=2):
    def run():
        out = []
        me = threading.current_thread().ident
        reqs = [Request(w, '%s%i' % (name, i), h, steps)
                for i, h in enumerate(hosts)]
        for r in reqs:
            try:
                w.client.queue_request(r, timeout)
                if not batch:
                    w.client.thread_loop(60)
            except httpclient.RequestManagerBusy:
                out.append('busy')
                continue
            except httpclient.ConnectionClosed:
                out.append('closed')
                continue
            if not batch:
                if r.done > 1 or r.done and r.thread != me:
                    w.fail('request done %i times' % r.done)
                out.append('ok' if r.done else 'lost')
        if batch:
            w.client.thread_loop(60)
            out += ['ok' if r.done == 1 else 'lost' for r in reqs]
        if w.client.thread_active_count():
            w.fail('thread still active')
        return out
    return run


def all_ok(s, allowed=('ok',)):
    for t in s.threads:
        for x in t.result or ():
            if x not in allowed:
                return '%s: %r' % (t.name, t.result)


def same(s):
    """three threads share one connection to one host"""
    w = make(s, 1)
    for n in 'abc':
        s.spawn(worker(w, n, ['h']), n)
    return w, lambda: all_ok(s)


def reuse(s):
    w = make(s, 1)
    s.spawn(worker(w, 'a', ['h', 'h']), 'a')
    s.spawn(worker(w, 'b', ['h', 'g']), 'b')
    return w, lambda: all_ok(s)


def other(s):
    """idle connections to other hosts make room"""
    w = make(s, 2)
    s.spawn(worker(w, 'a', ['h', 'g']), 'a')
    s.spawn(worker(w, 'b', ['g', 'i']), 'b')
    return w, lambda: all_ok(s)


def three(s):
    w = make(s, 2)
    for n, h in zip('abc', 'hgi'):
        s.spawn(worker(w, n, [h]), n)
    return w, lambda: all_ok(s)


def batch(s):
    w = make(s, 2)
    s.spawn(worker(w, 'a', ['h', 'h', 'h'], batch=True), 'a')
    s.spawn(worker(w, 'b', ['h', 'h'], batch=True), 'b')
    return w, lambda: all_ok(s)


def impatient(s):
    w = make(s, 1)
    s.spawn(worker(w, 'a', ['h']), 'a')
    s.spawn(worker(w, 'b', ['h'], timeout=0), 'b')
    return w, lambda: all_ok(s, ('ok', 'busy'))


def patient(s):
    """b gives up in time, c does not have to"""
    w = make(s, 1)
    took = []

    def timed(f):
        def run():
            start = s.now
            out = f()
            took.append((out, s.now - start))
            return out
        return run
    s.spawn(worker(w, 'a', ['h'], steps=10), 'a')
    s.spawn(timed(worker(w, 'b', ['h'], timeout=2)), 'b')
    s.spawn(worker(w, 'c', ['g'], timeout=100), 'c')

    def check():
        if s.threads[0].result != ['ok'] or s.threads[2].result != ['ok']:
            return all_ok(s)
        for out, t in took:
            if out == ['busy'] and not 1.999 <= t <= 2.1:
                return 'gave up after %f seconds' % t
            if out not in (['busy'], ['ok']):
                return 'b: %r' % out
    return w, check


def cleaner(w, times, delay=0.5, inactive=0):
    def run():
        for i in range(times):
            w.client.idle_cleanup(inactive)
            time.sleep(delay)
    return run


def clean(s):
    w = make(s, 1)
    s.spawn(worker(w, 'a', ['h', 'h']), 'a')
    s.spawn(worker(w, 'b', ['h']), 'b')
    s.spawn(cleaner(w, 3), 'cleaner')
    return w, lambda: all_ok(s)


def clean2(s):
    w = make(s, 2)
    s.spawn(worker(w, 'a', ['h', 'g']), 'a')
    s.spawn(worker(w, 'b', ['g', 'h']), 'b')
    s.spawn(cleaner(w, 2), 'cleaner')
    return w, lambda: all_ok(s)


def clean3(s):
    """connections that are used again as they are cleaned up"""
    w = make(s, 1)
    s.together = 0.0001
    s.spawn(worker(w, 'a', ['h', 'h']), 'a')
    s.spawn(cleaner(w, 3), 'cleaner')
    return w, lambda: all_ok(s)


def clean4(s):
    w = make(s, 2)
    s.together = 0.0001
    s.spawn(worker(w, 'a', ['h', 'g'], steps=1), 'a')
    s.spawn(worker(w, 'b', ['g'], steps=2), 'b')
    s.spawn(cleaner(w, 2), 'cleaner')
    return w, lambda: all_ok(s)


def abandoned(s):
    """a queues a request and never comes back, its connection is taken"""
    w = make(s, 1)

    def a():
        w.client.queue_request(Request(w, 'a0', 'h'))
        w.client.thread_task(0)

    def cleanup():
        time.sleep(100)
        w.client.active_cleanup(90)
    s.spawn(a, 'a')

    def late(n):
        f = worker(w, n, ['h'])

        def run():
            time.sleep(50)
            return f()
        return run
    s.spawn(late('b'), 'b')
    s.spawn(late('c'), 'c')
    s.spawn(cleanup, 'cleanup')
    return w, lambda: all_ok(s)


def busy_killed(s):
    """active_cleanup races with the owner of a slow connection"""
    w = make(s, 1)
    s.spawn(worker(w, 'a', ['h']), 'a')
    s.spawn(worker(w, 'b', ['h']), 'b')

    def cleanup():
        time.sleep(0.5)
        w.client.active_cleanup(0.2)
    s.spawn(cleanup, 'cleanup')
    return w, lambda: all_ok(s, ('ok', 'lost'))


def closing(s):
    w = make(s, 1)
    s.spawn(worker(w, 'a', ['h', 'h']), 'a')
    s.spawn(worker(w, 'b', ['h']), 'b')

    def close():
        w.client.close()
        return ['ok']
    s.spawn(close, 'close')
    w.closed = True
    return w, lambda: all_ok(s, ('ok', 'lost', 'closed'))


def closing2(s):
    w = make(s, 1)
    s.spawn(worker(w, 'a', ['h']), 'a')
    s.spawn(worker(w, 'b', ['g']), 'b')
    s.spawn(worker(w, 'c', ['h']), 'c')

    def close():
        time.sleep(0.6)
        w.client.close()
        return ['ok']
    s.spawn(close, 'close')
    w.closed = True
    return w, lambda: all_ok(s, ('ok', 'lost', 'closed'))


SCENARIOS = dict((f.__name__, f) for f in (
    same, reuse, other, three, batch, impatient, patient, clean, clean2,
    clean3, clean4,
    abandoned, busy_killed, closing, closing2))


def final(w, name):
    c = w.client
    if c.active_count():
        return '%i connections still active' % c.active_count()
    if any(c.cActiveThreads.values()):
        return 'threads still active'
    idle = list(c.cIdleList.values())
    grouped = [x for t in c.cIdleTargets.values() for x in t.values()]
    if sorted(x.id for x in idle) != sorted(x.id for x in grouped) or \
            any(not t for t in c.cIdleTargets.values()):
        return 'idle lists differ'
    for x in idle:
        if x.thread_id is not None or x.closed or x.gone:
            return 'dead connection in the pool'
    if hasattr(w, 'closed'):
        if idle:
            return 'idle connections after close'
        try:
            c.queue_request(Request(w, 'late', 'h'))
            return 'request accepted after close'
        except httpclient.ConnectionClosed:
            pass
    left = [x for x in w.conns if not x.closed and not x.gone]
    if len(left) > len(idle):
        return 'connection lost by the pool'


def execute(ctx, name, lines):
    s = sched.Scheduler(ctx, FILES if lines else (), max_points=20000)
    with s.patch():
        # time passes, a little
        ticks = [0]

        def clock():
            # without moving the threads that wait apart
            ticks[0] += 1
            return s.now + ticks[0] * 0.000001
        time.time = clock
        w, check = SCENARIOS[name](s)
        try:
            s.run()
            res = None
            for t in s.threads:
                if t.error:
                    res = '%s raised %r' % (t.name, t.error)
            res = res or w.bad or check() or final(w, name)
        except sched.Deadlock as e:
            res = 'deadlock: %s' % e
        except sched.Horizon as e:
            res = 'livelock: %s' % e
    obs = repr((w.log, [t.result for t in s.threads]))
    return res, obs, s.npoints


def run_scenario(rec, shard):
    name, lines, bound, part = shard
    got = {}

    def run1(ctx):
        got['r'] = execute(ctx, name, lines)
    n = 0
    for ctx in explore.explore(run1, bound=bound, shard=part):
        res, obs, npoints = got['r']
        rec.case([name, 'lines' if lines else 'sync', ctx.choices])
        rec.transitions += npoints
        rec.traces += 1
        n += 1
        rec.outcome(name + ' ' + obs)
        if res:
            again = execute(explore.Ctx(ctx.choices, [
                p[0] for p in ctx.points]), name, lines)
            if again[0] != res:
                raise RuntimeError("schedule does not replay: %r %r" % (
                    res, again))
            rec.fail('%s: %s' % (name, res), obs)
            break
    rec.states += n


def run(ck):
    bs, bl = (3, 2) if ck.thorough else (2, 1)
    pairs = ('reuse', 'clean3', 'other', 'batch', 'impatient')
    ck.part('sync', run_scenario, [
        (n, False, bs + (n in pairs) - (n == 'clean4'), (i, 8))
        for n in SCENARIOS
        for i in range(8)],
            'preemption bound %i (%i for two threads) at synchronisation '
            'points' % (bs, bs + 1))
    ck.part('lines', run_scenario, [(n, True, bl, (i, 8)) for n in SCENARIOS
                                    for i in range(8)],
            'preemption bound %i at every line of the client' % bl)
    ck.note('a thread whose connection is killed is not promised a response')
