"""C17: the database connection pool"""
import logging

from mc import edmx, explore, sched
from mc.edmx import sqlds

LEVEL = 'model_checking'
RULE = ('every schedule, up to the preemption bound, of threads that '
        'acquire, use and release connections of the pool of the SQL data '
        'service; distinct schedules')
FILES = ('odata2/sqlds.py', )


class API(object):
    paramstyle = 'qmark'
    OperationalError = Error = IOError

    def __init__(self, safety):
        self.threadsafety = safety


class DBC(object):

    def __init__(self, pool, owner):
        self.pool = pool
        self.owner = owner      # the thread that opened it
        self.closed = self.closing = False
        self.user = None

    def close(self):
        if self.closed:
            self.pool.problem('connection closed twice')
        self.closed = True
        if self.user is not None and not self.pool.forced:
            self.pool.problem('connection closed while it is in use')


_cdef = []


def cdef():
    if not _cdef:
        _cdef.append(edmx.load(edmx.association('*', '*', 'AB')))
    return _cdef[0][1]


class World(object):

    def __init__(self, s, safety, size, fail=()):
        self.s = s
        self.safety = safety
        self.size = 1 if safety == 0 else size
        self.fail = list(fail)
        self.dbcs = []
        self.problems = []
        self.forced = False
        self.closing = False
        self.expect_problem = False
        self.opens = 0
        world = self

        class Container(sqlds.SQLEntityContainer):

            def open(self):
                s.point()
                n = world.opens
                world.opens += 1
                if n in world.fail:
                    raise IOError('cannot connect')
                dbc = DBC(world, s.me())
                world.dbcs.append(dbc)
                live = [d for d in world.dbcs if not d.closing]
                if len(live) > world.size and not world.closing:
                    world.problem('more connections than allowed')
                return dbc

            def close_connection(self, dbc):
                dbc.closing = True
                s.point()
                dbc.close()

        self.pool = Container(
            container=cdef(), dbapi=API(safety), max_connections=size)
        # when the pool last had something to give (None: it has not)
        self.free_since = s.now
        self.held = {}
        self.gifts = []

    def problem(self, text):
        if text not in self.problems:
            self.problems.append(text)

    def used(self):
        return len(self.held)

    def changed(self):
        """Notes since when there has been a connection to give"""
        if self.used() < self.size:
            if self.free_since is None:
                self.free_since = self.s.now
        else:
            self.free_since = None

    def run(self, script):
        s = self.s
        items = []
        got = []
        try:
            for op in script:
                if op[0] == 'a':
                    got.append(self.acquire(items, *op[1:]))
                elif not items and op[0] in 'ur':
                    continue
                elif op[0] == 'u':
                    self.use(items[-1])
                elif op[0] == 'r':
                    self.release(items)
                elif op[0] == 'g':
                    self.gifts += items
                    items = []
                elif op[0] == 't':
                    while not self.gifts:
                        s.block('sleep', 1)
                    items, self.gifts = self.gifts, []
                    self.release_all(items)
                elif op[0] == 'z':
                    s.block('sleep', op[1])
                elif op[0] == 'c':
                    self.pool.pool_cleaner(op[1])
                elif op[0] == 'x':
                    self.close(op[1])
        except IOError:
            got.append('error')
            if 'cannot connect' and items:
                self.release_all(items)
        # a thread that ends without releasing its connections
        for item in items:
            self.held.pop(id(item), None)
            item.dbc.user = None
        return got

    def release_all(self, items):
        while items:
            self.release(items)

    def acquire(self, items, timeout=None):
        s = self.s
        me = s.me()
        start = s.now
        closed = self.pool.closing.is_set()
        item = self.pool.acquire_connection(timeout)
        if item is None:
            if self.closing:
                return 'closing'
            if timeout is None:
                self.problem('no connection without a timeout')
            elif s.now < start + timeout:
                self.problem('gave up early')
            elif self.free_since is not None and self.free_since < s.now \
                    and self.safety:
                self.problem('gave up with a connection free')
            elif s.now > start + 3 * timeout:
                self.problem('gave up late')
            return None
        if closed:
            self.problem('acquired from a closed pool')
        d = item.dbc
        if d is None or d.closed:
            self.problem('acquired a closed connection')
            return 'bad'
        owner = self.held.get(id(item))
        if owner is not None and owner is not me:
            self.problem('connection given to two threads')
        if self.safety <= 1 and d.owner is not me:
            self.problem('connection of another thread')
        if self.safety == 0:
            for o in self.held.values():
                if o is not me:
                    self.problem('module in use by two threads')
        if items and item is not items[0]:
            self.problem('two connections for one thread')
        self.held[id(item)] = me
        self.changed()
        items.append(item)
        return 'ok'

    def use(self, item):
        s = self.s
        d = item.dbc
        if d.closed:
            if not self.forced:
                self.problem('connection closed while it is held')
            return
        if d.user is not None:
            self.problem('connection used by two threads')
        d.user = s.me()
        s.point()
        d.user = None
        if d.closed and not self.forced:
            self.problem('connection closed while it is held')

    def release(self, items):
        item = items.pop()
        if not items:
            # from now on it's no longer ours
            self.held.pop(id(item), None)
        self.pool.release_connection(item)
        self.changed()

    def close(self, timeout):
        start = self.s.now
        self.closing = True
        self.deadline = start + timeout
        self.watch()
        self.pool.close(timeout)

    def watch(self):
        """Connections may be forced to close, but only after waiting"""
        world = self
        close = self.pool.close_connection

        def close_connection(dbc):
            if world.s.now >= world.deadline:
                world.forced = True
            close(dbc)
        self.pool.close_connection = close_connection


def script(text):
    """a: acquire aN: with timeout N, u: use, r: release, cN: clean idle
    for N, xN: close with timeout N, zN: sleep, g: give the connections
    away, t: release what another thread has given away"""
    ops = []
    for word in text.split():
        if len(word) > 1:
            ops.append((word[0], int(word[1:])))
        else:
            ops.append((word, ))
    return ops


# (threads, pool size, opens that fail, checks at the end)
SCENARIOS = {
    'two': (['a u r', 'a u r'], 1, ()),
    'two-twice': (['a u r a u r', 'a u r a u r'], 1, ()),
    'two-of-two': (['a u r a u r', 'a u r a u r'], 2, ()),
    'three': (['a u r', 'a u r', 'a u r'], 1, ()),
    'three-of-two': (['a u r', 'a u r', 'a u r'], 2, ()),
    'nested': (['a a u r u r', 'a u a u r r'], 1, ()),
    'nested-of-two': (['a a u r u r a u r', 'a u a u r r', 'a u r'], 2, ()),
    'timeout': (['a z5 u r', 'a3 u r', 'a9 u r'], 1, ()),
    'timeout-same': (['a z3 u r', 'a3 u r', 'a3 u r'], 1, ()),
    'timeout-of-two': (['a z4 u r', 'a z5 u r', 'a3 u r', 'a9 u r'], 2, ()),
    'open-fails': (['a u r a u r', 'a u r'], 1, (0, )),
    'open-fails-twice': (['a u r a u r', 'a u r'], 1, (0, 1)),
    'open-fails-of-two': (['a u r', 'a u r', 'a u r'], 2, (1, )),
    'clean': (['a u r z1 a u r', 'a u r', 'c0 c0'], 2, ()),
    'clean-one': (['a u r z1 a u r', 'z1 a u r', 'c0 z1 c0'], 1, ()),
    'dies': (['a u', 'z1 c0 a9 u r', 'z1 c0'], 1, ()),
    'dies-of-two': (['a u', 'a u', 'z1 c0 a9 u r', 'z1 a9 u r'], 2, ()),
    'foreign': (['a u g z6', 't', 'z1 a u r'], 1, ()),
    'foreign-timeout': (['a u g z9', 'z2 t', 'a5 u r'], 1, ()),
    'foreign-nested': (['a a u g z9', 't', 'a u r', 'a u r'], 1, ()),
    'foreign-of-two': (['a u g z3 a u r', 't', 'a u r', 'a u r'], 2, ()),
    'close': (['a u r', 'a u r', 'x9'], 1, ()),
    'close-waiting': (['a z1 u r', 'a u r', 'z1 x9'], 1, ()),
    'close-waiting2': (['a z2 u r', 'a u r', 'a u r', 'z1 x9'], 1, ()),
    'close-of-two': (['a u r a u r', 'a z1 u r', 'x9'], 2, ()),
    'close-stuck': (['a z9 u r', 'z1 x2', 'z1 a u r'], 1, ()),
    'close-dead': (['a u', 'z1 x2'], 1, ()),
    'close-idle': (['a u r', 'z1 c99 x2'], 1, ()),
}

LARGE = ('foreign-nested', 'foreign-of-two', 'timeout-of-two', 'close-waiting2', 'nested-of-two', 'dies-of-two')


def execute(ctx, name, safety, lines):
    threads, size, fail = SCENARIOS[name]
    s = sched.Scheduler(ctx, FILES if lines else (), max_points=6000)
    with s.patch():
        w = World(s, safety, size, fail)
        for t in threads:
            s.spawn(lambda ops=script(t): w.run(ops))
        res = None
        try:
            s.run()
        except sched.Deadlock as e:
            res = 'deadlock: %s' % e
        except sched.Horizon as e:
            res = 'livelock: %s' % e
        if res is None:
            res = finish(w, s, name)
    obs = repr([(t.result, repr(t.error)) for t in s.threads])
    return res, obs, s.npoints


def finish(w, s, name):
    for t in s.threads:
        if t.error is not None:
            return 'crash: %r' % t.error
    if w.problems:
        return w.problems[0]
    p = w.pool
    live = [d for d in w.dbcs if not d.closed]
    if w.closing:
        if live:
            return 'connection left open by close'
        return None
    locked = len(p.cpool_locked)
    if 'dies' not in name and locked:
        return 'connection left locked'
    if 'dies' in name:
        # the others may have needed the cleaner
        p.pool_cleaner(1e9)
        live = [d for d in w.dbcs if not d.closed]
    # the pool is as good as new
    if len(live) > w.size:
        return 'more connections than allowed'
    items = [i.dbc for i in list(p.cpool_unlocked.values()) + p.cpool_idle]
    if len([i for i in items if i is not None]) != len(live) or [
            i for i in items if i is not None and i.closed]:
        return 'connection lost'
    if p.cpool_size != len(items) + len(p.cpool_locked):
        return 'room for connections lost'
    return None


def run_scenario(rec, shard):
    name, safety, lines, bound, limit, part = shard
    logging.disable(logging.CRITICAL)
    got = {}

    def run1(ctx):
        got['r'] = execute(ctx, name, safety, lines)
    n = 0
    for ctx in explore.explore(run1, bound=bound, limit=limit, shard=part):
        res, obs, npoints = got['r']
        rec.case([name, safety, 'lines' if lines else 'sync', ctx.choices],
                 len(ctx.choices) > 0)
        rec.transitions += npoints
        rec.traces += 1
        n += 1
        rec.outcome('%s %s %s' % (name, safety, obs))
        if res:
            again = execute(explore.Ctx(ctx.choices, [
                p[0] for p in ctx.points]), name, safety, lines)
            if again[0] != res:
                raise RuntimeError("schedule does not replay: %r %r" % (
                    res, again))
            rec.fail('%s %s: %s' % (name, safety, res), obs)
            break
        if getattr(ctx, 'truncated', False):
            rec.capped = 'schedules of %s capped at %s' % (name, limit)
    rec.states += n


def run(ck):
    ck.note('switches at lock operations, waits, opening, closing and using '
            'a connection and (lines part) source lines of the pool; a '
            'virtual clock')
    bs, bl = (3, 2) if ck.thorough else (2, 1)
    for part, lines, bound in (('sync', False, bs), ('lines', True, bl)):
        ck.part(part, run_scenario,
                [(n, safety, lines, bound - (n in LARGE), None, (i, 2))
                 for n in SCENARIOS for safety in (0, 1, 2)
                 for i in range(2)
                 if safety or not ('dies' in n or 'of-two' in n or
                                   'foreign' in n)],
                'preemption bound %i (%i with four threads)' % (
                    bound, bound - 1))
