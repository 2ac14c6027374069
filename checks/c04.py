"""C04: the lock store gives mutual exclusion, over all interleavings"""
import random
import sqlite3
import time

from pyslet import blockstore
from pyslet.odata2.memds import InMemoryEntityContainer
from mc import explore, sched
from checks import c03

LEVEL = 'model_checking'
RULE = ('every schedule of 2-3 threads locking and unlocking one key with at '
        'most the stated number of deviations (preemptions and back-off '
        'choices), on the real LockStore over the in-memory and SQLite data services, '
        'with the clock, the back-off and all locks under control; each '
        'schedule is distinct')

FILES = ('pyslet/blockstore.py', )
KEY = 'k' * 64


class Held(object):
    """Who is inside the critical section"""

    def __init__(self, s, ttl):
        self.s = s
        self.ttl = ttl
        self.inside = {}
        self.bad = None
        self.history = []

    def enter(self, name):
        for other, since in self.inside.items():
            # a holder is only protected for the lock timeout
            if self.s.now < since + self.ttl:
                self.bad = '%s entered while %s held a valid lock' % (
                    name, other)
        self.inside[name] = self.s.now
        self.history.append(name)

    def leave(self, name):
        del self.inside[name]


def worker(ls, held, name, hold, timeout=60, ctxmgr=False, times=1):
    def run():
        out = []
        for i in range(times):
            try:
                c = ls.lock(KEY, timeout)
            except blockstore.LockError:
                out.append('timeout')
                continue
            held.enter(name)
            if hold is not None:
                time.sleep(hold)
            held.leave(name)
            if ctxmgr:
                with c:
                    pass
            else:
                ls.unlock(KEY)
            out.append('ok')
        return out
    return run


def two(s, cdef):
    ls = blockstore.LockStore(cdef['BlockLocks'])
    h = Held(s, 180)
    s.spawn(worker(ls, h, 'a', 1), 'a')
    s.spawn(worker(ls, h, 'b', 1, ctxmgr=True), 'b')
    return h, lambda: all_ok(s)


def twice(s, cdef):
    ls = blockstore.LockStore(cdef['BlockLocks'])
    h = Held(s, 180)
    s.spawn(worker(ls, h, 'a', None, times=2), 'a')
    s.spawn(worker(ls, h, 'b', 0), 'b')
    return h, lambda: all_ok(s)


def three(s, cdef):
    ls = blockstore.LockStore(cdef['BlockLocks'])
    h = Held(s, 180)
    for n in 'abc':
        s.spawn(worker(ls, h, n, 1), n)
    return h, lambda: all_ok(s)


def stale(s, cdef):
    """a holds for far too long, b and c take over, one at a time"""
    ls = blockstore.LockStore(cdef['BlockLocks'], lock_timeout=20)
    h = Held(s, 20)
    s.spawn(worker(ls, h, 'a', 50, timeout=100), 'a')
    s.spawn(worker(ls, h, 'b', 10, timeout=100), 'b')
    s.spawn(worker(ls, h, 'c', 10, timeout=100), 'c')
    return h, lambda: all_ok(s)


def crashed(s, cdef):
    """the lock was left behind by a process which died"""
    old = blockstore.LockStore(cdef['BlockLocks'], lock_timeout=20)
    old.lock(KEY)
    s.now += 21
    ls1 = blockstore.LockStore(cdef['BlockLocks'], lock_timeout=20)
    ls2 = blockstore.LockStore(cdef['BlockLocks'], lock_timeout=20)
    h = Held(s, 20)
    s.spawn(worker(ls1, h, 'b', 5, timeout=100), 'b')
    s.spawn(worker(ls2, h, 'c', 5, timeout=100), 'c')
    return h, lambda: all_ok(s)


def late(s, cdef):
    """a unlocks just before / at / after its lock expires"""
    ls = blockstore.LockStore(cdef['BlockLocks'], lock_timeout=20)
    h = Held(s, 20)
    s.spawn(worker(ls, h, 'a', 19.5, timeout=100), 'a')
    s.spawn(worker(ls, h, 'b', 10, timeout=100), 'b')
    return h, lambda: all_ok(s)


def late2(s, cdef):
    ls = blockstore.LockStore(cdef['BlockLocks'], lock_timeout=20)
    h = Held(s, 20)
    s.spawn(worker(ls, h, 'a', 20.5, timeout=100), 'a')
    s.spawn(worker(ls, h, 'b', 15, timeout=100), 'b')
    s.spawn(worker(ls, h, 'c', 1, timeout=100), 'c')
    return h, lambda: all_ok(s)


class SlowDelete(object):

    """A collection whose deletes take a little while to get there"""

    def __init__(self, coll, delay):
        self.coll = coll
        self.delay = delay

    def __enter__(self):
        self.coll.__enter__()
        return self

    def __exit__(self, *args):
        return self.coll.__exit__(*args)

    def __getattr__(self, name):
        return getattr(self.coll, name)

    def __getitem__(self, key):
        return self.coll[key]

    def __delitem__(self, key):
        time.sleep(self.delay)
        del self.coll[key]


class SlowSet(object):

    def __init__(self, entity_set, delay):
        self.entity_set = entity_set
        self.delay = delay

    def open(self):
        return SlowDelete(self.entity_set.open(), self.delay)


def slow(hold):
    """a releases around expiry and its delete is under way for 0.5s"""
    def make(s, cdef):
        ls1 = blockstore.LockStore(SlowSet(cdef['BlockLocks'], 0.5),
                                   lock_timeout=20)
        ls2 = blockstore.LockStore(cdef['BlockLocks'], lock_timeout=20)
        h = Held(s, 20)
        s.spawn(worker(ls1, h, 'a', hold, timeout=100), 'a')

        def b():
            time.sleep(21.1)
            ls2.lock(KEY, 100)
            h.enter('b')
            time.sleep(2)
            with cdef['BlockLocks'].open() as locks:
                mine = (KEY in locks and
                        locks[KEY]['owner'].value.startswith(
                            '%s_' % ls2.magic))
            h.leave('b')
            ls2.unlock(KEY)
            return ['ok'] if mine else ['lock removed by another owner']
        s.spawn(b, 'b')
        return h, lambda: all_ok(s)
    return make


def impatient(s, cdef):
    """b gives up: only while a holds, and not long after its timeout"""
    ls = blockstore.LockStore(cdef['BlockLocks'])
    h = Held(s, 180)
    s.spawn(worker(ls, h, 'a', 100), 'a')

    def b():
        t0 = s.now
        try:
            ls.lock(KEY, 10)
        except blockstore.LockError:
            return 'timeout', s.now - t0
        h.enter('b')
        h.leave('b')
        ls.unlock(KEY)
        return 'ok', s.now - t0
    s.spawn(b, 'b')

    def check():
        if s.threads[0].result not in (['ok'], ['timeout']):
            return 'a: %r' % s.threads[0].result
        r = s.threads[1].result
        if r is None or not (r[0] == 'ok' or 10 <= r[1] <= 13):
            return 'b: %r' % (r, )
    return h, check


def mistaken(s, cdef):
    """unlocking a lock one does not own leaves it locked"""
    ls = blockstore.LockStore(cdef['BlockLocks'])
    h = Held(s, 180)
    s.spawn(worker(ls, h, 'a', 5), 'a')
    s.spawn(lambda: ls.unlock(KEY), 'rogue')
    s.spawn(worker(ls, h, 'c', 1), 'c')

    def check():
        for i in (0, 2):
            if s.threads[i].result != ['ok']:
                return '%s: %r' % (s.threads[i].name, s.threads[i].result)
    return h, check


def other_key(s, cdef):
    """locks on different keys are independent"""
    ls = blockstore.LockStore(cdef['BlockLocks'])
    h = Held(s, 180)

    def b():
        t0 = s.now
        with ls.lock('other', 10):
            return s.now - t0 < 1
    s.spawn(worker(ls, h, 'a', 100), 'a')
    s.spawn(b, 'b')

    def check():
        if s.threads[0].result != ['ok'] or s.threads[1].result is not True:
            return '%r %r' % (s.threads[0].result, s.threads[1].result)
    return h, check


def all_ok(s):
    for t in s.threads:
        if set(t.result or ['none']) != set(['ok']):
            return '%s: %r' % (t.name, t.result)


SCENARIOS = {'two': two, 'twice': twice, 'three': three, 'stale': stale,
             'crashed': crashed, 'late': late, 'late2': late2,
             'impatient': impatient, 'mistaken': mistaken,
             'other_key': other_key}
SCENARIOS.update(('slow%i' % i, slow(18.9 + i * 0.25)) for i in range(12))


class SharedContainer(c03.Container):

    """One in-memory database shared by all the connections in the pool"""

    count = 0

    def __init__(self, **kws):
        SharedContainer.count += 1
        self.uri = 'file:c04_%i?mode=memory&cache=shared' % (
            SharedContainer.count)
        self.keeper = sqlite3.connect(self.uri, uri=True)
        super(SharedContainer, self).__init__(**kws)

    def open(self):
        return sqlite3.connect(self.uri, uri=True, check_same_thread=False)

    def close(self):
        super(SharedContainer, self).close()
        self.keeper.close()


# the in-memory service does not implement optimistic concurrency
SQL_ONLY = ('stale', 'crashed', 'late2') + tuple(
    'slow%i' % i for i in range(12))


def execute(ctx, name, lines, store):
    cdef = c03.load()
    s = sched.Scheduler(ctx, FILES if lines else (), max_points=20000)
    saved = random.randint

    def randint(a, b):
        menu = [b]
        for x in (1, 0):
            if a <= x < b:
                menu.append(x)
        return menu[ctx.choose(len(menu))] if len(menu) > 1 else a
    with s.patch():
        random.randint = randint
        try:
            if store == 'sql':
                container = SharedContainer(container=cdef,
                                            file_path='shared')
                container.create_all_tables()
            else:
                container = InMemoryEntityContainer(cdef)
            held, check = SCENARIOS[name](s, cdef)
            try:
                s.run()
                res = None
                for t in s.threads:
                    if t.error:
                        res = '%s raised %r' % (t.name, t.error)
                res = res or held.bad or check()
                if not res:
                    with cdef['BlockLocks'].open() as locks:
                        if len(locks):
                            res = 'lock left behind'
                if store == 'sql':
                    container.close()
            except sched.Deadlock as e:
                res = 'deadlock: %s' % e
            except sched.Horizon as e:
                res = 'livelock: %s' % e
        finally:
            random.randint = saved
    obs = repr((held.history, [t.result for t in s.threads]))
    return res, obs, s.npoints


def run_scenario(rec, shard):
    name, store, lines, bound, part = shard
    got = {}

    def run1(ctx):
        got['r'] = execute(ctx, name, lines, store)
    n = 0
    for ctx in explore.explore(run1, bound=bound, shard=part):
        res, obs, npoints = got['r']
        rec.case([name, store, 'lines' if lines else 'sync', ctx.choices])
        rec.transitions += npoints
        rec.traces += 1
        n += 1
        rec.outcome(name + ' ' + obs)
        if res:
            again = execute(explore.Ctx(ctx.choices, [
                p[0] for p in ctx.points]), name, lines, store)
            if again[0] != res:
                raise RuntimeError("schedule does not replay: %r %r" % (
                    res, again))
            rec.fail('%s/%s: %s' % (name, store, res), obs)
            break
    rec.states += n


def run(ck):
    ck.note('a holder that keeps a lock beyond the lock timeout is not '
            'protected (documented); clocks of all owners agree; '
            'taking over expired locks needs optimistic concurrency so is '
            'checked over the SQL service only')
    both = [(n, 'sql') for n in SCENARIOS] + [
        (n, 'mem') for n in SCENARIOS if n not in SQL_ONLY]
    bs, bl = (3, 2) if ck.thorough else (2, 1)
    ck.part('sync', run_scenario, [(n, st, False, bs, (i, 8)) for n, st in both
                                   for i in range(8)],
            'deviation bound %i at synchronisation points' % bs)
    ck.part('lines', run_scenario, [(n, st, True, bl, (i, 4)) for n, st in both
                                    for i in range(4)],
            'deviation bound %i at every line of the lock store' % bl)
