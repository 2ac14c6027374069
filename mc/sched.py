"""Controlled thread scheduler

Runs a few threads of the real code one at a time, switching only at
scheduling points: before every lock acquire, after every release, at
waits, sleeps, thread start/exit and (optionally) before every line of a
set of source files.  Which thread runs next at a point is a choice made
by mc.explore, so that every schedule with at most a given number of
preemptions is executed.  The clock is virtual: it only moves when no
thread can run (or, with early_timeouts, when a timed waiter is chosen
to time out first, which costs one deviation).
"""

import _thread
import gc
import sys
import threading
import time

_runs = 0
_alloc = _thread.allocate_lock


class Abort(BaseException):
    """Unwinds a thread when an execution is abandoned"""


class Deadlock(Exception):
    pass


class Horizon(Exception):
    pass


class VThread(object):

    def __init__(self, sched, index, func, name):
        self.sched = sched
        self.index = index
        self.func = func
        self.name = name
        self.sem = _alloc()
        self.sem.acquire()
        self.state = 'runnable'
        self.deadline = None
        self.timed_out = False
        self.error = None
        self.result = None
        self.ident = 1000 + index
        self.daemon = True
        self.joiners = []
        self.where = 'start'

    def is_alive(self):
        return self.state != 'done'

    isAlive = is_alive

    def getName(self):
        return self.name


class Scheduler(object):

    def __init__(self, ctx, trace_files=(), early_timeouts=False,
                 max_points=20000):
        self.ctx = ctx
        self.trace_files = tuple(trace_files)
        self.early = early_timeouts
        self.max_points = max_points
        self.threads = []
        self.current = None
        self.main = _alloc()
        self.main.acquire()
        self.now = 1000000.0
        #: how far apart deadlines that pass together may be
        self.together = 0
        self.aborting = False
        self.problem = None
        self.npoints = 0
        self.log = []
        self.by_ident = {}

    # -- thread management

    def spawn(self, func, name=None):
        t = VThread(self, len(self.threads), func,
                    name or 't%i' % len(self.threads))
        self.threads.append(t)
        _thread.start_new_thread(self._body, (t,))
        return t

    def _body(self, t):
        t.sem.acquire()
        self.by_ident[_thread.get_ident()] = t
        if not self.aborting:
            try:
                if self.trace_files:
                    sys.settrace(self._trace)
                t.result = t.func()
            except Abort:
                pass
            except BaseException as e:
                t.error = e
            finally:
                sys.settrace(None)
        t.state = 'done'
        for j in t.joiners:
            self._wake(j)
        self.by_ident.pop(_thread.get_ident(), None)
        self._dispatch(t)

    def _trace(self, frame, event, arg):
        fn = frame.f_code.co_filename
        for f in self.trace_files:
            if fn.endswith(f):
                return self._trace_line
        return None

    def _trace_line(self, frame, event, arg):
        if event == 'line':
            self.point()
        return self._trace_line

    def me(self):
        return self.by_ident.get(_thread.get_ident())

    # -- scheduling

    def run(self):
        """Runs all threads to completion"""
        # finalizers must not run at arbitrary points of the execution
        global _runs
        gc.disable()
        try:
            self._dispatch(None)
            self.main.acquire()
        finally:
            _runs += 1
            if _runs % 64 == 0:
                gc.collect()
        if self.problem is not None:
            raise self.problem

    def _enabled(self, cur):
        e = [t for t in self.threads if t.state == 'runnable']
        if cur is not None and cur in e:
            e.remove(cur)
            e.insert(0, cur)
        return e

    def _pick(self, cur):
        """Returns the thread to run next, None if finished"""
        while True:
            e = self._enabled(cur)
            timed = [t for t in self.threads
                     if t.state == 'blocked' and t.deadline is not None]
            if e:
                cost = 1 if e[0] is cur else 0
                n = len(e)
                if self.early and timed:
                    c = self.ctx.choose(n + len(timed), cost=1)
                elif n > 1:
                    c = self.ctx.choose(n, cost=cost)
                else:
                    c = 0
                if c < n:
                    return e[c]
                t = timed[c - n]
                self._expire(t)
                return t
            if timed:
                t = min(timed, key=lambda x: (x.deadline, x.index))
                end = t.deadline + self.together
                self._expire(t)
                if self.together:
                    # threads whose time comes together wake together
                    for t in timed:
                        if t.deadline is not None and t.deadline <= end:
                            self._expire(t)
                continue
            return None

    def _expire(self, t):
        self.now = max(self.now, t.deadline) + 1e-6
        t.timed_out = True
        t.deadline = None
        t.state = 'runnable'

    def _dispatch(self, cur):
        """Called when cur can't continue (or is None)"""
        try:
            nxt = None if self.aborting else self._pick(None)
        except BaseException as e:
            self.problem = self.problem or e
            nxt = None
            self.aborting = True
        if nxt is None:
            left = [t for t in self.threads if t.state != 'done']
            if left:
                if not self.aborting:
                    self.problem = Deadlock(
                        "no thread can run: %s" % ', '.join(
                            '%s at %s' % (t.name, t.where) for t in left))
                    self.aborting = True
                nxt = left[0]
                if nxt is cur:
                    return True
                nxt.state = 'runnable'
            else:
                self.main.release()
                return False
        self.current = nxt
        if nxt is cur:
            return True
        nxt.sem.release()
        return False

    def point(self):
        """A scheduling point"""
        t = self.me()
        if t is None or self.aborting or t.state == 'done':
            return
        self.npoints += 1
        if self.npoints > self.max_points:
            self.problem = Horizon("more than %i scheduling points" %
                                   self.max_points)
            self.aborting = True
            raise Abort()
        try:
            nxt = self._pick(t)
        except BaseException as e:
            self.problem = e
            self.aborting = True
            raise Abort()
        if nxt is not t:
            self.current = nxt
            nxt.sem.release()
            t.sem.acquire()
            if self.aborting:
                raise Abort()

    def block(self, where, timeout=None):
        """Blocks the current thread, returns False on timeout"""
        t = self.me()
        if self.aborting:
            raise Abort()
        t.state = 'blocked'
        t.where = where
        t.timed_out = False
        t.deadline = None if timeout is None else self.now + max(timeout, 0)
        if not self._dispatch(t):
            t.sem.acquire()
        if self.aborting:
            raise Abort()
        t.state = 'runnable'
        t.deadline = None
        return not t.timed_out

    def _wake(self, t):
        if t.state == 'blocked':
            t.state = 'runnable'
            t.deadline = None

    # -- primitives

    def patch(self):
        return _Patch(self)


class SLock(object):

    def __init__(self, s, reentrant=False):
        self.s = s
        self.owner = None
        self.count = 0
        self.reentrant = reentrant
        self.waiters = []

    def acquire(self, blocking=True, timeout=-1):
        s = self.s
        me = s.me() or s
        if s.aborting:
            return True
        if self.reentrant and self.owner is me:
            self.count += 1
            return True
        s.point()
        if self.owner is None:
            self.owner = me
            self.count = 1
            return True
        if not blocking:
            return False
        if me is s:
            raise Deadlock("main thread blocked on a lock")
        end = None
        if timeout is not None and timeout >= 0:
            end = s.now + timeout
        while self.owner is not None:
            self.waiters.append(me)
            try:
                ok = s.block('lock', None if end is None else end - s.now)
            finally:
                if me in self.waiters:
                    self.waiters.remove(me)
            if not ok and self.owner is not None:
                return False
        self.owner = me
        self.count = 1
        return True

    def release(self):
        s = self.s
        if s.aborting:
            self.owner = None
            return
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        if self.reentrant:
            if self.owner is not (s.me() or s):
                raise RuntimeError("cannot release un-acquired lock")
            self.count -= 1
            if self.count:
                return
        self.owner = None
        for t in list(self.waiters):
            s._wake(t)
        s.point()

    def locked(self):
        return self.owner is not None

    def __enter__(self):
        self.acquire()
        return self

    def __exit__(self, *args):
        self.release()

    # for Condition
    def _is_owned(self):
        return self.owner is (self.s.me() or self.s)

    def _release_save(self):
        c = self.count
        self.count = 1
        self.release()
        return c

    def _acquire_restore(self, c):
        self.acquire()
        self.count = c


class SCondition(object):

    def __init__(self, s, lock=None):
        self.s = s
        self.lock = lock if lock is not None else SLock(s, True)
        self.acquire = self.lock.acquire
        self.release = self.lock.release
        self.waiters = []

    def __enter__(self):
        self.lock.acquire()
        return self

    def __exit__(self, *args):
        self.lock.release()

    def wait(self, timeout=None):
        s = self.s
        if s.aborting:
            raise Abort()
        if not self.lock._is_owned():
            raise RuntimeError("cannot wait on un-acquired lock")
        me = s.me()
        if me is None:
            raise Deadlock("main thread waits")
        w = [me, False]
        self.waiters.append(w)
        # release without a scheduling point: wait is atomic
        lk = self.lock
        count, lk.count, lk.owner = lk.count, 0, None
        for t in list(lk.waiters):
            s._wake(t)
        end = None if timeout is None else s.now + timeout
        ok = True
        try:
            while not w[1]:
                if not s.block('wait', None if end is None
                               else end - s.now):
                    ok = w[1]
                    break
        finally:
            if w in self.waiters:
                self.waiters.remove(w)
            if not s.aborting:
                while lk.owner is not None:
                    lk.waiters.append(me)
                    try:
                        s.block('reacquire')
                    finally:
                        if me in lk.waiters:
                            lk.waiters.remove(me)
            lk.owner = me
            lk.count = count
        return ok

    def wait_for(self, predicate, timeout=None):
        end = None if timeout is None else self.s.now + timeout
        r = predicate()
        while not r:
            left = None
            if end is not None:
                left = end - self.s.now
                if left <= 0:
                    break
            self.wait(left)
            r = predicate()
        return r

    def notify(self, n=1):
        if not self.lock._is_owned() and not self.s.aborting:
            raise RuntimeError("cannot notify on un-acquired lock")
        for w in self.waiters[:n]:
            w[1] = True
            self.s._wake(w[0])
        del self.waiters[:n]

    def notify_all(self):
        self.notify(len(self.waiters))

    notifyAll = notify_all


class SEvent(object):

    def __init__(self, s):
        self.s = s
        self.cond = SCondition(s, SLock(s))
        self.flag = False

    def is_set(self):
        self.s.point()
        return self.flag

    isSet = is_set

    def set(self):
        with self.cond:
            self.flag = True
            self.cond.notify_all()

    def clear(self):
        with self.cond:
            self.flag = False

    def wait(self, timeout=None):
        with self.cond:
            if not self.flag:
                self.cond.wait(timeout)
            return self.flag


def _sthread_class(s):

    class SThread(object):

        def __init__(self, group=None, target=None, name=None, args=(),
                     kwargs=None, daemon=None):
            self._target = target
            self._args = args
            self._kwargs = kwargs or {}
            self.name = name or 'thread'
            self.daemon = True
            self._vt = None

        def run(self):
            if self._target:
                self._target(*self._args, **self._kwargs)

        def start(self):
            self._vt = s.spawn(self.run, self.name)
            s.point()

        @property
        def ident(self):
            return self._vt.ident if self._vt else None

        def is_alive(self):
            return self._vt is not None and self._vt.state != 'done'

        isAlive = is_alive

        def setDaemon(self, d):
            self.daemon = d

        def join(self, timeout=None):
            me = s.me()
            while self._vt.state != 'done':
                self._vt.joiners.append(me)
                if not s.block('join', timeout):
                    return
    return SThread


class _Patch(object):

    def __init__(self, s):
        self.s = s
        self.saved = []

    def _set(self, mod, name, value):
        if hasattr(mod, name):
            self.saved.append((mod, name, getattr(mod, name)))
            setattr(mod, name, value)

    def __enter__(self):
        s = self.s
        real_current = threading.current_thread

        def current_thread():
            return s.me() or real_current()

        real_ident = threading.get_ident

        def get_ident():
            t = s.me()
            return t.ident if t is not None else real_ident()

        def sleep(n):
            if s.me() is None:
                s.now += n
            else:
                s.block('sleep', n)

        self._set(threading, 'Lock', lambda: SLock(s))
        self._set(threading, 'RLock', lambda *a, **k: SLock(s, True))
        self._set(threading, '_allocate_lock', lambda: SLock(s))
        self._set(threading, 'Condition', lambda lock=None:
                  SCondition(s, lock))
        self._set(threading, 'Event', lambda: SEvent(s))
        self._set(threading, 'Thread', _sthread_class(s))
        self._set(threading, 'current_thread', current_thread)
        self._set(threading, 'currentThread', current_thread)
        self._set(threading, 'get_ident', get_ident)
        self._set(time, 'time', lambda: s.now)
        self._set(time, 'monotonic', lambda: s.now)
        self._set(time, 'sleep', sleep)
        return s

    def __exit__(self, *args):
        for mod, name, value in reversed(self.saved):
            setattr(mod, name, value)
