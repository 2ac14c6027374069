"""C16: changes to an SQL data service are all or nothing"""
import sqlite3

from mc import edmx
from checks import c15

LEVEL = 'model_checking'
RULE = ('every operation in every reachable state of two linked sets of '
        'entities, with a failure of each kind at every call the operation '
        'makes to the database')


class Fault(object):
    """Counts the calls to the database and makes one of them fail"""

    def __init__(self):
        self.arm(None, None)

    def arm(self, kind, at):
        self.kind = kind
        self.at = at
        self.count = 0
        self.calls = []
        self.committed = False
        self.fired = False

    def call(self, what, dbc, action):
        n = self.count
        self.count += 1
        self.calls.append(what)
        if dbc.dead:
            raise sqlite3.OperationalError('connection lost')
        if n != self.at:
            return action()
        self.fired = True
        if self.kind == 'refused':
            raise sqlite3.DataError('injected')
        if self.kind == 'transient':
            raise sqlite3.OperationalError('injected')
        if self.kind == 'lost':
            dbc.lose()
            raise sqlite3.OperationalError('connection lost')
        assert self.kind == 'late'
        # done, but the reply is lost
        action()
        self.committed = what == 'commit'
        dbc.lose()
        raise sqlite3.OperationalError('reply lost')


class Connection(object):

    def __init__(self, real, fault):
        self.real = real
        self.fault = fault
        self.dead = False
        self.closed = False

    def lose(self):
        self.real.rollback()
        self.dead = True

    def cursor(self):
        if self.dead:
            raise sqlite3.OperationalError('connection lost')
        return Cursor(self, self.real.cursor())

    def commit(self):
        return self.fault.call('commit', self, self.real.commit)

    def rollback(self):
        if self.dead:
            raise sqlite3.OperationalError('connection lost')
        self.real.rollback()

    def close(self):
        self.real.close()
        self.closed = True

    def __getattr__(self, name):
        return getattr(self.real, name)


class Cursor(object):

    def __init__(self, dbc, real):
        self.dbc = dbc
        self.real = real

    def execute(self, sql, params=None):
        return self.dbc.fault.call(
            sql.split(None, 1)[0], self.dbc,
            lambda: self.real.execute(sql, () if params is None else params))

    def __getattr__(self, name):
        return getattr(self.real, name)


class Store(edmx.SQLStore):
    """A store whose database can fail"""

    def __init__(self, source):
        self.fault = Fault()
        self.opened = []
        super(Store, self).__init__(source)

    def make(self, cdef):
        serial = edmx.serial()
        uri = 'file:y%i?mode=memory&cache=shared' % serial
        fault, opened = self.fault, self.opened

        class Container(edmx.sqlds.SQLiteEntityContainer):

            def open(self):
                c = Connection(super(Container, self).open(), fault)
                opened.append(c)
                return c
        self.keeper = sqlite3.connect(uri, uri=True)
        return Container(container=cdef, file_path=uri, max_connections=1,
                         sqlite_options={'uri': True})

    def database(self, connection):
        return self.keeper

    def close(self):
        super(Store, self).close()
        self.keeper.close()


KINDS = ('refused', 'transient', 'lost', 'late')


def explore(rec, shard):
    ma, mb, nav, keep, kinds = shard
    real = c15.Real(Store(edmx.association(ma, mb, nav)))
    store = real.store
    fault = store.fault
    model = c15.Model(ma, mb, nav)
    image = store.snapshot()
    seen = {model.state()}
    todo = [(model, image, ())]
    number = 0
    while todo:
        model, image, path = todo.pop(0)
        rec.states += 1
        for op in c15.operations(model):
            store.restore(image)
            fault.arm(None, None)
            got = c15.apply_real(real, op)
            calls = fault.calls
            m, fail = c15.apply_model(model, op)
            after = store.snapshot()
            if got is None and m.state() not in seen:
                seen.add(m.state())
                todo.append((m, after, path + (op, )))
            number += 1
            if number % keep or op[0] == 'nav_clear':
                # clearing is removing links one by one
                continue
            for kind in kinds:
                for i in range(len(calls)):
                    if (kind in ('transient', 'refused') and
                            calls[i] == 'commit' and kind == 'refused'):
                        continue
                    rec.case([ma, mb, nav, path + (op, ), kind, i])
                    rec.transitions += 1
                    problem = inject(real, image, after, op, kind, i)
                    rec.outcome((kind, calls[i], problem or 'ok'))
                    if problem:
                        rec.fail('%s-%s %s %s %s %s' % (
                            ma, mb, op[0], kind, calls[i], problem),
                            repr((model.state(), op, i, calls)))
    store.close()
    rec.outcome((ma, mb, nav, len(seen)))


def inject(real, image, after, op, kind, i):
    store = real.store
    fault = store.fault
    store.restore(image)
    fault.arm(kind, i)
    got = c15.apply_real(real, op)
    fired, committed = fault.fired, fault.committed
    fault.arm(None, None)
    if not fired:
        return 'not repeatable'
    live = [c for c in store.opened if not c.closed]
    if len(live) > 1:
        for c in live[:-1]:
            c.close()
        return 'connection leaked'
    del store.opened[:]
    store.opened.extend(live)
    if store.container.connection_stats()[0]:
        return 'connection still locked'
    for c in live:
        if not c.dead and c.real.in_transaction:
            c.real.rollback()
            return 'transaction left open'
    now = store.snapshot()
    if got is None:
        if now != after:
            return 'reported success but ' + (
                'nothing changed' if now == image else 'partly done')
    elif now != image and not (committed and now == after):
        return 'failed but ' + ('done' if now == after else 'partly done')
    # and it must work again
    try:
        with store['As'].open() as coll:
            coll.keys()
            len(coll)
    except Exception as e:
        return 'unusable: %s' % type(e).__name__
    return None


def run(ck):
    if ck.thorough:
        shards = [(ma, mb, nav, 1, KINDS) for ma, mb, nav in c15.configs()
                  if not (ma == mb == '?')]
    else:
        shards = [(ma, mb, 'AB', 3, KINDS) for ma, mb, nav in c15.configs()
                  if nav == 'AB' and not (ma == mb == '?')]
    ck.part('faults', explore, shards,
            'each failure at each database call of the operations in every '
            'reachable state')
