"""C15: entities and the links between them"""
import itertools

from pyslet.odata2 import csdl as edm

from mc import edmx
from mc.core import shards_of

LEVEL = 'model_checking'
RULE = ('every state the data store can reach, by any history of the '
        'operations on two sets of entities with two keys each, for every '
        'combination of multiplicities of the association between them')

KEYS = (1, 2)
VALUES = {('A', 1): 11, ('A', 2): 12, ('B', 1): 21, ('B', 2): 22}
OTHER = {'A': 'B', 'B': 'A'}


class Fail(Exception):
    """The operation fails (kind: key, constraint or both)"""

    def __init__(self, kind):
        self.kind = kind


class Model(object):
    """Entities {(set, key): value} and links {(a, b)}"""

    def __init__(self, ma, mb, nav, ents=(), links=()):
        self.mult = {'A': ma, 'B': mb}
        self.nav = nav
        self.ents = dict(ents)
        self.links = set(links)
        #: whether the service may refuse instead (the interface doesn't
        #: say)
        self.refusable = False

    def copy(self):
        return Model(self.mult['A'], self.mult['B'], self.nav, self.ents,
                     self.links)

    def state(self):
        return (tuple(sorted(self.ents.items())), tuple(sorted(self.links)))

    @staticmethod
    def pair(s, k, t):
        return (k, t) if s == 'A' else (t, k)

    def linked(self, s, k):
        """Keys linked to k in set s"""
        i = 0 if s == 'A' else 1
        return sorted(x[1 - i] for x in self.links if x[i] == k)

    def need(self, s, k):
        if (s, k) not in self.ents:
            raise Fail('key')

    def link(self, s, k, t):
        """Adds a link, if there is room for it"""
        o = OTHER[s]
        p = self.pair(s, k, t)
        if p in self.links:
            self.refusable = True
            return
        if self.mult[o] != '*' and self.linked(s, k):
            raise Fail('constraint')
        if self.mult[s] != '*' and self.linked(o, t):
            raise Fail('constraint')
        self.links.add(p)

    def check(self):
        """The constraint of required links"""
        for s, k in self.ents:
            if self.mult[OTHER[s]] == '1' and len(self.linked(s, k)) != 1:
                raise Fail('constraint')

    # -- operations

    def insert(self, s, k, binds, from_nav=None):
        o = OTHER[s]
        if self.mult[o] == '1' and from_nav is None and (
                s not in self.nav or not binds):
            raise Fail('both')
        if (s, k) in self.ents:
            raise Fail('constraint')
        self.ents[s, k] = VALUES[s, k]
        if from_nav is not None:
            self.link(o, from_nav, k)
        self.bind(s, k, binds)
        self.check()

    def bind(self, s, k, binds):
        o = OTHER[s]
        if self.mult[o] != '*':
            binds = binds[-1:]
        for t in binds:
            if isinstance(t, tuple):
                # a new entity
                t = t[0]
                if (o, t) in self.ents:
                    raise Fail('constraint')
                if self.mult[o] != '*':
                    for x in self.linked(s, k):
                        self.refusable = True
                        self.links.discard(self.pair(s, k, x))
                self.ents[o, t] = VALUES[o, t]
                self.link(s, k, t)
            else:
                self.need(o, t)
                if self.mult[o] != '*':
                    self.replace1(s, k, t)
                else:
                    self.link(s, k, t)

    def replace1(self, s, k, t):
        for x in self.linked(s, k):
            if x != t:
                self.links.discard(self.pair(s, k, x))
        self.link(s, k, t)

    def update(self, s, k, v, binds):
        self.need(s, k)
        if v is not None:
            self.ents[s, k] = v
        self.bind(s, k, binds)
        self.check()

    def delete(self, s, k):
        self.need(s, k)
        o = OTHER[s]
        if self.mult[s] == '1' and s not in self.nav:
            self.refusable = True
        for t in self.linked(s, k):
            self.links.discard(self.pair(s, k, t))
            if self.mult[s] == '1':
                # they can't do without us
                if s not in self.nav:
                    raise Fail('constraint')
                self.delete(o, t)
        del self.ents[s, k]

    def nav_set(self, s, k, t):
        self.need(s, k)
        self.need(OTHER[s], t)
        self.link(s, k, t)
        self.check()

    def nav_del(self, s, k, t):
        self.need(s, k)
        if self.pair(s, k, t) not in self.links:
            raise Fail('both')
        self.links.discard(self.pair(s, k, t))
        self.check()

    def nav_clear(self, s, k):
        self.need(s, k)
        for t in self.linked(s, k):
            self.links.discard(self.pair(s, k, t))
        self.check()

    def nav_replace(self, s, k, t):
        self.need(s, k)
        self.need(OTHER[s], t)
        self.replace1(s, k, t)
        self.check()

    def nav_insert(self, s, k, t):
        self.need(s, k)
        self.insert(OTHER[s], t, (), from_nav=k)


def operations(model):
    """The operations to try in every state"""
    ops = []
    for s in 'AB':
        o = OTHER[s]
        for k in KEYS:
            binds = [()]
            if s in model.nav:
                binds += [(1, ), (2, ), ((1, ), ), ((2, ), )]
                if model.mult[o] == '*':
                    binds += [(1, 2), (1, (2, ))]
            ops += [('insert', s, k, b) for b in binds]
            v = 111 if (s, k) == ('A', 1) else None
            ops += [('update', s, k, v, b) for b in binds if b or v]
            ops.append(('delete', s, k))
            if s in model.nav:
                ops.append(('nav_clear', s, k))
                for t in KEYS:
                    ops += [(n, s, k, t) for n in (
                        'nav_set', 'nav_del', 'nav_replace', 'nav_insert')]
    return ops


class Real(object):

    def __init__(self, store):
        self.store = store

    def setname(self, s):
        return self.store[s + 's']

    def new(self, s, k, coll):
        e = coll.new_entity()
        e['K'].set_from_value(k)
        e['V'].set_from_value(VALUES[s, k])
        return e

    def bind(self, s, e, binds):
        o = OTHER[s]
        for t in binds:
            if isinstance(t, tuple):
                with self.setname(o).open() as other:
                    n = self.new(o, t[0], other)
                e[o].bind_entity(n)
            elif t % 2:
                # by key
                e[o].bind_entity(t)
            else:
                with self.setname(o).open() as other:
                    e[o].bind_entity(other[t])

    def insert(self, s, k, binds):
        with self.setname(s).open() as coll:
            e = self.new(s, k, coll)
            self.bind(s, e, binds)
            coll.insert_entity(e)

    def update(self, s, k, v, binds):
        with self.setname(s).open() as coll:
            e = coll[k]
            if v is not None:
                e['V'].set_from_value(v)
            self.bind(s, e, binds)
            coll.update_entity(e)

    def delete(self, s, k):
        with self.setname(s).open() as coll:
            del coll[k]

    def nav(self, s, k):
        with self.setname(s).open() as coll:
            return coll[k][OTHER[s]].open()

    def nav_set(self, s, k, t):
        with self.nav(s, k) as nav:
            with self.setname(OTHER[s]).open() as other:
                nav[t] = other[t]

    def nav_del(self, s, k, t):
        with self.nav(s, k) as nav:
            del nav[t]

    def nav_clear(self, s, k):
        with self.nav(s, k) as nav:
            nav.clear()

    def nav_replace(self, s, k, t):
        with self.nav(s, k) as nav:
            with self.setname(OTHER[s]).open() as other:
                nav.replace(other[t])

    def nav_insert(self, s, k, t):
        with self.nav(s, k) as nav:
            nav.insert_entity(self.new(OTHER[s], t, nav))

    def observe(self, navigable):
        """Everything that can be seen, or a problem"""
        ents = {}
        links = {}
        for s in 'AB':
            o = OTHER[s]
            with self.setname(s).open() as coll:
                for k, e in coll.items():
                    if not e.exists:
                        raise AssertionError('entity does not exist')
                    ents[s, k] = e['V'].value
                n = len(coll)
                if n != len([x for x in ents if x[0] == s]):
                    raise AssertionError('length %i' % n)
                for k in KEYS:
                    if (k in coll) != ((s, k) in ents):
                        raise AssertionError('membership of %s%i' % (s, k))
                    if (s, k) not in ents:
                        try:
                            coll[k]
                        except KeyError:
                            continue
                        raise AssertionError('found %s%i' % (s, k))
                    e = coll[k]
                    if e['V'].value != ents[s, k]:
                        raise AssertionError('value of %s%i' % (s, k))
                    if s in navigable:
                        links[s, k] = self.observe_nav(e[o])
        for s, k in ents:
            for t in links.get((s, k), ()):
                if (OTHER[s], t) not in ents:
                    raise AssertionError('dangling link')
        # expanded
        for s in navigable:
            o = OTHER[s]
            with self.setname(s).open() as coll:
                coll.set_expand({o: None})
                for k, e in coll.items():
                    with e[o].open() as nav:
                        if sorted(nav.keys()) != links[s, k]:
                            raise AssertionError('expansion of %s%i' % (s, k))
        return ents, links

    def observe_nav(self, value):
        with value.open() as nav:
            keys = sorted(nav.keys())
            if len(nav) != len(keys):
                raise AssertionError('length of navigation')
            for t in KEYS:
                if (t in nav) != (t in keys):
                    raise AssertionError('membership of navigation')
                try:
                    if nav[t].key() != t or t not in keys:
                        raise AssertionError('item of navigation')
                except KeyError:
                    if t in keys:
                        raise AssertionError('missing item of navigation')
        if not value.isCollection:
            e = value.get_entity()
            if ([] if e is None else [e.key()]) != keys:
                raise AssertionError('get_entity')
        return keys


def apply_model(model, op):
    m = model.copy()
    try:
        getattr(m, op[0])(*op[1:])
        return m, None
    except Fail as e:
        return model, e.kind


def apply_real(real, op):
    try:
        getattr(real, op[0])(*op[1:])
        return None
    except KeyError as e:
        return 'key'
    except edm.NonExistentEntity:
        return 'key'
    except edm.ConstraintError:
        return 'constraint'
    except Exception as e:
        return 'unexpected %r' % e


def explore(rec, shard):
    """Explores all the states the store can reach"""
    store, ma, mb, nav = shard
    real = Real(edmx.STORES[store](edmx.association(ma, mb, nav)))
    model = Model(ma, mb, nav)
    image = real.store.snapshot()
    seen = {(model.state(), image)}
    todo = [(model, image, ())]
    while todo:
        model, image, path = todo.pop(0)
        rec.states += 1
        for op in operations(model):
            case = [store, ma, mb, nav, path + (op, )]
            rec.case(case)
            rec.transitions += 1
            real.store.restore(image)
            m, fail = apply_model(model, op)
            problem = None
            new = None
            got = apply_real(real, op)
            new = real.store.snapshot()
            if m.refusable and got == 'constraint':
                m, fail = model, got
            if got and got.startswith('unexpected'):
                problem = 'crash: %s, expected %s' % (got, fail)
            elif (got is None) != (fail is None):
                problem = 'outcome: %s, expected %s' % (got, fail)
            elif op[0] == 'nav_del' and fail == 'key' and \
                    got != fail or op[0] == 'insert' and not op[3] and \
                    fail == 'constraint' and got != fail:
                problem = 'error: %s, expected %s' % (got, fail)
            if problem is None:
                try:
                    ents, links = real.observe(nav)
                    if ents != m.ents:
                        problem = 'entities: %r, expected %r' % (
                            ents, m.ents)
                    for (s, k), ts in links.items():
                        if ts != m.linked(s, k):
                            problem = 'links: %s%i to %r, expected %r' % (
                                s, k, ts, m.linked(s, k))
                except AssertionError as e:
                    problem = 'inconsistent: %s' % e
            rec.outcome((op[0], got))
            if problem:
                rec.fail('%s %s %s-%s %s %s' % (
                    store, op[0], ma, mb, nav, problem.split(':')[0]),
                    repr((model.state(), op, problem)))
                continue
            key = (m.state(), new)
            if key not in seen:
                seen.add(key)
                todo.append((m, new, path + (op, )))
    real.store.close()
    rec.outcome((ma, mb, nav, len(seen)))


def configs():
    for ma, mb in itertools.product('1?*', repeat=2):
        for nav in ('AB', 'A', 'B'):
            yield ma, mb, nav


def skipped(store, ma, mb, nav):
    # sqlds documents that it doesn't support these
    return store == 'sqlds' and ma == mb == '?'


def run(ck):
    for store in ('memds', 'sqlds'):
        ck.part(store, explore, [
            (store, ) + c for c in configs() if not skipped(store, *c)],
                'all operations in all reachable states of 27 associations')
