"""C19: filters, orderings and pages of collections of entities"""
import decimal
import itertools

from pyslet import iso8601
from pyslet.odata2 import core as odata
from pyslet.odata2 import csdl as edm

from checks import c18
from mc import edmx

LEVEL = 'model_checking'
RULE = ('all comparisons of operands, arithmetic of two operators, '
        'combinations of three conditions and string functions as filters '
        'on entities with nulls; all orderings by up to two expressions; '
        'all pages of all sizes; both stores against the model')

D = decimal.Decimal

TYPES = [('K', 'Int32'), ('I', 'Int32'), ('S', 'String'), ('T', 'String'),
         ('C', 'Decimal'), ('F', 'Double'), ('B', 'Boolean'),
         ('W', 'DateTime'), ('L', 'Int64')]

#: the entities: K, I, S, T, C, F, B, W, L, Z/I, P
ENTITIES = [
    (1, 3, 'ab', 'b', D('2.5'), 0.5, True, '2013-12-25T15:59:08', 7, 1, 1),
    (2, None, 'a%', 'a_', D('10'), 10.0, False, '1999-01-02T00:00:00', -7,
     None, 2),
    (3, -2, None, "it's", None, None, None, None, None, 3, None),
    (4, 3, 'AB', '', D('-0.5'), -1.5, True, '2013-12-25T15:59:09', 2, 1, 1),
    (5, 10, '', 'ab', D('9.75'), 9.75, None, '2013-12-25T15:59:08', 10, 2,
     None),
    (6, None, 'b ab', None, D('3'), 3.0, False, None, 3, None, 3)]
TARGETS = [(1, 5, 'x'), (2, None, 'ab'), (3, 5, None)]

SOURCE = edmx.HEAD % (
    '<EntitySet Name="Es" EntityType="M.E"/>'
    '<EntitySet Name="Ps" EntityType="M.P"/>'
    '<EntitySet Name="Os" EntityType="M.O"/>'
    '<AssociationSet Name="EP" Association="M.EP">'
    '<End Role="E" EntitySet="Es"/><End Role="P" EntitySet="Ps"/>'
    '</AssociationSet>'
    '<AssociationSet Name="EO" Association="M.EO">'
    '<End Role="E" EntitySet="Es"/><End Role="O" EntitySet="Os"/>'
    '</AssociationSet>',
    '<EntityType Name="E"><Key><PropertyRef Name="K"/></Key>' + ''.join(
        '<Property Name="%s" Type="Edm.%s" Nullable="%s"/>' % (
            n, t, 'false' if n == 'K' else 'true') for n, t in TYPES) +
    '<Property Name="Z" Type="M.Z" Nullable="false"/>'
    '<NavigationProperty Name="P" Relationship="M.EP" FromRole="E" '
    'ToRole="P"/>'
    '<NavigationProperty Name="O" Relationship="M.EO" FromRole="E" '
    'ToRole="O"/></EntityType>'
    '<EntityType Name="P"><Key><PropertyRef Name="K"/></Key>'
    '<Property Name="K" Type="Edm.Int32" Nullable="false"/>'
    '<Property Name="N" Type="Edm.Int32" Nullable="true"/>'
    '<Property Name="S" Type="Edm.String" Nullable="true"/>'
    '<NavigationProperty Name="E" Relationship="M.EP" FromRole="P" '
    'ToRole="E"/></EntityType>'
    '<EntityType Name="O"><Key><PropertyRef Name="K"/></Key>'
    '<Property Name="K" Type="Edm.Int32" Nullable="false"/>'
    '<NavigationProperty Name="E" Relationship="M.EO" FromRole="O" '
    'ToRole="E"/></EntityType>'
    '<ComplexType Name="Z"><Property Name="I" Type="Edm.Int32"/>'
    '</ComplexType>'
    '<Association Name="EP"><End Role="E" Type="M.E" Multiplicity="*"/>'
    '<End Role="P" Type="M.P" Multiplicity="0..1"/></Association>'
    '<Association Name="EO"><End Role="E" Type="M.E" Multiplicity="*"/>'
    '<End Role="O" Type="M.O" Multiplicity="*"/></Association>')


def values_of(row):
    """The values of an entity as the evaluator of C18 wants them"""
    v = {n: (t, row[i]) for i, (n, t) in enumerate(TYPES)}
    v['Z/I'] = ('Int32', row[9])
    target = dict((t[0], t) for t in TARGETS).get(row[10])
    v['P/N'] = ('Int32', target[1]) if target else (None, None)
    v['P/S'] = ('String', target[2]) if target else (None, None)
    v['P/K'] = ('Int32', target[0]) if target else (None, None)
    return v


VALUES = [values_of(r) for r in ENTITIES]


def populate(store):
    """Stores the entities; O has entity 1 linked with 1, 2, 4, 5"""
    with store['Ps'].open() as coll:
        for k, n, s in TARGETS:
            e = coll.new_entity()
            e.set_key(k)
            e['N'].set_from_value(n)
            e['S'].set_from_value(s)
            coll.insert_entity(e)
    with store['Os'].open() as coll:
        for k in (1, 2):
            e = coll.new_entity()
            e.set_key(k)
            coll.insert_entity(e)
    with store['Es'].open() as coll:
        # not in the order of the keys
        for row in ENTITIES[3:] + ENTITIES[:3]:
            e = coll.new_entity()
            for i, (n, t) in enumerate(TYPES):
                e[n].set_from_value(c18.native(t, row[i]))
            e['Z']['I'].set_from_value(row[9])
            if row[10] is not None:
                e['P'].bind_entity(row[10])
            coll.insert_entity(e)
    with store['Os'].open() as coll:
        with store['Es'].open() as es:
            with coll[1]['E'].open() as links:
                for k in (1, 2, 4, 5):
                    links[k] = es[k]
    return store


class Places(object):
    """The collections queried: name -> (entities, opener)"""

    def __init__(self, store):
        self.store = store

    def opened(self, place):
        if place == 'Es':
            return self.store['Es'].open(), None
        name, key = place
        parent = self.store[name].open()
        return parent[key]['E'].open(), parent


PLACES = {'Es': (1, 2, 3, 4, 5, 6), ('Ps', 1): (1, 4), ('Os', 1): (1, 2, 4, 5),
          ('Os', 2): ()}


def expected_keys(place):
    return [i for i, r in enumerate(ENTITIES) if r[0] in PLACES[place]]


# -- filters

COMPARE = 'eq ne lt gt le ge'.split()


def operands():
    p = [('p', n) for n, t in TYPES]
    p += [('m', ('p', 'Z'), 'I'), ('m', ('p', 'P'), 'N'),
          ('m', ('p', 'P'), 'S')]
    return p + [('l', t, v) for t, v in [
        ('Int32', 3), ('Int32', 10), ('Int64', 7), ('Decimal', D('9.75')),
        ('Double', 0.5), ('String', 'ab'), ('String', ''), (None, None),
        ('DateTime', '2013-12-25T15:59:08')]]


def conditions():
    return [('b', 'eq', ('p', 'I'), ('l', 'Int32', 3)),
            ('b', 'gt', ('p', 'L'), ('l', 'Int32', 2)),
            ('b', 'ne', ('p', 'S'), ('l', None, None)),
            ('b', 'eq', ('p', 'I'), ('l', None, None)),
            ('b', 'ne', ('p', 'I'), ('l', 'Int32', 3)),
            ('c', 'startswith', (('p', 'S'), ('l', 'String', 'a'))),
            ('p', 'B'), ('b', 'ge', ('m', ('p', 'P'), 'N'),
                         ('l', 'Int32', 5))]


def filters():
    ops = operands()
    for a in ops:
        for b in ops:
            for op in COMPARE:
                yield ('b', op, a, b)
    # arithmetic
    numbers = [('p', 'I'), ('p', 'L'), ('l', 'Int32', 2), ('p', 'F')]
    for x, y in itertools.product(('add', 'sub', 'mul', 'div'), repeat=2):
        for a, b, c in itertools.product(numbers, repeat=3):
            for op in ('gt', 'eq'):
                for v in (0, 2, 5):
                    z = ('l', 'Int32', v)
                    yield ('b', op, ('b', x, ('b', y, a, b), c), z)
                    yield ('b', op, ('b', x, a, ('b', y, b, c)), z)
    for a in [('p', 'C'), ('p', 'F'), ('p', 'I')]:
        for b in [('l', 'Decimal', D('1.25')), ('p', 'C'),
                  ('l', 'Int32', 2)]:
            for x in ('add', 'sub', 'mul'):
                for op in COMPARE:
                    for c in (('l', 'Decimal', D('9.5')),
                              ('l', 'Decimal', D('12.50')), ('p', 'C'),
                              ('p', 'F')):
                        yield ('b', op, ('b', x, a, b), c)
    # combinations
    cs = conditions()
    for x, y in itertools.product(('and', 'or'), repeat=2):
        for a, b, c in itertools.product(cs, repeat=3):
            yield ('b', x, ('b', y, a, b), c)
            yield ('b', x, a, ('b', y, b, c))
    for a in cs:
        yield a
        yield ('u', 'not', a)
        for b in cs:
            yield ('u', 'not', ('b', 'or', a, b))
    # functions
    ss = [('p', 'S'), ('p', 'T'), ('m', ('p', 'P'), 'S')]
    texts = [('l', 'String', v) for v in (
        '', 'a', 'A', 'ab', '%', '_', 'b', "'", '\\', 'a%')] + ss
    for a in ss + [('l', 'String', 'ab')]:
        for b in texts:
            for m in ('startswith', 'endswith', 'substringof'):
                yield ('c', m, (a, b))
                yield ('c', m, (b, a))
            for v in (-1, 0, 1, 2):
                yield ('b', 'eq', ('c', 'indexof', (a, b)), (
                    'l', 'Int32', v))
            for c in texts[:4]:
                yield ('b', 'eq', ('c', 'concat', (a, b)), c)
                yield ('b', 'eq', ('c', 'replace', (a, b, c)), (
                    'l', 'String', 'ab'))
        for m in ('tolower', 'toupper', 'trim'):
            for b in texts:
                yield ('b', 'eq', ('c', m, (a, )), b)
        for n in (0, 1, 2, 4):
            yield ('b', 'eq', ('c', 'length', (a, )), ('l', 'Int32', n))
            for k in (None, 0, 1, 2):
                yield ('b', 'eq', ('c', 'substring', (
                    a, ('l', 'Int32', n)) + (
                    () if k is None else (('l', 'Int32', k), ))), (
                    'l', 'String', 'b'))
                yield ('b', 'eq', ('c', 'substring', (
                    a, ('l', 'Int32', n)) + (
                    () if k is None else (('l', 'Int32', k), ))), (
                    'l', 'String', ''))
    for m, v in (('year', 2013), ('month', 12), ('day', 25), ('hour', 15),
                 ('minute', 59), ('second', 8), ('second', 9)):
        for op in COMPARE:
            yield ('b', op, ('c', m, (('p', 'W'), )), ('l', 'Int32', v))
    for m in ('round', 'floor', 'ceiling'):
        for a in (('p', 'C'), ('p', 'F')):
            for v in (2, 3, 10, -1, 0):
                yield ('b', 'eq', ('c', m, (a, )), ('l', 'Int32', v))


UNSUPPORTED = {'not', '-', 'mod', 'cast', 'isof', 'round', 'floor', 'ceiling',
               'replace'}


def uses(e):
    """The operators and methods of an expression"""
    r = {e[1]} if e[0] in 'ubct' else set()
    for x in e[1:]:
        if isinstance(x, tuple):
            for y in (x if x and isinstance(x[0], tuple) else [x]):
                if isinstance(y, tuple) and y:
                    r |= uses(y)
    return r


def matches(e):
    """The indexes of the entities that match or None if it's undefined"""
    result = []
    for i, v in enumerate(VALUES):
        try:
            t, r = c18.evaluate(c18.fold(e), v)
        except (c18.Undefined, c18.Anything):
            return None
        if t != 'Boolean':
            return None
        if r:
            result.append(i)
    return result


def doubtful(e, v):
    """Whether null or'd with something decides (SQL has another logic)"""
    if e[0] == 'b' and e[1] == 'or':
        if any(c18.evaluate(c18.fold(x), v)[1] is None for x in e[2:]):
            return True
    if e[0] in 'ub':
        return any(doubtful(x, v) for x in e[2:])
    return False


def check_filters(rec, shard):
    i, n, store_class, source = shard
    store = populate(store_class(SOURCE))
    colls = opened(store)
    for e in itertools.islice(source(), i, None, n):
        m = matches(e)
        s = c18.text(e, False)
        if m is None:
            continue
        rec.case(s)
        doubt = set()
        if store.name == 'sqlds':
            doubt = set(ENTITIES[j][0] for j, v in enumerate(VALUES)
                        if doubtful(e, v))
        try:
            f = odata.CommonExpression.from_str(s)
        except ValueError as err:
            rec.fail('%s refused' % store.name, '%s: %s' % (s, err))
            continue
        for place, (coll, parent) in colls.items():
            rec.transitions += 1
            want = [ENTITIES[j][0] for j in expected_keys(place) if j in m]
            try:
                coll.set_filter(f)
                got = sorted(coll)
                count = len(coll)
                coll.set_page(2)
                paged = [x.key() for x in coll.iterpage(True)]
                paged += [x.key() for x in coll.iterpage(True)]
                paged += [x.key() for x in coll.iterpage(True)]
            except NotImplementedError:
                if store.name == 'memds' or not uses(e) & UNSUPPORTED:
                    rec.fail('%s unsupported %s' % (store.name, shape(e)), s)
                rec.outcome('unsupported')
                break
            except Exception as err:
                rec.fail('%s error %s' % (store.name, shape(e)),
                         '%s: %r' % (s, err))
                # errors close the connection and with it the database
                close(store, colls)
                store = populate(store_class(SOURCE))
                colls = opened(store)
                break
            rec.outcome(len(got))
            if got != paged or count != len(got) or [
                    k for k in got if k not in doubt] != [
                    k for k in want if k not in doubt]:
                rec.fail('%s filter %s' % (store.name, shape(e)),
                         '%s in %r: %r (len %i, pages %r), expected %r' % (
                             s, place, got, count, paged, want))
                break
            for k in (1, 3):
                if (k in coll) != (k in got):
                    rec.fail('%s contains %s' % (store.name, shape(e)),
                             '%s in %r: %i' % (s, place, k))
                    break
    rec.states += 1
    close(store, colls)


def opened(store):
    places = Places(store)
    return dict((place, places.opened(place)) for place in PLACES)


def close(store, colls):
    for coll, parent in colls.values():
        coll.close()
        if parent is not None:
            parent.close()
    store.close()


def shape(e):
    ts = sorted(uses(e))
    return ' '.join(ts)


# -- orderings and pages

ORDERS = [('p', 'I'), ('p', 'S'), ('p', 'K'), ('p', 'B'), ('p', 'C'),
          ('p', 'W'), ('m', ('p', 'P'), 'N'), ('m', ('p', 'Z'), 'I'),
          ('b', 'mul', ('p', 'L'), ('l', 'Int32', 2)),
          ('c', 'length', (('p', 'S'), )),
          ('c', 'concat', (('p', 'T'), ('l', 'String', 'x')))]

FILTERS = [None, ('b', 'gt', ('p', 'K'), ('l', 'Int32', 2)),
           ('b', 'eq', ('p', 'I'), ('l', 'Int32', 3)),
           ('b', 'ge', ('m', ('p', 'P'), 'N'), ('l', 'Int32', 5))]


def order_lists():
    every = [(x, d) for x in ORDERS for d in (1, -1)]
    yield None
    for x in every:
        yield [x]
    for x, y in itertools.permutations(every, 2):
        if x[0] != y[0]:
            yield [x, y]


def order_key(e, i):
    t, v = c18.evaluate(e, VALUES[i])
    return (v is not None, c18.point(t, v) if v is not None else 0)


def sorted_keys(place, filtered, order):
    r = [i for i in expected_keys(place)
         if filtered is None or i in matches(filtered)]
    for e, d in reversed(order or []):
        r.sort(key=lambda i: order_key(e, i), reverse=d < 0)
    return [ENTITIES[i][0] for i in r]


def expression(e):
    return odata.CommonExpression.from_str(c18.text(e, False))


def check_paging(rec, shard):
    i, n, store_class, thorough = shard
    store = populate(store_class(SOURCE))
    places = Places(store)
    for place in PLACES:
        coll, parent = places.opened(place)
        other, parent2 = places.opened(place)
        j = 0
        for order in order_lists():
            if order and len(order) > 1 and not thorough and (
                    place != 'Es' or order[0][0] in ORDERS[7:]):
                continue
            for f in FILTERS:
                j += 1
                if j % n != i:
                    continue
                want = sorted_keys(place, f, order)
                texts = [None if order is None else ','.join(
                    '%s %s' % (c18.text(x, False), 'asc' if d > 0 else 'desc')
                    for x, d in order), None if f is None else
                    c18.text(f, False)]
                for c in (coll, other):
                    c.set_filter(None if f is None else expression(f))
                    c.set_orderby(None if order is None else [
                        (expression(x), d) for x, d in order])
                    c.set_topmax(None)
                rec.case([str(place)] + texts)
                if order is not None:
                    rec.transitions += 1
                    got = [e.key() for e in coll.itervalues()]
                    if [[order_key(x, k - 1) for x, d in order]
                            for k in got] != [
                            [order_key(x, k - 1) for x, d in order]
                            for k in want] or sorted(got) != sorted(want):
                        rec.fail('%s order' % store.name,
                                 '%r: %r, expected %r' % (texts, got, want))
                        continue
                try:
                    pages(rec, store, coll, other, texts, want,
                          SIZES[2 if thorough and place == 'Es' else
                                place == 'Es'])
                except Exception as err:
                    rec.fail('%s error in pages %s' % (
                        store.name, type(err).__name__), '%r %r' % (
                            texts, err))
        for c in (coll, parent, other, parent2):
            if c is not None:
                c.close()
    rec.states += 1
    store.close()


#: skip, top and topmax
SIZES = [((None, 1), (None, 1, 2), (None, 2)),
         ((None, 0, 2, 7), (None, 0, 1, 4, 9), (None, 1, 2, 6)),
         ((None, 0, 1, 2, 5, 7), (None, 0, 1, 2, 4, 6, 9),
          (None, 1, 2, 3, 6))]


def pages(rec, store, coll, other, texts, want, sizes):
    for skip in sizes[0]:
        for top in sizes[1]:
            for topmax in sizes[2]:
                rec.transitions += 1
                what = '%s skip=%s top=%s topmax=%s %r' % (
                    store.name, skip, top, topmax, texts)
                size = min([x for x in (top, topmax) if x is not None] or
                           [100])
                rest = want[skip or 0:]
                # pages that follow by themselves
                coll.set_topmax(topmax)
                coll.set_page(top, skip)
                got = []
                for _ in range(len(want) + 2):
                    got.append([e.key() for e in coll.iterpage(True)])
                    if not got[-1]:
                        break
                expected = [rest[k:k + size] for k in range(
                    0, len(rest), size)] if size else []
                if [g for g in got if g] != expected or got[-1:] == [[]] \
                        and any(not g for g in got[:-1]):
                    rec.fail('%s pages' % store.name, '%s: %r, expected %r' %
                             (what, got, expected))
                    return
                # the same with tokens
                other.set_topmax(topmax)
                token, got = None, []
                for _ in range(len(want) + 2):
                    if token is None:
                        other.set_page(top, skip)
                    else:
                        other.set_page(top, None if skip is None else 0,
                                       token)
                    got.append([e.key() for e in other.iterpage()])
                    token = other.next_skiptoken()
                    if token is None:
                        break
                    if topmax is None or top is not None and top <= topmax:
                        rec.fail('%s token' % store.name, what)
                        return
                if token is not None or sum(got, []) != (
                        rest if topmax is not None and (
                            top is None or top > topmax) else
                        rest[:top] if top is not None else rest) or any(
                        len(g) != size for g in got[:-1]) or \
                        len(got) > 1 and len(got[-2]) < size:
                    rec.fail('%s tokens' % store.name,
                             '%s: %r, last %r, of %r' % (
                                 what, got, token, rest))
                    return


# -- pages of selected properties, long tokens, changes while iterating

def check_selected(rec, shard):
    """Selecting properties doesn't change what is selected from"""
    i, n, store_class = shard
    store = populate(store_class(SOURCE))
    conds = [None] + conditions()
    for place in PLACES:
        coll, parent = Places(store).opened(place)
        j = 0
        for select in (None, ('S', ), ('K', ), ('Z', 'C'), ('*', ), ('P', )):
            for f in conds:
                for order in [None] + [
                        [(x, d)] for x in ORDERS for d in (1, -1)]:
                    j += 1
                    if j % n != i:
                        continue
                    coll.set_expand(None, None if select is None else dict(
                        (x, None) for x in select))
                    coll.set_filter(None if f is None else expression(f))
                    coll.set_orderby(None if order is None else [
                        (expression(x), d) for x, d in order])
                    what = [str(place), select,
                            None if f is None else c18.text(f, False),
                            None if order is None else
                            c18.text(order[0][0], False)]
                    rec.case(what)
                    rec.transitions += 1
                    want = sorted_keys(place, f, order)
                    coll.set_page(None)
                    es = list(coll.iterpage())
                    got = [e.key() for e in es]
                    if order is None:
                        want = sorted(want)
                    if got != want:
                        rec.fail('%s with select' % store.name,
                                 '%r: %r, expected %r' % (what, got, want))
                        continue
                    if len(coll) != len(want):
                        rec.fail('%s len with select' % store.name, what)
                    for e in es + [coll[k] for k in want]:
                        rec.outcome(check_values(rec, store, e, select, what))
                    for k in (1, 3):
                        if (k in coll) != (k in want):
                            rec.fail('%s contains with select' % store.name,
                                     what)
        coll.close()
        if parent is not None:
            parent.close()
    rec.states += 1
    store.close()


def check_values(rec, store, e, select, what):
    row = ENTITIES[e.key() - 1]
    for x, (n, t) in enumerate(TYPES):
        v = row[x]
        if v is not None and t == 'DateTime':
            v = iso8601.TimePoint.from_str(v)
        if select is not None and '*' not in select and n != 'K' and \
                n not in select:
            v = None
        if e[n].value != v:
            rec.fail('%s value with select' % store.name, '%r: %s=%r' % (
                what, n, e[n].value))
    v = row[9]
    if select is not None and '*' not in select and 'Z' not in select:
        v = None
    if e['Z']['I'].value != v:
        rec.fail('%s value with select' % store.name, '%r: Z/I=%r' % (
            what, e['Z']['I'].value))
    return len(select or ())


LONG = ['%s%s' % (c * 600, d) for c in 'ab' for d in 'xyz'] + [
    'a', 'b', 'bc', None]


def check_long(rec, shard):
    """Pages of entities ordered by long strings"""
    store_class, count = shard
    for rows in itertools.combinations(range(len(LONG)), count):
        store = store_class(SOURCE)
        with store['Ps'].open() as coll:
            for k, r in enumerate(rows):
                e = coll.new_entity()
                e.set_key(k)
                e['S'].set_from_value(LONG[r])
                e['N'].set_from_value(k // 2)
                coll.insert_entity(e)
        with store['Ps'].open() as coll:
            for o, d in itertools.product((('S', ), ('N', 'S')), (1, -1)):
                want = list(range(count))
                for x in reversed(o):
                    want.sort(key=lambda k: (
                        LONG[rows[k]] is not None, LONG[rows[k]] or '')
                        if x == 'S' else k // 2, reverse=d < 0)
                for topmax in (1, 2):
                    rec.case([rows, o, d, topmax])
                    rec.transitions += 1
                    coll.set_topmax(topmax)
                    coll.set_orderby([
                        (odata.CommonExpression.from_str(x), d) for x in o])
                    got = []
                    for _ in range(count + 2):
                        got.append([e.key() for e in coll.iterpage(True)])
                    token, got2 = None, []
                    for _ in range(count + 2):
                        coll.set_page(None, None, token)
                        got2.append([e.key() for e in coll.iterpage()])
                        token = coll.next_skiptoken()
                        if token is None:
                            break
                    rec.outcome(len(got2))
                    expected = [want[j:j + topmax]
                                for j in range(0, count, topmax)]
                    if [g for g in got if g] != expected:
                        rec.fail('%s long pages' % store.name,
                                 '%r, expected %r' % (got, expected))
                    if [g for g in got2 if g] != expected:
                        rec.fail('%s long tokens' % store.name,
                                 '%r, expected %r' % (got2, expected))
        store.close()
        rec.states += 1


def check_changes(rec, shard):
    """Entities inserted and deleted while others are iterated over"""
    for linked in (False, True):
        for at in range(5):
            for change in itertools.product(
                    [('del', k) for k in (1, 2, 4, 5)] + [('new', 9)],
                    repeat=2):
                rec.case([linked, at, change])
                rec.transitions += 1
                store = populate(edmx.MemStore(SOURCE))
                place = ('Os', 1) if linked else 'Es'
                there = set(PLACES[place])
                coll, parent = Places(store).opened(place)
                got, gone, added = [], set(), set()
                for j, e in enumerate(coll.itervalues()):
                    got.append(e.key())
                    if j == at:
                        with store['Es'].open() as es:
                            for op, k in change:
                                if op == 'del' and k in es:
                                    del es[k]
                                    gone.add(k)
                                elif op == 'new' and k not in es:
                                    x = es.new_entity()
                                    x.set_key(k)
                                    es.insert_entity(x)
                                    added.add(k)
                if len(set(got)) != len(got) or not (
                        there - gone <= set(got) <= there | added):
                    rec.fail('changed while iterating', got)
                rec.outcome(len(got))
                coll.close()
                if parent is not None:
                    parent.close()
    rec.states += 1


def run(ck):
    n = 8
    for store in (edmx.MemStore, edmx.SQLStore):
        ck.part('filters-%s' % store.name, check_filters,
                [(i, n, store, filters) for i in range(n)],
                'filters on three kinds of collection')
        ck.part('paging-%s' % store.name, check_paging,
                [(i, n, store, ck.thorough) for i in range(n)],
                'orderings, skips, tops and page limits')
        ck.part('selected-%s' % store.name, check_selected,
                [(i, n, store) for i in range(n)],
                'filters and orderings by properties not selected')
        ck.part('long-%s' % store.name, check_long,
                [(store, k) for k in range(1, 6 if ck.thorough else 5)],
                'pages by long strings')
    ck.part('changes', check_changes, [0],
            'inserts and deletes while iterating')
