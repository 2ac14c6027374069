"""C22: the client and server carry every operation to the store"""
import decimal
import itertools
import uuid

from pyslet import iso8601
from pyslet.odata2 import core as odata
from pyslet.odata2 import csdl as edm
from pyslet.odata2 import server

from checks import c15
from checks import c18
from checks import c19
from mc import edmx
from mc import odataweb

LEVEL = 'model_checking'
RULE = ('all operations through client and server in all reachable states '
        'of small stores; all values and keys of a table; all queries of '
        'C19\'s kind by URL; all media operations to a depth')

OTHER = c15.OTHER


class WebStore(edmx.MemStore):
    """A store in memory with a server and a client for it"""

    name = 'client'

    def __init__(self, source, prefix='', step=1 << 20):
        super(WebStore, self).__init__(source)
        self.server = server.Server(odataweb.ROOT)
        self.server.set_model(self.doc)
        self.client = odataweb.Client(self.server, prefix, step)
        self.client.load_service(odataweb.ROOT)

    def __getitem__(self, name):
        return self.client.feeds[name]

    def direct(self, name):
        return self.cdef[name]


class Direct(c15.Real):

    def setname(self, s):
        return self.store.direct(s + 's')


# -- all operations in all states

def steps(model, op):
    """The states an operation made of several requests passes through"""
    name, s, k = op[:3]
    seq = []
    if name == 'update':
        seq.append(('update', s, k, op[3], ()))
        seq += [('update', s, k, None, (t, )) for t in op[4]]
    elif name == 'insert':
        pass
    elif name == 'nav_insert':
        seq = [('insert', OTHER[s], op[3], ()), ('nav_set', s, k, op[3])]
    elif name == 'nav_replace':
        seq = [('nav_del', s, k, t) for t in model.linked(s, k)]
        seq.append(('nav_set', s, k, op[3]))
    elif name == 'nav_clear':
        seq = [('nav_del', s, k, t) for t in model.linked(s, k)]
    m = model
    yield m
    for x in seq:
        if x[0] == 'update' and isinstance((x[4] or (0, ))[0], tuple):
            # creates it first
            y, fail = c15.apply_model(
                m, ('insert', OTHER[s], x[4][0][0], ()))
            if fail is None:
                yield y
        m, fail = c15.apply_model(m, x)
        if fail is None:
            yield m


def compare(real, nav, m):
    try:
        ents, links = real.observe(nav)
    except AssertionError as e:
        return 'inconsistent: %s' % e
    if ents != m.ents:
        return 'entities: %r, expected %r' % (ents, m.ents)
    for (s, k), ts in links.items():
        if ts != m.linked(s, k):
            return 'links: %s%i to %r, expected %r' % (
                s, k, ts, m.linked(s, k))


def unsupported(model, op):
    """Whether the client documents that it can't do this"""
    s = op[1]
    return model.mult[s] == '1' and model.mult[OTHER[s]] != '*' and \
        OTHER[s] not in model.nav


def explore(rec, shard):
    ma, mb, nav, depth = shard
    store = WebStore(edmx.association(ma, mb, nav))
    web = c15.Real(store)
    direct = Direct(store)
    model = c15.Model(ma, mb, nav)
    if depth is not None:
        # start with all the entities
        for s in 'AB':
            for k in c15.KEYS:
                direct.insert(s, k, ())
                model.insert(s, k, ())
    image = store.snapshot()
    seen = {(model.state(), image)}
    todo = [(model, image, ())]
    while todo:
        model, image, path = todo.pop(0)
        rec.states += 1
        rec.case(['observe', ma, mb, nav, path])
        store.restore(image)
        problem = compare(web, nav, model)
        if problem:
            rec.fail('observed %s-%s %s' % (ma, mb, problem.split(':')[0]),
                     repr((model.state(), problem)))
        if store.snapshot() != image:
            rec.fail('observing changes the store', repr(model.state()))
        for op in c15.operations(model):
            rec.case([ma, mb, nav, path + (op, )])
            rec.transitions += 1
            store.restore(image)
            m, fail = c15.apply_model(model, op)
            problem = None
            store.client.log = []
            got = c15.apply_real(web, op)
            new = store.snapshot()
            if got and 'NotImplementedError' in got and \
                    unsupported(model, op):
                m, fail, got = model, 'constraint', 'constraint'
            if m.refusable and got == 'constraint':
                m, fail = model, got
            if got and got.startswith('unexpected'):
                problem = 'crash: %s, expected %s' % (got, fail)
            elif (got is None) != (fail is None):
                problem = 'outcome: %s, expected %s' % (got, fail)
            elif op[0] == 'nav_del' and fail == 'key' and \
                    got != fail or op[0] == 'insert' and not op[3] and \
                    fail == 'constraint' and got != fail:
                problem = 'error: %s, expected %s' % (got, fail)
            elif fail is None:
                problem = compare(direct, nav, m)
            elif new != image:
                # some of its requests may have been done
                for m in steps(model, op):
                    p = compare(direct, nav, m)
                    if p is None:
                        break
                    problem = problem or p
                else:
                    p = True
                problem = p and problem
            rec.outcome((op[0], got))
            if problem:
                rec.fail('%s %s-%s %s %s' % (
                    op[0], ma, mb, nav, problem.split(':')[0]),
                    repr((model.state(), op, problem, store.client.log)))
                continue
            key = (m.state(), new)
            if fail is None and key not in seen and (
                    depth is None or len(path) < depth):
                seen.add(key)
                todo.append((m, new, path + (op, )))
    rec.outcome((ma, mb, nav, len(seen)))


#: configurations with many states
BIG = {('?', '?', 'A'), ('?', '?', 'B'), ('*', '*', 'AB'), ('*', '*', 'A'), ('*', '*', 'B'), ('?', '*', 'AB'),
       ('*', '?', 'AB'), ('?', '*', 'B'), ('*', '?', 'A'), ('?', '*', 'A'),
       ('*', '?', 'B'), ('?', '?', 'AB')}


# -- all kinds of values, and of keys

D = decimal.Decimal


def T(s):
    return iso8601.TimePoint.from_str(s)


STRINGS = [
    '', ' ', '  a  b ', 'a', "'", "a'b", "''", '<&>"', ']]>', '%', '%27',
    '%2F', '/', '//', 'a/b', '?', '#', '+', '&', '=', ';', ',', '(', ')',
    "(1)", "x'00'", 'a,b=c', '..', '.', 'null', '1', '\xe9', '\u20ac',
    '\U0001d11e', '\xc3\xa9', '$links', '$value', ':', '@', '!*~-_', '\\',
    '{[|]}^`', 'x' * 3000]
#: not in URLs
TEXTS = ['\n', '\r\n', 'a\rb', '\t', ' \n\t ', '\x85', '\u2028', '\ufffd',
         '<![CDATA[x]]>', '<!-- -->', '&amp;', '&#10;']

VALUES = {
    'Binary': [b'', b'\x00', b'ab', bytes(range(256))],
    'Boolean': [True, False],
    'Byte': [0, 1, 255],
    'SByte': [-128, 0, 127],
    'Int16': [-32768, 0, 32767],
    'Int32': [-2147483648, 0, 7, 2147483647],
    'Int64': [-9223372036854775808, 0, 9223372036854775807],
    'Decimal': [D('0'), D('-1.50'), D('0.0001'), D('1E+5'),
                D('1234567890123456789012345.6789')],
    'Double': [0.0, 1.5, -0.1, 1e300, 1e-300, 123456789.123456789, 5e-324],
    'Single': [0.0, 1.5, -0.25, 2.0 ** 100, 2.0 ** -100],
    'DateTime': [T('2013-12-25T15:59:08'), T('2013-12-25T15:59:08.123'),
                 T('1753-01-01T00:00:00'), T('9999-12-31T23:59:59.999')],
    'DateTimeOffset': [T('2013-12-25T15:59:08Z'),
                       T('2013-12-25T15:59:08+05:30'),
                       T('2013-12-25T15:59:08.5-08:00')],
    'Time': [iso8601.Time.from_str(s)
             for s in ('00:00:00', '01:02:03', '23:59:59.999')],
    'Guid': [uuid.UUID(int=0), uuid.UUID(int=2 ** 128 - 1),
             uuid.UUID('01234567-89ab-cdef-0123-456789abcdef')],
    'String': STRINGS + TEXTS}

NAMES = sorted(VALUES)

SOURCE = edmx.HEAD % (
    '<EntitySet Name="Vs" EntityType="M.V"/>' + ''.join(
        '<EntitySet Name="K%s" EntityType="M.K%s"/>' % (t, t)
        for t in NAMES + ['Two']) +
    '<EntitySet Name="Ls" EntityType="M.L"/>'
    '<AssociationSet Name="LK" Association="M.LK"><End Role="L" '
    'EntitySet="Ls"/><End Role="K" EntitySet="KString"/></AssociationSet>'
    '<AssociationSet Name="LT" Association="M.LT"><End Role="L" '
    'EntitySet="Ls"/><End Role="T" EntitySet="KTwo"/></AssociationSet>',
    '<EntityType Name="V"><Key><PropertyRef Name="K"/></Key>'
    '<Property Name="K" Type="Edm.Int32" Nullable="false"/>' + ''.join(
        '<Property Name="P%s" Type="Edm.%s" Nullable="true"%s/>' % (
            t, t, ' Precision="3"' if 'Time' in t else '')
        for t in NAMES) +
    '<Property Name="Z" Type="M.Z" Nullable="false"/></EntityType>'
    '<ComplexType Name="Z"><Property Name="S" Type="Edm.String"/>'
    '<Property Name="Y" Type="M.Y" Nullable="false"/></ComplexType>'
    '<ComplexType Name="Y"><Property Name="S" Type="Edm.String"/>'
    '<Property Name="I" Type="Edm.Int32"/></ComplexType>' + ''.join(
        '<EntityType Name="K%s"><Key><PropertyRef Name="K"/></Key>'
        '<Property Name="K" Type="Edm.%s" Nullable="false"%s/>'
        '<Property Name="V" Type="Edm.Int32" Nullable="true"/>%s'
        '</EntityType>' % (
            t, t, ' Precision="3"' if 'Time' in t else '',
            '<NavigationProperty Name="L" Relationship="M.LK" '
            'FromRole="K" ToRole="L"/>' if t == 'String' else '')
        for t in NAMES) +
    '<EntityType Name="KTwo"><Key><PropertyRef Name="K"/>'
    '<PropertyRef Name="J"/></Key>'
    '<Property Name="K" Type="Edm.String" Nullable="false"/>'
    '<Property Name="J" Type="Edm.Int64" Nullable="false"/>'
    '<Property Name="V" Type="Edm.Int32" Nullable="true"/>'
    '<NavigationProperty Name="L" Relationship="M.LT" FromRole="T" '
    'ToRole="L"/></EntityType>'
    '<EntityType Name="L"><Key><PropertyRef Name="K"/></Key>'
    '<Property Name="K" Type="Edm.Int32" Nullable="false"/>'
    '<NavigationProperty Name="KS" Relationship="M.LK" FromRole="L" '
    'ToRole="K"/>'
    '<NavigationProperty Name="KT" Relationship="M.LT" FromRole="L" '
    'ToRole="T"/></EntityType>'
    '<Association Name="LK"><End Role="L" Type="M.L" Multiplicity="*"/>'
    '<End Role="K" Type="M.KString" Multiplicity="0..1"/></Association>'
    '<Association Name="LT"><End Role="L" Type="M.L" Multiplicity="*"/>'
    '<End Role="T" Type="M.KTwo" Multiplicity="*"/></Association>')


def same(v, w):
    if isinstance(v, float) and isinstance(w, float):
        # or the same in single precision
        return v == w or (
            v in VALUES['Single'] or w in VALUES['Single']) and abs(
                v - w) < abs(v) * 1e-7
    return type(v) == type(w) and v == w


def put(e, name, v):
    e[name].set_from_value(v)


def check_values(rec, shard):
    """Every value, before and after every other"""
    t, i, n, thorough = shard
    store = WebStore(SOURCE)
    name = 'P' + t
    others = [n for n in NAMES if n != t]
    with store['Vs'].open() as coll, store.direct('Vs').open() as direct:
        image = store.snapshot()
        for v in (VALUES[t] + [None])[i::n]:
            rec.case([t, str(v)[:40], 'insert'])
            rec.states += 1
            store.restore(image)
            e = coll.new_entity()
            e.set_key(1)
            put(e, name, v)
            put(e, 'P' + others[0], VALUES[others[0]][1])
            coll.insert_entity(e)

            def expect(w, what):
                rec.outcome((t, what))
                for x, where in ((e, 'entity'), (direct[1], 'store'),
                                 (coll[1], 'read'), (list(coll.values())[0],
                                                     'listed')):
                    got = x[name].value
                    if not same(got, w):
                        rec.fail('%s %s %s' % (t, what, where),
                                 '%r: %r' % (w, got))
                    for n in others:
                        u = VALUES[n][1] if n == others[0] else None
                        if not same(x['P' + n].value, u):
                            rec.fail('%s %s another property' % (t, what),
                                     n)
            expect(v, 'inserted')
            if v is not None and t not in ('Binary', 'Boolean', 'SByte',
                                           'Time') and not (
                    t == 'String' and (v in TEXTS or v == STRINGS[-1])):
                lit = odata.ODataURI.format_literal(e[name])
                coll.set_filter(odata.CommonExpression.from_str(
                    '%s eq %s' % (name, lit)))
                if [x.key() for x in coll.values()] != [1]:
                    rec.fail('%s filter' % t, lit)
                coll.set_filter(odata.CommonExpression.from_str(
                    '%s ne %s' % (name, lit)))
                if len(coll):
                    rec.fail('%s filter' % t, lit)
                coll.set_filter(None)
            before = store.snapshot()
            after = VALUES[t] + [None]
            if t == 'String' and not thorough:
                # some of the others
                after = ['', '  a  b ', 'a\rb', None]
            for w in after:
                for merge in (True, False):
                    rec.case([t, str(v)[:40], str(w)[:40], merge])
                    rec.transitions += 1
                    store.restore(before)
                    if merge:
                        coll.set_expand(None, {name: None})
                    e = coll[1]
                    if merge:
                        coll.set_expand(None, None)
                        if [n for n in others
                                if e['P' + n].value is not None]:
                            rec.fail('%s selection' % t, repr(v))
                    put(e, name, w)
                    coll.update_entity(e)
                    if merge:
                        e = coll[1]
                    expect(w, 'updated')


def check_complex(rec, shard):
    i, n, thorough = shard
    store = WebStore(SOURCE)
    values = [None, '', 'a b', ' \n']
    with store['Vs'].open() as coll, store.direct('Vs').open() as direct:
        image = store.snapshot()
        every = list(itertools.product(values, values, (None, 0, -3)))
        for v in every[i::n]:
            for w in every if thorough else every[::5]:
                rec.case([v, w])
                rec.transitions += 1
                store.restore(image)
                e = coll.new_entity()
                e.set_key(1)
                for x in (v, w):
                    put(e['Z'], 'S', x[0])
                    put(e['Z']['Y'], 'S', x[1])
                    put(e['Z']['Y'], 'I', x[2])
                    if x is v:
                        coll.insert_entity(e)
                    else:
                        coll.update_entity(e)
                    for d in (e, coll[1], direct[1]):
                        got = (d['Z']['S'].value, d['Z']['Y']['S'].value,
                               d['Z']['Y']['I'].value)
                        if got != x:
                            rec.fail('complex', repr((x, got)))
                    if v == w:
                        break
                rec.outcome((v[2], w[2]))


def keys_of(t):
    if t == 'Two':
        return [(s, 1) for s in STRINGS[:-1]] + [
            (s, -5) for s in ("'", 'a/b', '', '\xe9')]
    if t == 'String':
        return STRINGS[:-1]
    return VALUES[t]


def check_keys(rec, shard):
    """Every pair of keys: each addresses its own entity"""
    t, i, n = shard
    store = WebStore(SOURCE)
    linked = {'String': 'KS', 'Two': 'KT'}.get(t)
    keys = keys_of(t)
    with store['K' + t].open() as coll, \
            store.direct('K' + t).open() as direct:
        image = store.snapshot()
        for v in keys[i::n]:
            rec.case([t, str(v)])
            rec.states += 1
            store.restore(image)
            e = coll.new_entity()
            e.set_key(v)
            put(e, 'V', 1)
            coll.insert_entity(e)
            if t == 'Single' and same(e.key(), v):
                # in single precision
                v = e.key()
            if e.key() != v or v not in direct or not same(
                    direct[v].key(), v):
                rec.fail('%s inserted' % t, repr((v, e.key())))
                continue
            if linked:
                with store['Ls'].open() as ls:
                    x = ls.new_entity()
                    x.set_key(1)
                    ls.insert_entity(x)
                    check_links(rec, store, x, linked, e, t, v)
            one = store.snapshot()
            for w in keys:
                rec.case([t, str(v), str(w)])
                if t == 'Single' and same(v, w):
                    w = v
                rec.transitions += 1
                store.restore(one)
                if (w in coll) != (w == v):
                    rec.fail('%s contains' % t, repr((v, w)))
                try:
                    x = coll[w]
                    if w != v or not same(x.key(), v):
                        rec.fail('%s item' % t, repr((v, w)))
                except KeyError:
                    if v == w:
                        rec.fail('%s missing' % t, repr(v))
                        break
                if v == w:
                    y = coll[v]
                    put(y, 'V', 2)
                    coll.update_entity(y)
                    if [(z.key(), z['V'].value) for z in direct.values()] != [
                            (v, 2)]:
                        rec.fail('%s update' % t, repr(v))
                    try:
                        coll.insert_entity(_entity(coll, v))
                        rec.fail('%s inserted twice' % t, repr(v))
                    except edm.ConstraintError:
                        pass
                    del coll[v]
                    want = []
                else:
                    try:
                        del coll[w]
                        rec.fail('%s deleted' % t, repr((v, w)))
                    except KeyError:
                        pass
                    coll.insert_entity(_entity(coll, w))
                    found = list(coll.keys())
                    if len(found) != 2 or not any(
                            same(found[0], x) and same(found[1], y)
                            for x, y in ((v, w), (w, v))):
                        rec.fail('%s keys' % t, repr((v, w, found)))
                    del coll[v]
                    want = [w]
                if len(direct) != len(want) or not all(
                        same(*x) for x in zip(direct.keys(), want)) or len(coll) != len(want):
                    rec.fail('%s delete' % t, repr((v, w)))
                rec.outcome((t, len(want)))


def check_links(rec, store, x, name, e, t, v):
    """Links to and from an entity with key v"""
    with x[name].open() as nav, store.direct('Ls').open() as ls, \
            e['L'].open() as back:
        nav[v] = e
        rec.transitions += 1
        if [k for k in ls[1][name].open()] != [v] or list(nav) != [v] or \
                not same(nav[v].key(), v) or list(back) != [1] or \
                back[1].key() != 1:
            rec.fail('%s linked' % t, repr(v))
        del nav[v]
        if len(nav) or len(back):
            rec.fail('%s unlinked' % t, repr(v))
        back[1] = x
        if list(nav) != [v]:
            rec.fail('%s linked back' % t, repr(v))
        nav.replace(e)
        if list(nav) != [v]:
            rec.fail('%s replaced' % t, repr(v))
        del back[1]
        if len(nav) or len(back):
            rec.fail('%s unlinked' % t, repr(v))
    with store['Ls'].open() as coll:
        y = coll.new_entity()
        y.set_key(2)
        y[name].bind_entity(v)
        coll.insert_entity(y)
        if list(store['Ls'].open()[2][name].open()) != [v]:
            rec.fail('%s bound' % t, repr(v))
        del coll[2]


def _entity(coll, key):
    e = coll.new_entity()
    e.set_key(key)
    return e


# -- queries by URL, on the entities of C19

def filters():
    ops = c19.operands()
    for a in ops:
        for b in ops:
            for op in ('eq', 'ge'):
                yield ('b', op, a, b)
    numbers = [('p', 'I'), ('p', 'L'), ('l', 'Int32', 2)]
    for x, y in itertools.product(('add', 'sub', 'mul', 'div'), repeat=2):
        z = ('l', 'Int32', 2)
        a, b, c = numbers
        yield ('b', 'gt', ('b', x, ('b', y, a, b), c), z)
        yield ('b', 'gt', ('b', x, a, ('b', y, b, c)), z)
    cs = c19.conditions()[:5]
    for x, y in itertools.product(('and', 'or'), repeat=2):
        for a, b, c in itertools.product(cs, repeat=3):
            yield ('b', x, ('b', y, a, b), c)
            yield ('b', x, a, ('b', y, b, c))
    for a in cs:
        yield a
        yield ('u', 'not', a)
        for b in cs:
            yield ('u', 'not', ('b', 'or', a, b))
    # text that URLs have to escape
    for a in (('p', 'S'), ('p', 'T')):
        for v in ('%', '_', "'", "''", '\\', '&', '+', '#', '?', '/', '\xe9',
                  '\u20ac', ' ', '%27', '%2B', '=', ';', ',', '"', '<', 'a%',
                  'a_', "it's", '$filter', '(', ')'):
            b = ('l', 'String', v)
            yield ('b', 'ne', a, b)
            yield ('c', 'startswith', (a, b))
            yield ('b', 'eq', ('c', 'concat', (a, b)), (
                'l', 'String', 'a%' + v))
    for m, v in (('year', 2013), ('month', 12), ('second', 8)):
        yield ('b', 'ge', ('c', m, (('p', 'W'), )), ('l', 'Int32', v))


def populated():
    return c19.populate(WebStore(c19.SOURCE))


def check_orders(rec, shard):
    """Orderings, skips, tops and the server's own limits"""
    i, n, thorough = shard
    store = populated()
    places = c19.Places(store)
    j = 0
    for place in c19.PLACES:
        coll, parent = places.opened(place)
        for order in c19.order_lists():
            if order and len(order) > 1 and (place != 'Es' or not thorough
                                             and order[0][0] != c19.ORDERS[0]):
                continue
            for f in c19.FILTERS:
                j += 1
                if j % n != i:
                    continue
                want = c19.sorted_keys(place, f, order)
                coll.set_filter(None if f is None else c19.expression(f))
                coll.set_orderby(None if order is None else [
                    (c19.expression(x), d) for x, d in order])
                case = [str(place), None if f is None else
                        c18.text(f, False), None if order is None else
                        [(c18.text(x, False), d) for x, d in order]]
                rec.states += 1
                for limit in (1, 2, 6, 100):
                    store.server.topmax = limit
                    rec.case(case + [limit])
                    rec.transitions += 1
                    coll.set_page(None)
                    got = [e.key() for e in coll.values()]
                    if got != want:
                        rec.fail('values', '%r: %r, expected %r' % (
                            case, got, want))
                    if len(coll) != len(want):
                        rec.fail('len', repr(case))
                    for top, skip in ((1, None), (2, None), (None, 2),
                                      (3, 1), (2, 9), (0, None)):
                        rec.case(case + [limit, top, skip])
                        rec.transitions += 1
                        size = min([limit] + ([] if top is None else [top]))
                        rest = want[skip or 0:]
                        coll.set_page(top, skip)
                        got = []
                        for _ in range(len(want) + 2):
                            got.append([e.key() for e in coll.iterpage(True)])
                            if not got[-1]:
                                break
                        expected = [rest[k:k + size] for k in range(
                            0, len(rest), size)] if size else []
                        rec.outcome(len(got))
                        if [g for g in got if g] != expected:
                            rec.fail('pages', '%r top %r skip %r: %r' % (
                                case, top, skip, got))
        coll.close()
        if parent is not None:
            parent.close()


EXPANDS = [{'P': None}, {'O': None}, {'P': None, 'O': None},
           {'P': {'E': None}}, {'O': {'E': {'P': None}}}]


def check_expansions(rec, shard):
    """Selected properties and expanded navigation"""
    store = populated()
    for expand in EXPANDS:
        for names in (None, ('S', ), ('K', 'Z'), ('*', )):
            select = None
            if names is not None:
                select = dict((x, None) for x in names)
                for x in expand:
                    select[x] = {'E': None} if x == 'O' and expand[x] \
                        else None
            rec.states += 1
            with store['Es'].open() as coll:
                coll.set_expand(expand, select)
                case = [sorted(expand), names]
                rec.case(case)
                for way in ('values', 'item', 'page', 'filter'):
                    if way == 'values':
                        found = coll.values()
                    elif way == 'item':
                        found = [coll[r[0]] for r in c19.ENTITIES]
                    elif way == 'page':
                        coll.set_page(10)
                        found = list(coll.iterpage())
                    else:
                        coll.set_filter(odata.CommonExpression.from_str(
                            'K ge 3'))
                        found = coll.values()
                        found += [coll[r[0]] for r in c19.ENTITIES[2:]]
                        coll.set_filter(None)
                    store.client.log = []
                    for e in found:
                        rec.transitions += 1
                        c19.check_values(rec, store, e, names, case)
                        check_expanded(rec, e, expand, case)
                    if store.client.log:
                        rec.fail('not expanded', '%r: %r' % (
                            case, store.client.log[:2]))
                    rec.outcome((way, len(found)))


LINKS = {1: [1], 2: [1], 3: [], 4: [1], 5: [1], 6: []}


def check_expanded(rec, e, expand, case):
    k = e.key()
    row = c19.ENTITIES[k - 1]
    if 'P' in expand:
        p = e['P'].get_entity()
        if (p and p.key()) != row[10]:
            rec.fail('expanded P', repr((case, k, p)))
        elif p is not None:
            if (p['N'].value, p['S'].value) != [
                    t for t in c19.TARGETS if t[0] == row[10]][0][1:]:
                rec.fail('expanded P', repr((case, k)))
            if expand['P']:
                back = [x for x in p['E'].open()]
                if sorted(back) != [r[0] for r in c19.ENTITIES
                                    if r[10] == row[10]]:
                    rec.fail('expanded P/E', repr((case, k, back)))
    if 'O' in expand:
        with e['O'].open() as nav:
            if list(nav) != LINKS[k]:
                rec.fail('expanded O', repr((case, k)))
            for o in nav.values():
                if expand['O']:
                    back = o['E'].open().values()
                    if sorted(x.key() for x in back) != [1, 2, 4, 5]:
                        rec.fail('expanded O/E', repr((case, k)))
                    for x in back:
                        check_expanded(rec, x, {'P': None}, case)


def run(ck):
    shards = [c + (None, ) for c in c15.configs()
              if c not in BIG or ck.thorough]
    if not ck.thorough:
        shards += [c + (1, ) for c in [
            ('?', '*', 'AB'), ('*', '*', 'AB'), ('?', '?', 'AB'),
            ('*', '?', 'A'), ('*', '*', 'B')]]
    shards.sort(key=lambda c: (c[:3] not in BIG, -len(c[2]), c[:3]))
    ck.part('links', explore, shards,
            'all operations in all reachable states of associations')
    n = 8
    ck.part('values', check_values, [
        (t, i, n if t == 'String' else 1, ck.thorough)
        for t in ['String'] + [x for x in NAMES if x != 'String']
        for i in range(n if t == 'String' else 1)],
            'updates of every value of each type to every other')
    ck.part('complex', check_complex, [(i, n, ck.thorough) for i in range(n)],
            'values of complex properties')
    ck.part('keys', check_keys, [
        (t, i, n) for t in ('Two', 'String') for i in range(n)] + [
        (t, 0, 1) for t in NAMES if t != 'String'],
        'entities with pairs of keys, and links to them')
    ck.part('filters', c19.check_filters, [
        (i, n, WebStore, c19.filters if ck.thorough else filters)
        for i in range(n)], 'filters sent to three kinds of collection')
    ck.part('orders', check_orders, [(i, n, ck.thorough) for i in range(n)],
            'orderings, pages and limits of the server')
    ck.part('expansions', check_expansions, [0],
            'expanded navigation and selected properties')
