"""C28: LTI tool providers: launches, visits, consumers"""
import html
import io
import itertools
import re
import urllib.parse

from oauthlib import oauth1
from oauthlib.oauth1.rfc5849.endpoints import base as oauth_base

from pyslet import imsbltiv1p0 as lti
from pyslet.rfc2396 import URI

from checks import c27
from checks.c27 import (CLOCK, Clock, Options, ROOT, UAS, cookie_header,
                        header, request, set_cookies)
from mc.core import shards_of

LEVEL = 'model_checking'
RULE = ('every history of launches, waits and lost cookies of two browsers up '
        'to the stated depth (histories reaching a model state already '
        'reached are not extended beyond a depth), every single change to a '
        'signed launch, every history of nonces, every pair of roles, every '
        'history of launch details, against a model')

lti.time = CLOCK
oauth_base.time = CLOCK
FORM = 'application/x-www-form-urlencoded'
SECRETS = {'12345': 'secret', 'key 2': 's&c=r%t'}


class SiloOptions(Options):
    create_silo = True


class App(lti.ToolProviderApp):
    seen = None

    def load_visit(self, context):
        super(App, self).load_visit(context)
        App.seen = (context.consumer.key,
                    context.resource['LinkID'].value,
                    context.user and context.user['UserID'].value,
                    context.permissions,
                    context.group and context.group['ContextID'].value)


def new_app():
    App.setup(SiloOptions())
    with App.container['Silos'].open() as silos:
        silo = silos.values()[0]
    with silo['Consumers'].open() as consumers:
        c = lti.ToolConsumer.new_from_values(
            consumers.new_entity(), App.new_app_cipher(), 'second',
            key='key 2', secret=SECRETS['key 2'])
        consumers.insert_entity(c.entity)
    c27.OCTETS.n = 0
    CLOCK.now = Clock.EPOCH
    return App()


NONCES = itertools.count(1)


def signed(params, key='12345', secret=None, nonce=None, ts=None,
           url=ROOT + '/launch'):
    """The parameters of a signed launch"""
    client = oauth1.Client(
        key, client_secret=SECRETS.get(key, 'x') if secret is None
        else secret,
        signature_type=oauth1.SIGNATURE_TYPE_BODY,
        timestamp=str(CLOCK.now if ts is None else ts),
        nonce='nonce%030i' % next(NONCES) if nonce is None else nonce)
    p = {'lti_message_type': 'basic-lti-launch-request',
         'lti_version': 'LTI-1p0'}
    p.update(params)
    p = {k: v for k, v in p.items() if v is not None}
    body = client.sign(url, 'POST', body=p,
                       headers={'Content-Type': FORM})[2]
    return urllib.parse.parse_qsl(body, keep_blank_values=True)


def post(app, jar, params, ua=UAS[0]):
    code, headers, data = request(
        app, '/launch', '', 'POST', cookie_header(jar), ua,
        urllib.parse.urlencode(params).encode('ascii'), FORM)
    return code, set_cookies(jar, headers), header(headers, 'location'), data


def get(app, jar, loc):
    u = urllib.parse.urlsplit(loc)
    code, headers, data = request(app, urllib.parse.unquote_to_bytes(u.path),
                                  u.query, 'GET', cookie_header(jar), UAS[0])
    return code, set_cookies(jar, headers), header(headers, 'location'), data


def follow(app, jar, code, loc, data):
    for i in range(6):
        if loc is None or code == 200:
            break
        path = urllib.parse.urlsplit(loc).path
        code, jar, loc, data = get(app, jar, loc)
    else:
        return 599, jar, '', data
    return code, jar, path if loc is None else loc, data


def counts():
    out = []
    for name in ('Contexts', 'Users', 'Resources', 'Visits'):
        with App.container[name].open() as c:
            out.append(len(c))
    return out


# Launches

BASE = {'resource_link_id': 'r1', 'user_id': 'u1', 'roles': 'Learner',
        'context_id': 'c1', 'lis_person_name_full': u'Zo\xeb <&> "Q"'}


def launches(rec, _):
    app = new_app()

    def attempt(what, params, want, ua=UAS[0]):
        rec.case({'launch': what, 'parameters': repr(params)})
        before = counts()
        try:
            code, jar, loc, data = post(app, {}, params, ua)
        except Exception as e:
            rec.fail('launch-raise:%s' % what, repr(e))
            return
        if code != want:
            rec.fail('launch:%s' % what, '%s: %r: status %i, not %i' %
                     (what, params, code, want))
        if want != 303 and (counts() != before or loc):
            rec.fail('launch-stored:%s' % what,
                     '%s: refused launch stored data' % what)
        rec.outcome((code, want))

    for key in SECRETS:
        good = signed(BASE, key)
        attempt('good', good, 303)
        attempt('replayed', good, 403)
        for other in ('secret2', '', 'Secret', SECRETS[key] + ' ',
                      [s for k, s in SECRETS.items() if k != key][0]):
            attempt('secret:%s' % other, signed(BASE, key, other), 403)
        for d in (-100000, -601, 601, 100000):
            attempt('time:%i' % d, signed(BASE, key, ts=CLOCK.now + d), 403)
        for d in (-599, 0, 599):
            attempt('time:%i' % d, signed(BASE, key, ts=CLOCK.now + d), 303)
        attempt('url', signed(BASE, key, url=ROOT + '/other'), 403)
        n = len(good)
        for i in range(n):
            # each parameter changed, dropped, repeated after signing
            for how in ('change', 'drop', 'repeat', 'name'):
                p = signed(BASE, key)
                name, value = p[i]
                if how == 'change':
                    if name in ('oauth_version', 'oauth_signature_method',
                                'oauth_timestamp'):
                        continue
                    p[i] = (name, value[:-2] + (
                        'X' if value[-2:-1] != 'X' else 'Y') + value[-1:])
                elif how == 'drop':
                    del p[i]
                elif how == 'repeat':
                    p.append((name, value))
                else:
                    p[i] = (name + 'x', value)
                attempt('%s:%s' % (how, name), p, 403)
        for name, value in (('custom_x', '1'), ('roles', 'Instructor'),
                            ('user_id', '')):
            attempt('add:%s' % name, signed(BASE, key) + [(name, value)],
                    303 if value == '' and False else 403)
    for key in ('nosuch', '12345 ', '1234', 'KEY 2'):
        for secret in list(SECRETS.values()) + [
                'secret', lti.ToolProvider.dummy_secret]:
            attempt('key:%s:%s' % (key, secret), signed(BASE, key, secret),
                    403)
    attempt('empty', [], 403)
    attempt('unsigned', sorted(BASE.items()), 403)
    for name, value, want in (
            ('lti_version', None, 400), ('lti_version', 'LTI-2p0', 400),
            ('lti_version', 'LTI-1p0', 303), ('lti_message_type', None, 400),
            ('lti_message_type', 'ContentItemSelectionRequest', 400),
            ('lti_message_type', 'Basic-LTI-Launch-Request', 303),
            ('resource_link_id', None, 400), ('user_id', None, 303),
            ('roles', None, 303), ('roles', 'Nobody', 303),
            ('roles', 'http://example.com/x', 303),
            ('roles', 'urn:x:y,Learner', 303), ('context_id', None, 303),
            ('context_type', 'CourseSection', 303),
            ('context_type', 'Club,CourseSection', 303),
            ('context_type', 'http://example.com/x , Group', 303),
            ('custom_caf\xe9', u'\u20ac &=%', 303),
            ('lis_person_name_full', u'\u4e2d', 303)):
        attempt('%s=%s' % (name, value), signed(dict(BASE, **{name: value})),
                want)


NONCE_STEPS = [('a', 0), ('b', 0), ('a', 1), ('tick', 300),
               ('tick', 5000), ('tick', 5401)]


def nonces(rec, shard):
    """Histories of nonces of two consumers and time"""
    for hist in shard:
        rec.case({'history': repr(hist)})
        app = new_app()
        used = {}
        for i, (what, arg) in enumerate(hist):
            rec.transitions += 1
            if what == 'tick':
                CLOCK.now += arg
                continue
            key = sorted(SECRETS)[arg]
            nonce = what * 30
            want = 303
            t = used.get((key, nonce))
            if t is not None and CLOCK.now - t <= 5400:
                want = 403
            else:
                used[(key, nonce)] = CLOCK.now
            code = post(app, {}, signed(BASE, key, nonce=nonce))[0]
            if code != want:
                rec.fail('nonce:%r' % (hist[:i + 1], ),
                         'history %r: status %i, not %i' %
                         (hist[:i + 1], code, want))
                break


# Visits

LAUNCHES = [('12345', 'r1', 'u1', 'Learner'), ('12345', 'r1', 'u2', 'Learner'),
            ('12345', 'r1', None, 'Instructor'),
            ('12345', 'r2', 'u1', 'Instructor'), ('12345', 'r2', 'u2', ''),
            ('12345', 'r2', None, 'Learner'),
            ('key 2', 'r1', 'u1', 'Learner,Instructor')]
PERMS = {'Learner': 1, 'Instructor': 7, '': 0, 'Learner,Instructor': 7}

STEPS = [('launch', 0, x) for x in range(7)] + \
    [('window', 0, x) for x in range(7)] + \
    [('launch', 1, 0), ('window', 1, 1), ('tick', 0, 0), ('lose', 0, 0)]


def m_step(state, step):
    """State: for each browser, its visits: ((consumer, resource, user,
    permissions), ...)"""
    what, b, x = step
    state = list(state)
    if what == 'tick':
        return ((), ()) if len(state) == 2 else None
    if what == 'lose':
        state[b] = ()
        return tuple(state)
    c, r, u, roles = LAUNCHES[x]
    kept = [v for v in state[b] if not (
        v[0] == c and (v[1] == r or v[2] != u))]
    state[b] = tuple(sorted(kept + [(c, r, u, PERMS[roles])], key=repr))
    return tuple(state)


def histories(full, deep):
    """All histories of *full* steps, then to *deep* by model state"""
    out = []
    seen = set()
    frontier = [(((), ()), ())]
    for d in range(deep):
        nxt = []
        for state, hist in frontier:
            for step in STEPS:
                s2 = m_step(state, step)
                # whether cookies are present matters too
                k = (s2, step[0] if step[0] in ('tick', 'lose') else '')
                h2 = hist + (step, )
                if d < full or k not in seen:
                    seen.add(k)
                    nxt.append((s2, h2))
                elif d >= full:
                    out.append(h2)
        frontier = nxt
    out += [h for s, h in frontier]
    return out


RPATH = re.compile(r'/resource/([0-9A-F]+)/\Z')


def visits(rec, shard):
    app = None
    for hist in shard:
        rec.case({'history': [list(s) for s in hist]})
        app = new_app()
        jars = [{}, {}]
        state = ((), ())
        ids = {}
        for i, step in enumerate(hist):
            rec.transitions += 1
            what, b, x = step
            state = m_step(state, step)
            where = hist[:i + 1]
            if what == 'tick':
                CLOCK.now += 601
            elif what == 'lose':
                jars[b] = {}
            else:
                CLOCK.now += 1
                c, r, u, roles = LAUNCHES[x]
                params = signed({'resource_link_id': r, 'user_id': u,
                                 'roles': roles, 'context_id': 'c1'}, c)
                if what == 'launch':
                    code, jar, loc, data = post(app, jars[b], params)
                    code, jar, loc, data = follow(app, jar, code, loc, data)
                else:
                    # cookies are blocked, then a window is opened
                    code, jar, loc, data = post(app, {}, params)
                    code, jar, loc, data = get(app, {}, loc or ROOT)
                    m = re.search(rb'<a href=("[^"]*"|\'[^\']*\')', data)
                    if code != 200 or not m:
                        rec.fail('window:%r' % (where, ),
                                 'no link to open a window: %i' % code)
                        break
                    loc = html.unescape(m.group(1)[1:-1].decode('utf-8'))
                    code, jar, loc, data = get(app, jars[b], loc)
                    code, jar, loc, data = follow(app, jar, code, loc, data)
                jars[b] = jar
                m = RPATH.match(loc or '')
                if code != 200 or not m:
                    rec.fail('visit:%r' % (where, ),
                             'launch %r after %r ends with status %i at %s' %
                             (step, where[:-1], code, loc))
                    break
                rid = m.group(1)
                if ids.setdefault((c, r), rid) != rid or \
                        len(set(ids.values())) != len(ids):
                    rec.fail('resource:%r' % (where, ),
                             'resource %r is at %s, others %r' %
                             ((c, r), rid, ids))
                    break
            if i < len(hist) - 1 and i:
                continue
            bad = False
            for b2 in (0, 1):
                for (c, r), rid in ids.items():
                    App.seen = None
                    code = get(app, jars[b2], ROOT + '/resource/%s/' % rid)[0]
                    got = App.seen
                    want = [v for v in state[b2] if v[:2] == (c, r)]
                    want = want[0] + ('c1', ) if want else None
                    if not jars[b2]:
                        ok = code == 303 and got is None
                    elif want is None:
                        ok = code == 403 and got is None
                    else:
                        ok = code == 200 and got == want
                    if not ok:
                        rec.fail('access:%r' % (where, ),
                                 'after %r browser %i gets resource %r with '
                                 'status %i and %r, not %r' %
                                 (where, b2, (c, r), code, got, want))
                        bad = True
                    rec.outcome((code, got is None))
            if bad:
                break
        for rid in ('0', 'zz', '', '-1', '00000001'):
            code = get(app, jars[0], ROOT + '/resource/%s/' % rid)[0]
            if jars[0] and code not in (403, 404):
                rec.fail('no-resource:%s' % rid, 'status %i' % code)


# Details

def details(rec, shard):
    """Titles, names and types follow the launches"""
    for hist in shard:
        rec.case({'history': repr(hist)})
        app = new_app()
        jar = {}
        model = {}
        for n in hist:
            rec.transitions += 1
            p = {'resource_link_id': 'r1', 'user_id': 'u1',
                 'context_id': 'c1'}
            for name, value in n:
                p[name] = value
            code, jar, loc, data = post(app, jar, signed(p))
            code, jar, loc, data = follow(app, jar, code, loc, data)
            if code != 200:
                rec.fail('details-status:%r' % (hist, ), str(code))
                break
            for name, value in n:
                if value:
                    model[name] = value
        got = {}
        for eset, cols in (
                ('Contexts', {'Title': 'context_title',
                              'Label': 'context_label',
                              'Types': 'context_type'}),
                ('Resources', {'Title': 'resource_link_title',
                               'Description': 'resource_link_description'}),
                ('Users', {'GivenName': 'lis_person_name_given',
                           'FamilyName': 'lis_person_name_family',
                           'FullName': 'lis_person_name_full',
                           'Email': 'lis_person_contact_email_primary'})):
            with App.container[eset].open() as c:
                es = c.values()
            if len(es) != 1:
                rec.fail('details-number:%s' % eset, '%r: %i' %
                         (hist, len(es)))
                continue
            for col, name in cols.items():
                v = es[0][col].value
                if v:
                    got[name] = v
        want = dict(model)
        if 'context_type' in want:
            t = [x.strip() for x in want['context_type'].split(',')]
            t = ['urn:lti:context-type:ims/lis/' + x if ':' not in x else x
                 for x in t if ':' in x or x in CTYPES]
            want['context_type'] = set(t)
            if not t:
                del want['context_type']
        if 'context_type' in got:
            got['context_type'] = set(got['context_type'].split(' '))
        if got != want:
            rec.fail('details:%r' % (hist, ), '%r: %r, not %r' %
                     (hist, got, want))
        name = model.get('lis_person_name_full')
        if not name and model.get('lis_person_name_given'):
            name = model['lis_person_name_given']
            if model.get('lis_person_name_family'):
                name += ' ' + model['lis_person_name_family']
        if not name:
            name = model.get('lis_person_contact_email_primary', '')
        title = model.get('resource_link_title', 'Resource: r1')
        m = re.search(r'<title>(.*?)</title>', data.decode('utf-8'), re.S)
        shown = html.unescape(data.decode('utf-8'))
        if not m or 'Congratulations %s,' % name not in shown:
            rec.fail('details-name:%r' % (hist, ), '%r: name %r not in %r' %
                     (hist, name, shown[:600]))
        if model.get('resource_link_title') and (
                html.unescape(m.group(1)).strip() != title or
                '<' in m.group(1)):
            rec.fail('details-title:%r' % (hist, ), '%r: title %r, not %r' %
                     (hist, m.group(1), title))
        if '<script' in data.decode('utf-8'):
            rec.fail('details-markup', repr(hist))


CTYPES = ('CourseTemplate', 'CourseOffering', 'CourseSection', 'Group')
DETAILS = [
    (), (('context_title', 'One'), ('lis_person_name_full', 'Zo\xeb & Co')),
    (('context_title', 'Two'), ('context_label', 'L2'),
     ('resource_link_title', '<script>')),
    (('resource_link_title', 'R & D'), ('resource_link_description', 'D1')),
    (('resource_link_description', 'D2'), ('lis_person_name_given', 'G')),
    (('lis_person_name_family', 'F'), ('context_type', 'CourseSection')),
    (('lis_person_contact_email_primary', 'a@b'),
     ('context_type', 'Group,CourseSection')),
    (('context_type', 'urn:x:y'), ('context_label', 'L1'),
     ('lis_person_name_given', 'H')),
    (('context_title', ''), ('lis_person_name_full', ''),
     ('resource_link_title', ''))]


# Roles

def roles(rec, shard):
    app = new_app()
    table = role_table()
    for combo in shard:
        rec.case({'roles': list(combo)})
        for sep in (',', ', ', ' ,'):
            ctx = lti.ToolProviderContext(
                {'wsgi.url_scheme': 'http', 'SERVER_NAME': 'localhost',
                 'SERVER_PORT': '80'}, None)
            ctx.parameters = {'roles': sep.join(combo)}
            want = 0
            for r in combo:
                want |= table[r]
            try:
                app.set_launch_permissions(ctx)
                got = ctx.permissions
            except Exception as e:
                got = repr(e)
            if got != want:
                rec.fail('roles:%s' % ','.join(combo),
                         'roles %r give permissions %r, not %r' %
                         (combo, got, want))
        rec.outcome(want)


ROLES = ['Learner', 'Learner/Learner', 'Learner/GuestLearner',
         'Learner/ExternalLearner', 'Learner/Instructor',
         'Instructor', 'Instructor/PrimaryInstructor', 'Instructor/Lecturer',
         'Instructor/GuestInstructor', 'Instructor/ExternalInstructor',
         'ContentDeveloper', 'ContentDeveloper/Librarian', 'Member',
         'Member/Member', 'Manager', 'Manager/Observer', 'Mentor',
         'Mentor/Advisor', 'Administrator', 'Administrator/Support',
         'TeachingAssistant', 'TeachingAssistant/Grader']


def m_role(r):
    top = r.split('/')[0]
    return {'Instructor': 7, 'Learner': 1}.get(top, 0)


def role_table():
    out = {'': 0, 'Nobody': 0, 'http://example.com/Instructor': 0,
           'urn:x:Instructor': 0, 'instructor': 0, 'Instructor/Nobody': 0,
           'urn:lti:instrole:ims/lis/Instructor': 0,
           'urn:lti:instrole:ims/lis/Learner': 0,
           'urn:lti:sysrole:ims/lis/SysAdmin': 0,
           'urn:lti:role:ims/lis': 0, 'urn:lti:role:other/lis/Instructor': 0,
           'urn:lti:role:ims/lis/InstructorX': 0,
           'urn:lti:role:ims/lis/Instructor/Custom': 7,
           'urn:lti:role:ims/lis/Learner/Custom': 1}
    for r in ROLES:
        out[r] = m_role(r)
        out['urn:lti:role:ims/lis/' + r] = m_role(r)
    return out


def subroles(rec, shard):
    for a in shard:
        for b in ROLES:
            rec.case({'role': a, 'parent': b})
            pre = 'urn:lti:role:ims/lis/'
            ra, rb = URI.from_octets(pre + a), URI.from_octets(pre + b)
            want = '/' not in b and a.split('/')[0] == b
            if lti.is_subrole(ra, rb) != want:
                rec.fail('subrole:%s:%s' % (a, b), 'not %r' % want)
            f = (a.split('/') + [None])[:2]
            if tuple(lti.split_role(ra)) != ('role', f[0], f[1]):
                rec.fail('split:%s' % a, repr(lti.split_role(ra)))


# Consumers

def consumers(rec, shard):
    for keys, text in shard:
        rec.case({'keys': list(keys), 'file': repr(text)})
        p = lti.BLTIToolProvider()
        want = {}
        for k in keys:
            s = 'secret-%s' % k
            try:
                p.new_consumer(k, s)
                ok = True
            except lti.BLTIDuplicateKeyError:
                ok = False
            if ok == (k in want):
                rec.fail('consumer-duplicate:%r' % (keys, ),
                         'key %r new: %r' % (k, ok))
            want.setdefault(k, s)
        dup = False
        new = {}
        for line in text.split(b'\n'):
            f = line.decode('utf-8').split()
            if line.startswith(b'#') or len(f) < 2 or dup:
                continue
            if f[0] in want or f[0] in new:
                dup = True
                continue
            new[f[0]] = f[1]
        try:
            p.load_from_file(io.BytesIO(text))
            got = False
        except lti.BLTIDuplicateKeyError:
            got = True
        if got != dup:
            rec.fail('consumer-load:%r' % text, 'keys %r file %r: refused %r'
                     % (keys, text, got))
        want.update(new)
        out = io.BytesIO()
        p.save_to_file(out)
        exp = b''.join(('%s %s\n' % x).encode('ascii')
                       for x in sorted(want.items()))
        if out.getvalue() != exp:
            rec.fail('consumer-save:%r:%r' % (keys, text), '%r not %r' %
                     (out.getvalue(), exp))
        p2 = lti.BLTIToolProvider()
        p2.load_from_file(io.BytesIO(exp))
        for k, s in want.items():
            c = p2.lookup_consumer(k)
            if (c.key, c.secret) != (k, s):
                rec.fail('consumer-lookup:%r' % k, repr((c.key, c.secret)))
        for k in ('nosuch', ''):
            try:
                p2.lookup_consumer(k)
                rec.fail('consumer-lookup:%r' % k, 'found')
            except KeyError:
                pass
        for a, b in itertools.combinations(sorted(want), 2):
            if p.lookup_consumer(a).nonce_key('n') == \
                    p.lookup_consumer(b).nonce_key('n'):
                rec.fail('consumer-nonce', repr((a, b)))


LINES = [b'k1 s1\n', b'k2  s2 extra\n', b'# k3 s3\n', b'#k4 s4\n', b'\n',
         b'k5\n', b'k1 other\n', b' k6\ts6\n']


def run(ck):
    q = not ck.thorough
    ck.part('launches', launches, (None, ), 'changed and forged launches')
    ns = [h for n in range(1, 4 if q else 6)
          for h in itertools.product(NONCE_STEPS, repeat=n)]
    ck.part('nonces', nonces, shards_of(ns), 'histories of nonces')
    hs = histories(1 if q else 2, 4 if q else 5)
    ck.part('visits', visits, shards_of(hs), 'histories of launches')
    ds = [h for n in range(1, 3 if q else 4)
          for h in itertools.product(DETAILS, repeat=n)]
    ck.part('details', details, shards_of(ds), 'histories of details')
    rs = sorted(role_table())
    rs = [c for n in (1, 2) for c in itertools.product(rs, repeat=n)]
    ck.part('roles', roles, shards_of(rs), 'combinations of roles')
    ck.part('subroles', subroles, shards_of(ROLES), 'pairs of roles')
    cs = [(k, b''.join(t))
          for k in ((), ('k1', ), ('k1', 'x', 'k1'))
          for n in range(3 if q else 4)
          for t in itertools.product(LINES, repeat=n)]
    ck.part('consumers', consumers, shards_of(cs), 'files of consumers')
