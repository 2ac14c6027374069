"""C08: relative URIs resolve as RFC2396 says, and relativising inverts it"""
import itertools
import posixpath
import re

from pyslet import rfc2396 as uri
from pyslet import vfs

from mc.core import shards_of

LEVEL = 'model_checking'
RULE = ('every pair of base and reference composed from the stated segments, '
        'authorities, queries and fragments; oracle: RFC2396 5.2 as string '
        'rewriting, and the algebraic laws between the operations')

APPB = re.compile(r'^(([^:/?#]+):)?(//([^/?#]*))?([^?#]*)(\?([^#]*))?(#(.*))?$')


def split(s):
    m = APPB.match(s)
    return m.group(2), m.group(4), m.group(5), m.group(7), m.group(9)


def join(scheme, auth, path, query, frag):
    return ('' if scheme is None else scheme + ':') + \
        ('' if auth is None else '//' + auth) + path + \
        ('' if query is None else '?' + query) + \
        ('' if frag is None else '#' + frag)


def remove_dots(path):
    """Steps c to f of RFC2396 5.2(6), by rewriting a string"""
    # c) and d)
    path = re.sub(r'(?<=/)(\./)+', '', path)
    path = re.sub(r'/\.$', '/', path)
    # e) leftmost first
    while True:
        m = re.search(r'/(?!\.\./)[^/]*/\.\./', path)
        if not m:
            break
        path = path[:m.start()] + '/' + path[m.end():]
    # f)
    m = re.search(r'/(?!\.\./)[^/]*/\.\.$', path)
    if m:
        path = path[:m.start()] + '/'
    if re.search(r'/\.\.$', path):
        # what is left is up to the implementation: a directory
        path += '/'
    return path


def resolve_model(ref, base):
    """base is absolute and hierarchical"""
    s, a, p, q, f = split(ref)
    bs, ba, bp, bq, bf = split(base)
    if not p and s is None and a is None and q is None:
        return join(bs, ba, bp, bq, f)
    if s is not None:
        return ref
    if a is not None:
        return join(bs, a, p, q, f)
    if p.startswith('/'):
        return join(bs, ba, p, q, f)
    if not bp:
        bp = '/'
    return join(bs, ba, remove_dots(bp[:bp.rindex('/') + 1] + p), q, f)


def paths(segs, n):
    for k in range(1, n + 1):
        for t in itertools.product(segs, repeat=k):
            yield '/'.join(t)


QF = ['', '?', '?y', '#s', '?y#s', '?y/../z', '#']


def bases(n):
    out = []
    for p in paths(['', 'b', 'c;p'], n):
        out.append('x:/' + p if not p.startswith('/') else 'x://h/' + p)
        out.append('http://h:8/' + p)
    out = sorted(set(out))
    return out + ['http://h', 'http://h?q', 'x://h', 'http://h/b/c?q',
                  'x:/b/c?q/r', 'http://h/b/c/d;p?q#f', 'x:///b/',
                  'http://h/?q', 'file:///b/c']


def refs(n):
    out = ['', '//g', '//g/', '//g?y', '//g/a/../b', '//', 'g:h', 'x:g',
           'http://g/', 'x:/g', 'x:', 'x:g?y#s', 'http://g/a/./b#s']
    for p in paths(['', '.', '..', 'g', 'b', '...', 'g;x', '.g', 'g:h'], n):
        if p and not p.startswith('/') and ':' not in p.split('/')[0]:
            out.append(p)
        if not p.startswith('/'):
            out.append('/' + p)
    return sorted(set(out))


def resolve(rec, shard):
    n, bs, rs = shard
    for b in bs:
        B = uri.URI.from_octets(b)
        for r in rs:
            for qf in QF:
                if ('#' in r or '?' in r) and qf:
                    continue
                u = r + qf
                rec.case([b, u])
                rec.transitions += 1
                want = resolve_model(u, b)
                if want.startswith('x:/') and split(want)[1] is not None \
                        and split(b)[1] is None and split(u)[1] is None:
                    # the RFC's rules make a network path by accident
                    continue
                got = uri.URI.from_octets(u).resolve(B)
                if str(got) != want:
                    rec.fail('resolve', repr((b, u, str(got), want)))
                    continue
                rec.outcome(want == u)
    rec.states += len(bs) * len(rs)
    rec.traces += rec.transitions


def okrel(r):
    """A well-formed relative reference"""
    s, a, p, q, f = split(r)
    return not (s is None and a is None and ':' in p.split('/')[0])


def associativity(rec, shard):
    """Two steps or one: A [*] R1 [*] R2"""
    n, r1s, r2s = shard
    for r1 in r1s:
        R1 = uri.URI.from_octets(r1)
        for r2 in r2s:
            R2 = uri.URI.from_octets(r2)
            R12 = R2.resolve(R1)
            for a in ('http://h/x/y/z', 'http://h/x/y/', 'http://h/w/x/y/z?q'):
                rec.case([a, r1, r2])
                rec.transitions += 1
                one = str(R2.resolve(R1.resolve(a)))
                two = str(R12.resolve(a))
                if '/../' in split(one)[2] or '/..' in split(
                        resolve_model(r1, a))[2]:
                    # climbs out of the root
                    continue
                if one != two:
                    rec.fail('associativity', repr((a, r1, r2, str(R12), one,
                                                    two)))
                rec.outcome('ok')


def inverse(rec, shard):
    """U.relative(B).resolve(B) is U"""
    us, bs = shard
    for u in us:
        U = uri.URI.from_octets(u)
        s, a, p, q, f = split(u)
        for b in bs:
            B = uri.URI.from_octets(b)
            rec.case([u, b])
            rec.transitions += 1
            r = U.relative(B)
            v = r.resolve(B)
            if str(v) != u:
                rec.fail('inverse', repr((u, b, str(r), str(v))))
            bs_, ba = split(b)[:2]
            if (s, a) == (bs_, ba) and split(str(r))[0] is not None and p:
                rec.fail('not relative', repr((u, b, str(r))))
            if U.relative(b) != r or str(U.resolve(b)) != u:
                rec.fail('string base', repr((u, b)))
            rec.outcome(str(r)[:3])


def norm_rel(p):
    """A normalised relative path, or None if it has another form"""
    segs = p.split('/')
    while segs and segs[0] == '..':
        segs = segs[1:]
    return not any(x in ('.', '..') for x in segs)


def inverse_rel(rec, shard):
    """The same for two relative references"""
    us, bs = shard
    for u in us:
        U = uri.URI.from_octets(u)
        for b in bs:
            B = uri.URI.from_octets(b)
            rec.case([u, b])
            rec.transitions += 1
            up = len([x for x in split(u)[2].split('/') if x == '..'])
            bup = len([x for x in split(b)[2].split('/') if x == '..'])
            try:
                r = U.relative(B)
            except uri.URIRelativeError:
                if bup <= up:
                    rec.fail('no relative form', repr((u, b)))
                rec.outcome('none')
                continue
            if bup > up:
                rec.fail('impossible relative form', repr((u, b, str(r))))
                continue
            v = r.resolve(B)
            if str(v) != u:
                rec.fail('relative inverse', repr((u, b, str(r), str(v))))
            rec.outcome('ok')


def specified(rec, shard):
    """More, less and equally specified references"""
    menu = shard
    level = {}
    for u in menu:
        s, a, p, q, f = split(u)
        level[u] = 3 if s else 2 if a is not None else 1 if p[:1] == '/' \
            else 0
    for u in menu:
        for b in menu:
            rec.case([u, b])
            rec.transitions += 1
            U, B = uri.URI.from_octets(u), uri.URI.from_octets(b)
            if level[u] < level[b]:
                try:
                    r = U.relative(B)
                    rec.fail('base more specified', repr((u, b, str(r))))
                except uri.URIRelativeError:
                    pass
            else:
                r = U.relative(B)
                if level[u] > level[b] and str(r) != u:
                    rec.fail('base less specified', repr((u, b, str(r))))
                if str(r.resolve(B)) != u:
                    rec.fail('specified inverse', repr((u, b, str(r))))
            rec.outcome(level[u] - level[b])
    doc = uri.URI.from_octets('http://doc/d?e#f')
    for r in ('', '#s', '#'):
        for b in menu:
            rec.case([r, b])
            x = uri.URI.from_octets(r).resolve(b, doc)
            if str(x) != 'http://doc/d?e' + r:
                rec.fail('current document', repr((r, b, str(x))))


SEGS = ['a', 'b c', 'a;b', 'a?b', 'a#b', '%41', 'a=b', '\u00e9', '\u4e2d',
        'a:b', '.a', '[x]', '~', '\U00010000']


def filepaths(rec, shard):
    """Virtual file paths to file URLs and back"""
    fs = vfs.MemFilePath if hasattr(vfs, 'MemFilePath') else None
    for k in shard:
        for t in itertools.product(SEGS, repeat=k):
            for end in ('', '/') if t else ('',):
                p = '/' + '/'.join(t) + end
                rec.case(p)
                rec.states += 1
                f = TestFS(p)
                u = uri.URI.from_virtual_path(f)
                want = '/'.join(
                    ''.join(chr(o) if chr(o) in ALLOWED else '%%%02X' % o
                            for o in seg.encode('utf-8')) for seg in t)
                if str(u) != 'file://test.fs/' + want + end:
                    rec.fail('file URL', repr((p, str(u))))
                    continue
                f2 = u.get_virtual_file_path()
                if str(f2) != p or type(f2) is not TestFS:
                    rec.fail('file path', repr((p, str(u), str(f2))))
                name = u.get_file_name()
                if name != ('' if end or not t else t[-1]):
                    rec.fail('file name', repr((p, name)))
    rec.outcome('ok')


ALLOWED = set('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789'
              "-_.!~*'():@&+$,[]")


class TestFS(vfs.VirtualFilePath):
    """A named file system that only has path names"""

    fs_name = 'test.fs'
    codec = 'utf-8'
    sep = '/'
    ext = '.'
    curdir = '.'
    pardir = '..'
    empty = ''
    supports_unicode_filenames = True

    @classmethod
    def path_str(cls, arg):
        if isinstance(arg, bytes):
            return arg.decode('utf-8')
        return str(arg)

    @classmethod
    def getcwd(cls):
        return cls('/')

    def isabs(self):
        return self.path.startswith('/')

    def abspath(self):
        return TestFS(posixpath.normpath(posixpath.join('/', self.path)))

    def splitdrive(self):
        return TestFS(''), self

    def split(self):
        a, b = posixpath.split(self.path)
        return TestFS(a), TestFS(b)

    def is_unc(self):
        return False

    def __eq__(self, other):
        return self.path == other.path

    __hash__ = None

    def __bool__(self):
        return bool(self.path)

    def __str__(self):
        return self.path


vfs.register_file_system(TestFS)


def run(ck):
    n = 4 if ck.thorough else 3
    bs, rs = bases(n), refs(n)
    ck.part('resolve', resolve, [(n, x, rs) for x in shards_of(bs, 32)],
            '%i bases x %i references x %i suffixes' % (
                len(bs), len(rs), len(QF)))
    r1 = [r + q for r in refs(2 if not ck.thorough else 3)
          if split(r)[0] is None and okrel(r) for q in ('', '?q')]
    r1 = [r for r in r1 if split(r)[3] is None or r.endswith('?q')]
    r2 = [r + q for r in refs(3) if okrel(r) and split(r)[0] is None and
          '//' not in r for q in ('', '?y')]
    # a base names a document, '.' and '..' name directories
    r1 = [r for r in r1 if not r.startswith('//') and
          split(r)[2].split('/')[-1] not in ('.', '..')]
    ck.part('associativity', associativity,
            [(n, x, r2) for x in shards_of(r1, 32)],
            '3 absolute bases x %i x %i relative references' % (
                len(r1), len(r2)))
    us = []
    for p in paths(['', 'a', 'b', 'a:b'], 4 if ck.thorough else 3):
        for pre in ('x://h/', 'x:/', 'http://h/'):
            if pre == 'x:/' and p.startswith('/'):
                continue
            us.append(pre + p)
    us += ['http://g/a', 'http://g', 'x://g/a/b', 'x:a', 'y:/a', 'mailto:a@b']
    us2 = [u + q for u in us for q in ('', '?q', '#f')]
    bs2 = [u + q for u in us if u not in ('x:a', 'mailto:a@b')
           for q in ('', '?p')]
    us2 = [u for u in us2]
    ck.part('inverse', inverse,
            [(x, bs2a) for pre in ('x://h/', 'x:/', 'http://h/')
             for bs2a in [[b for b in bs2 if b.startswith(pre) and (
                 pre != 'x:/' or not b.startswith('x://'))]]
             for x in shards_of([u for u in us2 if u.split('/')[0] ==
                                 pre.split('/')[0] and not
                                 (pre == 'x:/' and u.startswith('x://')) and
                                 not (pre == 'x://h/' and
                                      u.startswith('x:/') and
                                      not u.startswith('x://'))] +
                                ['y:/a', 'mailto:a@b'], 16)],
            'all pairs over 4 segments to length 3')
    rel = [p for p in paths(['', '..', 'a', 'b', 'a:b'], 3)
           if norm_rel(p) and not p.startswith('/') and p and
           not p.endswith('..') and ':' not in p.split('/')[0]]
    relu = [u + q for u in rel + ['./', './/a', './a:b'] for q in ('', '?q',
                                                                  '?q#f')]
    relb = [u + q for u in rel for q in ('', '?p')]
    ck.part('relative inverse', inverse_rel,
            [(x, relb) for x in shards_of(relu, 16)],
            'all pairs of relative paths to length 3')
    ck.part('specified', specified,
            [['http://h/a', 'http://h/a?q', 'http://h/b/c', '//h/a',
              '//h/a?q#f', '//g/a', '/a', '/a/b', '/b/c?q', 'a', 'b/c',
              'x:/a', 'x:/b/']],
            'pairs at each level of specification; current document')
    ck.part('file paths', filepaths, [[0], [1], [2]] +
            ([[3]] if ck.thorough else []),
            'paths of up to 2 segments from %i names' % len(SEGS))
