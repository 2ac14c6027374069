"""C10: virtual file paths and the in-memory file system"""
import itertools
import os
import posixpath
import re
import shutil
import tempfile

from pyslet import rfc2396 as uri
from pyslet import vfs

from mc.core import shards_of

LEVEL = 'model_checking'
RULE = ('path algebra: every string over "/.ab" to the stated length, as '
        'text, bytes and local paths, against posixpath; file system: every '
        'state of the model reachable from empty within the stated depth x '
        'every operation, replayed on the implementation')


class Bytes(vfs.MemFilePath):
    fs_name = 'bytes.test'
    supports_unicode_filenames = False
    codec = 'utf-8'
    sep, curdir, pardir, ext, drive_sep, empty = (
        b'/', b'.', b'..', b'.', b':', b'')
    _wd = None
    _fsdir = {}


class Mem(vfs.MemFilePath):
    fs_name = 'mem.test'
    codec = 'utf-8'
    _wd = None
    _fsdir = {}


vfs.register_file_system(Bytes)
vfs.register_file_system(Mem)
CWD = '/cwd/x'


def norm(p):
    """posixpath.normpath with one leading slash"""
    return re.sub('^//', '/', posixpath.normpath(p))


def algebra(rec, shard):
    fs, strings = shard
    tx = fs.path_str

    for s in strings:
        rec.case([fs.__name__, s])
        rec.states += 1
        p = fs(s)
        if str(p) != s or p.path != tx(s) or p.to_bytes() != s.encode():
            rec.fail('string', repr((fs, s, str(p))))
        if p.is_empty() != (not s) or bool(p) != bool(s) or \
                p.isabs() != s.startswith('/') or \
                p.is_single_component() != ('/' not in s) or \
                p.is_dirlike() != s.endswith(('/', '/.')):
            rec.fail('predicate', repr((fs, s)))
        if str(p.normpath()) != (norm(s) if fs is not vfs.OSFilePath
                                 else posixpath.normpath(s)):
            rec.fail('normpath', repr((fs, s, str(p.normpath()))))
        n = p.normpath()
        if n.normpath() != n:
            rec.fail('normpath again', repr((fs, s)))
        a = p.abspath()
        if fs is not vfs.OSFilePath and \
                str(a) != norm(posixpath.join(CWD, s)):
            rec.fail('abspath', repr((fs, s, str(a))))
        if not a.isabs() or a.abspath() != a:
            rec.fail('abspath again', repr((fs, s)))
        head, tail = p.split()
        h, t = posixpath.split(s)
        if str(tail) != t or (norm(str(head)) if str(head) else '') != (
                norm(h) if h else ''):
            rec.fail('split', repr((fs, s, str(head), str(tail))))
        if '//' not in s and (str(head), str(tail)) != (h, t):
            rec.fail('split exact', repr((fs, s, str(head), str(tail))))
        if s != '/' and '//' not in s and s and head.join(tail) != p:
            rec.fail('split and join', repr((fs, s, str(head.join(tail)))))
        if s == '/' and not p.is_root() or (
                p.is_root() and s.strip('/')):
            rec.fail('root', repr((fs, s)))
        root, ext = p.splitext()
        r, e = posixpath.splitext(s)
        if (str(root), ext) != (r, e) and not (
                p.is_dirlike() and ext in ('', b'') and root == p):
            rec.fail('splitext', repr((fs, s, str(root), ext)))
        drive, rest = p.splitdrive()
        if drive or rest != p:
            rec.fail('drive', repr((fs, s)))
        rec.outcome(str(n)[:2])


def joins(rec, shard):
    fs, strings, others = shard
    for s in strings:
        for t in others:
            rec.case([fs.__name__, s, t])
            rec.transitions += 1
            want = posixpath.join(s, t)
            for got in (fs(s).join(t), fs(s).join(fs(t)), fs(s, t)):
                if re.sub('/+', '/', str(got)) != re.sub('/+', '/', want) \
                        and not (s == '' or t == ''):
                    rec.fail('join', repr((fs, s, t, str(got))))
                if norm(str(got)) != norm(want) and s:
                    rec.fail('join meaning', repr((fs, s, t, str(got))))
            if (fs(s) == fs(t)) != (s == t) or (fs(s) < fs(t)) != (s < t) \
                    or (fs(s) == t) != (s == t):
                rec.fail('comparison', repr((fs, s, t)))
            if s == t and hash(fs(s)) != hash(fs(t)):
                rec.fail('hash', repr((fs, s, t)))
    rec.outcome('ok')


def urls(rec, shard):
    """Absolute paths to URLs and back, in each file system"""
    names = ['a', 'a b', 'a%b', 'a;b', 'a?b', 'a#b', '\u00e9', '\u4e2d',
             'a:b', '.a', '~', 'a&b=c', '\U0001f600']
    for fs in (vfs.OSFilePath, Mem, Bytes, vfs.MemFilePath):
        host = fs.fs_name
        for k in (0, 1, 2):
            for t in itertools.product(names, repeat=k):
                for end in ('', '/') if k else ('',):
                    s = '/' + '/'.join(t) + end
                    rec.case([fs.__name__, s])
                    rec.transitions += 1
                    u = uri.URI.from_virtual_path(fs(s))
                    if not str(u).startswith('file://%s/' % host):
                        rec.fail('url', repr((s, str(u))))
                    back = u.get_virtual_file_path()
                    if type(back) is not fs or str(back) != s:
                        rec.fail('url and back', repr((fs, s, str(u),
                                                       str(back))))
                    if fs is vfs.OSFilePath:
                        if u.get_pathname() != s or \
                                u.get_pathname(True) != s.encode():
                            rec.fail('pathname', repr((s, str(u))))
                        if uri.URI.from_path(s) != u:
                            rec.fail('from path', repr((s, str(u))))
    rec.outcome('ok')


# -- file system ----------------------------------------------------------

PATHS = ['a', 'b', 'a/b', 'a/b/c', '/a', '/b/', '../a', '/', '..',
         'a/../b', './a/./b', '']


class Model(object):
    """A tree as a dictionary from a tuple of names to bytes or None"""

    def __init__(self):
        self.d = {(): None}
        self.cwd = ()

    def key(self):
        return (tuple(sorted((k, v or b'', v is None)
                             for k, v in self.d.items())), self.cwd)

    def abs(self, p):
        parts = list(self.cwd)
        if p.startswith('/'):
            parts = []
        for x in p.split('/'):
            if x == '..':
                parts = parts[:-1]
            elif x not in ('', '.'):
                parts.append(x)
        return tuple(parts)

    def isdir(self, k):
        return k in self.d and self.d[k] is None

    def isfile(self, k):
        return self.d.get(k) is not None

    def mkdir(self, p):
        k = self.abs(p)
        if k in self.d or not self.isdir(k[:-1]):
            raise OSError
        self.d[k] = None

    def makedirs(self, p):
        k = self.abs(p)
        if self.isfile(k):
            raise OSError
        for i in range(len(k) + 1):
            if self.isfile(k[:i]):
                raise OSError
        for i in range(len(k) + 1):
            self.d[k[:i]] = None

    def dirlike(self, p):
        return not p or p.endswith(('/', '/.'))

    def write(self, p, mode, data):
        k = self.abs(p)
        if self.dirlike(p) or self.isdir(k) or not self.isdir(k[:-1]) or (
                mode[0] == 'r' and not self.isfile(k)):
            raise OSError
        old = self.d.get(k) or b''
        if mode[0] == 'w':
            old = b''
        elif mode[0] == 'r':
            old = data + old[len(data):]
            data = b''
        self.d[k] = old + data

    def remove(self, p):
        k = self.abs(p)
        if self.dirlike(p) or not self.isfile(k):
            raise OSError
        del self.d[k]

    def rmtree(self, p, ignore):
        k = self.abs(p)
        if not self.isdir(k):
            if ignore:
                return
            raise OSError
        for x in list(self.d):
            if x[:len(k)] == k and x:
                del self.d[x]

    def chdir(self, p):
        # any path will do: nothing checks it
        self.cwd = self.abs(p)

    def copy(self, p, q):
        k, j = self.abs(p), self.abs(q)
        if self.dirlike(p) or not self.isfile(k):
            raise OSError
        if self.isdir(j):
            j = j + k[-1:]
        elif self.dirlike(q):
            raise OSError
        if self.isdir(j) or not self.isdir(j[:-1]) or k == j:
            raise OSError
        self.d[j] = self.d[k]


def op_menu():
    ops = []
    for p in PATHS:
        ops.append(('mkdir', p))
        if p in ('a', 'a/b/c', '/b/', '../a', './a/./b', ''):
            ops.append(('makedirs', p))
        ops.append(('write', p, 'wb', b'x'))
        if p in ('a', 'a/b', '/b/', '/a', 'a/../b'):
            ops.append(('write', p, 'ab', b'yz'))
            ops.append(('write', p, 'r+b', b'q'))
            ops.append(('write', p, 'wb', b''))
        ops.append(('remove', p))
        if p not in ('', './a/./b'):
            ops.append(('rmtree', p, False))
        if p in ('a', '/', 'b/', 'a/../b'):
            ops.append(('rmtree', p, True))
        if p in ('a', 'a/b', '..', '/b/', '/'):
            ops.append(('chdir', p))
    for p, q in (('a', 'b'), ('b', 'a'), ('a/b', '/'), ('a', 'a/b'),
                 ('b', 'a/b/c'), ('b', 'a/')):
        ops.append(('copy', p, q))
    return ops


def apply_fs(fs, op):
    p = fs(op[1])
    if op[0] == 'write':
        f = p.open(op[2])
        try:
            f.write(op[3])
        finally:
            f.close()
    elif op[0] == 'copy':
        p.copy(fs(op[2]))
    elif op[0] == 'rmtree':
        p.rmtree(op[2])
    else:
        getattr(p, op[0])()


def apply_model(m, op):
    if op[0] == 'write':
        m.write(*op[1:])
    else:
        getattr(m, op[0])(*op[1:])


def compare(rec, fs, m, hist):
    for p in PATHS + ['b/c', '/a/b', '/a/b/c', 'c']:
        k = m.abs(p)
        x = fs(p)
        want = (k in m.d, m.isfile(k) and not (p and m.dirlike(p)),
                m.isdir(k))
        got = (x.exists(), x.isfile(), x.isdir())
        if got != want and p:
            rec.fail('query', repr((hist, p, got, want)))
            return
        if m.isdir(k):
            names = sorted(str(n) for n in x.listdir())
            w = sorted(j[-1] for j in m.d if j and j[:-1] == k)
            if names != w:
                rec.fail('listdir', repr((hist, p, names, w)))
        else:
            try:
                x.listdir()
                rec.fail('listdir of a file', repr((hist, p)))
            except OSError:
                pass
        if want[1]:
            for mode in ('rb', 'r'):
                f = x.open(mode)
                data = f.read()
                f.close()
                if data != (m.d[k] if mode == 'rb' else m.d[k].decode()):
                    rec.fail('content', repr((hist, p, data, m.d[k])))
        elif p:
            try:
                x.open('rb').close()
                rec.fail('opened', repr((hist, p)))
            except OSError:
                pass
            if k not in m.d and x.exists():
                rec.fail('created by reading', repr((hist, p)))
    if norm(str(fs.getcwd())) != '/' + '/'.join(m.cwd):
        rec.fail('cwd', repr((hist, str(fs.getcwd()), m.cwd)))


def replay(fs, ops, hist):
    fs._fsdir = {}
    fs._wd = None
    m = Model()
    last = None
    for i in hist:
        try:
            apply_model(m, ops[i])
            want = None
        except OSError:
            want = 'error'
        try:
            apply_fs(fs, ops[i])
            got = None
        except OSError:
            got = 'error'
        last = (got, want)
    return m, last


def explore(rec, shard):
    fs, firsts, depth = shard
    ops = op_menu()
    seen = set()
    frontier = [()]
    for d in range(depth):
        nxt = []
        for h in frontier:
            for i in (firsts if not d else range(len(ops))):
                hist = h + (i,)
                rec.case([fs.__name__, [ops[j] for j in hist]])
                m, (got, want) = replay(fs, ops, hist)
                rec.transitions += 1
                if len(m.cwd) > 2 or not m.isdir(m.cwd) or any(v and len(v) > 3
                                         for v in m.d.values()):
                    continue
                if got != want:
                    rec.fail(ops[i][0], repr((rec._case, got, want)))
                    continue
                k = m.key()
                new = k not in seen
                if new or got:
                    compare(rec, fs, m, rec._case)
                if new:
                    seen.add(k)
                    nxt.append(hist)
                rec.outcome(ops[i][0] + (got or ''))
        frontier = nxt
    rec.states += len(seen)
    rec.traces += rec.transitions


def open_files(rec, shard):
    """A file in use can't be removed or opened again"""
    for fs in (Mem, Bytes):
        for mode in ('wb', 'rb', 'ab', 'r+b', 'w', 'r'):
            fs._fsdir = {}
            fs._wd = None
            rec.case([fs.__name__, mode])
            fs('/d').mkdir()
            f = fs('/d/f').open('wb')
            f.write(b'abc')
            f.close()
            f = fs('/d/f').open(mode)
            for x in ('/d/f', '/d/../d/f'):
                for m2 in ('rb', 'wb', 'ab'):
                    try:
                        fs(x).open(m2)
                        rec.fail('opened twice', repr((mode, m2)))
                    except OSError:
                        pass
                try:
                    fs(x).remove()
                    rec.fail('removed while open', repr(mode))
                except OSError:
                    pass
            try:
                fs('/d').rmtree()
                rec.fail('tree removed while open', repr(mode))
            except OSError:
                pass
            fs('/d').rmtree(True)
            if not fs('/d/f').isfile() or not fs('/d').isdir():
                rec.fail('open file lost', repr(mode))
            f.close()
            g = fs('/d/f').open('rb')
            if g.read() != (b'' if mode[0] == 'w' else b'abc'):
                rec.fail('content after', repr(mode))
            g.close()
            fs('/d/f').remove()
            if fs('/d/f').exists():
                rec.fail('not removed', repr(mode))
            rec.transitions += 1
    rec.outcome('ok')


def temp(rec, shard):
    """Temporary directories and local directories"""
    for fs in (Mem, Bytes):
        fs._fsdir = {}
        fs._wd = None
        seen = set()
        for i in range(50):
            rec.case([fs.__name__, i])
            t = fs.mkdtemp('.d', 'p-')
            s = str(t)
            if s in seen or not t.isdir() or not s.endswith('.d') or \
                    not s.startswith('/tmp/p-') or not t.isabs():
                rec.fail('mkdtemp', s)
            seen.add(s)
    scratch = tempfile.mkdtemp(prefix='verif-c10-')
    try:
        fs = vfs.OSFilePath
        d = fs(scratch)
        rec.case('local')
        for name in ('a', '\u00e9', 'b c'):
            d.join(name).mkdir()
            f = d.join(name, 'f').open('wb')
            f.write(name.encode())
            f.close()
        if sorted(str(x) for x in d.listdir()) != ['a', 'b c', '\u00e9'] or \
                sorted(os.listdir(scratch)) != ['a', 'b c', '\u00e9']:
            rec.fail('local listdir', repr(os.listdir(scratch)))
        w = sorted((str(a), sorted(map(str, b)), sorted(map(str, c)))
                   for a, b, c in d.walk())
        if w != sorted((a, sorted(b), sorted(c))
                       for a, b, c in os.walk(scratch)):
            rec.fail('local walk', repr(w))
        for x in d.listdir():
            p = d.join(x, 'f')
            u = uri.URI.from_virtual_path(p)
            with open(u.get_pathname(), 'rb') as f:
                if f.read() != str(x).encode():
                    rec.fail('local file by URL', repr(str(u)))
            if not p.isfile() or not p.exists() or p.isdir():
                rec.fail('local query', repr(str(p)))
    finally:
        shutil.rmtree(scratch)
    rec.outcome('ok')


def run(ck):
    n = 10 if ck.thorough else 8
    strings = [''.join(t) for k in range(n + 1)
               for t in itertools.product('/.a' if k > 6 else '/.ab',
                                          repeat=k)]
    for fs in (Mem, Bytes):
        fs._wd = fs(CWD)
    ck.part('path algebra', algebra,
            [(fs, x) for fs in (Mem, Bytes, vfs.OSFilePath)
             for x in shards_of(strings, 8)],
            'strings over "/.ab" to length %i' % n)
    small = [s for s in strings if len(s) <= (4 if ck.thorough else 3)]
    ck.part('joins', joins,
            [(fs, x, small) for fs in (Mem, Bytes, vfs.OSFilePath)
             for x in shards_of(small, 8)],
            'all pairs of strings to length 3')
    ck.part('urls', urls)
    for fs in (Mem, Bytes):
        fs._wd = None
    ops = op_menu()
    depth = 4 if ck.thorough else 3
    ck.part('file system', explore,
            [(fs, [i], depth + (fs is Mem)) for fs in (Mem, Bytes)
             for i in range(len(ops)) if ops[i][0] in (
                 'mkdir', 'makedirs', 'write', 'chdir')],
            'model states to depth %i x %i operations' % (depth, len(ops)))
    ck.part('open files', open_files)
    ck.part('directories', temp)
