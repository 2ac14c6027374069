"""C03: stored streams behave as files; blocks are shared and cleaned up"""
import hashlib
import io
import itertools
import os
import shutil
import tempfile

from pyslet import blockstore
from pyslet.odata2 import metadata as edmx
from pyslet.odata2.memds import InMemoryEntityContainer
from pyslet.odata2.sqlds import SQLiteEntityContainer
from mc import core, seqs

LEVEL = 'model_checking'
RULE = ('every history of the stated number of stream operations on a real '
        'StreamStore (block size 3) compared step by step with in-memory '
        'files, then reopened and audited: content, size, md5, block lists, '
        'block store; histories are distinct')

BS = 3


class Mismatch(Exception):
    pass


class DictBlockStore(blockstore.BlockStore):
    """Simplest possible block store"""

    def __init__(self, **kws):
        super(DictBlockStore, self).__init__(**kws)
        self.d = {}

    def store(self, data):
        key = self.key(data)
        if len(data) > self.max_block_size:
            raise blockstore.BlockSize
        self.d[key] = bytes(data)
        return key

    def retrieve(self, key):
        try:
            return self.d[key]
        except KeyError:
            raise blockstore.BlockMissing(key)

    def delete(self, key):
        self.d.pop(key, None)

    def keys(self):
        return set(self.d)


class Container(SQLiteEntityContainer):
    def ro_name(self, source_path):
        if source_path in (('Streams', 'streamID'),
                           ('BlockLists', 'blockID')):
            return True
        return super(Container, self).ro_name(source_path)


_doc = None


def load():
    global _doc
    if _doc is None:
        _doc = edmx.Document()
        with open(os.path.join(core.VERIF, 'data', 'blockstore.xml'),
                  'rb') as f:
            _doc.read(f)
    return _doc.root.DataServices['BlockSchema.BlockContainer']


class World(object):

    def __init__(self, kind, scratch=None):
        cdef = load()
        if kind == 'sql':
            self.container = Container(container=cdef, file_path=':memory:')
            self.container.create_all_tables()
        else:
            self.container = InMemoryEntityContainer(cdef)
        if kind == 'mem':
            self.bs = DictBlockStore(max_block_size=BS)
        elif kind == 'file':
            from pyslet.vfs import OSFilePath
            self.bs = blockstore.FileBlockStore(
                dpath=OSFilePath(scratch), max_block_size=BS)
        else:
            self.bs = blockstore.EDMBlockStore(
                entity_set=cdef['Blocks'], max_block_size=BS)
        self.cdef = cdef
        self.kind = kind
        self.ss = blockstore.StreamStore(
            bs=self.bs, ls=blockstore.LockStore(
                entity_set=cdef['BlockLocks']), entity_set=cdef['Streams'])
        self.streams = [self.ss.new_stream('text/plain')
                        for i in range(2)]
        self.model = [bytearray(), bytearray()]
        self.handle = [None, None]      # (BlockStream, model file, mode)

    def close(self):
        for h in self.handle:
            if h:
                h[0].close()
        if self.kind == 'sql':
            self.container.close()


def model_open(content, mode):
    f = io.BytesIO(b'' if 'w' in mode else bytes(content))
    if 'a' in mode:
        f.seek(0, 2)
    return f


def do(w, op, rec):
    name, i, arg = op
    h = w.handle[i]
    rec.transitions += 1
    if name == 'open':
        if h or w.streams[i] is None:
            return
        f = w.ss.open_stream(w.streams[i], arg)
        mf = model_open(w.model[i], arg)
        w.handle[i] = (f, mf, arg)
        readable = 'r' in arg or '+' in arg
        writable = 'w' in arg or 'a' in arg or '+' in arg
        if f.readable() != readable or f.writable() != writable:
            raise Mismatch("open %s: readable %r writable %r" % (
                arg, f.readable(), f.writable()))
        if f.tell() != mf.tell():
            raise Mismatch("open %s: at %r not %r" % (arg, f.tell(),
                                                      mf.tell()))
        return
    if name == 'delete':
        if h or w.streams[i] is None:
            return
        w.ss.delete_stream(w.streams[i])
        w.streams[i] = None
        w.model[i] = None
        return
    if not h:
        return
    f, mf, mode = h
    readable = 'r' in mode or '+' in mode
    writable = 'w' in mode or 'a' in mode or '+' in mode
    if name == 'write':
        if not writable:
            try:
                f.write(arg)
            except (IOError, ValueError):
                return
            raise Mismatch("write on a stream opened with %s" % mode)
        left = arg
        while left:
            n = f.write(left)
            if not n or n > len(left):
                raise Mismatch("write returned %r" % n)
            left = left[n:]
        mf.write(arg)
    elif name == 'read':
        if not readable:
            try:
                f.read(1)
            except (IOError, ValueError):
                return
            raise Mismatch("read on a stream opened with %s" % mode)
        if arg < 0:
            got = f.read()
            want = mf.read()
        else:
            got = b''
            while len(got) < arg:
                d = f.read(arg - len(got))
                if not d:
                    break
                got += d
            want = mf.read(arg)
        if got != want:
            raise Mismatch("read(%i) gave %r, expected %r" % (arg, got,
                                                              want))
    elif name == 'seek':
        off, whence = arg
        if whence == 2 and off + len(mf.getvalue()) < 0:
            return
        if whence == 1 and off + mf.tell() < 0:
            return
        pos = f.seek(off, whence)
        want = mf.seek(off, whence)
        if pos != want:
            raise Mismatch("seek%r returned %r not %r" % (arg, pos, want))
    elif name == 'flush':
        f.flush()
        audit_stream(w, i, mf.getvalue())
    elif name == 'close':
        f.close()
        w.model[i] = bytearray(mf.getvalue())
        w.handle[i] = None
        audit_stream(w, i, w.model[i])
        return
    if f.tell() != mf.tell():
        raise Mismatch("at %r, expected %r after %s" % (
            f.tell(), mf.tell(), name))


def audit_stream(w, i, content):
    """The persisted stream has this content"""
    s = w.ss.get_stream(w.streams[i].key())
    content = bytes(content)
    if s['size'].value != len(content):
        raise Mismatch("size is %r, content has %i bytes" % (
            s['size'].value, len(content)))
    if s['md5'].value is not None and \
            s['md5'].value != hashlib.md5(content).digest():
        raise Mismatch("md5 is not the digest of %r" % content)
    blocks = list(w.ss.retrieve_blocklist(s))
    if [b['num'].value for b in blocks] != list(range(len(blocks))):
        raise Mismatch("block numbers %r" % [b['num'].value for b in blocks])
    data = b''.join(w.ss.retrieve_block(b) for b in blocks)
    if data != content:
        raise Mismatch("stored blocks are %r, expected %r" % (data, content))
    with w.ss.open_stream(s, 'r') as f:
        got = f.read()
    if got != content:
        raise Mismatch("reopened stream reads %r, expected %r" % (
            got, content))


def audit(w):
    """Everything closed: the stores hold exactly the live streams"""
    want = set()
    n = 0
    for i in range(2):
        if w.streams[i] is None:
            continue
        audit_stream(w, i, w.model[i])
        c = bytes(w.model[i])
        for k in range(0, len(c), BS):
            want.add(hashlib.sha256(c[k:k + BS]).hexdigest())
            n += 1
    with w.cdef['BlockLists'].open() as blocks:
        if len(blocks) != n:
            raise Mismatch("%i block list entries, expected %i" % (
                len(blocks), n))
    with w.cdef['BlockLocks'].open() as locks:
        if len(locks):
            raise Mismatch("%i locks left behind" % len(locks))
    if w.kind == 'mem':
        have = w.bs.keys()
    elif w.kind == 'file':
        have = set()
        for d, _, names in os.walk(str(w.bs.dpath)):
            for n in names:
                have.add(os.path.relpath(os.path.join(d, n),
                                         str(w.bs.dpath)).replace('/', ''))
    else:
        with w.cdef['Blocks'].open() as blocks:
            have = set(blocks.keys())
    if have != want:
        raise Mismatch("block store: %i blocks missing, %i orphaned" % (
            len(want - have), len(have - want)))


ONE = [('open', 0, 'r+'), ('open', 0, 'w+'), ('open', 0, 'a'),
       ('write', 0, b'ab'), ('write', 0, b'cdefg'), ('read', 0, 2),
       ('read', 0, -1), ('seek', 0, (0, 0)), ('seek', 0, (2, 1)),
       ('seek', 0, (-1, 2)), ('flush', 0, None), ('close', 0, None)]
GAP = [('write', 0, b'a'), ('write', 0, b'bcd'), ('seek', 0, (1, 0)),
       ('seek', 0, (4, 0)), ('seek', 0, (7, 0)), ('seek', 0, (3, 2)),
       ('read', 0, 4), ('flush', 0, None)]
TWO = [('open', 0, 'w'), ('open', 1, 'w'), ('write', 0, b'xyz'),
       ('write', 1, b'xyz'), ('write', 1, b'pqr'), ('close', 0, None),
       ('close', 1, None), ('delete', 0, None), ('delete', 1, None)]
MODES = [('open', 0, 'r'), ('open', 0, 'w'), ('open', 0, 'a'),
         ('open', 0, 'r+'), ('open', 0, 'w+'), ('write', 0, b'k'),
         ('read', 0, 1), ('close', 0, None)]
SETS = {'one': (ONE, []), 'gap': (GAP, [('open', 0, 'w+')]),
        'gap2': (GAP, [('open', 0, 'w'), ('write', 0, b'12345'),
                       ('close', 0, None), ('open', 0, 'r+')]),
        'two': (TWO, []),
        'two2': (TWO, [('open', 0, 'w'), ('write', 0, b'xyzxyz'),
                       ('close', 0, None), ('open', 1, 'w'),
                       ('write', 1, b'pqrxyz'), ('close', 1, None)]),
        'modes': (MODES, [('open', 0, 'w'), ('write', 0, b'123'),
                          ('close', 0, None)])}


def run_set(rec, shard):
    name, kind, depth, prefix = shard
    ops, setup = SETS[name]
    states = set()
    scratch = None
    if kind == 'file':
        scratch = tempfile.mkdtemp(prefix='verif-c03-')
    try:
        for k, seq in enumerate(seqs.sequences(len(ops), depth, prefix)):
            hist = [ops[i] for i in seq]
            rec.case([name, kind, hist])
            sub = None
            if kind == 'file':
                sub = os.path.join(scratch, '%i' % k)
                os.mkdir(sub)
            w = World(kind, sub)
            try:
                for op in setup + hist:
                    do(w, op, rec)
                    states.add((tuple(bytes(m) if m is not None else None
                                      for m in w.model),
                                tuple((h[1].getvalue(), h[1].tell(), h[2])
                                      if h else None for h in w.handle)))
                for i in range(2):
                    do(w, ('close', i, None), rec)
                audit(w)
                rec.outcome(repr([len(m) if m is not None else None
                                  for m in w.model]))
                for i in range(2):
                    do(w, ('delete', i, None), rec)
                audit(w)
            except Mismatch as e:
                rec.fail('%s:%s' % (name, e), str(e))
            except Exception as e:
                import traceback
                rec.fail('%s:raised %s' % (name, core.exc_name(e)),
                         traceback.format_exc())
            finally:
                try:
                    w.close()
                except Exception:
                    pass
                if sub:
                    shutil.rmtree(sub, True)
            rec.traces += 1
    finally:
        if scratch:
            shutil.rmtree(scratch, True)
    rec.states += len(states)


def run(ck):
    plan = [('one', 'mem', 4, 5), ('gap', 'mem', 5, 6), ('gap2', 'mem', 5, 6),
            ('two', 'mem', 5, 6), ('two2', 'mem', 4, 6),
            ('modes', 'mem', 5, 6), ('two2', 'edm', 4, 5),
            ('one', 'edm', 3, 4), ('two2', 'sql', 3, 4),
            ('gap2', 'sql', 3, 4), ('two2', 'file', 3, 4),
            ('gap2', 'file', 3, 4)]
    for name, kind, q, t in plan:
        depth = t if ck.thorough else q
        ck.part('%s-%s' % (name, kind), run_set,
                [(name, kind, depth, p)
                 for p in seqs.first_shards(SETS[name][0], depth)],
                'all %i-operation histories' % depth)
