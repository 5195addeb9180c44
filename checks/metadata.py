"""Uploading, restoring and expiring metadata: C14, C15."""
import re

from symx.registry import harness, claim, describe
from symx import core, strio, vfs
from symx.core import And, Or, Not, Implies, Iff, Ite, Eq
from checks._cachesim import DelayPolicy, Fault, all_faults
from checks.parallel import run, SCHED_ERR

PROPERTIES = ['C14', 'C15']
DIR = '/c'
FILE = DIR + '/fs.db'
NEW = DIR + '/restored.db'


class Tracker:
    """Model of sqlite3ext.WriteTracker (the write hooks themselves are checked by the vfs harness)."""

    def __init__(self, E, n):
        self.E = E
        self.dirty = [False] * n

    def get_block(self):
        for k in range(len(self.dirty)):
            if self.dirty[k]:
                self.dirty[k] = False
                return k
        raise KeyError()

    def get_count(self):
        return core.Sum([Ite(d, 1, 0) for d in self.dirty])

    def clear(self):
        self.dirty = [False] * len(self.dirty)

    def wrote(self, off, n, bs):
        for k in range(len(self.dirty)):
            self.dirty[k] = Or(self.dirty[k], And(off < (k + 1) * bs, off + n > k * bs))

    def truncated(self, size, bs):
        for k in range(len(self.dirty)):
            self.dirty[k] = And(self.dirty[k], k * bs <= size)


class Sha:
    """SHA-256 without collisions."""

    def __init__(self, b=b''):
        self.b = vfs.SymBytes.of(b)

    def update(self, b):
        self.b = self.b + b

    def hexdigest(self):
        return Digest(self.b)

    def digest(self):
        return Digest(self.b)


class Digest:
    def __init__(self, b):
        self.b = b

    def __eq__(self, o):
        if not isinstance(o, Digest):
            return False
        return bool(same(self.b, o.b))

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        raise core.Inconclusive('hash of a digest')

    def __str__(self):
        return '<digest>'


class HashLib:
    sha256 = Sha


LIMIT = [8]


def same(a, b):
    """Contents are equal (both no longer than LIMIT)."""
    a, b = vfs.SymBytes.of(a), vfs.SymBytes.of(b)
    return And(Eq(a.length, b.length), a.length <= LIMIT[0],
               [Implies(i < a.length, Eq(a.at(i), b.at(i))) for i in range(LIMIT[0])])


class Store:
    """Storage behind the compression layer; transfers take arbitrarily long."""
    max_threads = 1

    def __init__(self, E, conns=1):
        self.E, self.max_connections = E, conns
        self.objects = {}
        self.during = None
        self.faults = 0

    def fault(self, what):
        if self.faults and self.E.nd('fault_' + what, 2):
            self.faults -= 1
            raise Fault(what)

    async def write_fh(self, key, fh, len_=None, metadata=None, dont_compress=False):
        from s3ql.backends import common
        await strio.io_point()
        self.fault('write')
        if len_ is None:
            d = fh.read()
        else:
            d = fh.read(len_)
        if self.during is not None:
            self.during()
        await strio.io_point()
        self.objects[key] = d
        return core.symlen(d)

    async def readinto_fh(self, key, fh, size_hint=0):
        from s3ql.backends.common import NoSuchObject
        await strio.io_point()
        self.fault('read')
        if key not in self.objects:
            raise NoSuchObject(key)
        # arrives in pieces
        d = vfs.SymBytes.of(self.objects[key])
        fh.write(d[:1])
        await strio.io_point()
        fh.write(d[1:])
        return {}

    async def store(self, key, buf, metadata=None):
        await strio.io_point()
        self.fault('store')
        self.objects[key] = buf

    async def fetch(self, key):
        from s3ql.backends.common import NoSuchObject
        await strio.io_point()
        if key not in self.objects:
            raise NoSuchObject(key)
        return self.objects[key], {}

    async def list(self, prefix=''):
        for k in sorted(self.objects):
            if k.startswith(prefix):
                await strio.io_point()
                yield k

    async def delete_multi(self, keys, *, log_progress=False):
        for k in list(keys):
            await strio.io_point()
            self.fault('delete')
            self.objects.pop(k, None)
            keys.remove(k)


class Db:
    """What uploads use of a database connection."""

    def __init__(self, E, file, bs, nblocks):
        self.file, self.blocksize = file, bs
        self.dirty_blocks = Tracker(E, nblocks)


def env(E, limit):
    """Modules over a virtual file system."""
    import s3ql.database as D
    import s3ql.common as C
    LIMIT[0] = limit
    v = vfs.VFS()
    v.dirs.add(DIR)
    vfs.patch(E, [D], v)
    vfs.set_attr(E, C, 'hashlib', HashLib)

    class Opened:
        """Opening a database applies whatever its write-ahead log holds."""

        def __init__(self, file, blocksize=None):
            self.file, self.blocksize = file, blocksize
            w = v.files.pop(file + '-wal', None)
            if w is not None:
                v.files[file].data = w.data
    vfs.set_attr(E, D, 'Connection', Opened)
    from s3ql.database import Connection as Real     # noqa
    return D, v


@harness
def history(E, cfg):
    """Any sequence of changes and uploads; every completed upload can be restored."""
    bs, nb, p = cfg['bs'], cfg['blocks'], cfg['p']
    limit = bs * nb
    import s3ql.database as D0
    get_size = D0.Connection.get_size
    D, v = env(E, limit)
    node = v.files[FILE] = vfs.Inode()
    b = Store(E, 1)
    db = Db(E, FILE, bs, nb)
    db.get_size = lambda: get_size(db)
    t = db.dirty_blocks
    n0 = E.int('size0', 1, limit)
    node.data = vfs.data(E, 1, n0)
    params = D.FsAttributes(data_block_size=1, metadata_block_size=bs, seq_no=cfg.get('seq', 1))
    done = []               # (params at the time, contents)
    nwrites = [1]
    delays = cfg['delays']

    def write(tag):
        size = core.symlen(node.data)
        off = E.int('off%s' % tag, 0, limit - 1)
        n = E.int('len%s' % tag, 1, limit)
        E.assume(And(off <= size, off + n <= limit))
        nwrites[0] += 1
        node.data = vfs.overlay(node.data, off, vfs.data(E, nwrites[0], n))
        t.wrote(off, n, bs)

    def truncate(tag):
        size = E.int('cut%s' % tag, 1, limit)
        E.assume(size <= core.symlen(node.data))
        node.data = vfs.resize(node.data, size)
        t.truncated(size, bs)

    def op(coro):
        out, exc = run(E, coro, delays)
        if out == 'error' and isinstance(exc, (AssertionError, core.Inconclusive)):
            raise exc
        return out, exc

    def upload(tag, incremental, concurrent):
        if concurrent:
            # without blocking writes: the database changes while it is uploaded
            left = [1]

            def during():
                if left[0] and E.nd('change%s' % tag, 2):
                    left[0] = 0
                    write(tag + 'c')
            b.during = during
            out, exc = op(lambda: D.upload_metadata(b, db, params, incremental=incremental, update_params=False))
            b.during = None
            E.check(out == 'ok', 'uploading succeeds', lambda: '%s %r' % (out, exc))
        out, exc = op(lambda: D.upload_metadata(b, db, params, incremental=incremental))
        E.check(out == 'ok', 'uploading succeeds', lambda: '%s %r' % (out, exc))
        E.check(same(node.data, node.data), 'database fits')
        done.append((params.copy(), node.data))
        params.seq_no += 1 if not cfg.get('gap') else 5

    upload('0', cfg['first'] == 'inc' and bool(mark_all(t, n0, bs)), False)
    for i, kind in enumerate(cfg['ops']):
        if kind == 'w':
            write(str(i))
        elif kind == 't':
            truncate(str(i))
        elif kind == 'i':
            upload(str(i), True, False)
        elif kind == 'c':
            upload(str(i), True, True)
        elif kind == 'f':
            t.clear()
            upload(str(i), False, False)
    k = E.nd('version', len(done))
    par, want = done[k]
    # restore, over whatever is at the destination
    dest = NEW
    if cfg['dest'] != 'none':
        v.files[dest] = vfs.Inode(vfs.data(E, 90, E.int('left', 0, limit + bs)))
        if cfg['dest'] == 'wal':
            v.files[dest + '-wal'] = vfs.Inode(vfs.data(E, 91, E.int('leftwal', 0, limit)))
    if cfg['damage']:
        ks = sorted(b.objects)
        d = ks[E.nd('damaged', len(ks))]
        if E.flag('missing') and E.nd('drop', 2):
            del b.objects[d]
        else:
            b.objects[d] = vfs.data(E, 92, E.int('damagelen', 0, bs))
    out, exc = op(lambda: D.download_metadata(b, dest, par))
    E.observe('out', out)
    if not cfg['damage']:
        E.check(out == 'ok', 'every completed upload can be restored', lambda: '%s %r' % (out, exc))
    if out == 'ok':
        E.witness('restored')
        E.check(same(v.files[dest].data, want), 'restored metadata is what was uploaded')
    else:
        E.witness('refused')
        E.check(out == 'error' and not isinstance(exc, (AssertionError, TypeError, NameError, AttributeError)),
                'damaged metadata is reported', lambda: '%s %r' % (out, exc))


def mark_all(t, n, bs):
    t.wrote(0, n, bs)
    return True


def cfgs(ops, **kw):
    return [dict(dict(p='C14', ops=o, bs=2, blocks=3, delays=0, first='full', dest='none', damage=False), **kw) for o in ops]


claim('C14', history,
      quick=cfgs(['wi', 'tiwi', 'wiwi', 'wc', 'cti', 'twi', 'wf'])
      + cfgs(['wi'], first='inc', gap=True) + cfgs(['twi'], dest='old') + cfgs(['w', 'tiwi'], dest='wal')
      + cfgs(['wi', 'ti'], damage=True) + cfgs([''], delays=1, blocks=2),
      thorough=cfgs([a + 'i' + b_ + 'i' for a in ('w', 't', 'tw', 'wt') for b_ in ('w', 't', 'tw')])
      + cfgs(['wctwi', 'wcti'], blocks=3) + cfgs(['wi', 'twi', 'wc'], blocks=4)
      + cfgs(['wiwi', 'tiwi', 'wc', 'wf'], damage=True) + cfgs(['', 'w'], delays=2, blocks=2) + cfgs(['wi'], delays=1, blocks=2) + cfgs(['wi', 'twi'], bs=3))


# --------------------------------------------------------------------------------------------------
# C14: the write hooks of the SQLite VFS (C++)

DRIVER = r"""
#include "%s"
#include <cstdio>
#include <cstdlib>
static int called, result, drain;
static block_map_t blocks;
static int did() { called++; if (drain) blocks.clear(); return result; }
static int xw(sqlite3_file*, const void*, int, sqlite3_int64) { return did(); }
static int xt(sqlite3_file*, sqlite3_int64) { return did(); }
static void lg(int, const char*, ...) {}
int main(int argc, char** argv) {
    // op bs inhibited rc drain a b elements...
    static sqlite3_api_routines api;
    api.log = lg;
    sqlite3_api = &api;
    blocksize = strtoull(argv[2], 0, 10);
    writes_inhibited.store(atoi(argv[3]));
    result = atoi(argv[4]);
    drain = atoi(argv[5]);
    long long a = strtoll(argv[6], 0, 10), b = strtoll(argv[7], 0, 10);
    for (int i = 8; i < argc; i++) blocks.insert(strtoull(argv[i], 0, 10));
    static sqlite3_io_methods methods;
    methods.xWrite = xw;
    methods.xTruncate = xt;
    static sqlite3_file real;
    real.pMethods = &methods;
    vfstrace_file f;
    f.pReal = &real;
    f.block_map = &blocks;
    int rc = argv[1][0] == 'w' ? vfstraceWrite((sqlite3_file*)&f, 0, (int)b, a) : vfstraceTruncate((sqlite3_file*)&f, a);
    printf("%%d %%d", rc, called);
    for (auto x : blocks) printf(" %%zu", x);
    return 0;
}
"""
_IR = {}


def native_run(src, op, bs, inh, rc, drain, a, b, elems):
    import os
    import subprocess
    from checks._fsenv import tmpdir
    if 'exe' not in _IR:
        d = tmpdir()
        open(d + '/d.cpp', 'w').write(DRIVER % src)
        subprocess.run(['g++', '-std=c++17', '-w', '-I', os.path.dirname(src), '-o', d + '/d', d + '/d.cpp'], check=True)
        _IR['exe'] = d + '/d'
    out = subprocess.run([_IR['exe'], op] + [str(int(x)) for x in (bs, inh, rc, drain, a, b, *elems)],
                         capture_output=True, text=True, check=True).stdout.split()
    return int(out[0]), int(out[1]), [int(x) for x in out[2:]]


def native_sym(E, src, op, bs, inh, rc, drain, a, b, elems):
    import os
    from symx import llvmir as L
    from symx import loader
    if 'mod' not in _IR:
        _IR['mod'] = L.compile_ir(src, ['-w', '-I', os.path.dirname(src)])
    mod = _IR['mod']
    blocks = L.Set(elems)
    called = []

    def did(*args):
        called.append(args)
        if drain:
            blocks.items.clear()
        return rc
    methods = L.Obj('methods')
    fs = mod.fields('%struct.sqlite3_io_methods')
    methods.cells[fs[3][0]] = L.Fn('xWrite', did)
    methods.cells[fs[4][0]] = L.Fn('xTruncate', did)
    real = L.Obj('real file', {0: L.Ptr(methods)})
    file = L.Obj('file')
    ff = mod.fields('%struct.vfstrace_file')
    file.cells = {ff[1][0]: L.Ptr(real), ff[2][0]: L.Ptr(blocks.obj)}
    m = L.Machine(mod, E, L.set_intrinsics({blocks.obj: blocks}))
    api = L.Obj('api', default=lambda off: L.Fn('api', lambda *a: 0))
    for g in mod.globals:
        d = L.demangle([g[1:]])[g[1:]]
        if d == 'blocksize':
            m.glob(g).obj.cells[0] = bs
        elif d == 'writes_inhibited':
            m.glob(g).obj.cells[0] = inh
        elif d == 'sqlite3_api':
            m.glob(g).obj.cells[0] = L.Ptr(api)
    p = L.Ptr(file)
    if op == 'w':
        r = m.call(mod.find('vfstraceWrite'), [p, L.NULL, b, a])
    else:
        r = m.call(mod.find('vfstraceTruncate'), [p, a])
    for f in m.executed:
        loader.NATIVE.add('src/s3ql/_sqlite3ext.cpp:' + f)
    return r, len(called), [n.value for n in blocks.items]


@harness
def hooks(E, cfg):
    """Every write to the database file leaves the blocks it touches marked for upload."""
    import os
    from symx import loader
    src = os.path.join(loader.REPO, 'src', 's3ql', '_sqlite3ext.cpp')
    bs, op = cfg['bs'], cfg['op']
    elems = [E.int('dirty%d' % i, 0, 2 ** 22) for i in range(cfg['dirty'])]
    for i in range(len(elems)):
        for j in range(i):
            E.assume(Not(Eq(elems[i], elems[j])))
    inh = E.nd('inhibited', 2)
    rc = 10 * E.nd('fails', 2)
    drain = E.nd('drained', 2)          # an upload takes over all marked blocks while the write is in progress
    if op == 'w':
        a = E.int('offset', 0, 2 ** 40)
        b = E.int('amount', 1, cfg['span'] * bs)
    else:
        a, b = E.int('size', 0, 2 ** 40), 0
    if E.mode == 'replay':
        r, called, left = native_run(src, op, bs, inh, rc, drain, a, b, elems)
    else:
        from symx.llvmir import Unsupported
        try:
            r, called, left = native_sym(E, src, op, bs, inh, rc, drain, a, b, elems)
        except Unsupported as e:
            # written in terms of constructs outside of the modelled subset: nothing is claimed about it
            E.witness('not encodable: %s' % e)
            return
    E.observe('result', r)
    E.observe('called', called)
    k = E.int('k', 0, 2 ** 31)
    inside = Or([Eq(x, k) for x in left])
    if inh:
        E.check(And(called == 0, Not(Eq(r, 0))), 'no write while writes are inhibited')
        return
    E.check(called == 1, 'the write is carried out once')
    E.check(Eq(r, rc), 'the result is passed on')
    if rc:
        return
    if op == 'w':
        E.check(Implies(And(k * bs < a + b, (k + 1) * bs > a), inside), 'every block written to is marked')
        if not drain:
            E.check(Implies(Or([Eq(x, k) for x in elems]), inside), 'marked blocks stay marked')
    elif not drain:
        E.check(Implies(And(Or([Eq(x, k) for x in elems]), k * bs < a), inside), 'marked blocks that remain stay marked')


claim('C14', hooks,
      quick=[dict(p='C14', op='w', bs=b_, span=3, dirty=1) for b_ in (4096, 65536, 5120)]
      + [dict(p='C14', op='t', bs=b_, dirty=3) for b_ in (4096, 65536, 5120)],
      thorough=[dict(p='C14', op='w', bs=b_, span=8, dirty=2) for b_ in (1024, 65536, 1048576)]
      + [dict(p='C14', op='t', bs=b_, dirty=5) for b_ in (1024, 65536)])


# --------------------------------------------------------------------------------------------------
# C15: expiry

class Meta:
    """Storage holding metadata of a series of versions (contents do not matter)."""
    max_threads = 1
    max_connections = 2

    def __init__(self, E):
        self.E = E
        self.objects = {}
        self.removed = []
        self.limit = None

    async def list(self, prefix=''):
        for k in sorted(self.objects):
            if k.startswith(prefix):
                await strio.io_point()
                yield k

    async def fetch(self, key):
        await strio.io_point()
        from s3ql.backends.common import NoSuchObject
        if key not in self.objects:
            raise NoSuchObject(key)
        return self.objects[key], {}

    async def delete(self, key):
        await self.delete_multi([key])

    async def delete_multi(self, keys, *, log_progress=False):
        for k in list(keys):
            await strio.io_point()
            if self.limit is not None:
                if self.limit == 0:
                    raise Fault()
                self.limit -= 1
            self.objects.pop(k, None)
            self.removed.append(k)
            keys.remove(k)


class Params:
    """Serialised parameters (the real serialisation is checked by C24)."""

    def __init__(self, p):
        self.p = p


def best(b, D, blockno, seq):
    """Version of a block that restoring version `seq` uses."""
    c = []
    for k in b.objects:
        m = re.fullmatch(r's3ql_metadata_([0-9a-f]+)_([0-9a-f]+)', k)
        if m and int(m.group(1), 16) == blockno and int(m.group(2), 16) <= seq:
            c.append(int(m.group(2), 16))
    return max(c) if c else None


@harness
def expiry(E, cfg):
    """Backups of an arbitrary upload history before and after expiry."""
    import s3ql.database as D
    bs, nb = cfg['bs'], cfg['blocks']
    b = Meta(E)
    vfs.set_attr(E, D.FsAttributes, 'deserialize', staticmethod(lambda buf, min_seq=None: buf.p.copy()))
    others = ['s3ql_params', 's3ql_passphrase', 's3ql_data_1', 's3ql_data_12', 's3ql_metadata_bak_0', 's3ql_metadata',
              's3ql_params_bak', 'foo']
    for k in others:
        b.objects[k] = None
    versions = []               # (seq, db_size)
    seq = cfg.get('seq', 15)
    size = None

    def publish(s, n):
        b.objects['s3ql_params_%010x' % s] = Params(D.FsAttributes(
            data_block_size=1, metadata_block_size=bs, seq_no=s, db_size=n))

    def up(k, s):
        b.objects['s3ql_metadata_%012x_%010x' % (k, s)] = None
    have = 0                    # blocks that belonged to the most recent complete upload
    simple = cfg.get('simple')

    def expire(tag, crash):
        keep = cfg['keep']
        names = [k for k in b.objects]
        kept = versions[-keep:]
        want = {(s, k): best(b, D, k, s) for s, n in kept for k in range(nb)}
        b.removed = []
        b.limit = E.nd('crash' + tag, cfg['crash'] + 1) if crash else None
        if crash and b.limit == cfg['crash']:
            b.limit = None
        out, exc = run(E, (lambda: D.expire_objects(b)) if keep == 32 else (lambda: D.expire_objects(b, keep)), cfg['delays'])
        crashed = b.limit == 0 and out == 'fault'
        b.limit = None
        E.check(out == 'ok' or crashed, 'expiry completes', lambda: '%s %r' % (out, exc))
        for s, n in kept:
            E.check('s3ql_params_%010x' % s in b.objects, 'the most recent backups are kept', lambda: str(s))
            for k in range(nb):
                E.check(Implies(k * bs < n, best(b, D, k, s) == want[s, k]), 'a kept backup keeps what is needed to restore it',
                        lambda: 'block %d of version %d' % (k, s))
        for k in b.removed:
            m = re.fullmatch(r's3ql_(params|metadata_[0-9a-f]{12})_([0-9a-f]{10})', k)
            E.check(m is not None and k in names, 'nothing but metadata is removed', lambda: k)
        if out == 'ok' and not crash:
            E.check(not any('s3ql_params_%010x' % s in b.objects for s, n in versions[:-keep]), 'older backups are removed')

    for i in range(cfg['versions']):
        # published when the session starts (or right after the previous upload), with the previous size
        new = E.int('size%d' % i, 1, nb * bs) if not simple or i in (1, 33) else nb * bs - 1
        if size is not None:
            publish(seq, size)
        if i == cfg['versions'] - 1 and E.nd('unfinished', 2):
            # last session has not uploaded (all of) its metadata yet
            if size is not None:
                versions.append((seq, size))
            for k in range(nb):
                if E.nd('partial%d' % k, 2):
                    up(k, seq)
            expire('u', True)
            expire('v', False)
            break
        for k in range(nb):
            # everything that was not part of the last upload is new, the rest may have changed
            old = size is not None and bool(size > k * bs)
            now = bool(new > k * bs)
            if simple:
                if now and (not old or i % (k + 1) == 0):
                    up(k, seq)
            elif now and (not old or E.nd('changed%d_%d' % (i, k), 2)):
                up(k, seq)
            elif not now and old and E.nd('beyond%d_%d' % (i, k), 2):
                up(k, seq)          # empty block after truncation
        publish(seq, new)
        size = new
        versions.append((seq, size))
        seq += 1 if not cfg.get('gap') else 1 + 15 * E.nd('gap%d' % i, 2)
        if cfg['crash'] and i >= cfg['keep'] and i < cfg['versions'] - 1:
            expire('x%d' % i, True)
    else:
        expire('e', False)
    E.witness('kept %d' % len(versions))


claim('C15', expiry,
      quick=[dict(p='C15', bs=4, blocks=2, versions=3, keep=k, crash=0, delays=0) for k in (1, 2)]
      + [dict(p='C15', bs=4, blocks=3, versions=2, keep=1, crash=0, delays=0, gap=True),
         dict(p='C15', bs=4, blocks=2, versions=3, keep=1, crash=3, delays=0),
         dict(p='C15', bs=4, blocks=1, versions=3, keep=1, crash=2, delays=0, gap=True),
         dict(p='C15', bs=4, blocks=2, versions=35, keep=32, crash=0, delays=0, simple=True)],
      thorough=[dict(p='C15', bs=4, blocks=2, versions=4, keep=k, crash=0, delays=0) for k in (1, 2, 3)]
      + [dict(p='C15', bs=4, blocks=3, versions=3, keep=k, crash=0, delays=0) for k in (1, 2)]
      + [dict(p='C15', bs=4, blocks=2, versions=4, keep=1, crash=4, delays=0), dict(p='C15', bs=4, blocks=1, versions=5, keep=2, crash=2, delays=0, gap=True)])
describe('C14', bounds=['any sequence of up to 2 (thorough 3) incremental or full uploads with arbitrary writes and truncations before '
                        'each, databases of up to 3 (thorough 4) metadata blocks with arbitrary sizes and contents, one write during an '
                        'upload that does not block writes, one damaged, missing or replaced object, 0-2 deviations from the '
                        'default order of the transfers; for the write hooks: any offset below 2^40, writes of up to 3 (8) blocks'],
         assumptions=['SQLite changes the database file only through the write and truncate methods of its VFS and leaves no holes',
                      'SHA-256 has no collisions', 'every upload that does not block writes is followed by one that does'])
describe('C15', bounds=['histories of 2-5 backups (35 for the default number of backups) of 1-3 metadata blocks with arbitrary sizes and changed '
                        'blocks, expiry interrupted after any number of deletions (up to 4) and repeated'],
         assumptions=['deletion removes the given keys one after the other'])
