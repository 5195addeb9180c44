"""Arbitrary valid file system states for the fs.Operations harnesses.

A state has a fixed number of slots per table; presence, links, attributes and sizes of every slot are
symbolic.  The same description is materialised as a symbolic database (sym mode) or as a real SQLite
database created by the real create_tables (replay mode)."""
import errno
import os
import stat
import tempfile

from symx import core, strio, vfs
from symx.core import And, Or, Not, Implies, Iff, Ite, Count, Sum, Eq

NOW = 10 ** 18
DIR, REG, LNK, FIFO, CHR, BLK = 4, 8, 10, 1, 2, 6
T = dict(inodes=('id', 'uid', 'gid', 'mode', 'mtime_ns', 'atime_ns', 'ctime_ns', 'refcount', 'size',
                 'rdev', 'locked'),
         contents=('name_id', 'inode', 'parent_inode'),
         names=('id', 'name', 'refcount'),
         objects=('id', 'hash', 'refcount', 'phys_size', 'length'),
         inode_blocks=('inode', 'blockno', 'obj_id'),
         symlink_targets=('inode', 'target'),
         ext_attributes=('inode', 'name_id', 'value'))
ATTRS = T['inodes'][1:]
_SCHEMA = []


def tmpdir():
    return tempfile.mkdtemp(dir=os.environ.get('SYMX_TMP') or None)


def open_db(E):
    import s3ql.database as D
    if E.mode == 'sym':
        if not _SCHEMA:
            c = D.Connection('/symx/db')
            D.create_tables(c)
            _SCHEMA.append(c.conn.snapshot())
        c = D.Connection('/symx/db')
        c.conn.restore(_SCHEMA[0])
        c.file = ''
        return c
    d = tmpdir()
    c = D.Connection(os.path.join(d, 'db'))
    D.create_tables(c)
    # as when mounting, open a file that is in WAL mode already (otherwise SQLite insists on exclusive locking)
    c.close()
    return D.Connection(os.path.join(d, 'db'))


def db_add(E, db, table, g, **cols):
    if E.mode == 'sym':
        db.conn.add(table, g, **cols)
    elif g:
        ks = list(cols)
        db.execute('INSERT INTO %s (%s) VALUES (%s)' % (table, ','.join(ks), ','.join('?' * len(ks))),
                   tuple(cols[k] for k in ks))


def db_rows(E, db, table):
    """[(guard, row dict)]"""
    if E.mode == 'sym':
        return db.conn.rows(table)
    ks = T[table]
    return [(True, dict(zip(ks, r))) for r in
            db.conn.cursor().execute('SELECT %s FROM %s' % (','.join(ks), table)).fetchall()]


def set_seq(E, db, table, n):
    """AUTOINCREMENT counter"""
    if E.mode == 'sym':
        db.conn.tables[table].seq = n
    else:
        c = db.conn.cursor()
        if list(c.execute('SELECT 1 FROM sqlite_sequence WHERE name=?', (table,))):
            c.execute('UPDATE sqlite_sequence SET seq=? WHERE name=?', (n, table))
        else:
            c.execute('INSERT INTO sqlite_sequence (name, seq) VALUES (?,?)', (table, n))


class Clock:
    """time module replacement: a strictly increasing, deterministic clock"""

    def __init__(self, start=NOW):
        self.t = start

    def time_ns(self):
        return self.t

    def time(self):
        return self.t / 1e9


class View:
    """Read access to table contents as functions from keys to (present, value)."""

    def __init__(self, E, db):
        self.E = E
        self.t = {n: db_rows(E, db, n) for n in T}

    def fold(self, table, pred, cols):
        p, v = False, {c: 0 for c in cols}
        first = True
        for g, r in self.t[table]:
            h = And(g, pred(r))
            if h is False:
                continue
            if first:
                v = {c: r[c] for c in cols}
                first = False
            else:
                v = {c: ite(h, r[c], v[c]) for c in cols}
            p = Or(p, h)
        return p, v

    def inode(self, i):
        return self.fold('inodes', lambda r: Eq(r['id'], i), ATTRS)

    def content(self, d, name):
        nid = self.name(name)
        p, v = self.fold('contents', lambda r: And(Eq(r['parent_inode'], d), Eq(r['name_id'], nid[1]['id']), nid[0]),
                         ('inode',))
        return p, v['inode']

    def name(self, name):
        return self.fold('names', lambda r: Eq(r['name'], name), ('id', 'refcount'))

    def xattr(self, i, name):
        nid = self.name(name)
        p, v = self.fold('ext_attributes', lambda r: And(Eq(r['inode'], i), Eq(r['name_id'], nid[1]['id']), nid[0]),
                         ('value',))
        return p, v['value']

    def target(self, i):
        p, v = self.fold('symlink_targets', lambda r: Eq(r['inode'], i), ('target',))
        return p, v['target']

    def block(self, i, b):
        p, v = self.fold('inode_blocks', lambda r: And(Eq(r['inode'], i), Eq(r['blockno'], b)), ('obj_id',))
        return p, v['obj_id']

    def obj(self, o):
        return self.fold('objects', lambda r: Eq(r['id'], o), ('hash', 'refcount', 'phys_size', 'length'))

    def count(self, table, pred):
        return Count([And(g, pred(r)) for g, r in self.t[table]])

    # -- reference consistency (C01)
    def invariants(self, opened=None, extra_obj_refs=lambda o: 0):
        t = self.t
        out = []
        for g, r in t['inodes']:
            n = self.count('contents', lambda c: Eq(c['inode'], r['id']))
            want = Ite(Eq(r['id'], 1), 1, Ite(Eq(r['id'], 2), 42, n))
            out.append((Implies(g, Eq(r['refcount'], want)), 'inode link count equals number of directory entries'))
            if opened is not None:
                out.append((Implies(And(g, Eq(r['refcount'], 0)), opened(r['id'])),
                            'unlinked inode still referenced by nobody is gone'))
        for g, r in t['names']:
            n = Sum([self.count('contents', lambda c: Eq(c['name_id'], r['id'])),
                     self.count('ext_attributes', lambda c: Eq(c['name_id'], r['id']))])
            out.append((Implies(g, Eq(r['refcount'], n)), 'name reference count equals number of users'))
            out.append((Implies(g, r['refcount'] > 0), 'no unreferenced name rows'))
        for g, r in t['objects']:
            n = Sum([self.count('inode_blocks', lambda c: Eq(c['obj_id'], r['id'])), extra_obj_refs(r['id'])])
            out.append((Implies(g, Eq(r['refcount'], n)), 'object reference count equals number of blocks using it'))
            out.append((Implies(g, r['refcount'] > 0), 'no unreferenced object rows'))
        for tab, col, ref in (('contents', 'inode', 'inodes'), ('contents', 'parent_inode', 'inodes'),
                              ('contents', 'name_id', 'names'), ('ext_attributes', 'inode', 'inodes'),
                              ('ext_attributes', 'name_id', 'names'), ('symlink_targets', 'inode', 'inodes'),
                              ('inode_blocks', 'inode', 'inodes'), ('inode_blocks', 'obj_id', 'objects')):
            for g, r in t[tab]:
                ok = Or([And(g2, Eq(r2['id'], r[col])) for g2, r2 in t[ref]])
                out.append((Implies(g, ok), '%s.%s refers to an existing row' % (tab, col)))
        for i, (g, r) in enumerate(t['contents']):
            for g2, r2 in t['contents'][:i]:
                out.append((Not(And(g, g2, Eq(r['parent_inode'], r2['parent_inode']),
                                    Eq(r['name_id'], r2['name_id']))), 'directory entries are unique'))
        return out

    def dump(self):
        """Table contents as observable value (rows sorted; rows filtered by presence)."""
        return {n: Rows(self.E, n, rs) for n, rs in self.t.items()}


def ite(c, a, b):
    """Ite that also merges NULLs."""
    if c is True:
        return a
    if c is False:
        return b
    if a is None and b is None:
        return None
    if a is None or b is None:
        return core_null(c, a, b)
    return Ite(c, a, b)


def core_null(c, a, b):
    from symx.sqldb import NullOr
    if a is None:
        return NullOr(c, b) if not isinstance(b, NullOr) else NullOr(Or(c, b.n), b.v)
    return NullOr(Not(c), a) if not isinstance(a, NullOr) else NullOr(Or(Not(c), a.n), a.v)


class Rows:
    def __init__(self, E, name, rows):
        self.E, self.name, self.rows = E, name, rows

    def __symobs__(self, m):
        E = self.E
        out = []
        for g, r in self.rows:
            if E.eval_obs(m, g if g is True else core.SymBool(core.tobool(g))) is True:
                out.append([enc_val(E.eval_obs(m, obs_null(m, E, r[c]))) for c in T[self.name]])
        return sorted(out, key=repr)

    def __concobs__(self):
        return sorted(([enc_val(self.E.enc(r[c])) for c in T[self.name]] for _, r in self.rows), key=repr)


def obs_null(m, E, v):
    if hasattr(v, 'n') and hasattr(v, 'v'):
        return None if E.eval_obs(m, core.mkbool(core.tobool(v.n))) else v.v
    return v


def enc_val(v):
    return int(v) if isinstance(v, bool) else v


class LazyOpen(dict):
    """open_inodes whose membership is symbolic until somebody looks."""

    def __init__(self, E, ids):
        super().__init__()
        self.E = E
        self.bits = {i: E.bool('open%d' % i) for i in ids}
        self.cnt = {i: E.int('nopen%d' % i, 1, 3) for i in ids}
        self.und = set(ids)

    def _decide(self, i):
        i = core.concretize(i)
        if i in self.und:
            self.und.discard(i)
            if self.bits[i]:
                dict.__setitem__(self, i, self.cnt[i])
        return i

    def __contains__(self, i):
        return dict.__contains__(self, self._decide(i))

    def __getitem__(self, i):
        i = self._decide(i)
        if not dict.__contains__(self, i):
            dict.__setitem__(self, i, 0)
        return dict.__getitem__(self, i)

    def __setitem__(self, i, v):
        dict.__setitem__(self, self._decide(i), v)

    def __delitem__(self, i):
        dict.__delitem__(self, self._decide(i))

    def get(self, i, d=None):
        return dict.get(self, self._decide(i), d)

    def pop(self, i, *d):
        return dict.pop(self, self._decide(i), *d)

    def setdefault(self, i, d=None):
        return dict.setdefault(self, self._decide(i), d)

    def _all(self):
        for i in list(self.und):
            self._decide(i)

    def items(self):
        self._all()
        return dict.items(self)

    def keys(self):
        self._all()
        return dict.keys(self)

    def __iter__(self):
        self._all()
        return dict.__iter__(self)

    def sym(self, i):
        """Is the inode open (symbolic)?"""
        if isinstance(i, core.SymInt):
            return Or([And(Eq(i, j), self.sym(j)) for j in set(self.bits) | set(dict.keys(self))])
        if i in self.und:
            return self.bits[i]
        return dict.__contains__(self, i)

    def count(self, i):
        if i in self.und:
            return Ite(self.bits[i], self.cnt[i], 0)
        return dict.get(self, i, 0)


class StubBackend:
    """Backend for states without pending transfers: records deletions, serves known objects."""
    max_connections = 2
    max_threads = 1

    def __init__(self, env):
        self.env = env
        self.deleted = []

    async def readinto_fh(self, key, fh, size_hint=None, **kw):
        await strio.lowlevel.checkpoint()
        return self.env.backend_read(key, fh)

    async def write_fh(self, key, fh, len_=None, **kw):
        raise core.Inconclusive('unexpected upload')

    async def delete_multi(self, keys, **kw):
        self.deleted += keys
        del keys[:]


class SendStub:
    def __init__(self):
        self.sent = []

    async def send(self, x):
        await strio.lowlevel.checkpoint()
        self.sent.append(x)

    async def aclose(self):
        pass


class FsEnv:
    def __init__(self, E, cfg):
        from s3ql import fs as F, inode_cache, block_cache, common
        self.E, self.cfg = E, cfg
        self.N = N = cfg.get('N', 3)
        self.K = K = cfg.get('K', 2)
        self.NB = NB = cfg.get('NB', 1)
        self.M = M = cfg.get('M', 2 if NB else 0)
        self.bs = cfg.get('bs', 4096)
        self.X = cfg.get('X', True)         # extended attributes present
        kinds = cfg.get('kinds', (DIR, REG, LNK, FIFO))
        self.db = db = open_db(E)
        self.clock = Clock()
        vfs.set_attr(E, common, 'time', ClockMod(self.clock, common.time))
        vfs.set_attr(E, F, 'time', ClockMod(self.clock, F.time))
        vfs.set_attr(E, block_cache, 'time', ClockMod(self.clock, block_cache.time))
        import s3ql.database as D
        vfs.set_attr(E, D, 'time', ClockMod(self.clock, D.time))
        self.ids = ids = [3 + i for i in range(N)]
        self.all = [1] + ids
        self.newid = ids[-1] + 1 if ids else 3
        self.names = [n.encode() for n in cfg.get('names') or ['n%d' % k for k in range(K)]]
        pres = {1: True}
        kind = {1: DIR}
        at = {}
        for i in self.all:
            if i != 1:
                pres[i] = E.bool('present%d' % i)
                k = E.int('kind%d' % i)
                E.assume(Or([k == x for x in kinds]))
                kind[i] = k
            perm = E.int('perm%d' % i, 0, 4095)
            at[i] = dict(mode=kind[i] * 4096 + perm, uid=E.int('uid%d' % i, 0, 2 ** 31),
                         gid=E.int('gid%d' % i, 0, 2 ** 31), mtime_ns=E.int('mtime%d' % i, 0, 2 * NOW),
                         atime_ns=E.int('atime%d' % i, 0, 2 * NOW), ctime_ns=E.int('ctime%d' % i, 0, 2 * NOW),
                         size=E.int('size%d' % i, 0, cfg.get('maxsize', NB * self.bs)),
                         rdev=E.int('rdev%d' % i, 0, 2 ** 31),
                         locked=Ite(E.bool('locked%d' % i), 1, 0) if not cfg.get('nolock') else 0)
        self.pres, self.kind, self.at = pres, kind, at
        # directory entries: (dir, name) -> inode, acyclic by slot order
        C = {}
        for d in self.all[:-1] if ids else []:
            for k in range(K):
                p = E.bool('entry%d_%d' % (d, k))
                later = [j for j in ids if j > d]
                t = E.int('to%d_%d' % (d, k), later[0], later[-1])
                E.assume(Implies(p, And(pres[d], kind[d] == DIR,
                                        Or([And(Eq(t, j), pres[j]) for j in later]))))
                C[d, k] = (p, t)
        self.C = C
        refs = {}
        for i in ids:
            refs[i] = Count([And(p, Eq(t, i)) for p, t in C.values()])
            E.assume(Implies(And(pres[i], kind[i] == DIR), refs[i] <= 1))
            # an unlinked directory has no entries
            for (d, k), (p, t) in C.items():
                if d == i:
                    E.assume(Implies(And(p, pres[i]), refs[i] > 0))
        refs[1] = 1
        self.refs = refs
        # extended attributes
        X = {}
        if self.X:
            for i in self.all:
                for k in range(K):
                    p = E.bool('xattr%d_%d' % (i, k))
                    v = E.atom('xval%d_%d' % (i, k), 3)
                    if i != 1:
                        E.assume(Implies(p, pres[i]))
                    X[i, k] = (p, v)
        self.Xm = X
        # blocks
        B = {}
        for i in (ids if NB else []):
            for b in range(NB):
                p = E.bool('block%d_%d' % (i, b))
                o = E.int('obj%d_%d' % (i, b), 1, M)
                E.assume(Implies(p, And(pres[i], at[i]['size'] > b * self.bs)))
                B[i, b] = (p, o)
        self.B = B
        # materialise
        for i in self.all:
            db_add(E, db, 'inodes', pres[i], id=i, refcount=refs[i], **at[i])
            if i == 1:
                db_add(E, db, 'inodes', True, id=2, refcount=42, mode=0o100600, uid=0, gid=0, mtime_ns=5,
                       atime_ns=5, ctime_ns=5, size=0, rdev=0, locked=0)
        set_seq(E, db, 'inodes', self.newid - 1)
        self.tgt = {}
        for i in ids:
            v = E.atom('target%d' % i, 3)
            p = And(pres[i], kind[i] == LNK)
            self.tgt[i] = (p, v)
            db_add(E, db, 'symlink_targets', p, inode=i, target=v)
        for k, n in enumerate(self.names):
            c = Count([p for (d, j), (p, t) in C.items() if j == k] + [p for (i, j), (p, v) in X.items() if j == k])
            db_add(E, db, 'names', c > 0, id=10 + k, name=n, refcount=c)
        for (d, k), (p, t) in C.items():
            db_add(E, db, 'contents', p, name_id=10 + k, inode=t, parent_inode=d)
        for (i, k), (p, v) in X.items():
            db_add(E, db, 'ext_attributes', p, inode=i, name_id=10 + k, value=v)
        self.objs = {}
        self.olen = {}
        for o in range(1, M + 1):
            c = Count([And(p, Eq(t, o)) for p, t in B.values()])
            phys = E.int('phys%d' % o, 0, 2 ** 40)
            ln = self.olen[o] = E.int('olen%d' % o, 0, self.bs)
            self.objs[o] = c
            db_add(E, db, 'objects', c > 0, id=o, hash=b'hash-%d' % o, refcount=c, phys_size=phys, length=ln)
        set_seq(E, db, 'objects', M)
        for (i, b), (p, o) in B.items():
            db_add(E, db, 'inode_blocks', p, inode=i, blockno=b, obj_id=o)
        # components
        self.opened = LazyOpen(E, ids)
        for i in ids:
            E.assume(Implies(And(pres[i], Eq(refs[i], 0)), self.opened.bits[i]))
            E.assume(Implies(self.opened.bits[i], pres[i]))
        self.inodes = inode_cache.InodeCache(db, 0)
        self.removals = SendStub()
        if E.mode == 'sym':
            self.v = vfs.VFS()
            vfs.patch(E, [block_cache], self.v)
            cdir = '/cache'
        else:
            cdir = os.path.join(tmpdir(), 'cache')
        self.backend = StubBackend(self)
        self.cache = block_cache.BlockCache(self.backend, db, cdir, 10 ** 12, SendStub(), self.removals)
        self.fs = F.Operations(self.cache, db, self.bs, self.inodes)
        self.cache.fs = self.fs
        oi = self.opened
        dict.__setitem__(oi, 1, 1)
        self.fs.open_inodes = oi
        self.fs.failsafe = cfg.get('failsafe', False)
        E.cleanups.append(self.close)
        self.pre = View(E, db)
        if cfg.get('inv', True) and E.mode == 'replay':
            for c, l in self.pre.invariants(oi.sym):
                E.assume(c)
        self.pre_open = {i: oi.count(i) for i in ids}
        self.dirty_cache()

    def dirty_cache(self):
        """Optionally: inode attributes live in the attribute cache, the database is stale."""
        if not self.cfg.get('cached'):
            return
        E = self.E
        for i in self.all:
            ino = self.inodes  # noqa
            p = self.pres[i]
            if p is True or p:
                obj = self.inodes[i]
                for a in ('uid', 'mtime_ns', 'size', 'refcount'):
                    setattr(obj, a, getattr(obj, a))
        for a, lo in (('uid', 7), ('mtime_ns', 7), ('refcount', 77), ('size', 7777)):
            self.db.execute('UPDATE inodes SET %s=?' % a, (lo,))

    fault = 0
    objdata = None

    def backend_read(self, key, fh):
        from s3ql.backends.common import NoSuchObject, CorruptedObjectError
        o = int(key[len('s3ql_data_'):])
        if self.fault == 1:
            raise NoSuchObject(key)
        n = self.olen[o]
        d = self.objdata[o] if self.objdata else vfs.data(self.E, o, n)
        if self.fault == 2:
            fh.write(d[:n // 2])
            raise CorruptedObjectError('bad')
        fh.write(d)

    def fields(self, up):
        f = type('Fields', (), {})()
        for n in ('atime', 'mtime', 'ctime', 'mode', 'uid', 'gid', 'size'):
            setattr(f, 'update_' + n, up.get(n, False))
        return f

    def close(self):
        for n in list(self.inodes.attrs.values()):
            object.__setattr__(n, 'dirty', False)
        self.inodes.attrs.clear()
        for el in self.cache.cache.values():
            el.dirty = False
        if self.E.mode == 'replay':
            try:
                self.db.conn.close()
            except Exception:
                pass

    def call(self, fn, *args, allowed=()):
        """Run an operation; ('ok', value) | ('errno', n) | ('exc', type name)."""
        import pyfuse3
        try:
            r = strio.run(fn, *args)
        except pyfuse3.FUSEError as e:
            return 'errno', e.errno
        except Exception as e:
            if os.environ.get('SYMX_DEBUG'):
                import traceback
                traceback.print_exc()
            return 'exc', type(e).__name__ + ': ' + str(e)
        return 'ok', r

    def view(self):
        self.inodes.flush()
        return View(self.E, self.db)

    # -- arguments
    def inode_arg(self, name='ino', root=True, extra=()):
        ids = (self.all if root else self.ids) + list(extra)
        i = ids[self.E.choice(name, len(ids))]
        if i in self.pres:
            self.E.assume(self.pres[i])
        return i

    def dir_arg(self, name='dir'):
        i = self.inode_arg(name)
        if i != 1:
            self.E.assume(self.kind[i] == DIR)
            self.E.assume(self.opened.bits[i])
        return i

    def name_arg(self, name='name', ctrl=True, fresh=True):
        opts = list(self.names) + ([b'new'] if fresh else []) + ([b'.__s3ql__ctrl__'] if ctrl else [])
        return opts[self.E.choice(name, len(opts))]

    def entry(self, d, name):
        """(present, target) of a directory entry in the pre-state"""
        if name in self.names and (d, self.names.index(name)) in self.C:
            return self.C[d, self.names.index(name)]
        return False, 0

    def ctx(self):
        from pyfuse3 import RequestContext
        try:
            return RequestContext(uid=1001, gid=1002, pid=1, umask=0)
        except TypeError:
            r = type('Ctx', (), {})()
            r.uid, r.gid, r.pid, r.umask = 1001, 1002, 1, 0
            return r


class ClockMod:
    def __init__(self, c, real):
        self._c, self._r = c, real

    def time_ns(self):
        return self._c.time_ns()

    def time(self):
        return self._c.time()

    def monotonic(self):
        return self._c.time()
    perf_counter = monotonic

    def sleep(self, s):
        pass

    def __getattr__(self, n):
        return getattr(self._r, n)
