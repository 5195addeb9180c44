"""Real BlockCache with workers on a simulated backend, schedules chosen by the solver."""
import itertools
import os

from symx import core, strio, vfs
from symx.core import And, Or, Not, Implies, Iff, Ite, Count, Sum, Eq
from checks._fsenv import open_db, db_add, db_rows, set_seq, tmpdir, Clock, ClockMod

BS = 2              # block size in bytes


class Fault(Exception):
    """Failure of the storage service."""


def mkbytes(E, vals):
    """Byte string from byte values."""
    if E.mode == 'replay':
        return bytes(vals)
    vals = list(vals)
    if all(isinstance(v, int) for v in vals):
        return bytes(vals)

    def at(i):
        if isinstance(i, int):
            return vals[i] if 0 <= i < len(vals) else 0
        raise core.Inconclusive('symbolic index')
    return vfs.SymBytes(len(vals), at)


def vals(b):
    """Byte values of a byte string of concrete length."""
    if isinstance(b, (bytes, bytearray)):
        return list(b)
    n = core.concretize(b.length)
    return [b.at(i) for i in range(n)]


class SymSha:
    def __init__(self, b=b''):
        self.b = b

    def update(self, b):
        self.b = vfs.SymBytes.of(self.b) + b if not isinstance(self.b, bytes) or not isinstance(b, bytes) else self.b + b

    def digest(self):
        v = vals(self.b)
        h = len(v)
        for k, x in enumerate(v):
            h = h + (8 << (8 * k)) * x
        return core.SymAtom(core.toint(h + 10 ** 6))

    def hexdigest(self):
        raise core.Inconclusive('hexdigest')


class HashLib:
    sha256 = SymSha


class DelayPolicy:
    """Default order is FIFO; at most `budget` deviations, each at a solver-chosen place."""

    def __init__(self, E, budget, limit=10 ** 9):
        self.E, self.budget = E, budget
        self.log = []

    def __call__(self, label, n):
        if self.budget <= 0:
            return 0
        k = self.E.nd('sched', min(n, self.budget + 1))
        self.budget -= k
        return k


class FreePolicy:
    def __init__(self, E):
        self.E = E

    def __call__(self, label, n):
        return self.E.nd('sched', n)


class SimBackend:
    """Storage service; every transfer takes arbitrarily long, may fail at solver-chosen points."""
    max_threads = 0

    def __init__(self, sim, conns=1, faults=0):
        self.sim, self.E = sim, sim.E
        self.max_connections = conns
        self.objects = {}
        self.written = set()
        self.faults = faults            # number of failures that may occur
        self.failed = []
        self.deleted = []

    def fault(self, where):
        if self.faults > 0 and self.E.nd('fault_' + where, 2):
            self.faults -= 1
            self.failed.append(where)
            return True
        return False

    async def write_fh(self, key, fh, len_=None, metadata=None, dont_compress=False):
        E = self.E
        await strio.io_point()
        if self.fault('write'):
            raise Fault(key)
        d = fh.read(len_)
        E.check(key not in self.written, 'a stored object is never written again')
        await strio.io_point()
        self.written.add(key)
        self.objects[key] = d
        if self.fault('wrote'):
            raise Fault(key)
        return core.symlen(d) + 1000

    async def readinto_fh(self, key, fh, size_hint=None, **kw):
        from s3ql.backends.common import NoSuchObject
        await strio.io_point()
        if key not in self.objects:
            self.sim.lost.append(key)
            raise NoSuchObject(key)
        d = self.objects[key]
        n = core.symlen(d)
        fh.write(d[:n // 2])
        await strio.io_point()
        if self.fault('read'):
            raise Fault(key)
        fh.write(d[n // 2:])

    async def delete_multi(self, keys, **kw):
        from s3ql.backends.common import NoSuchObject
        while keys:
            await strio.io_point()
            k = keys[0]
            self.sim.check_delete(k)
            if k not in self.objects:
                self.sim.lost.append(k)
                raise NoSuchObject(k)
            del self.objects[k]
            self.deleted.append(k)
            del keys[0]


class FsStub:
    failsafe = False


class Sim:
    def __init__(self, E, cfg):
        from s3ql import block_cache, common
        import s3ql.database as D
        self.E, self.cfg = E, cfg
        self.lost = []
        self.db = open_db(E)
        self.clock = Clock()
        for m in (block_cache, common, D):
            vfs.set_attr(E, m, 'time', ClockMod(self.clock, m.time))
        self.nval = 0
        if E.mode == 'sym':
            self.v = vfs.VFS()
            vfs.patch(E, [block_cache], self.v)
            vfs.set_attr(E, common, 'hashlib', HashLib)
            self.cdir = '/cache'
        else:
            self.v = None
            self.cdir = os.path.join(tmpdir(), 'cache')
        self.backend = SimBackend(self, cfg.get('conns', 1), cfg.get('faults', 0))
        self.model = {}             # initial contents: (inode, block) -> list of byte values
        for i in (3, 4):
            db_add(E, self.db, 'inodes', True, id=i, uid=0, gid=0, mode=0o100644, mtime_ns=0, atime_ns=0, ctime_ns=0,
                   refcount=1, size=2 * BS, rdev=0, locked=0)
        set_seq(E, self.db, 'inodes', 4)
        self.init(cfg.get('init', ''))
        E.cleanups.append(self.close)
        self.cache = None

    def byte(self, name='byte'):
        self.nval += 1
        return self.E.int('%s%d' % (name, self.nval), 0, 255)

    def sha(self, v):
        import hashlib
        if self.E.mode == 'sym':
            s = SymSha()
            s.update(mkbytes(self.E, v))
            return s.digest()
        return hashlib.sha256(bytes(v)).digest()

    def init(self, spec):
        """Initially stored blocks, e.g. '30=a 31=a 40=b': blocks 0 and 1 of inode 3 share object a."""
        objs = {}
        refs = {}
        n = 0
        content = []
        for s in spec.split():
            k, o = s.split('=')
            if o not in objs:
                n += 1
                objs[o] = (n, [self.byte('init') for _ in range(BS)])
                # stored objects have distinct contents
                for c in content:
                    self.E.assume(Not(And([Eq(x, y) for x, y in zip(c, objs[o][1])])))
                content.append(objs[o][1])
            refs[o] = refs.get(o, 0) + 1
            self.model[int(k[0]), int(k[1])] = list(objs[o][1])
        for o, (i, v) in objs.items():
            db_add(self.E, self.db, 'objects', True, id=i, hash=self.sha(v), refcount=refs[o], phys_size=1000 + BS,
                   length=BS)
            self.backend.objects['s3ql_data_%d' % i] = mkbytes(self.E, v)
            self.backend.written.add('s3ql_data_%d' % i)
        set_seq(self.E, self.db, 'objects', n)
        for s in spec.split():
            k, o = s.split('=')
            db_add(self.E, self.db, 'inode_blocks', True, inode=int(k[0]), blockno=int(k[1]), obj_id=objs[o][0])

    def close(self):
        if self.cache is not None:
            for el in self.cache.cache.values():
                object.__setattr__(el, 'dirty', False)
        if self.E.mode == 'replay':
            try:
                self.db.conn.close()
            except Exception:
                pass

    # -- concrete table access (all tables are concrete in these harnesses)
    def rows(self, table):
        return [r for g, r in db_rows(self.E, self.db, table) if g is True or bool(g)]

    def check_delete(self, key):
        o = int(key[len('s3ql_data_'):])
        used = [r for r in self.rows('inode_blocks') if core.concretize(r['obj_id']) == o]
        self.E.check(not used, 'no object is deleted while a block refers to it', lambda: key)

    def file(self, el):
        name = os.path.join(self.cdir, '%d-%d' % (el.inode, el.blockno))
        if self.E.mode == 'sym':
            return self.v.files[name].data if name in self.v.files else None
        if not os.path.exists(name):
            return None
        with open(name, 'rb') as fh:
            return fh.read()

    def content(self, i, b):
        """Logical contents of a block right now: byte values."""
        el = self.cache.cache.get((i, b), None)
        if el is not None:
            return vals(self.file(el))
        for r in self.rows('inode_blocks'):
            if core.concretize(r['inode']) == i and core.concretize(r['blockno']) == b:
                k = 's3ql_data_%d' % core.concretize(r['obj_id'])
                if k not in self.backend.objects:
                    return None
                return vals(self.backend.objects[k])
        return []

    # -- client operations
    async def op(self, code, res):
        E, c = self.E, self.cache
        k = code[0]
        if k == 'W':        # Wib: write the whole block; Wibx: write only byte x
            i, b = int(code[1]), int(code[2])
            if len(code) > 3:
                off, v = int(code[3]), [self.byte()]
            else:
                off, v = 0, [self.byte() for _ in range(BS)]
            async with c.get(i, b, max_write=off + len(v) - 1) as fh:
                fh.seek(off)
                fh.write(mkbytes(E, v))
            res.append(('W', (i, b), off, v))
        elif k == 'R':
            i, b = int(code[1]), int(code[2])
            async with c.get(i, b) as fh:
                fh.seek(0)
                d = fh.read(BS)
            res.append(('R', (i, b), vals(d)))
        elif k == 'T':
            i, b, n = int(code[1]), int(code[2]), int(code[3])
            async with c.get(i, b) as fh:
                fh.truncate(n)
            res.append(('T', (i, b), n))
        elif k == 'X':
            i, b = int(code[1]), int(code[2])
            await c.remove(i, b, b + 1)
            res.append(('X', (i, b)))
        elif k == 'F':
            await c.flush()
        elif k == 'D':
            await c.drop()
        elif k == 'S':
            i = int(code[1])
            dirty = [k2 for k2, el in c.cache.items() if el.inode == i and el.dirty]
            before = [list(r) for r in self.model_now(i)] if False else None
            await c.start_flush(i)
        elif k == 'E':
            await c.evict()
        elif k == 'U':      # background upload of one block, as the periodic commit task does
            for el in c.cache.mutable_values():
                if el.dirty and not el.in_transit:
                    await c.upload_if_dirty(el)
        else:
            raise AssertionError(code)

    async def client(self, prog, res):
        for code in prog.split():
            await self.op(code, res)


def apply(state, o):
    """Sequential specification; returns (condition the observation must meet)."""
    k, key = o[0], o[1]
    cur = list(state.get(key, []))
    if k == 'W':
        off, v = o[2], o[3]
        while len(cur) < off:
            cur.append(0)
        cur[off:off + len(v)] = v
        state[key] = cur
    elif k == 'T':
        n = o[2]
        state[key] = (cur + [0] * n)[:n]
    elif k == 'X':
        state[key] = []
    elif k == 'R':
        if len(cur) != len(o[2]):
            # a hole reads as an empty block
            return False
        return And([Eq(x, y) for x, y in zip(cur, o[2])])
    return True


def linearizations(logs):
    """All merges of the clients' operation lists."""
    idx = []
    for t, l in enumerate(logs):
        idx += [t] * len(l)
    for p in sorted(set(itertools.permutations(idx))):
        pos = [0] * len(logs)
        out = []
        for t in p:
            out.append(logs[t][pos[t]])
            pos[t] += 1
        yield out


def explain(model, logs, final):
    """Condition: some order of the operations explains all reads and the final contents."""
    alts = []
    for lin in linearizations(logs):
        st = {k: list(v) for k, v in model.items()}
        cs = [apply(st, o) for o in lin]
        for k, v in final.items():
            w = st.get(k, [])
            if v is None:
                cs.append(False)
            else:
                # trailing zeros are equivalent to a shorter block
                n = max(len(v), len(w))
                cs += [Eq(x, y) for x, y in zip(v + [0] * (n - len(v)), w + [0] * (n - len(w)))]
        c = And(cs)
        if c is True:
            return True
        alts.append(c)
    return Or(alts)


def all_faults(e):
    # once a worker died, handing work to it fails too
    import trio
    return all(all_faults(x) if isinstance(x, ExceptionGroup) else
               isinstance(x, (Fault, trio.BrokenResourceError, strio.BrokenResourceError)) for x in e.exceptions)
