"""The mount process dies at any point; the file system check recovers what was in the cache (C13)."""
import os

from symx.registry import harness, claim, describe
from checks._cachesim import *

PROPERTIES = ['C13']
KEYS = [(3, 0), (3, 1), (4, 0)]


class Storage(SimBackend):
    """Storage that keeps what was completely transferred when the process died."""
    backend = None

    async def write_fh(self, key, fh, len_=None, metadata=None, dont_compress=False):
        await strio.io_point()
        self.sim.point('send ' + key)
        if self.fault('write'):
            raise Fault(key)
        fh.seek(0)
        d = fh.read(len_) if len_ is not None else fh.read()
        await strio.io_point()
        self.sim.point('stored ' + key)
        self.objects[key] = d
        self.sim.point('confirmed ' + key)
        if self.fault('wrote'):
            raise Fault(key)
        return core.symlen(d) + 1000

    async def readinto_fh(self, key, fh, size_hint=None, **kw):
        self.sim.downloads.append(fh)
        await super().readinto_fh(key, fh, size_hint, **kw)
        self.sim.unsynced.add(fh.name)

    async def delete_multi(self, keys, **kw):
        while keys:
            await strio.io_point()
            self.sim.point('delete ' + keys[0])
            self.objects.pop(keys[0], None)
            del keys[0]

    async def delete(self, key):
        from s3ql.backends.common import NoSuchObject
        await strio.io_point()
        self.sim.point('delete ' + key)
        if key not in self.objects:
            raise NoSuchObject(key)
        del self.objects[key]

    async def list(self, prefix=''):
        for k in sorted(self.objects):
            if k.startswith(prefix):
                await strio.io_point()
                yield k

    async def contains(self, key):
        await strio.io_point()
        return key in self.objects

    async def get_size(self, key):
        from s3ql.backends.common import NoSuchObject
        await strio.io_point()
        if key not in self.objects:
            raise NoSuchObject(key)
        return core.symlen(self.objects[key]) + 1000

    async def fetch(self, key):
        from s3ql.backends.common import NoSuchObject
        await strio.io_point()
        if key not in self.objects:
            raise NoSuchObject(key)
        return self.objects[key], {}


class Proxy:
    def __init__(self, o, **kw):
        self._o = o
        self.__dict__.update(kw)

    def __getattr__(self, n):
        return getattr(self._o, n)


class CrashSim(Sim):
    def __init__(self, E, cfg):
        from s3ql import block_cache, fsck
        self.crashes = 0            # how often the process may die from now on
        self.dead = False
        self.trace = []
        self.downloads = []
        self.unsynced = set()
        self.inflight = []
        self.ever = []
        super().__init__(E, cfg)
        st = Storage(self, cfg.get('conns', 1), cfg.get('faults', 0))
        st.objects, st.written = self.backend.objects, self.backend.written
        self.backend = st
        db = self.db
        for i, mode, rc in ((1, 0o040755, 1), (2, 0o100600, 42), (5, 0o040700, 1)):
            db_add(E, db, 'inodes', True, id=i, uid=0, gid=0, mode=mode, mtime_ns=0, atime_ns=0, ctime_ns=0,
                   refcount=rc, size=0, rdev=0, locked=0)
        set_seq(E, db, 'inodes', 5)
        for i, (name, inode) in enumerate(((b'lost+found', 5), (b'a', 3), (b'b', 4))):
            db_add(E, db, 'names', True, id=i + 1, name=name, refcount=1)
            db_add(E, db, 'contents', True, name_id=i + 1, inode=inode, parent_inode=1)
        set_seq(E, db, 'names', 3)
        for m in ('execute', 'rowid'):
            def stmt(sql, *a, f=getattr(db, m), **kw):
                self.point(sql.split()[0] + ' ' + sql[:60])
                return f(sql, *a, **kw)
            vfs.set_attr(E, db, m, stmt)
        if E.mode == 'sym':
            vfs.patch(E, [fsck], self.v)
        for mod in (block_cache, fsck):
            self.wrap(mod)

    def wrap(self, mod):
        o = mod.os
        op = mod.open if 'open' in mod.__dict__ else open

        def unlink(f, *a, **kw):
            self.point('unlink ' + f)
            o.unlink(f, *a, **kw)

        def rename(a, b):
            self.point('rename ' + a)
            o.rename(a, b)
            if a in self.unsynced:
                self.unsynced.discard(a)
                self.unsynced.add(b)

        def fsync(fd):
            self.point('fsync')
            o.fsync(fd)
            for fh in self.downloads:
                if not fh.closed and fh.fileno() == fd:
                    self.unsynced.discard(fh.name)

        def open_(f, mode='r', *a, **kw):
            if 'w' in mode:
                self.point('create ' + f)
            return op(f, mode, *a, **kw)
        vfs.set_attr(self.E, mod, 'os', Proxy(o, unlink=unlink, remove=unlink, rename=rename, replace=rename, fsync=fsync))
        vfs.set_attr(self.E, mod, 'open', open_)

    def point(self, what):
        """The process may die here."""
        if self.dead:
            raise strio.Crash()
        if strio.SCHED is None:
            return
        self.trace.append(what)
        if self.crashes and self.E.nd('crash', 2):
            self.crashes -= 1
            self.dead = True
            raise strio.Crash()

    def check_delete(self, key):
        pass

    def logical(self, i, b):
        """Contents according to metadata, and storage only."""
        for r in self.rows('inode_blocks'):
            if core.concretize(r['inode']) == i and core.concretize(r['blockno']) == b:
                o = core.concretize(r['obj_id'])
                if not any(core.concretize(x['id']) == o for x in self.rows('objects')):
                    return None
                d = self.backend.objects.get('s3ql_data_%d' % o)
                return None if d is None else vals(d)
        return []

    def cachefiles(self):
        if self.E.mode == 'sym':
            return {f[len(self.cdir) + 1:]: n.data for f, n in self.v.files.items() if f.startswith(self.cdir + '/')}
        r = {}
        if os.path.isdir(self.cdir):
            for f in os.listdir(self.cdir):
                with open(os.path.join(self.cdir, f), 'rb') as fh:
                    r[f] = fh.read()
        return r

    def power_loss(self):
        """File contents never written to disk explicitly are lost (here: the last part of them)."""
        for f in self.unsynced:
            if self.E.mode == 'sym':
                if f in self.v.files:
                    self.v.files[f].data = self.v.files[f].data[:1]
            elif os.path.exists(f):
                os.truncate(f, 1)

    async def client(self, prog, res):
        for code in prog.split():
            n = self.nval
            k = code[0]
            if k in 'WTX':
                key = (int(code[1]), int(code[2]))
                off = int(code[3]) if len(code) > 3 else 0
                cur = [k, key, off, None, n]
                self.inflight.append(cur)
                await self.op(code, res)
                self.inflight.remove(cur)
            else:
                await self.op(code, res)


def spec(E, sim, logs):
    """Possible contents of every block after the process died."""
    infl = []
    for k, key, off, _, n in sim.inflight:
        if k == 'W':
            infl.append((k, key, off, sim.values[key, n]) if (key, n) in sim.values else None)
        elif k == 'T':
            infl.append((k, key, off))
        else:
            infl.append((k, key))
    return [x for x in infl if x is not None]


def explain_one(model, logs, infl, key, got):
    """Condition: contents of the block are explained by the completed and perhaps the unfinished requests."""
    if any(o[0] == 'X' and o[1] == key for o in infl):
        return True             # being deleted
    if got is None:
        return False
    alts = []
    mine = [[o for o in l if o[1] == key and o[0] != 'R'] for l in logs]
    extra = [o for o in infl if o[1] == key]
    for lin in linearizations([m for m in mine if m]):
        for m in range(2 ** len(extra)):
            st = {key: list(model.get(key, []))}
            for o in list(lin) + [x for i, x in enumerate(extra) if m >> i & 1]:
                apply(st, o)
            w = st[key]
            n = max(len(w), len(got))
            alts.append(And([Eq(x, y) for x, y in zip(got + [0] * (n - len(got)), w + [0] * (n - len(w)))]))
    return Or(alts)


@harness
def crash(E, cfg):
    from s3ql import block_cache as BC, fsck as F
    from s3ql.database import FsAttributes
    sim = CrashSim(E, cfg)
    sim.values = {}
    op = sim.op

    async def op_(code, res):
        # remember the values an unfinished write would have stored
        if code[0] == 'W':
            n0 = sim.nval
            byte = sim.byte
            got = []

            def byte_(name='byte'):
                got.append(byte(name))
                return got[-1]
            sim.byte = byte_
            sim.values[(int(code[1]), int(code[2])), n0] = got
            coro = op(code, res)
            try:
                await coro          # the values are drawn before the first suspension
            finally:
                sim.byte = byte
        else:
            await op(code, res)
    sim.op = op_
    logs = [[] for _ in cfg['prog']]
    sched = strio.Scheduler(DelayPolicy(E, cfg.get('delays', 0)), max_steps=3000)
    state = {}

    async def main():
        async with strio.open_nursery() as n0:
            sim.cache = c = await BC.BlockCache.create(sim.backend, sim.db, sim.cdir, cfg.get('max_size', 100),
                                                       cfg.get('max_entries', 100), nursery=n0)
            c.fs = FsStub()
            pre = []
            await sim.client(cfg.get('pre', ''), pre)
            for o in pre:
                apply(sim.model, o)
            sim.crashes = cfg.get('crashes', 1)
            async with strio.open_nursery() as n1:
                for prog, log in zip(cfg['prog'], logs):
                    n1.start_soon(sim.client, prog, log)
            await c.destroy()
        state['done'] = True
    out = perform(E, sim, sched, main())
    E.witness('mount:' + out)
    E.check(out != 'error', 'no internal error', lambda: str(sim.exc))
    infl = spec(E, sim, logs)
    if cfg.get('power') and out == 'crash':
        sim.power_loss()
    param = FsAttributes(data_block_size=BS, metadata_block_size=4096)
    for k in range(3):
        sim.crashes = cfg.get('crashes2', 0) if k == 0 else 0
        sim.unsynced, sim.downloads = set(), []
        f = F.Fsck(sim.cdir, sim.backend, param, sim.db)
        sim.backend.faults = 0
        out2 = perform(E, sim, strio.Scheduler(None, max_steps=5000), f.check('keep' if cfg.get('keep') else True))
        E.check(out2 != 'error', 'the check completes', lambda: str(sim.exc))
        if out2 == 'ok':
            break
        # temporary tables disappear with the process
        if E.mode == 'sym':
            sim.db.conn.drop_temp()
        else:
            c = sim.db.conn.cursor()
            for (t,) in list(c.execute("SELECT name FROM sqlite_temp_master WHERE type='table'")):
                c.execute('DROP TABLE temp."%s"' % t)
    E.witness('check:' + out2)
    files = sim.cachefiles()
    for key in KEYS:
        got = sim.logical(*key)
        E.check(explain_one(sim.model, logs, infl, key, got), 'block reads back what was last written to the cache',
                lambda: '%s: %s' % (key, got))
        n = '%d-%d' % key
        if n in files and got is not None:
            d = vals(files[n])
            m = max(len(d), len(got))
            E.check(And([Eq(x, y) for x, y in zip(d + [0] * (m - len(d)), got + [0] * (m - len(got)))]),
                    'a cached block that is kept is in storage')
    E.check(all(n in ['%d-%d' % k for k in KEYS] for n in files) if cfg.get('keep') else not files, 'the cache is clean afterwards')
    rows = {core.concretize(r['id']): r for r in sim.rows('objects')}
    for r in sim.rows('inode_blocks'):
        o = core.concretize(r['obj_id'])
        E.check(o in rows and 's3ql_data_%d' % o in sim.backend.objects, 'every block refers to an object in storage')
    for o, r in rows.items():
        E.check(r['phys_size'] != -1, 'every object is known to be stored')
        if 's3ql_data_%d' % o in sim.backend.objects:
            # blocks with the same contents will be linked to it
            E.check(Eq(r['hash'], sim.sha(vals(sim.backend.objects['s3ql_data_%d' % o]))), 'the recorded checksum is that of the object')
    names = {core.concretize(r['inode']): core.concretize(r['parent_inode']) for r in sim.rows('contents')}
    E.check(names.get(3) == 1 and names.get(4) == 1, 'files stay where they are')
    E.observe('crash', out)
    E.observe('objects', sorted(sim.backend.objects))


def perform(E, sim, sched, main):
    sim.dead = False
    sim.exc = None
    try:
        sched.run(main)
        return 'ok'
    except (core.PathAbort, core.Inconclusive):
        raise
    except BaseException as e:
        if sim.dead:
            return 'crash'
        if isinstance(e, (KeyboardInterrupt, MemoryError, AssertionError)):
            raise
        sim.exc = e
        if isinstance(e, Fault) or (isinstance(e, BaseExceptionGroup) and all_faults(e)):
            return 'fault'
        return 'error'
    finally:
        sim.dead = False


A = '30=a 31=b 40=a'
Q = [dict(prog=['W30 F'], init='', crashes2=1), dict(prog=['W300 F W301 F'], init=A), dict(prog=['R30 X30 W30'], init=A),
     dict(prog=['W30 W31 W40 F'], init=''), dict(prog=['W30 F', 'W40 F'], init='', delays=1), dict(prog=['W30 F'], init=A, delays=1),
     dict(prog=['R30 T301 R31'], init=A, max_entries=1, delays=1), dict(prog=['W30 D'], init='', keep=True, crashes2=1),
     dict(prog=['R30 R31'], init=A, power=True), dict(prog=['W30 F W30 F'], init='', faults=1),
     dict(prog=['W30 F X30', 'W40'], init='', delays=1)]
claim('C13', 'crash', quick=Q,
      thorough=[dict(c, delays=1) for c in Q if 'delays' not in c] + [dict(c, crashes2=1) for c in Q if 'crashes2' not in c]
      + [dict(prog=['W30 F', 'W30 F'], init='', delays=2), dict(prog=['W30 F', 'W40 X30 F'], init=A, delays=1),
         dict(prog=['W30 F W31 F', 'W40 R30 F'], init='', max_entries=1, delays=1),
         dict(prog=['W30 F', 'W40 F'], init='', faults=1, delays=1)])
describe('C13', bounds=['up to 3 blocks of 2 bytes in 2 files with arbitrary contents, histories of up to 4 requests by up to 2 clients',
                        'death of the process before any database change, file system change or step of a transfer; again at any such '
                        'step of the following check', 'thorough: additionally up to 2 deviations from first-come first-served scheduling'],
         assumptions=['changes to the database and cache files made before the process died persist (the process dies, not the computer); '
                      'in the power loss runs, files that were downloaded and not synced lose their end',
                      'a block whose deletion was not finished may have any contents',
                      'SHA-256 has no collisions'])
