"""Sequences of mounting and checking on several machines with crashes: C16."""
import os as _os

from symx.registry import harness, claim, describe
from symx import core, strio, vfs
from symx.core import And, Or, Not, Implies, Iff, Ite, Eq
from checks._cachesim import Fault
from checks.metadata import Tracker, HashLib, LIMIT, same

PROPERTIES = ['C14', 'C16']
URL = 'local:///store'
NB = 2
CLOCK0 = 4000000.0


class Clock:
    def __init__(self):
        self.now = CLOCK0

    def time(self):
        self.now += 1
        return self.now

    def __getattr__(self, n):
        import time
        return getattr(time, n)


class World:
    """Two machines, one storage service; the process may die before any change to what outlives it."""

    def __init__(self, E, cfg):
        self.E = E
        self.p = cfg['p']
        self.v = vfs.VFS(self.event)
        self.objects = {}
        self.frozen = {}
        self.dead = False
        self.crash_at = None
        self.steps = 0
        self.unsynced = set()           # parameter files whose contents may be lost by a power failure
        self.renames = []               # renames that may be lost
        self.truth = None               # newest contents of the metadata
        self.versions = {}              # contents by sequence number
        self.owner = {}                 # object name -> session
        self.last = None                # last session that had access to the file system
        self.open_ = None               # ... if it did not complete
        self.damaged = False            # errors were encountered while mounted
        self.backup = None              # contents at the time of the last backup
        self.conn = None
        self.cur = None
        self.nwrites = 0

    def chk(self, *a):
        if self.p == 'C16':
            self.E.check(*a)

    # ---- crashes
    def step(self):
        if self.dead:
            raise strio.Crash()
        if self.crash_at is None:
            return
        self.steps += 1
        if self.crash_at == self.steps:
            self.dead = True
            self.power_failure()
            raise strio.Crash()

    def power_failure(self):
        if not (self.unsynced or self.renames) or not self.E.nd('power', 2):
            return
        for n in self.unsynced:
            if n in self.v.files:
                self.v.files[n].data = b''
        for new, old, node in reversed(self.renames):
            if old is None:
                self.v.files.pop(new, None)
            else:
                self.v.files[new] = old

    def event(self, kind, name):
        if self.dead:
            raise strio.Crash()
        f = self.v.files
        if kind == 'fsync':
            self.unsynced.discard(name)
            self.renames = [r for r in self.renames if _os.path.dirname(r[0]) != name]
            return
        if name.endswith('.params') or (name.endswith('.db') and kind != 'unlink'):
            self.step()
        if '.params' in name:
            if kind in ('create', 'write'):
                self.unsynced.add(name)
            elif kind == 'rename':
                self.renames.append((name, f.get(name), None))
                src = [n for n in self.unsynced if n != name]
                if src:
                    self.unsynced = {name}
                else:
                    self.unsynced.discard(name)

    # ---- database
    def modify(self):
        """The file system changes."""
        self.step()
        k = self.nwrites % NB
        self.nwrites += 1
        c = self.conn
        c.node.data = vfs.overlay(c.node.data, k, vfs.data(self.E, 100 + self.nwrites, 1))
        c.dirty_blocks.wrote(k, 1, 1)
        self.truth = c.node.data


class Backend:
    max_connections, max_threads = 1, 0

    def __init__(self, w):
        self.w = w

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        pass

    async def close(self):
        pass

    def put(self, key, val):
        w = self.w
        w.step()
        sid = w.cur.sid
        if key != 's3ql_params':
            o = w.owner.setdefault(key, sid)
            w.chk(o == sid, 'every session uses sequence numbers of its own', lambda: '%s stored by sessions %s and %s' % (key, o, sid))
        w.objects[key] = val
        if key.startswith('s3ql_params_') and not w.frozen[val]['is_mounted']:
            w.versions[int(key[12:], 16)] = w.truth

    async def store(self, key, val, metadata=None):
        await strio.checkpoint()
        self.put(key, val)

    async def write_fh(self, key, fh, len_=None, metadata=None, dont_compress=False):
        d = fh.read() if len_ is None else fh.read(len_)
        await strio.checkpoint()
        self.put(key, d)
        return core.symlen(d)

    async def readinto_fh(self, key, fh, size_hint=0):
        fh.write(self.get(key))
        await strio.checkpoint()
        return {}

    def get(self, key):
        from s3ql.backends.common import NoSuchObject
        if key not in self.w.objects:
            raise NoSuchObject(key)
        return self.w.objects[key]

    async def fetch(self, key):
        await strio.checkpoint()
        return self.get(key), {}

    async def contains(self, key):
        return key in self.w.objects

    async def list(self, prefix=''):
        for k in sorted(self.w.objects):
            if k.startswith(prefix):
                yield k

    async def delete_multi(self, keys, *, log_progress=False):
        for k in list(keys):
            self.w.step()
            self.w.objects.pop(k, None)
            keys.remove(k)


class Session:
    def __init__(self, sid, machine, kind):
        self.sid, self.machine, self.kind = sid, machine, kind
        self.proceeded = False


class Ctx:
    obj = None


class Args:
    compress, max_connections, max_threads = None, 1, 1
    cachedir = '/x'


def setup(E, w):
    """Everything around the code that decides which metadata to use."""
    import s3ql.database as D
    import s3ql.mount as M
    import s3ql.fsck as F
    import s3ql.adm as A
    import s3ql.common as C
    LIMIT[0] = NB
    v = w.v
    for d in ('/A', '/B', '/mnt'):
        v.dirs.add(d)
    vfs.patch(E, [D, M, F, A], v)
    vfs.set_attr(E, C, 'hashlib', HashLib)
    clock = Clock()
    world_conn = {}

    class Conn:
        """What these programs use of a database connection."""

        def __init__(self, file, blocksize=None):
            self.file, self.blocksize = file, blocksize
            w.unlinked = None
            if file not in v.files:
                v.open(file, 'wb')
            self.node = v.files[file]
            self.dirty_blocks = Tracker(E, NB)
            self.closed = False
            world_conn[file] = self
            w.conn = self

        def execute(self, sql, *a, **kw):
            w.chk(not self.closed, 'database is open')
            if w.cur.kind == 'shrink' and sql.startswith('VACUUM'):
                w.chk(w.open_ is None, 'shrinking is refused after an unclean unmount, until the file system was checked')
                start(self)
                w.chk(cache_ok(), 'outdated cached blocks are not used')
                keep = '/%s/fs-cache/block' % w.cur.machine in v.files
                started()
                if keep:
                    marker(b'clean')
                # everything moves
                w.modify()
                w.modify()
            return 0

        def get_list(self, *a):
            return [('ok',)]

        def close(self):
            self.closed = True

        def get_size(self):
            return core.symlen(self.node.data)

        def sync_checkpoint(self):
            pass

        async def checkpoint(self):
            pass

        def inhibit_writes(self):
            return Inhibit()

    class Inhibit:
        async def __aenter__(self):
            pass

        async def __aexit__(self, *a):
            pass

    def freeze(d):
        n = b'P%08d' % len(w.frozen)
        w.frozen[n] = dict(d)
        return n

    def thaw(b):
        b = bytes(b)
        if b not in w.frozen:
            raise C.ThawError()
        return dict(w.frozen[b])

    async def open_backend(*a, **kw):
        return Backend(w)

    class Auth:
        @staticmethod
        def from_file(*a):
            return Args

    def init_cachedir(*a):
        return '/%s/fs' % w.cur.machine

    class Shutil:
        @staticmethod
        def rmtree(p, *a, **kw):
            if p not in v.dirs:
                raise FileNotFoundError(p)
            w.event('rmtree', p)
            for f in list(v.files):
                if f.startswith(p + '/'):
                    del v.files[f]
            v.dirs.discard(p)

        @staticmethod
        def disk_usage(p):
            return (10 ** 9, 0, 10 ** 9)

    class Comprenc:
        @staticmethod
        def set_max_threads(n):
            pass

    class Shared:
        authfile = backend_options = cachedir = max_connections = max_threads = None
    Ctx.obj = Shared

    def ask(prompt):
        # index of one of the backups that were completed
        seqs = sorted(int(k[12:], 16) for k in w.objects if k.startswith('s3ql_params_'))
        good = [i for i, q in enumerate(seqs) if q in w.versions]
        i = good[E.nd('backup', len(good))]
        w.chosen = w.versions[seqs[i]]
        return str(i)

    common = {'input': ask, 'Connection': Conn, 'freeze_basic_mapping': freeze, 'thaw_basic_mapping': thaw, 'open_backend': open_backend,
              'Authinfo': Auth, 'init_cachedir': init_cachedir, 'determine_threads': lambda c: 1,
              'is_mounted': lambda u: False, 'setup_logging': lambda **kw: None, 'shutil': Shutil,
              'AsyncComprencBackend': Comprenc, 'time': clock, 'print': lambda *a, **kw: None}
    for m in (D, M, F, A):
        for k, x in common.items():
            if hasattr(m, k) or k in ('print', 'input'):
                vfs.set_attr(E, m, k, x)

    # ---- mount
    def cache_dir():
        return '/%s/fs-cache' % w.cur.machine

    def cache_ok():
        """Cached blocks may only be used together with the metadata they belong to."""
        for f in sorted(v.files):
            if f.startswith(cache_dir() + '/'):
                return v.files[f].data.split(b' ')[0] == b'%d' % w.last.sid
        return True

    def marker(text):
        v.dirs.add(cache_dir())
        v.files[cache_dir() + '/block'] = vfs.Inode(b'%d %s' % (w.cur.sid, text))

    def start(db):
        w.conn = db
        s = w.cur
        s.proceeded = True
        E.witness(s.kind + ' proceeds')
        w.chk(w.conn is not None and not w.conn.closed, 'has a database')
        w.chk(same(w.conn.node.data, w.truth), 'uses the newest metadata', lambda: '%s on %s' % (s.kind, s.machine))

    def started():
        w.last = w.open_ = w.cur

    class Cache:
        @classmethod
        async def create(cls, backend, db, cachedir, *a, **kw):
            s = w.cur
            w.chk(not w.damaged, 'mounting is refused if the file system needs checking')
            w.chk(w.open_ is None, 'mounting is refused after an unclean unmount, until the file system was checked')
            start(db)
            w.chk(cache_ok(), 'outdated cached blocks are not used')
            return cls()

        async def destroy(self, keep):
            await strio.checkpoint()
            if w.dead:
                raise strio.Crash()
            if w.last is w.cur:
                if keep:
                    marker(b'clean')
                else:
                    v.files.pop(cache_dir() + '/block', None)
                    v.dirs.discard(cache_dir())

    class Ops:
        failsafe = False

        def __init__(self, *a, **kw):
            self.upload_task = kw.get('upload_task')
            w.ops = self

        async def destroy(self):
            pass

    class Idle:
        def __init__(self, *a, **kw):
            pass

        async def run(self):
            pass

        def stop(self):
            pass

    class Fuse:
        trio_token = None

        @staticmethod
        def init(*a):
            pass

        @staticmethod
        def close(unmount=True):
            pass

        @staticmethod
        def terminate():
            pass

        @staticmethod
        async def main():
            w.chk(w.open_ is None, 'only one mount at a time')
            started()
            marker(b'dirty')
            w.modify()
            if w.cur.backup:
                t = w.ops.upload_task
                expired[0] = 0
                t.event.set()
                n = 0
                while not expired[0] and n < 200:
                    n += 1
                    await strio.checkpoint()
                if expired[0]:
                    E.witness('backup while mounted')
                    w.backup = w.truth
                w.modify()
                w.modify()
            w.ops.failsafe = w.damaged = bool(E.bool('failsafe')) if w.cur.failsafe else False

    class Sig:
        SIGTERM, SIGINT, SIGUSR1 = 15, 2, 10
        Signals = int

        @staticmethod
        def signal(*a):
            return None

    class FH:
        @staticmethod
        def enable(*a):
            pass
        register = enable

    for k, x in {'BlockCache': Cache, 'InodeCache': lambda *a: None, 'CommitTask': Idle, 'pyfuse3': Fuse, 'signal': Sig,
                 'faulthandler': FH, 'setup_exchook': lambda: [], '_determine_max_cache_entries': lambda *a: 10}.items():
        vfs.set_attr(E, M, k, x)

    class FsMod:
        Operations = Ops
    vfs.set_attr(E, M, 'fs', FsMod)
    exp = D.expire_objects
    expired = [0]

    async def expire(backend, *a, **kw):
        await exp(backend, *a, **kw)
        expired[0] += 1
    vfs.set_attr(E, M, 'expire_objects', expire)

    # ---- fsck
    class Check:
        def __init__(self, cachedir, backend, param, db):
            self.db = db
            self.found_errors = self.uncorrectable_errors = False

        async def check(self, check_cache=True):
            s = w.cur
            start(self.db)
            if w.open_ is not None:
                w.chk(w.open_.machine == s.machine, 'checking is refused where the newest metadata is not available')
            f = v.files.get(cache_dir() + '/block')
            if check_cache:
                w.chk(cache_ok(), 'outdated cached blocks are not used')
            elif f is not None:
                w.chk(Or(f.data != b'%d dirty' % (w.last.sid if w.last else -1)), 'unsaved cached blocks are saved when checking')
            keep = f is not None and cache_ok()
            started()
            if keep:
                marker(b'clean')
            if check_cache:
                v.files.pop(cache_dir() + '/block', None)
            if E.nd('errors', 2):
                self.found_errors = True
                w.modify()

    vfs.set_attr(E, F, 'Fsck', Check)

    class Tmp:
        name = '/tmp-verify'

        def __enter__(self):
            v.files[self.name] = vfs.Inode(b'')
            v.dirs.add('/')
            return self

        def __exit__(self, *a):
            v.files.pop(self.name, None)
    vfs.set_attr(E, F, 'NamedTemporaryFile', Tmp)
    return D, M, F, A


def local_params(w, machine):
    f = w.v.files.get('/%s/fs.params' % machine)
    return f and w.frozen.get(bytes(f.data))


def unchanged(a, b):
    return a.keys() == b.keys() and all(a[k] is b[k] or (isinstance(a[k], bytes) and isinstance(b[k], bytes) and a[k] == b[k]) for k in a)


def perform(E, w, mods, s, crash):
    """One program run to its end, or to its death. Returns 'ok', 'crash' or the refusal."""
    D, M, F, A = mods
    from s3ql.logging import QuietError
    w.cur = s
    w.conn = None
    w.dead = False
    w.steps = 0
    w.unsynced, w.renames = set(), []
    w.crash_at = E.int('crash', 1, 40) if crash else None
    params0 = local_params(w, s.machine)
    before = (dict(w.objects), {k: n.data for k, n in w.v.files.items()})
    try:
        if s.kind == 'mount':
            M.mount(URL, '/mnt', fg=True, keep_cache=s.keep)
        elif s.kind == 'shrink':
            A.shrink_db(Ctx, URL)
        elif s.kind == 'restore':
            A.restore_metadata(Ctx, URL)
        elif s.kind == 'fsck':
            F.fsck(URL, batch=True, fast=s.fast, force=s.force)
        else:
            raise core.Inconclusive(s.kind)
        out = 'ok'
    except strio.Crash:
        out = 'crash'
    except SystemExit:
        out = 'ok'
    except QuietError as e:
        out = 'refused'
        s.why = e
    except ExceptionGroup as e:
        out = 'error'
        s.why = e
    except (core.PathAbort, core.Inconclusive):
        raise
    except Exception as e:
        out = 'error'
        s.why = e
    if w.dead:
        out = 'crash'
    if crash and out != 'crash':
        E.assume(w.crash_at == 40)      # one representative of 'no crash'
    w.chk(out != 'error', 'no internal error', lambda: '%s on %s: %r' % (s.kind, s.machine, s.why))
    if out == 'ok' and s.proceeded:
        w.open_ = None
        if s.kind == 'fsck':
            w.damaged = False
    if out == 'crash' and w.open_ is s:
        p = w.frozen[bytes(w.objects['s3ql_params'])]
        if not p['is_mounted']:
            w.open_ = None              # died after everything was saved and published
            w.damaged = w.damaged and s.kind != 'fsck'
    if s.kind == 'restore' and out in ('ok', 'crash'):
        p = local_params(w, s.machine)
        if p is not None and p != params0:
            # Takes effect; the outcome has to be committed by checking the file system
            w.chk(p['needs_fsck'] and not p['is_mounted'], 'restored metadata has to be checked')
            E.witness('restored')
            w.truth, w.open_, w.last = w.chosen, s, s
        else:
            w.chk(out == 'crash', 'restoring has an effect')
            E.witness('restore interrupted')
    same_ = all(unchanged(a, b) for a, b in zip(before, (w.objects, {k: n.data for k, n in w.v.files.items()})))
    return out, same_


def create(E, cfg):
    w = World(E, cfg)
    mods = setup(E, w)
    D = mods[0]
    # a file system that was created on machine A
    w.cur = Session(0, 'A', 'mkfs')
    w.last = w.cur
    w.v.files['/A/fs.db'] = vfs.Inode(vfs.data(E, 1, NB))
    w.truth = w.v.files['/A/fs.db'].data
    db = D.Connection('/A/fs.db', 1)
    age = E.real('age', 0, 4000000)
    param = D.FsAttributes(data_block_size=1024, metadata_block_size=1, seq_no=5, last_fsck=CLOCK0 - age, last_modified=CLOCK0 - 1)

    async def mkfs():
        b = Backend(w)
        await D.upload_metadata(b, db, param, incremental=False)
        D.write_params('/A/fs', param)
        await D.upload_params(b, param)
    strio.run(mkfs)
    return w, mods


@harness
def protocol(E, cfg):
    """No sequence of mounts and checks, on two machines, with crashes, uses outdated metadata."""
    w, mods = create(E, cfg)
    crashes = cfg['crashes']
    kinds = ('mount', 'fsck')
    for i, spec in enumerate(cfg['runs']):
        last = i == len(cfg['runs']) - 1
        machine = 'AB'[E.nd('machine', 2)] if spec[1] == '*' else spec[1]
        kind = kinds[E.nd('kind', 2)] if spec[0] == '*' else {'m': 'mount', 'f': 'fsck', 's': 'shrink', 'r': 'restore'}[spec[0]]
        s = Session(i + 1, machine, kind)
        s.backup = cfg.get('backup') == i
        s.failsafe = cfg.get('failsafe') == i
        s.keep = cfg.get('keep', False)
        s.fast = kind == 'fsck' and not cfg.get('slow')
        s.force = cfg.get('force', False)
        if kind == 'restore':
            E.assume(w.open_ is None)   # otherwise discards what was not uploaded
        crash = not last and crashes > 0 and spec[2:] != '!'
        was_open = w.open_
        out, unchanged = perform(E, w, mods, s, crash)
        E.observe('out%d' % i, out)
        if out == 'crash':
            crashes -= 1
            E.witness('crash')
            if i == 0 and cfg.get('crash0') is False:
                E.assume(False)
        else:
            E.witness(out)
        if was_open is not None and machine == was_open.machine and kind == 'fsck' and out != 'crash':
            w.chk(s.proceeded, 'after a crash, the file system can be checked on the same machine',
                    lambda: '%s %r' % (out, getattr(s, 'why', None)))
        if was_open is None and kind == 'mount' and out == 'refused' and s.machine == (w.last.machine):
            E.witness('refused without need')
        if unchanged and not last:
            E.assume(False)     # same as the shorter sequence


@harness
def backup(E, cfg):
    """A metadata backup made while mounted stays usable, whatever happens later."""
    w, mods = create(E, cfg)
    D = mods[0]
    for i, kind in enumerate(cfg['runs']):
        s = Session(i + 1, 'A', kind)
        s.backup = i == 0
        s.failsafe, s.keep, s.fast, s.force = False, False, True, True
        out, _ = perform(E, w, mods, s, i == 0)
        E.observe('out%d' % i, out)
        if out not in ('ok', 'crash'):
            E.assume(False)
        if i == 0 and w.backup is None:
            E.assume(False)             # died before the backup was complete
    E.witness('backup')
    w.dead, w.crash_at = False, None
    seqs = sorted(int(k[12:], 16) for k in w.objects if k.startswith('s3ql_params_'))
    found = False
    for q in seqs:
        async def get():
            b = Backend(w)
            p = await D.read_remote_params(b, seq_no=q)
            return await D.download_metadata(b, '/B/restored.db', p)
        try:
            strio.run(get)
        except (Exception, ExceptionGroup):
            continue
        found = Or(found, same(w.v.files['/B/restored.db'].data, w.backup))
    E.check(found, 'a completed metadata backup can be restored')


def _c(runs, **kw):
    return dict(dict(p='C16', runs=runs, crashes=1), **kw)


Q = [_c(['mA', a + m, '**'], crashes=2) for a in 'mf' for m in 'AB'] + \
    [_c(['fA', a + m, '**'], crashes=2, force=True) for a in 'mf' for m in 'AB'] + \
    [_c(['mA', '**'], backup=0), _c(['mA!', 'rA', '*A', '*A']), _c(['mB!', 'rA', '*A', '*A']), _c(['mB!', 'rA', 'fA!', '**']), _c(['mA', 'sA', '**', '**']), _c(['mA', 'sB', '**', '**']), _c(['mA', '**', '**'], failsafe=0, crashes=1), _c(['mA', '**', '**'], keep=True), _c(['mA', '**', '**'], slow=True, force=True),
     _c(['m*', 'm*', 'f*', 'm*'], keep=True, force=True, crashes=0)]
T = [_c(['mA', a + m, b + n, '**'], crashes=3) for a in 'mf' for m in 'AB' for b in 'mf' for n in 'AB']
claim('C16', protocol, quick=Q, thorough=T)
describe('C16', bounds=['2 machines, up to 3 runs of mount.s3ql and fsck.s3ql (4 in the thorough tier) with up to 2 (3) crashes, each before any change to local parameter and database files or to storage'],
         assumptions=['fsck.s3ql in batch mode'])

claim('C14', backup, quick=[dict(p='C14', runs=['mount']), dict(p='C14', runs=['mount', 'fsck'])], thorough=[dict(p='C14', runs=['mount', 'fsck', 'mount'])])
describe('C14', bounds=['one metadata backup while mounted, a crash at any later point, then a check of the file system'])
