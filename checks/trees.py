"""Tree operations from an arbitrary valid file system state: C05 (replication), C06 (removal, locking)."""
import errno
import stat

from symx.registry import harness, claim, describe
from symx import core, vfs, strio
from checks._fsenv import *
from checks._cachesim import DelayPolicy, HashLib
from checks.fsops import Spec, OneOf

PROPERTIES = ['C05', 'C06']


class Ticking(ClockMod):
    def time(self):
        self._c.t2 = getattr(self._c, 't2', 0.0) + 1.0
        return self._c.t2


def tree_env(E, cfg):
    import s3ql.database as D
    env = FsEnv(E, cfg)
    vfs.set_attr(E, D, 'time', Ticking(env.clock, D.time))
    # a batch is at least 100 rows in reality; scaled down so that the bounded trees span several batches
    bs = cfg.get('batch', 1)

    bs = bs if isinstance(bs, (list, tuple)) else [bs]
    n = [0]

    class Mgr(D.BatchedTransactionManager):
        # is changed after each batch
        batch_size = property(lambda s: bs[n[0] % len(bs)], lambda s, v: n.__setitem__(0, n[0] + 1))
    vfs.set_attr(E, D, 'BatchedTransactionManager', Mgr)
    return env


def dirty_block(E, env, i, b, data):
    """Block that has been written but not been uploaded."""
    import os
    from s3ql import block_cache as BC
    fn = os.path.join(env.cache.path, '%d-%d' % (i, b))
    el = BC.CacheEntry(i, b, fn)
    el.write(data)
    env.cache.cache[i, b] = el
    env.cache.cache.size += el.size
    return el


def present_dir(E, env, name):
    i = env.inode_arg(name)
    if i != 1:
        E.assume(env.kind[i] == DIR)
        E.assume(env.opened.bits[i])
    return i


@harness
def copy(E, cfg):
    env = tree_env(E, cfg)
    src = env.all[E.choice('src', len(env.all))]
    if src != 1:
        E.assume(env.pres[src])
        E.assume(env.kind[src] == DIR)
    dst = present_dir(E, env, 'dst')
    E.assume(src != dst)
    if dst != 1:
        E.assume(env.refs[dst] == 1)
    for (d, k), (p, t) in env.C.items():
        if d == dst:
            E.assume(Not(p))
    # s3qlcp creates the target itself
    new = None
    if cfg.get('dirty'):
        new = env.ids[E.choice('dirtyfile', len(env.ids))]
        E.assume(And(env.pres[new], env.kind[new] == REG, env.at[new]['size'] >= 1))
        dirty_block(E, env, new, 0, b'x')
    # unreachable parts of the state do not matter here
    r = None
    if cfg.get('race'):
        res = []

        async def copier():
            res.append(await env.fs.copy_tree(src, dst))

        async def main():
            async with strio.open_nursery() as n0:
                env.cache._upload_send, recv = strio.open_memory_channel(0)
                n0.start_soon(env.cache._upload_task, recv)
                async with strio.open_nursery() as n:
                    n.start_soon(env.cache.upload_if_dirty, env.cache.cache[new, 0])
                    n.start_soon(copier)
                await env.cache._upload_send.aclose()

        async def write_fh(key, fh, len_=None, **kw):
            await strio.io_point()
            return 7
        env.backend.write_fh = write_fh
        try:
            strio.Scheduler(DelayPolicy(E, cfg.get('delays', 2))).run(main())
            r = ('ok', None)
        except (Exception, strio.Deadlock, strio.StepLimit) as e:
            r = ('exc', '%s: %s' % (type(e).__name__, e))
    else:
        r = env.call(env.fs.copy_tree, src, dst)
    E.check(r[0] == 'ok', 'replication succeeds', lambda: str(r))
    if r[0] != 'ok':
        return
    E.witness('copied')
    post = env.view()
    s = Spec(env)
    pa = s.inode[src][1]
    s.set(dst, **{a: pa[a] for a in ('atime_ns', 'ctime_ns', 'mtime_ns', 'mode', 'uid', 'gid')})
    if new is not None:
        row = post.block(new, 0)
        s.block[new, 0] = (True, row[1])
        E.check(row[0], 'unsaved data has been registered')
    out = []
    image = {}          # source inode -> copy
    links = {}          # copy -> number of entries
    fresh = [i for i in range(env.newid, env.newid + 1 + 2 * len(env.ids))]

    def walk(a, b, depth):
        for n in env.names:
            p, t = env.entry(a, n)
            q, u = post.content(b, n)
            E.check(Iff(p, q), 'the copy has the same names')
            if p is False or not p:
                continue
            t, u = core.concretize(t), core.concretize(u)
            first = t not in image
            if not first:
                E.check(image[t] == u, 'hard links are replicated as hard links')
            else:
                E.check(u not in image.values(), 'different files stay different files')
                image[t] = u
            links[u] = links.get(u, 0) + 1
            E.check(u in fresh, 'copy consists of new inodes')
            if first:
                compare(t, u)
                if depth < len(env.ids):
                    walk(t, u, depth + 1)

    def compare(t, u):
        p, v = s.inode[t]
        q, w = post.inode(u)
        out.append((q, 'copied inode exists'))
        for a in ATTRS:
            if a not in ('refcount', 'locked'):
                out.append((Eq(v[a], w[a]), 'copied attribute %s' % a))
        out.append((Eq(w['locked'], 0), 'copy is not immutable'))
        for n in env.names:
            (c, x), (d, y) = s.xattr[t, n], post.xattr(u, n)
            out.append((And(Iff(c, d), Implies(c, Eq(x, y))), 'copied extended attributes'))
        (c, x), (d, y) = s.target[t], post.target(u)
        out.append((And(Iff(c, d), Implies(c, Eq(x, y))), 'copied symlink target'))
        for b in range(env.NB):
            (c, x), (d, y) = s.block[t, b], post.block(u, b)
            out.append((And(Iff(c, d), Implies(c, Eq(x, y))), 'copied blocks'))
    walk(src, dst, 0)
    for u, n in links.items():
        out.append((Eq(post.inode(u)[1]['refcount'], n), 'link counts in the copy'))
    copies = set(image.values())
    # the rest of the file system
    for i in env.all:
        p, v = s.inode[i]
        q, w = post.inode(i)
        out.append((Iff(p, q), 'other inodes remain'))
        for a in ATTRS:
            out.append((Implies(p, Eq(v[a], w[a])), 'other attributes remain'))
        for n in env.names:
            if i != dst:
                (c, x), (d, y) = s.content[i, n], post.content(i, n)
                out.append((And(Iff(c, d), Implies(c, Eq(x, y))), 'other entries remain'))
            (c, x), (d, y) = s.xattr[i, n], post.xattr(i, n)
            out.append((And(Iff(c, d), Implies(c, Eq(x, y))), 'other extended attributes remain'))
        (c, x), (d, y) = s.target[i], post.target(i)
        out.append((And(Iff(c, d), Implies(c, Eq(x, y))), 'other symlink targets remain'))
        for b in range(env.NB if i != 1 else 0):
            (c, x), (d, y) = s.block[i, b], post.block(i, b)
            out.append((And(Iff(c, d), Implies(c, Eq(x, y))), 'other blocks remain'))
    for g, r in post.t['inodes']:
        out.append((Implies(g, Or([Eq(r['id'], i) for i in env.all + [2] + sorted(copies)])), 'no other inodes appear'))
    for g, r in post.t['contents']:
        out.append((Implies(g, Or([Eq(r['parent_inode'], i) for i in env.all + sorted(copies)])), 'no other entries appear'))
    for g, r in post.t['objects']:
        p, v = env.pre.obj(r['id'])
        out.append((Implies(And(g, p), And(Eq(v['hash'], r['hash']), Eq(v['phys_size'], r['phys_size']),
                                           Eq(v['length'], r['length']))), 'objects keep their description'))
    for i in env.ids:
        out.append((Eq(env.opened.count(i), env.pre_open[i]), 'lookup counts unchanged'))
    E.check_all(out)
    E.check_all(post.invariants(env.opened.sym))
    E.observe('db', post.dump())


def reachable(E, env, top):
    """Inodes of the tree below (and including) top; structure is decided on the way."""
    seen = [top]
    for i in seen:
        for n in env.names:
            p, t = env.entry(i, n)
            if p is not False and (p is True or p):
                t = core.concretize(t)
                if t not in seen:
                    seen.append(t)
    return seen


@harness
def remove(E, cfg):
    env = tree_env(E, cfg)
    d = env.dir_arg()
    if 'd' in cfg:
        E.assume(d == cfg['d'])
    n = env.name_arg(ctrl=True)
    r = env.call(env.fs.remove_tree, d, n)
    p, t = env.entry(d, n)
    ctrl = n == b'.__s3ql__ctrl__'
    s = Spec(env)
    post = env.view()
    dlocked = Eq(env.at[d]['locked'], 1)
    out = []
    E.witness(r[0])
    if r[0] == 'ok':
        out.append((And(p, Not(ctrl), Not(dlocked)), 'refused when it cannot be carried out'))
        if p is not False and (p is True or p):
            t = core.concretize(t)
            tree = reachable(E, env, t)
            gone = {}                       # inode -> number of entries removed
            gone[t] = 1
            s.content[d, n] = (False, 0)
            for i in tree:
                for m in env.names:
                    q, u = env.entry(i, m)
                    if q is not False and (q is True or q):
                        u = core.concretize(u)
                        gone[u] = gone.get(u, 0) + 1
                        s.content[i, m] = (False, 0)
            for i in tree:
                v = s.inode[i][1]
                dead = And(Eq(v['refcount'], gone[i]), Eq(env.pre_open[i], 0))
                s.set(i, refcount=v['refcount'] - gone[i], ctime_ns=NOW)
                if i != t or True:
                    if any(q is True or (q is not False and bool(q)) for q, _ in [env.entry(i, m) for m in env.names]):
                        s.set(i, mtime_ns=OneOf(v['mtime_ns'], NOW))
                s.purge_if(i, dead)
            s.set(d, mtime_ns=NOW, ctime_ns=NOW)
            out += s.compare(post, env.opened)
    elif r[0] == 'errno':
        ok = Or(And(r[1] == errno.ENOENT, Not(p)), And(r[1] == errno.EPERM, dlocked),
                And(r[1] in (errno.EACCES, errno.EPERM), ctrl))
        out.append((ok, 'refused without reason (errno %s)' % r[1]))
        out += s.compare(post, env.opened, 'after refusal')
    else:
        out.append((False, 'unexpected exception'))
        E.check(False, 'unexpected exception', lambda: r[1])
    E.check_all(out)
    E.check_all(post.invariants(env.opened.sym))
    if r[0] == 'errno':
        E.observe('errno', r[1])
    E.observe('db', post.dump())


@harness
def lock(E, cfg):
    env = tree_env(E, cfg)
    t = env.inode_arg('top')
    r = env.call(env.fs.lock_tree, t)
    E.check(r[0] == 'ok', 'locking succeeds', lambda: str(r))
    if r[0] != 'ok':
        return
    E.witness('ok')
    s = Spec(env)
    for i in reachable(E, env, t):
        s.set(i, locked=1)
    post = env.view()
    E.check_all(s.compare(post, env.opened))
    E.observe('db', post.dump())


LAYOUTS = dict(A={(1, 0): 3, (1, 1): 4, (3, 0): 5}, B={(1, 0): 3, (3, 0): 4, (3, 1): 5})


class Apsw:
    """A second connection to the database, which is locked while the first one has an open transaction."""

    def __init__(self, real, conn):
        self._r, self._c = real, conn

    def Connection(self, name):
        real, conn = self._r, self._c

        class Cur:
            def execute(self, sql, *a):
                if sql.startswith('SELECT') and conn.in_tx is not None:
                    raise real.BusyError('database is locked')
                return iter(())

        class Conn:
            cursor = Cur

            def close(self):
                pass
        return Conn()

    def __getattr__(self, n):
        return getattr(self._r, n)


async def snapshot(E, env):
    """What the metadata upload does with the database."""
    async with env.db.inhibit_writes():
        await strio.io_point()
        await strio.io_point()


@harness
def pair(E, cfg):
    """Two tree operations at the same time."""
    from pyfuse3 import FUSEError
    env = tree_env(E, cfg)
    lay = LAYOUTS[cfg.get('layout', 'A')]
    for (d, k), (q, t) in env.C.items():
        if (d, k) in lay:
            E.assume(And(q, t == lay[d, k]))
        else:
            E.assume(Not(q))
    dirs = (3, 4) if cfg.get('layout', 'A') == 'A' else (3,)
    for i in env.ids:
        E.assume(env.kind[i] == (DIR if i in dirs else REG))
        E.assume(And(env.pres[i], env.at[i]['locked'] == 0))
        o = env.opened.bits[i] if i in dirs else Not(env.opened.bits[i])
        E.assume(o)
        E.assume(env.pre_open[i] == (1 if i in dirs else 0))
    E.assume(env.at[1]['locked'] == 0)
    for (i, b), (q, o) in env.B.items():
        E.assume(Iff(q, i not in dirs))
        E.assume(o == 1)
    res = {}
    ops = dict(rm0=(env.fs.remove_tree, 1, b'n0'), rm1=(env.fs.remove_tree, 1, b'n1'), cp=(env.fs.copy_tree, 3, 4),
               lock=(env.fs.lock_tree, 3),
               lock1=(env.fs.lock_tree, 4), unlink=(env.fs.unlink, 3, b'n1', env.ctx()),
               rename=(env.fs.rename, 3, b'n1', 1, b'n1', 0, env.ctx()),
               mv=(env.fs.rename, 1, b'n0', 1, b'n1', 0, env.ctx()), upload=(snapshot, E, env))
    if E.mode == 'sym':
        D = __import__('s3ql.database').database
        vfs.set_attr(E, D, 'apsw', Apsw(D.apsw, env.db.conn))

    async def one(k):
        f, *a = ops[k]
        res[k] = 'started'
        try:
            await f(*a)
        except FUSEError:
            pass
        res[k] = 'ok'

    async def main():
        async with strio.open_nursery() as n:
            for k in cfg['ops']:
                n.start_soon(one, k)
    out = 'ok'
    try:
        strio.Scheduler(DelayPolicy(E, cfg.get('delays', 2))).run(main())
    except Exception as e:
        out = '%s: %s' % (type(e).__name__, e)
    except strio.Deadlock:
        out = 'deadlock'
    E.witness(out[:20])
    E.check(out == 'ok' and all(v == 'ok' for v in res.values()), 'tree operations do not disturb each other', lambda: out)
    if out != 'ok':
        return
    post = env.view()
    E.check_all(post.invariants(env.opened.sym))
    if cfg['ops'] == ('rm0', 'rm1'):
        for n in env.names:
            E.check(Not(post.content(1, n)[0]), 'both trees are removed')
        for i in (3, 4, 5):
            E.check(Not(post.content(i, b'n0')[0]), 'both trees are removed')
    if 'cp' in cfg['ops'] and 'rm0' not in cfg['ops'] and 'rm1' not in cfg['ops']:
        q, u = post.content(4, b'n0')
        E.check(q, 'the copy is complete')
        E.check(And([Iff(q, b[0]) for b in [post.block(core.concretize(u), 0)]]), 'the copy is complete')
    E.observe('db', post.dump())


P = dict(N=3, K=2, NB=1, M=1, X=False)
RM = [dict(P, ops=o) for o in (('rm0', 'rm1'), ('rm0', 'lock1'), ('lock', 'lock1'), ('rm0', 'upload'), ('rm0', 'rm1', 'upload'))] + \
     [dict(P, ops=o, layout='B') for o in (('rm0', 'unlink'), ('rm0', 'rename'), ('rm0', 'mv'), ('rm0', 'rm0'))]
claim('C06', 'pair', quick=[dict(c, delays=4) for c in RM], thorough=[dict(c, delays=9) for c in RM])
CP = [dict(P, ops=('cp', 'lock')), dict(P, ops=('cp', 'upload')), dict(P, ops=('cp', 'rm0')), dict(P, ops=('cp', 'rm1'))]
claim('C05', 'pair', quick=[dict(c, delays=4) for c in CP], thorough=[dict(c, delays=9) for c in CP])
B3 = [dict(N=3, K=2, NB=0, X=False, batch=b) for b in (1, (1, 2))]
claim('C05', 'copy', quick=B3 + [dict(N=3, K=1, NB=1, batch=b) for b in (1, 100)] + [dict(N=2, K=2, NB=1, batch=1), dict(N=2, K=1, NB=2, X=False)] +
      [dict(N=2, K=1, NB=1, dirty=True)] + [dict(N=2, K=1, NB=1, dirty=True, race=True, delays=2)],
      thorough=[dict(N=3, K=2, NB=0, batch=1), dict(N=2, K=3, NB=1, batch=1), dict(N=4, K=2, NB=0, X=False, batch=2)])
claim('C06', 'remove', quick=[dict(c, p='C06', d=1) for c in B3] + [dict(p='C06', N=2, K=2, NB=1, batch=b, d=d) for b, d in ((1, 1), (1, 3), (2, 3), ((2, 1), 1))],
      thorough=[dict(p='C06', N=4, K=2, NB=0, X=False, batch=b) for b in (1, 2, 3)])
claim('C06', 'lock', quick=[dict(p='C06', N=3, K=2, NB=0, X=False, batch=b) for b in (0, 1, 2)],
      thorough=[dict(p='C06', N=4, K=2, NB=0, X=False, batch=b) for b in (0, 1, 2, 3)])
KERNEL = ['requests arrive as the kernel issues them: inode arguments are live, a replication target is a fresh empty directory',
          'the batch size, at least 100 rows in reality, is scaled down to 0-3 rows so that bounded trees span several batches']
describe('C05', bounds=['source trees over up to 3 inodes and 2 names (thorough 4 inodes / 3 names) in any valid shape: hard links, '
                        'nesting, shared names, attributes, symlinks, one extended attribute per inode and name, one or two blocks',
                        'unsaved data in one file, also with an upload of it running at the same time (2 delays)',
                        'one concurrent tree operation or metadata snapshot, up to 4 (thorough 9) scheduling delays'],
         assumptions=KERNEL)
describe('C06', bounds=['trees over up to 3 inodes and 2 names (thorough 4 inodes) in any valid shape, arbitrary immutability flags',
                        'two or three concurrent requests (tree operations, unlink, rename, metadata snapshot), up to 4 (thorough 9) '
                        'scheduling delays'], assumptions=KERNEL)
