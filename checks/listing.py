"""fs.Operations.readdir: a directory is listed in chunks while it changes (C07)."""
import stat

from symx.registry import harness, claim, describe
from symx import core, vfs
from checks._fsenv import *

PROPERTIES = ['C07']
NEW = b'new'
CTRL = b'.__s3ql__ctrl__'


class Env(FsEnv):
    def decide(self, d, n):
        """(present, inode) of an entry, decided"""
        p, t = self.cur.get((d, n), (False, 0))
        if p is not False and p:
            return True, core.concretize(t)
        return False, 0


@harness
def listing(E, cfg):
    env = Env(E, dict(cfg, inv=False))
    import pyfuse3
    from s3ql import fs as F
    fs = env.fs
    d = env.dir_arg()
    if not cfg.get('times'):
        E.assume(And(env.at[d]['atime_ns'] >= env.at[d]['mtime_ns'], env.at[d]['atime_ns'] >= env.at[d]['ctime_ns']))
    if cfg.get('known', cfg['op'] != 'unlink'):
        for i in env.ids:
            E.assume(Implies(env.pres[i], env.opened.bits[i]))
    cur = {(x, env.names[k]): v for (x, k), v in env.C.items()}
    env.cur = cur
    st = dict(room=0, got=[], stop=False)
    log = []            # (name, inode, offset) delivered
    out = []
    lookups = {}        # inode -> symbolic count of lookups

    def reply(token, name, attr, next_id):
        E.check(token is tok, 'entries are added to the buffer of the request')
        E.check(not st['stop'], 'no entries are added once the buffer is full')
        if st['room'] == 0:
            st['stop'] = True
            return False
        st['room'] -= 1
        E.check(And(next_id > 2), 'positions are positive and differ from the two reserved ones')
        n = bytes(name) if not isinstance(name, vfs.SymBytes) else name
        st['got'].append((n, attr, next_id))
        return True
    tok = object()
    vfs.set_attr(E, pyfuse3, 'readdir_reply', reply)
    if hasattr(F, 'readdir_reply'):
        vfs.set_attr(E, F, 'readdir_reply', reply)
    r = env.call(fs.opendir, d, env.ctx())
    E.check(r[0] == 'ok', 'directory can be opened')
    fh = r[1]
    base = {i: env.opened.count(i) for i in env.ids}
    v = [View(E, env.db)]
    fixed = v[0]

    def chunk(off, room):
        """One readdir request; -> position to continue from, complete?"""
        st.update(room=room, got=[], stop=False)
        pre = v[0]
        r = env.call(fs.readdir, fh, off, tok)
        E.check(r[0] == 'ok', 'directory can be listed')
        for n, a, nx in st['got']:
            log.append((n, a, nx))
            out.append((n != CTRL, 'control file is not listed'))
            c, t = pre.content(d, n)
            out.append((c, 'only existing entries are listed'))
            out.append((Eq(t, a.st_ino), 'entries are listed with the right inode'))
            q, w = pre.inode(a.st_ino)
            for f, at in (('st_mode', 'mode'), ('st_nlink', 'refcount'), ('st_uid', 'uid'), ('st_gid', 'gid'),
                          ('st_rdev', 'rdev'), ('st_size', 'size'), ('st_mtime_ns', 'mtime_ns'),
                          ('st_ctime_ns', 'ctime_ns')):
                out.append((Eq(w[at], getattr(a, f)), 'entries are listed with the right %s' % f))
            i = core.concretize(a.st_ino)
            lookups[i] = lookups.get(i, 0) + 1
        for i in env.ids + [env.newid]:
            out.append((Eq(env.opened.count(i), base.get(i, 0) + lookups.get(i, 0)),
                        'exactly the delivered entries count as looked up'))
        full = st['stop']
        if not full:
            out.append((st['room'] >= 0, 'room left'))
        return (st['got'][-1][2] if st['got'] else off), not full

    def change(op):
        ctx = env.ctx()
        if op == 'none':
            return
        opts = list(env.names) + [NEW]
        x = env.dir_arg('xdir')
        n = opts[E.choice('xname', len(opts))]
        p, t = env.decide(x, n)
        if op == 'create':
            if p:
                raise core.PathAbort()
            r = env.call(fs.create, x, n, 0o100644, 0, ctx)
            if r[0] == 'ok':
                lookups[env.newid] = lookups.get(env.newid, 0) + 1
            return
        if not p:
            raise core.PathAbort()
        if op == 'unlink':
            E.assume(Not(Eq(env.kind[t], DIR)))
            env.call(fs.unlink, x, n, ctx)
        elif op == 'rename':
            y = env.dir_arg('ydir')
            m = opts[E.choice('yname', len(opts))]
            q, u = env.decide(y, m)
            E.assume((x, n) != (y, m))
            E.assume(y != t)
            if q:
                E.assume(u != t)
                E.assume(And(Not(Eq(env.kind[t], DIR)), Not(Eq(env.kind[u], DIR))))
            elif env.N > 1:
                E.assume(Implies(Eq(env.kind[t], DIR), y <= t))
            env.call(fs.rename, x, n, y, m, 0, ctx)
        elif op == 'link':
            y = env.dir_arg('ydir')
            m = opts[E.choice('yname', len(opts))]
            q, u = env.decide(y, m)
            if q:
                raise core.PathAbort()
            E.assume(Not(Eq(env.kind[t], DIR)))
            # the kernel knows the inode it links
            r = env.call(fs.link, t, y, m, ctx)
            if r[0] == 'ok':
                lookups[t] = lookups.get(t, 0) + 1

    off = 0
    done = False
    room = cfg['rooms']
    for k in range(cfg.get('changes', 1) + 1):
        n = E.choice('room%d' % k, room + 1)
        if n:
            off, done = chunk(off, n)
        if k < cfg.get('changes', 1):
            change(cfg['op'])
            v[0] = env.view()
    # the rest, in as many requests as it takes
    for k in range(env.K + 3):
        n = 1 + E.choice('rest', 2) if k == 0 and cfg['op'] == 'none' else cfg['rooms']
        off2, done = chunk(off, n)
        if done:
            break
        E.check(len(st['got']) > 0, 'listing makes progress')
        off = off2
    E.check(done, 'listing ends')
    # every entry that existed throughout
    for n in env.names + [NEW]:
        a, t = fixed.content(d, n)
        b, u = v[0].content(d, n)
        k = len([1 for x, _, _ in log if x == n])
        if cfg['op'] == 'none' or cfg.get('changes', 1) < 2:
            out.append((Implies(And(a, b), k == 1), 'entries that exist throughout are listed exactly once'))
        else:
            out.append((Implies(And(a, b, Eq(t, u)), k == 1), 'entries that exist throughout are listed exactly once'))
        out.append((k <= 1, 'no name is listed twice'))
        out.append((Implies(And(Not(a), Not(b)), k == 0), 'only existing entries are listed'))
    E.check_all(out)
    E.observe('log', [[n, nx] for n, _, nx in log])
    E.observe('db', env.view().dump())


BASE = dict(N=2, K=3, NB=0, X=False, rooms=2, names=['n2', 'n0', 'n1'], p='C07', nolock=True)
OPS = ('none', 'create', 'unlink', 'rename', 'link')
claim('C07', 'listing',
      quick=[dict(BASE, op='none'), dict(BASE, op='none', K=2, N=1, known=False, times=True)]
      + [dict(BASE, op=o, K=2, rooms=1 if o in ('rename', 'link') else 2) for o in OPS[1:]],
      thorough=[dict(BASE, op=o) for o in OPS[1:]] + [dict(BASE, op='none', N=3, rooms=3), dict(BASE, op='none', K=2, cached=True)])
describe('C07', bounds=['root plus up to 2 (thorough 3) inodes of any type, 2 (thorough 3) names whose database order differs from their '
                        'alphabetical order, any links; listing starts with 0-2 entries, then one arbitrary create, unlink, rename or link '
                        'anywhere in the tree, then the rest in chunks of at most 1-2 entries'],
         assumptions=['requests arrive as the kernel issues them (see C03); a single listing continues at the last delivered position'])
