"""fs.Operations: one request from an arbitrary valid state (C01, C03, C04)."""
import errno
import os
import stat

from symx.registry import harness, claim, describe
from symx import core, vfs
from checks._fsenv import *

PROPERTIES = ['C01', 'C03', 'C04']
NEW = b'new'
CTRL = b'.__s3ql__ctrl__'
TIMES = ('atime_ns', 'mtime_ns', 'ctime_ns')


class OneOf:
    """Specified value: any of the alternatives."""

    def __init__(self, *v):
        self.v = v


def matches(spec, act):
    if isinstance(spec, OneOf):
        return Or([Eq(x, act) for x in spec.v])
    return Eq(spec, act)


class Spec:
    """Expected tables, keyed by concrete ids and names."""

    def __init__(self, env):
        pre = env.pre
        self.env = env
        ids = env.all + [2, env.newid]
        names = env.names + [NEW]
        self.inode = {i: pre.inode(i) for i in ids}
        self.content = {(d, n): pre.content(d, n) for d in env.all + [env.newid] for n in names}
        self.xattr = {(i, n): pre.xattr(i, n) for i in env.all + [env.newid] for n in names}
        self.target = {i: pre.target(i) for i in ids}
        self.block = {(i, b): pre.block(i, b) for i in env.all + [env.newid] for b in range(env.NB)}
        self.opens = {i: env.pre_open[i] for i in env.ids}
        self.opens[env.newid] = 0
        self.opens[1] = 1
        self.opens[2] = 0

    def set(self, i, **kw):
        p, v = self.inode[i]
        v = dict(v)
        v.update(kw)
        self.inode[i] = (p, v)

    def purge_if(self, i, cond):
        """Inode i disappears (with everything it owns) if cond holds."""
        p, v = self.inode[i]
        self.inode[i] = (And(p, Not(cond)), v)
        for m in (self.xattr, self.block):
            for k in m:
                if k[0] == i:
                    q, x = m[k]
                    m[k] = (And(q, Not(cond)), x)
        q, x = self.target[i]
        self.target[i] = (And(q, Not(cond)), x)

    def atime_may_change(self, i):
        p, v = self.inode[i]
        self.set(i, atime_ns=OneOf(v['atime_ns'], NOW))

    def dec(self, i, now=True):
        """One directory entry of inode i goes away."""
        p, v = self.inode[i]
        self.set(i, refcount=v['refcount'] - 1, ctime_ns=NOW)
        self.purge_if(i, And(Eq(v['refcount'], 1), Eq(self.opens[i], 0)))

    def compare(self, post, opened, what='state'):
        env = self.env
        out = []

        def cmp(kind, key, exp, act, flds=None):
            (p, v), (q, w) = exp, act
            out.append((Iff(p, q), '%s: %s exist exactly as specified' % (what, kind)))
            if flds:
                for f in flds:
                    out.append((Implies(And(p, q), matches(v[f], w[f])), '%s: %s %s as specified' % (what, kind, f)))
            else:
                out.append((Implies(And(p, q), Eq(v, w)), '%s: %s values as specified' % (what, kind)))
        for i, e in self.inode.items():
            cmp('inodes', i, e, post.inode(i), ATTRS)
        for k, e in self.content.items():
            cmp('directory entries', k, e, post.content(*k))
        for k, e in self.xattr.items():
            cmp('extended attributes', k, e, post.xattr(*k))
        for k, e in self.target.items():
            cmp('symlink targets', k, e, post.target(k))
        for k, e in self.block.items():
            cmp('blocks', k, e, post.block(*k))
        # nothing outside the compared keys
        for tab, ok in (('inodes', lambda r: Or([Eq(r['id'], i) for i in self.inode])),
                        ('contents', lambda r: Or([Eq(r['parent_inode'], d) for d in env.all + [env.newid]])),
                        ('ext_attributes', lambda r: Or([Eq(r['inode'], d) for d in env.all + [env.newid]])),
                        ('names', lambda r: Or([Eq(r['name'], n) for n in env.names + [NEW]])),
                        ('symlink_targets', lambda r: Or([Eq(r['inode'], i) for i in self.inode])),
                        ('inode_blocks', lambda r: And(Or([Eq(r['inode'], i) for i in env.ids]), r['blockno'] >= 0,
                                                       r['blockno'] < env.NB))):
            for g, r in post.t[tab]:
                out.append((Implies(g, ok(r)), '%s: no unexpected rows in %s' % (what, tab)))
        # surviving objects keep their description
        for g, r in post.t['objects']:
            p, v = env.pre.obj(r['id'])
            out.append((Implies(And(g, p), And(Eq(v['hash'], r['hash']), Eq(v['phys_size'], r['phys_size']),
                                               Eq(v['length'], r['length']))), '%s: objects keep their description' % what))
        for i, n in self.opens.items():
            out.append((Eq(n, opened.count(i)) if i != 2 else Eq(n, dict.get(opened, 2, 0)),
                        '%s: lookup counts as specified' % what))
        return out


def attr_ok(env, attrs, v, ino):
    """Returned attributes equal the inode's."""
    out = [(Eq(attrs.st_ino, ino), 'returned inode number')]
    for f, a in (('st_mode', 'mode'), ('st_nlink', 'refcount'), ('st_uid', 'uid'), ('st_gid', 'gid'),
                 ('st_rdev', 'rdev'), ('st_size', 'size'), ('st_atime_ns', 'atime_ns'),
                 ('st_mtime_ns', 'mtime_ns'), ('st_ctime_ns', 'ctime_ns')):
        out.append((matches(v[a], getattr(attrs, f)), 'returned %s' % f))
    return out


class Op:
    """Arguments, call and specification of one request."""
    errors = ()                 # [(errno set, condition)]: legitimate refusals

    def __init__(self, env):
        self.env, self.E = env, env.E
        self.ctx = env.ctx()
        self.args()

    def locked(self, i):
        p, v = self.env.pre.inode(i)
        return Eq(v['locked'], 1)

    def nlink(self, i):
        return self.env.refs[i]

    def fs_err(self):
        return [({errno.EPERM, errno.EROFS, errno.EACCES}, self.env.fs.failsafe)]

    def ok_checks(self, s, res):
        return []


class DirOp(Op):
    ctrl = True

    def args(self):
        self.d = self.env.dir_arg()
        self.n = self.env.name_arg(ctrl=self.ctrl)
        self.p, self.t = self.env.entry(self.d, self.n)
        if self.p is not False:
            # which inode the entry leads to is decided here
            if self.p:
                self.p = True
                self.t = core.concretize(self.t) if self.E.mode == 'sym' else self.t
            else:
                self.p = False


class Lookup(DirOp):
    def args(self):
        E, env = self.E, self.env
        self.dot = E.choice('dots', 3)
        if self.dot == 0:
            super().args()
            return
        self.d = env.dir_arg()
        self.n = (b'.', b'..')[self.dot - 1]
        self.p = True
        if self.dot == 1:
            self.t = self.d
        else:
            if self.d == 1:
                raise core.PathAbort()
            parents = [(And(p, Eq(t, self.d)), x) for (x, k), (p, t) in env.C.items()]
            E.assume(Or([c for c, _ in parents]))
            self.t = None
            for c, x in parents:
                if c is not False and (c is True or c):
                    self.t = x
                    break
            if self.t is None:
                raise core.PathAbort()

    def call(self):
        return self.env.fs.lookup, self.d, self.n, self.ctx

    def errors(self):
        return [({errno.ENOENT}, And(Not(self.p), self.n != CTRL))]

    def effect(self, s, res):
        if self.n == CTRL:
            s.opens[2] += 1
            return [(Eq(res.st_ino, 2), 'control file found')]
        s.opens[self.t] = s.opens[self.t] + 1
        return attr_ok(self.env, res, s.inode[self.t][1], self.t)


class Getattr(Op):
    def args(self):
        self.i = self.env.inode_arg()

    def call(self):
        return self.env.fs.getattr, self.i, self.ctx

    def errors(self):
        return []

    def effect(self, s, res):
        return attr_ok(self.env, res, s.inode[self.i][1], self.i)


class Readlink(Getattr):
    def call(self):
        return self.env.fs.readlink, self.i, self.ctx

    def errors(self):
        return [({errno.EINVAL}, Not(self.env.pre.target(self.i)[0]))]

    def always(self, s):
        s.atime_may_change(self.i)

    def effect(self, s, res):
        return [(Eq(s.target[self.i][1], res), 'readlink returns the target')]


class Access(Getattr):
    def call(self):
        return self.env.fs.access, self.i, 4, self.ctx

    def effect(self, s, res):
        return []


class XattrOp(Op):
    def args(self):
        self.i = self.env.inode_arg()
        self.n = self.env.name_arg(ctrl=False)
        self.has, self.val = self.env.pre.xattr(self.i, self.n)


class Getxattr(XattrOp):
    def call(self):
        return self.env.fs.getxattr, self.i, self.n, self.ctx

    def errors(self):
        return [({errno.ENODATA}, Not(self.has))]

    def effect(self, s, res):
        return [(Eq(self.val, res), 'getxattr returns the value')]


class Listxattr(Op):
    def args(self):
        self.i = self.env.inode_arg()

    def call(self):
        return self.env.fs.listxattr, self.i, self.ctx

    def errors(self):
        return []

    def effect(self, s, res):
        out = []
        for n in self.env.names:
            c = Count([Eq(n, x) for x in res])
            out.append((Eq(c, Ite(s.xattr[self.i, n][0], 1, 0)), 'listxattr lists each attribute once'))
        out.append((len(res) <= len(self.env.names), 'listxattr lists nothing else'))
        return out


class Setxattr(XattrOp):
    def args(self):
        super().args()
        self.v = self.E.atom('value', 3)

    def call(self):
        return self.env.fs.setxattr, self.i, self.n, self.v, self.ctx

    def errors(self):
        return self.fs_err() + [({errno.EPERM}, self.locked(self.i))]

    def effect(self, s, res):
        s.xattr[self.i, self.n] = (True, self.v)
        s.set(self.i, ctime_ns=NOW)
        return []


class Removexattr(XattrOp):
    def call(self):
        return self.env.fs.removexattr, self.i, self.n, self.ctx

    def errors(self):
        return self.fs_err() + [({errno.EPERM}, self.locked(self.i)), ({errno.ENODATA}, Not(self.has))]

    def effect(self, s, res):
        s.xattr[self.i, self.n] = (False, 0)
        s.set(self.i, ctime_ns=NOW)
        return []


class Unlink(DirOp):
    isdir = False

    def call(self):
        return self.env.fs.unlink, self.d, self.n, self.ctx

    def errors(self):
        r = self.fs_err() + [({errno.ENOENT}, And(Not(self.p), self.n != CTRL)),
                             ({errno.EACCES, errno.EPERM, errno.ENOTDIR}, self.n == CTRL),
                             ({errno.EPERM}, self.locked(self.d))]
        if self.p:
            k = Eq(self.env.kind[self.t], DIR)
            r.append(({errno.ENOTDIR}, Not(k)) if self.isdir else ({errno.EISDIR}, k))
            r.append(({errno.ENOTEMPTY}, Or([p for (d, _), (p, t) in self.env.C.items() if d == self.t])))
        return r

    def effect(self, s, res):
        s.content[self.d, self.n] = (False, 0)
        s.dec(self.t)
        s.set(self.d, mtime_ns=NOW, ctime_ns=NOW)
        return []


class Rmdir(Unlink):
    isdir = True

    def call(self):
        return self.env.fs.rmdir, self.d, self.n, self.ctx


class CreateOp(DirOp):
    exists_ok = False

    def args(self):
        super().args()
        if not self.exists_ok:
            self.E.assume(not self.p)
        self.perm = self.E.int('mkperm', 0, 4095)

    def errors(self):
        return self.fs_err() + [({errno.EACCES, errno.EPERM}, self.n == CTRL),
                                ({errno.EPERM}, self.locked(self.d)),
                                ({errno.EINVAL, errno.ENOENT}, Eq(self.nlink(self.d), 0))]

    def effect(self, s, res, mode=None, rdev=0, size=0):
        env = self.env
        new = env.newid
        pv = s.inode[self.d][1]
        sgid = (env.at[self.d]['mode'] // 1024) % 2 == 1
        isdir = mode // 4096 == DIR
        mode = Ite(And(sgid, isdir, Eq((mode // 1024) % 2, 0)), mode + 1024, mode)
        s.inode[new] = (True, dict(mode=mode, uid=1001, gid=Ite(sgid, pv['gid'], 1002), mtime_ns=NOW, ctime_ns=NOW,
                                   atime_ns=NOW, refcount=1, size=size, rdev=rdev, locked=0))
        s.content[self.d, self.n] = (True, new)
        s.set(self.d, mtime_ns=NOW, ctime_ns=NOW)
        s.opens[new] = 1
        return attr_ok(env, res, s.inode[new][1], new)


class Mkdir(CreateOp):
    def call(self):
        return self.env.fs.mkdir, self.d, self.n, DIR * 4096 + self.perm, self.ctx

    def effect(self, s, res):
        return super().effect(s, res, mode=DIR * 4096 + self.perm)


class Mknod(CreateOp):
    def args(self):
        super().args()
        self.k = (REG, FIFO, CHR)[self.E.choice('mkkind', 3)]
        self.rdev = self.E.int('mkrdev', 0, 2 ** 31)

    def call(self):
        return self.env.fs.mknod, self.d, self.n, self.k * 4096 + self.perm, self.rdev, self.ctx

    def effect(self, s, res):
        return super().effect(s, res, mode=self.k * 4096 + self.perm, rdev=self.rdev)


class Symlink(CreateOp):
    def args(self):
        super().args()
        self.v = self.E.atom('newtarget', 3)

    def call(self):
        return self.env.fs.symlink, self.d, self.n, self.v, self.ctx

    def effect(self, s, res):
        r = super().effect(s, res, mode=LNK * 4096 + 0o777, size=core.symlen(self.v))
        s.target[self.env.newid] = (True, self.v)
        return r


class Create(CreateOp):
    exists_ok = True
    FL = (os.O_RDWR, os.O_RDONLY, os.O_WRONLY)

    def args(self):
        super().args()
        self.fl = self.FL[self.E.choice('flags', 3)]
        if self.p:
            self.E.assume(Eq(self.env.kind[self.t], REG))

    def call(self):
        return self.env.fs.create, self.d, self.n, REG * 4096 + self.perm, self.fl, self.ctx

    def errors(self):
        if self.p:
            return self.fs_err() + [({errno.EPERM}, And(self.locked(self.t), self.fl != os.O_RDONLY))]
        return super().errors()

    def effect(self, s, res):
        fi, attrs = res
        if self.p:
            s.opens[self.t] = s.opens[self.t] + 1
            return attr_ok(self.env, attrs, s.inode[self.t][1], self.t) + [(Eq(fi.fh, self.t), 'file handle')]
        return super().effect(s, attrs, mode=REG * 4096 + self.perm) + [(Eq(fi.fh, self.env.newid), 'file handle')]


class Open(Op):
    def args(self):
        E = self.E
        self.i = self.env.inode_arg()
        self.fl = (os.O_RDONLY, os.O_RDWR, os.O_WRONLY)[E.choice('flags', 3)]
        if E.choice('trunc', 2):
            self.fl |= os.O_TRUNC

    def call(self):
        return self.env.fs.open, self.i, self.fl, self.ctx

    def errors(self):
        w = bool(self.fl & (os.O_RDWR | os.O_WRONLY))
        k = REG * 1 if self.i == 1 else self.env.kind[self.i]
        tr = bool(self.fl & os.O_TRUNC)
        r = [({errno.EPERM}, And(w, Or(self.env.fs.failsafe, self.locked(self.i))))]
        if tr:
            r.append(({errno.EINVAL}, Or(not w, self.i == 1, Not(Or(Eq(k, REG), Eq(k, FIFO), Eq(k, BLK))))))
        return r

    def effect(self, s, res):
        out = [(Eq(res.fh, self.i), 'file handle')]
        if self.fl & os.O_TRUNC:
            reg = Eq(self.env.kind[self.i], REG)
            v = s.inode[self.i][1]
            s.set(self.i, size=Ite(reg, 0, v['size']), mtime_ns=Ite(reg, NOW, v['mtime_ns']),
                  ctime_ns=Ite(reg, NOW, v['ctime_ns']))
            for b in range(self.env.NB):
                p, o = s.block[self.i, b] if (self.i, b) in s.block else (False, 0)
                s.block[self.i, b] = (And(p, Not(reg)), o)
        return out


class Link(Op):
    def args(self):
        E, env = self.E, self.env
        self.d = env.dir_arg('newdir')
        self.n = env.name_arg('newname')
        p, t = env.entry(self.d, self.n)
        E.assume(Not(p))
        c = env.ids + [2]
        self.i = c[E.choice('ino', len(c))]
        if self.i != 2:
            E.assume(env.pres[self.i])
            E.assume(Not(Eq(env.kind[self.i], DIR)))
            E.assume(env.opened.bits[self.i])
            E.assume(env.refs[self.i] > 0)

    def call(self):
        return self.env.fs.link, self.i, self.d, self.n, self.ctx

    def errors(self):
        return self.fs_err() + [({errno.EACCES, errno.EPERM}, Or(self.n == CTRL, self.i == 2)),
                                ({errno.EPERM}, self.locked(self.d)),
                                ({errno.EINVAL, errno.ENOENT}, Eq(self.nlink(self.d), 0))]

    def effect(self, s, res):
        v = s.inode[self.i][1]
        s.set(self.i, refcount=v['refcount'] + 1, ctime_ns=NOW)
        s.set(self.d, mtime_ns=NOW, ctime_ns=NOW)
        s.content[self.d, self.n] = (True, self.i)
        s.opens[self.i] = s.opens[self.i] + 1
        return attr_ok(self.env, res, s.inode[self.i][1], self.i)


class Rename(Op):
    def args(self):
        E, env = self.E, self.env
        self.d = env.dir_arg('olddir')
        self.n = env.name_arg('oldname')
        self.d2 = env.dir_arg('newdir')
        self.n2 = env.name_arg('newname')
        self.p, self.t = self.dec(self.d, self.n)
        self.p2, self.t2 = self.dec(self.d2, self.n2)
        self.flags = E.choice('flags', 2)
        if self.p:
            # the kernel refuses to move a directory below itself
            if self.anc(self.t, self.d2) is not False:
                E.assume(Not(self.anc(self.t, self.d2)))
        if self.p and self.p2:
            E.assume(self.t != self.t2)
            E.assume(Iff(Eq(env.kind[self.t], DIR), Eq(env.kind[self.t2], DIR)))
            E.assume(Not(self.anc(self.t2, self.d)))

    def anc(self, i, d):
        """i is d or an ancestor of d (entries lead to higher slots)"""
        if i == d:
            return True
        if i not in self.env.kind or i > d:
            return False
        return Or([And(p, Eq(t, x), self.anc(x, d)) for (y, k), (p, t) in self.env.C.items() if y == i
                   for x in self.env.ids if i < x <= d])

    def dec(self, d, n):
        p, t = self.env.entry(d, n)
        if p is False:
            return False, 0
        if p:
            return True, core.concretize(t) if self.E.mode == 'sym' else t
        return False, 0

    def call(self):
        return self.env.fs.rename, self.d, self.n, self.d2, self.n2, self.flags, self.ctx

    def errors(self):
        env = self.env
        r = self.fs_err() + [({errno.ENOTSUP, errno.EINVAL}, self.flags != 0),
                             ({errno.EACCES, errno.EPERM}, Or(self.n == CTRL, self.n2 == CTRL)),
                             ({errno.EPERM}, Or(self.locked(self.d), self.locked(self.d2))),
                             ({errno.ENOENT}, And(Not(self.p), self.n != CTRL)),
                             ({errno.EINVAL, errno.ENOENT}, Eq(self.nlink(self.d2), 0))]
        if self.p2:
            r.append(({errno.EINVAL, errno.ENOTEMPTY},
                      Or([p for (d, _), (p, t) in env.C.items() if d == self.t2])))
        return r

    def effect(self, s, res):
        if self.p2:
            s.dec(self.t2)
        s.content[self.d, self.n] = (False, 0)
        s.content[self.d2, self.n2] = (True, self.t)
        s.set(self.d, mtime_ns=NOW, ctime_ns=NOW)
        s.set(self.d2, mtime_ns=NOW, ctime_ns=NOW)
        v = s.inode[self.t][1]
        s.set(self.t, ctime_ns=OneOf(v['ctime_ns'], NOW))
        return []


class Setattr(Op):
    FIELDS = ('mode', 'uid', 'gid', 'atime', 'mtime')

    def args(self):
        E, env = self.E, self.env
        self.i = env.inode_arg()
        self.up = {f: bool(E.bool('up_' + f)) for f in self.FIELDS}
        import pyfuse3
        self.a = a = pyfuse3.EntryAttributes()
        self.new = {}
        k = DIR if self.i == 1 else env.kind[self.i]
        # the kernel always passes the file type along
        self.new['mode'] = a.st_mode = k * 4096 + E.int('newperm', 0, 4095)
        self.new['uid'] = a.st_uid = E.int('newuid', 0, 2 ** 31)
        self.new['gid'] = a.st_gid = E.int('newgid', 0, 2 ** 31)
        self.new['atime_ns'] = a.st_atime_ns = E.int('newatime', -2 ** 65, 2 ** 65)
        self.new['mtime_ns'] = a.st_mtime_ns = E.int('newmtime', -2 ** 65, 2 ** 65)
        self.size()

    def size(self):
        self.up['size'] = False
        self.f = self.env.fields(self.up)

    def call(self):
        return self.env.fs.setattr, self.i, self.a, self.f, None, self.ctx

    def errors(self):
        bad = Or([And(self.up[x], Or(self.new[x + '_ns'] >= 2 ** 63, self.new[x + '_ns'] <= -2 ** 63))
                  for x in ('atime', 'mtime') if x in self.up])
        return self.fs_err() + [({errno.EPERM}, self.locked(self.i)), ({errno.EINVAL}, bad)]

    def effect(self, s, res):
        ch = dict(ctime_ns=NOW)
        for f, u in self.up.items():
            if u:
                a = f + '_ns' if f in ('atime', 'mtime') else f
                ch[a] = self.new[a]
        s.set(self.i, **ch)
        return attr_ok(self.env, res, s.inode[self.i][1], self.i)


class Truncate(Setattr):
    FIELDS = ('mtime',)

    def size(self):
        E, env = self.E, self.env
        E.assume(self.i != 1)
        self.new['size'] = self.a.st_size = E.int('newsize', 0, env.NB * env.bs)
        self.up['size'] = True
        self.f = env.fields(self.up)

    def effect(self, s, res):
        r = super().effect(s, res)
        for b in range(self.env.NB):
            p, o = s.block[self.i, b]
            s.block[self.i, b] = (And(p, self.new['size'] > b * self.env.bs), o)
        return r


class Forget(Op):
    def args(self):
        E = self.E
        self.i = self.env.ids[E.choice('ino', len(self.env.ids))]
        E.assume(self.env.opened.bits[self.i])
        self.k = E.int('nlookup', 1, 3)
        E.assume(self.k <= self.env.pre_open[self.i])

    def call(self):
        return self.env.fs.forget, [(self.i, self.k)]

    def errors(self):
        return []

    def effect(self, s, res):
        n = s.opens[self.i] - self.k
        s.opens[self.i] = n
        s.purge_if(self.i, And(Eq(n, 0), Eq(self.nlink(self.i), 0)))
        return []


class Forget2(Op):
    """Batch of two inodes."""

    def args(self):
        E = self.E
        self.ij = self.env.ids[:2]
        self.ks = []
        for i in self.ij:
            E.assume(self.env.opened.bits[i])
            k = E.int('nlookup%d' % i, 1, 3)
            E.assume(k <= self.env.pre_open[i])
            self.ks.append(k)

    def call(self):
        return self.env.fs.forget, list(zip(self.ij, self.ks))

    def errors(self):
        return []

    def effect(self, s, res):
        for i, k in zip(self.ij, self.ks):
            n = s.opens[i] - k
            s.opens[i] = n
            s.purge_if(i, And(Eq(n, 0), Eq(self.nlink(i), 0)))
        return []


class Fsync(Op):
    dirs = False

    def args(self):
        self.i = self.env.inode_arg()
        self.ds = bool(self.E.choice('datasync', 2))

    def call(self):
        return (self.env.fs.fsyncdir if self.dirs else self.env.fs.fsync), self.i, self.ds

    def errors(self):
        return []

    def effect(self, s, res):
        return []


class Fsyncdir(Fsync):
    dirs = True


class Opendir(Op):
    def args(self):
        self.i = self.env.dir_arg()

    def call(self):
        return self.env.fs.opendir, self.i, self.ctx

    def errors(self):
        return []

    def effect(self, s, res):
        return [(Eq(res, self.i), 'directory handle')]


OPS = dict(lookup=Lookup, getattr=Getattr, readlink=Readlink, access=Access, getxattr=Getxattr, listxattr=Listxattr,
           setxattr=Setxattr, removexattr=Removexattr, unlink=Unlink, rmdir=Rmdir, mkdir=Mkdir, mknod=Mknod,
           symlink=Symlink, create=Create, open=Open, link=Link, rename=Rename, setattr=Setattr, truncate=Truncate,
           forget=Forget, forget2=Forget2, fsync=Fsync, fsyncdir=Fsyncdir, opendir=Opendir)


@harness
def fs_op(E, cfg):
    env = FsEnv(E, cfg)
    op = OPS[cfg['op']](env)
    if cfg.get('args_only'):
        return
    r = env.call(*op.call())
    post = env.view()
    E.witness('%s:%s' % (cfg['op'], r[0]))
    prop = cfg['p']
    if prop == 'C01':
        E.check_all(post.invariants(env.opened.sym))
    s = Spec(env)
    if prop == 'C03':
        errs = op.errors()
        if getattr(op, 'always', None):
            op.always(s)
        if r[0] == 'ok':
            E.check_all([(Not(c), 'refused when it cannot be carried out') for _, c in errs])
            E.check_all(op.effect(s, r[1]))
            E.check_all(s.compare(post, env.opened))
        elif r[0] == 'errno':
            E.check(Or([c for es, c in errs if r[1] in es]), 'refused without reason (errno %d)' % r[1])
            E.check_all(s.compare(post, env.opened, 'after refusal'))
        else:
            E.check(False, 'unexpected exception', lambda: r[1])
    if prop == 'C04':
        immutable(E, env, op, r, s, post)
    if r[0] == 'errno':
        E.observe('errno', r[1])
    E.observe('db', post.dump())


MODIFY = ('setxattr', 'removexattr', 'unlink', 'rmdir', 'mkdir', 'mknod', 'symlink', 'create', 'link', 'rename',
          'setattr', 'truncate')


def immutable(E, env, op, r, s, post):
    """C04: locked inodes stay as they are; in failsafe mode everything does."""
    out = []
    fsafe = env.cfg.get('failsafe')
    name = env.cfg['op']
    for i in env.all:
        p, v = s.inode[i]
        q, w = post.inode(i)
        lk = True if fsafe else And(p, Eq(v['locked'], 1))
        # an immutable inode may lose its last link through a directory that is not immutable
        lk = And(lk, p, q) if not fsafe else And(p, q)
        for a in ATTRS:
            if a in ('atime_ns',):
                continue
            if a in ('refcount', 'ctime_ns') and not fsafe:
                ok = Or(Eq(v[a], w[a]), Not(Eq(v['refcount'], w['refcount'])))
            else:
                ok = Eq(v[a], w[a])
            out.append((Implies(lk, ok), 'attribute %s unchanged' % a))
        for n in env.names + [NEW]:
            out.append((Implies(lk, same(s.xattr[i, n], post.xattr(i, n))), 'extended attributes unchanged'))
            c0, c1 = s.content[i, n], post.content(i, n)
            out.append((Implies(lk, same(c0, c1)), 'directory entries unchanged'))
        for b in range(env.NB):
            if i != 1:
                out.append((Implies(lk, same(s.block[i, b], post.block(i, b))), 'blocks unchanged'))
        out.append((Implies(lk, same(s.target[i], post.target(i))), 'symlink target unchanged'))
        if fsafe and name not in ('forget', 'forget2'):
            out.append((Iff(p, q), 'no inode removed'))
    if fsafe:
        out.append((Not(post.inode(env.newid)[0]), 'no inode created'))
        if name in MODIFY and not (name == 'create' and op.p and op.fl == os.O_RDONLY) and r[0] == 'ok':
            out.append((False, 'modifying request refused in failsafe mode'))
        if name in MODIFY and r[0] == 'exc':
            out.append((False, 'modifying request refused in failsafe mode'))
        if name in ('lookup', 'getattr', 'readlink', 'getxattr', 'listxattr', 'opendir', 'access'):
            if r[0] == 'errno':
                out.append((Or([c for es, c in op.errors() if r[1] in es]), 'reading works in failsafe mode'))
    else:
        for tgt in locked_targets(name, op):
            lk = op.locked(tgt)
            if r[0] == 'ok':
                out.append((Not(lk), 'request on an immutable object refused'))
    E.check_all(out)


def locked_targets(name, op):
    if name in ('setxattr', 'removexattr', 'setattr', 'truncate'):
        return [op.i]
    if name in ('unlink', 'rmdir', 'mkdir', 'mknod', 'symlink', 'link'):
        return [op.d]
    if name == 'create':
        return [] if op.p else [op.d]
    if name == 'rename':
        return [op.d, op.d2]
    if name == 'open' and op.fl & (os.O_RDWR | os.O_WRONLY):
        return [op.i]
    return []


def same(a, b):
    (p, v), (q, w) = a, b
    return And(Iff(p, q), Implies(And(p, q), Eq(v, w)))


SMALL = dict(N=2, K=2, NB=1)
MED = dict(N=3, K=2, NB=1)
BIG = dict(N=4, K=2, NB=1)
WRITERS = ('setxattr', 'removexattr', 'unlink', 'rmdir', 'mkdir', 'mknod', 'symlink', 'create', 'open', 'link',
           'rename', 'setattr', 'truncate', 'forget', 'forget2')
READERS = ('lookup', 'getattr', 'readlink', 'access', 'getxattr', 'listxattr', 'fsync', 'fsyncdir', 'opendir')


def cfgs(p, ops, base, **kw):
    return [dict(base, op=o, p=p, **kw) for o in ops]


# several blocks per file, possibly with equal contents
BLOCKS = dict(N=1, K=1, NB=3, M=2, X=False)
BLOCK_OPS = ('unlink', 'truncate', 'forget', 'open')
# renaming over an entry of another directory involves three inodes
REN = dict(N=3, K=2, NB=0, X=False)
claim('C01', 'fs_op', quick=cfgs('C01', WRITERS, SMALL) + cfgs('C01', ['rename'], REN) + cfgs('C01', BLOCK_OPS, BLOCKS),
      thorough=cfgs('C01', WRITERS, MED) + cfgs('C01', BLOCK_OPS, dict(BLOCKS, N=2, M=3)))
claim('C03', 'fs_op', quick=cfgs('C03', WRITERS + READERS, SMALL) + cfgs('C03', ['rename'], REN), thorough=cfgs('C03', WRITERS + READERS, MED))
claim('C04', 'fs_op', quick=cfgs('C04', WRITERS, SMALL) + cfgs('C04', ['rename'], REN) + cfgs('C04', WRITERS + READERS, SMALL, failsafe=True),
      thorough=cfgs('C04', WRITERS, MED) + cfgs('C04', WRITERS + READERS, MED, failsafe=True))
for _p, _x in (('C01', 'every modifying request and forget'), ('C03', 'every request except read, write and readdir'),
               ('C04', 'every modifying request, plus every request in failsafe mode')):
    describe(_p, bounds=['one request (%s) with arbitrary arguments' % _x, 'state: root plus 2 (thorough 3) inode slots of any type, '
                         '2 names, 1 block per inode, 2 objects; presence, links, attributes, opened inodes and attribute cache arbitrary'],
             assumptions=['requests arrive as the kernel issues them: inode arguments are live; entries to be created do not exist; '
                          'rename arguments are type-compatible and do not move a directory below itself'])
