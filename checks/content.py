"""File contents: one read, write or truncation on a file in an arbitrary state (C02, C04)."""
import errno
import os

from symx.registry import harness, claim, describe
from symx import core, vfs, strio
from checks._fsenv import *

PROPERTIES = ['C01', 'C02', 'C04', 'C11']
F = 3       # the file


class FileState:
    """Where the data of the file is: per block a stored object, a cached block or nothing."""

    def __init__(self, env):
        from s3ql import block_cache
        E, bs = env.E, env.bs
        self.env = env
        env.fs.max_obj_size = bs
        E.assume(env.pres[F])
        E.assume(env.opened.bits[F])
        size = self.size = env.at[F]['size']
        self.cached = {}
        self.objdata = {}
        for o in range(1, env.M + 1):
            self.objdata[o] = vfs.data(E, o, env.olen[o])
        env.objdata = self.objdata
        lim = lambda b: Ite(size > (b + 1) * bs, bs, Ite(size > b * bs, size - b * bs, 0))
        for b in range(env.NB):
            p, o = env.B[F, b]
            for k in range(1, env.M + 1):
                E.assume(Implies(And(p, Eq(o, k)), env.olen[k] <= lim(b)))
            if E.flag('cached%d' % b):
                n = E.int('clen%d' % b, 0, bs)
                E.assume(n <= lim(b))
                d = vfs.data(E, 10 + b, n)
                self.cached[b] = d
                name = os.path.join(env.cache.path, '%d-%d' % (F, b))
                if E.mode == 'sym':
                    env.v.files[name] = vfs.Inode(d)
                else:
                    with open(name, 'wb') as fh:
                        fh.write(d)
                el = block_cache.CacheEntry(F, b, name, mode='r+b')
                el.dirty = True
                env.cache.cache[F, b] = el
                env.cache.cache.size += el.size

    def before(self, x):
        """Logical byte at position x before the request."""
        env, bs = self.env, self.env.bs
        r = 0
        for b in range(env.NB):
            i = x - b * bs
            if b in self.cached:
                v = self.byte(self.cached[b], i)
            else:
                p, o = env.B[F, b]
                v = 0
                for k, d in self.objdata.items():
                    v = Ite(And(p, Eq(o, k)), self.byte(d, i), v)
            r = Ite(And(i >= 0, i < bs), v, r)
        return r

    def byte(self, d, i):
        if isinstance(d, bytes) and not isinstance(i, core.SymInt):
            return d[i] if 0 <= i < len(d) else 0
        d = vfs.SymBytes.of(d)
        return Ite(And(i >= 0, i < d.length), d.at(i), 0)

    def after(self, post, x, nb):
        """Logical byte at x and length bounds of the blocks after the request."""
        env, bs = self.env, self.env.bs
        r = 0
        lens = []
        for b in range(nb):
            i = x - b * bs
            d = self.cachefile(b)
            if d is not None:
                v = self.byte(d, i)
                lens.append((b, core.symlen(d), True))
            else:
                p, o = post.block(F, b)
                v, ln = 0, 0
                for k, d in self.objdata.items():
                    v = Ite(And(p, Eq(o, k)), self.byte(d, i), v)
                    ln = Ite(And(p, Eq(o, k)), env.olen[k], ln)
                lens.append((b, ln, False))
            r = Ite(And(i >= 0, i < bs), v, r)
        return r, lens

    def cachefile(self, b):
        env = self.env
        el = env.cache.cache.get((F, b), None)
        if el is None:
            return None
        name = os.path.join(env.cache.path, '%d-%d' % (F, b))
        if env.E.mode == 'sym':
            return env.v.files[name].data
        el.flush()
        with open(name, 'rb') as fh:
            return fh.read()


@harness
def content(E, cfg):
    from s3ql import fs as FS
    import pyfuse3
    NB, bs = cfg['NB'], cfg.get('bs', 64)
    E.zeros_hook = vfs.zeros
    env = FsEnv(E, dict(cfg, N=1, K=1, X=False, kinds=(REG,), NB=NB, bs=bs, M=cfg.get('M', 2),
                        maxsize=NB * bs, nolock=cfg['p'] in ('C02', 'C11')))
    if E.mode == 'sym':
        vfs.set_attr(E, FS, 'BytesIO', vfs.SymBytesIO)
    st = FileState(env)
    op = cfg['op']
    size = st.size
    nb = NB + cfg.get('extra', 1)           # blocks looked at afterwards
    top = nb * bs
    fault = cfg.get('fault')
    env.fault = E.choice('fault', 3) if fault else 0
    locked = Eq(env.at[F]['locked'], 1)
    x = E.int('x', 0, top - 1)              # any byte of the file
    want_size = size
    spec = st.before(x)
    if op == 'read':
        off = E.int('off', 0, top)
        n = E.int('len', 0, top)
        r = env.call(env.fs.read, F, off, n)
        if r[0] == 'ok':
            got = r[1]
            ln = Ite(size - off < n, size - off, n)
            ln = Ite(ln < 0, 0, ln)
            E.check(Eq(core.symlen(got), ln), 'read returns everything up to the end of the file')
            E.check(Implies(And(x >= off, x < off + ln), Eq(st.byte(got, x - off), spec)),
                    'read returns the bytes last written')
    elif op == 'write':
        off = E.int('off', 0, NB * bs)
        n = E.int('len', 1, cfg.get('wlen', bs))
        E.assume(off + n <= top)
        buf = vfs.data(E, 20, n)
        r = env.call(env.fs.write, F, off, buf)
        if r[0] == 'ok':
            E.check(Eq(r[1], n), 'write reports the number of bytes')
            spec = Ite(And(x >= off, x < off + n), st.byte(buf, x - off), spec)
            want_size = Ite(size > off + n, size, off + n)
    else:
        new = E.int('newsize', 0, top - 1)
        if op == 'trunc':
            E.assume(new <= size)
        elif op == 'extend':
            E.assume(new > size)
        if op == 'otrunc':
            new = 0
            r = env.call(env.fs.open, F, os.O_RDWR | os.O_TRUNC, env.ctx())
        else:
            a = pyfuse3.EntryAttributes()
            a.st_size = new
            r = env.call(env.fs.setattr, F, a, env.fields(dict(size=True)), None, env.ctx())
        if r[0] == 'ok':
            spec = Ite(And(x < new, x < size), spec, 0)
            want_size = new
    E.witness('%s:%s' % (op, r[0]))
    if cfg.get('then_read') and r[0] == 'ok':
        # the same through the public interface
        q = env.call(env.fs.read, F, x, 1)
        E.check(q[0] == 'ok', 'byte can be read afterwards')
        E.check(Eq(core.symlen(q[1]), Ite(x < want_size, 1, 0)), 'end of file is where it should be')
        E.check(Implies(x < want_size, Eq(st.byte(q[1], 0), spec)), 'byte read afterwards is the last written')
    post = env.view()
    got_size = post.inode(F)[1]['size']
    byte, lens = st.after(post, x, nb)
    if cfg['p'] == 'C11':
        tot = core.Sum([ln for b, ln, cached in lens if cached])
        E.check(Eq(env.cache.cache.size, tot), 'cache size accounts for all cached blocks')
    elif cfg['p'] == 'C02':
        if env.fault == 0:
            E.check(r[0] == 'ok', 'request succeeds', lambda: str(r))
        if r[0] == 'ok':
            E.check(Eq(got_size, want_size), 'file size')
            E.check(Implies(x < want_size, Eq(byte, spec)), 'contents after the request')
            for b, ln, cached in lens:
                E.check(And(ln <= bs, Implies(want_size <= b * bs, Eq(ln, 0)),
                            Implies(And(want_size > b * bs, want_size < (b + 1) * bs), ln <= want_size - b * bs)),
                        'no data is kept beyond the end of the file')
        elif op == 'read':
            E.check(Eq(got_size, size), 'file size unchanged by a failed read')
            E.check(Implies(x < size, Eq(byte, spec)), 'contents unchanged by a failed read')
        for b, ln, cached in lens:
            if cached:
                el = env.cache.cache[F, b]
                same = b in st.cached and st.cachefile(b) is st.cached[b]
                if E.mode == 'replay':
                    same = b in st.cached and st.cachefile(b) == st.cached[b]
                if b in st.cached and not same:
                    E.check(el.dirty, 'modified cached block is marked as modified')
                elif b not in st.cached:
                    p, o = env.B.get((F, b), (False, 0))
                    objd = core.symlen(st.cachefile(b))
                    i = x - b * bs
                    v = 0
                    for k, d in st.objdata.items():
                        v = Ite(And(p, Eq(o, k)), st.byte(d, i), v)
                    if not el.dirty:
                        E.check(Implies(And(i >= 0, i < bs), Eq(st.byte(st.cachefile(b), i), v)),
                                'unmodified cached block equals the stored one')
    else:
        if op != 'read':
            E.check(Implies(locked, r[0] == 'errno' and r[1] == errno.EPERM), 'modifying a locked file is refused')
            E.check(Implies(Or(locked, cfg.get('failsafe', False)), And(Eq(got_size, size), Eq(byte, spec))),
                    'contents of a locked file stay')
            if cfg.get('failsafe'):
                E.check(r[0] == 'errno', 'modification refused in failsafe mode')
        elif env.fault == 0:
            E.check(r[0] == 'ok', 'reading works')
        if r[0] != 'ok':
            E.check(r[0] == 'errno', 'error is reported as error code', lambda: str(r))
        if r[0] == 'errno' and r[1] == errno.EIO:
            E.check(env.fs.failsafe is True, 'storage problem switches to failsafe mode')
            r2 = env.call(env.fs.write, F, 0, b'x')
            E.check(r2[0] == 'errno', 'no modification after a storage problem')
    E.observe('result', [r[0], r[1] if r[0] == 'errno' else 0])
    E.observe('size', got_size)
    E.observe('byte-equal', Eq(byte, spec))
    E.observe('lens', [ln for b, ln, c in lens])


OPS = ('read', 'write', 'trunc', 'extend', 'otrunc')
claim('C02', 'content',
      quick=[dict(op=o, NB=2, p='C02') for o in OPS] + [dict(op=o, NB=1, p='C02', fault=1) for o in OPS]
      + [dict(op='write', NB=1, p='C02', then_read=1)],
      thorough=[dict(op=o, NB=3, p='C02', M=3, wlen=128) for o in OPS])
claim('C11', 'content',
      quick=[dict(op=o, NB=2, p='C11') for o in OPS] + [dict(op=o, NB=1, p='C11', fault=1) for o in OPS],
      thorough=[dict(op=o, NB=3, p='C11', M=3, wlen=128) for o in OPS])
claim('C04', 'content',
      quick=[dict(op=o, NB=1, p='C04', fault=1) for o in OPS] + [dict(op=o, NB=1, p='C04', failsafe=True) for o in OPS],
      thorough=[dict(op=o, NB=2, p='C04', fault=1) for o in OPS])


class RecCache:
    """Stands in for the block cache: records which blocks are removed or fetched."""

    def __init__(self, E, env):
        self.E, self.env = E, env
        self.removed = []
        self.got = []

    async def remove(self, inode, start, end=None):
        await strio.lowlevel.checkpoint()
        self.removed.append((inode, start, start + 1 if end is None else end))

    def get(self, inode, blockno, max_write=None):
        self.got.append((inode, blockno))
        return self

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        return False

    def truncate(self, n):
        self.cut = n


@harness
def big_sizes(E, cfg):
    """Block arithmetic for sizes up to 2**62: which blocks are removed when a file shrinks or goes away."""
    import pyfuse3
    bs = cfg['bs']
    env = FsEnv(E, dict(N=1, K=1, NB=0, X=False, kinds=(REG,), maxsize=2 ** 62, nolock=True))
    env.fs.max_obj_size = bs
    rc = env.fs.cache = RecCache(E, env)
    E.assume(env.pres[F])
    size = env.at[F]['size']
    nblocks = lambda n: (n + bs - 1) // bs
    if cfg['op'] == 'trunc':
        E.assume(env.opened.bits[F])
        new = E.int('newsize', 0, 2 ** 62)
        a = pyfuse3.EntryAttributes()
        a.st_size = new
        r = env.call(env.fs.setattr, F, a, env.fields(dict(size=True)), None, env.ctx())
    else:
        new = 0
        E.assume(env.opened.bits[F])
        E.assume(Eq(env.refs[F], 0))
        E.assume(env.pre_open[F] == 1)
        r = env.call(env.fs.forget, [(F, 1)])
    E.check(r[0] == 'ok', 'request succeeds', lambda: str(r))
    b = E.int('b', 0, 2 ** 62)
    gone = Or([And(i == F, b >= s, b < e) for i, s, e in rc.removed])
    E.check(Implies(And(b >= nblocks(new), b < nblocks(size)), gone), 'every block beyond the new end is removed')
    E.check(Implies(b < nblocks(new), Not(gone)), 'no block before the new end is removed')
    if rc.got:
        E.check(And(Eq(rc.got[0][1], new // bs), Eq(rc.cut, new % bs)), 'last block is cut at the new end')
    E.check(Implies(And(new % bs != 0, new < size), len(rc.got) == 1), 'last block is cut if it is partial')
    E.observe('removed', [list(x) for x in rc.removed])


claim('C02', 'big_sizes', quick=[dict(op='trunc', bs=10240 * 1024), dict(op='purge', bs=10240 * 1024)],
      thorough=[dict(op=o, bs=b) for o in ('trunc', 'purge') for b in (1024, 2 ** 20, 10 ** 9 + 7)])
claim('C01', 'big_sizes', quick=[dict(op='purge', bs=10240 * 1024)])
describe('C02', bounds=['one request on one file in an arbitrary state', 'content: up to 2 blocks (thorough 3) of 64 '
                        'bytes, each absent, stored (any length) or cached (any length), any size/offset/length up to '
                        'one block beyond', 'fault: stored block missing or corrupted', 'big_sizes: file sizes up to 2**62'],
         assumptions=['data bytes are only moved, never inspected (checked: inspection is inconclusive)',
                      'requests on one file are not interleaved here (see C09)'])
