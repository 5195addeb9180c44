"""Reported statistics: fs.Operations.extstat / statfs and the s3qlstat tool (C30)."""
import os

from symx.registry import harness, claim, describe
from symx import core, vfs, strio
from checks._fsenv import *

PROPERTIES = ['C30']
BIG = 2 ** 40
EPOCH = [10 ** 18]
WORDS = dict(Q=(0, 2 ** 64 - 1), q=(-2 ** 63, 2 ** 63 - 1), L=(0, 2 ** 64 - 1), l=(-2 ** 63, 2 ** 63 - 1),
             I=(0, 2 ** 32 - 1), i=(-2 ** 31, 2 ** 31 - 1), N=(0, 2 ** 64 - 1))


class Struct:
    """struct.pack/unpack of integers, keeping symbolic values."""

    class Packed(bytes):
        pass

    def __init__(self, E, real):
        self.E, self.real = E, real
        self.error = real.error

    def pack(self, fmt, *a):
        if not any(isinstance(x, core.SymInt) for x in a):
            return self.real.pack(fmt, *a)
        codes = self.codes(fmt)
        if len(codes) != len(a):
            raise self.error('wrong number of values')
        for c, x in zip(codes, a):
            lo, hi = WORDS[c]
            if core.And(x >= lo, x <= hi):
                pass
            else:
                raise self.error('value out of range')
        r = Struct.Packed(self.real.pack(fmt, *range(len(a))))
        r.values = a
        return r

    def codes(self, fmt):
        f = fmt[1:] if fmt[:1] in '@=<>!' else fmt
        if not all(c in WORDS for c in f):
            raise core.Inconclusive('struct format ' + fmt)
        return f

    def unpack(self, fmt, buf):
        if not hasattr(buf, 'values'):
            return self.real.unpack(fmt, buf)
        if len(self.codes(fmt)) != len(buf.values) or self.calcsize(fmt) != len(buf):
            raise self.error('wrong size')
        return tuple(buf.values)

    def calcsize(self, fmt):
        return self.real.calcsize(fmt)


class Shown:
    """A number that leaves a recognisable mark in the text it is printed to."""
    marks = []

    def __init__(self, v):
        self.v = v

    def _mark(self):
        Shown.marks.append(self.v)
        return 7000000000 + len(Shown.marks) - 1

    def __int__(self):
        return self._mark()

    def __index__(self):
        return self._mark()

    def __float__(self):
        return float(self._mark())

    def __str__(self):
        return str(self._mark())

    def __format__(self, spec):
        return format(self._mark(), spec)

    def __bool__(self):
        return bool(self.v != 0)

    def __mul__(self, o):
        return Shown(self.v * val(o))
    __rmul__ = __mul__

    def __truediv__(self, o):
        return Shown(core.toreal(self.v) / val(o))

    def __add__(self, o):
        return Shown(self.v + val(o))
    __radd__ = __add__

    def __sub__(self, o):
        return Shown(self.v - val(o))

    def __eq__(self, o):
        return self.v == val(o)

    def __ne__(self, o):
        return self.v != val(o)

    def __lt__(self, o):
        return self.v < val(o)

    def __gt__(self, o):
        return self.v > val(o)

    def __le__(self, o):
        return self.v <= val(o)

    def __ge__(self, o):
        return self.v >= val(o)


def val(x):
    return x.v if isinstance(x, Shown) else x


NAMES = ('entries', 'objects', 'inodes', 'size', 'deduplicated size', 'compressed size', 'database size',
         'cache entries', 'cache size', 'dirty cache entries', 'dirty cache size')


@harness
def statistics(E, cfg):
    """Arbitrary tables and cache; extended statistics or statfs."""
    from s3ql import fs as F, block_cache, inode_cache, common
    import s3ql.database as D
    import struct as real_struct
    N, M, K = cfg.get('N', 2), cfg.get('M', 2), cfg.get('K', 2)
    bs = 64
    db = open_db(E)
    EPOCH[0] += 1000 * 10 ** 9
    clock = Clock(EPOCH[0])
    for mod in (common, F, block_cache, D):
        if hasattr(mod, 'time'):
            vfs.set_attr(E, mod, 'time', ClockMod(clock, mod.time))
    pres = {}
    size = {}
    for i in range(3, 3 + N):
        pres[i] = E.bool('inode%d' % i)
        size[i] = E.int('size%d' % i, 0, BIG)
        db_add(E, db, 'inodes', pres[i], id=i, uid=0, gid=0, mode=0o100600, mtime_ns=5, atime_ns=5, ctime_ns=5,
               refcount=1, size=size[i], rdev=0, locked=0)
    set_seq(E, db, 'inodes', 2 + N)
    db_add(E, db, 'names', True, id=1, name=b'n', refcount=N)
    ents = []
    for k in range(K):
        g = E.bool('entry%d' % k)
        E.assume(Implies(g, pres[3 + k % N]))
        ents.append(g)
        db_add(E, db, 'contents', g, name_id=1, inode=3 + k % N, parent_inode=50 + k)
    objs = []
    for o in range(1, M + 1):
        g = E.bool('obj%d' % o)
        ln = E.int('length%d' % o, 1, BIG)
        ph = E.int('phys%d' % o, -1, BIG)
        E.assume(ph != 0)
        objs.append((g, ln, ph))
        db_add(E, db, 'objects', g, id=o, hash=b'h%d' % o, refcount=1, phys_size=ph, length=ln)
    set_seq(E, db, 'objects', M)
    inodes = inode_cache.InodeCache(db, 0)
    ninodes = Sum([Count([pres[i] for i in pres]), Count([g for g, _ in db_rows(E, db, 'inodes')]) -
                   Count([pres[i] for i in pres])])
    if E.mode == 'sym':
        v = vfs.VFS()
        vfs.patch(E, [block_cache, D], v)
        cdir = '/cache'
        dbsize = E.int('dbsize', 0, BIG)
        v.files['/thedb'] = vfs.Inode(vfs.zeros(b'x', dbsize))
        db.file = '/thedb'
    else:
        cdir = os.path.join(tmpdir(), 'cache')
        E.int('dbsize', 0, BIG)
        dbsize = None
    class Back(StubBackend):
        def __init__(self):
            pass
    cache = block_cache.BlockCache(Back(), db, cdir, 10 ** 12, SendStub(), SendStub())
    fs = F.Operations(cache, db, bs, inodes)
    cache.fs = fs

    def done():
        for n in list(inodes.attrs.values()):
            object.__setattr__(n, 'dirty', False)
        inodes.attrs.clear()
        for el in cache.cache.values():
            el.dirty = False
        if E.mode == 'replay':
            db.conn.close()
    E.cleanups.append(done)
    # cached blocks
    used = []
    for b in range(cfg.get('blocks', 1)):
        if not E.flag('cached%d' % b):
            continue
        n = E.int('clen%d' % b, 0, bs)
        name = os.path.join(cdir, '3-%d' % b)
        d = vfs.data(E, 10 + b, n)
        if E.mode == 'sym':
            v.files[name] = vfs.Inode(d)
        else:
            with open(name, 'wb') as fh:
                fh.write(d)
        el = block_cache.CacheEntry(3, b, name, mode='r+b')
        el.dirty = E.flag('dirty%d' % b)
        cache.cache[3, b] = el
        cache.cache.size += el.size
        used.append((el.dirty, n))
    ctx = type('Ctx', (), {})()
    ctx.uid = ctx.gid = 0

    def expect():
        tot = Sum([Ite(pres[i], size[i], 0) for i in pres])
        return dict(entries=Count(ents), objects=Count([g for g, _, _ in objs]), inodes=ninodes, total=tot,
                    dedup=Sum([Ite(g, ln, 0) for g, ln, _ in objs]),
                    compr=Sum([Ite(And(g, ph > 0), ph, 0) for g, ln, ph in objs]))
    base = Sum([r['size'] for g, r in db_rows(E, db, 'inodes') if g is True and r['id'] in (1, 2)]) \
        if E.mode == 'sym' else sum(r['size'] for g, r in db_rows(E, db, 'inodes') if r['id'] in (1, 2))
    # a change that is only in the attribute cache yet
    if cfg.get('cached') and (pres[3] is True or pres[3]):
        size[3] = E.int('newsize', 0, BIG)
        inodes[3].size = size[3]
    if cfg['what'] == 'extstat':
        if E.mode == 'sym':
            vfs.set_attr(E, F, 'struct', Struct(E, real_struct))
        try:
            buf = fs.extstat()
        except Exception as e:
            E.check(False, 'statistics are available: %s' % type(e).__name__)
            return
        if E.mode == 'sym':
            got = list(F.struct.unpack('Q' * 12, buf))
        else:
            got = list(real_struct.unpack('Q' * 12, buf))
            dbsize = os.path.getsize(db.file)
        x = expect()
        want = [x['entries'], x['objects'], x['inodes'], x['total'] + base, x['dedup'], x['compr'], dbsize,
                len(used), Sum([n for _, n in used]), len([1 for d, n in used if d]),
                Sum([n for d, n in used if d])]
        E.check_all([(Eq(a, b), 'number reported for %s' % n) for n, a, b in zip(NAMES, got, want)])
        for k, g in enumerate(got):
            if k != 6:
                E.observe('stat%d' % k, g)
        return
    # statfs, repeatedly while the metadata changes
    first = None

    def once():
        r = strio.run(fs.statfs, ctx)
        return r

    def verify(s, xs):
        """The numbers agree with (one of) the states xs."""
        E.check_all([
            (s.f_frsize >= 4096, 'sensible block size'),
            (Eq(s.f_bsize, s.f_frsize), 'block sizes agree'),
            (And(s.f_bfree >= 0, s.f_bfree <= s.f_blocks), 'free space is between zero and the total'),
            (Eq(s.f_bavail, s.f_bfree), 'space available to ordinary users'),
            (And(s.f_ffree >= 0, s.f_ffree <= s.f_files), 'free inodes are between zero and the total'),
            (Eq(s.f_favail, s.f_ffree), 'inodes available to ordinary users')])
        used = (s.f_blocks - s.f_bfree) * s.f_frsize
        E.check_all([(Or([And(Eq(s.f_files - s.f_ffree, x['inodes']), used <= x['dedup'] + s.f_frsize,
                              used >= x['dedup'] - s.f_frsize) for x in xs]),
                      'used inodes and used space agree with the metadata')])
    s = once()
    x0 = expect()
    verify(s, [x0])
    E.observe('s0', [s.f_files, s.f_ffree])
    # another object and inode appear
    o = M + 1
    ln = E.int('length%d' % o, 1, BIG)
    objs.append((True, ln, -1))
    db.execute('INSERT INTO objects (refcount, hash, length, phys_size) VALUES(?,?,?,?)', (1, b'new', ln, -1))
    x1 = expect()
    dt = (0, 20, 61)[E.nd('dt', 3)]
    clock.t += dt * 10 ** 9
    s = once()
    verify(s, [x1] if dt > 60 else [x0, x1])


@harness
def stattool(E, cfg):
    """s3qlstat prints the numbers it is given under their names."""
    from s3ql import statfs as S
    import builtins
    import struct as real_struct
    import pyfuse3
    vals = [E.int('v%d' % k, 0, BIG) for k in range(12)]
    E.assume(core.And([Implies(a > 0, a != b) for i, a in enumerate(vals) for b in vals[:i]]))
    lines = []
    Shown.marks = []
    sym = E.mode == 'sym'
    vfs.set_attr(E, S, 'print', lambda *a, sep=' ', **k: lines.extend(sep.join(map(str, a)).split('\n')))
    vfs.set_attr(E, S, 'assert_fs_owner', lambda p, mountpoint=False: p)
    vfs.set_attr(E, S, 'setup_logging', lambda **k: None)
    st = Struct(E, real_struct)
    buf = st.pack('Q' * 12, *vals)
    vfs.set_attr(E, pyfuse3, 'getxattr', lambda p, n, size_guess=0: buf)

    class St(Struct):
        def unpack(self, fmt, b):
            return tuple(Shown(x) for x in super().unpack(fmt, b))
    if sym:
        vfs.set_attr(E, S, 'struct', St(E, real_struct))
    S.statfs('/mnt', raw=True)
    want = {'Directory entries': [vals[0]], 'Inodes': [vals[2]], 'Data objects': [vals[1]],
            'Total data size': [vals[3]], 'After de-duplication': [vals[4], (vals[4], vals[3])],
            'After compression': [vals[5], (vals[5], vals[3]), (vals[5], vals[4])], 'Database size': [vals[6]],
            'Cache size': [vals[8], vals[7]], 'Cache size (dirty)': [vals[10], vals[9]]}
    seen = set()
    import re
    for l in lines:
        k, _, rest = l.partition(':')
        if k not in want:
            continue
        seen.add(k)
        nums = re.findall(r'[0-9]+(?:\.[0-9]+)?', rest)
        E.check(len(nums) == len(want[k]), 'line %s is complete' % k)
        for n, w in zip(nums, want[k]):
            if sym:
                x = float(n)
                g = Shown.marks[int(x) - 7000000000] if x >= 7000000000 else (0 if x == 0 else x)
                if isinstance(w, tuple):
                    # a percentage; of nothing it is zero
                    E.check(Or(And(Eq(w[1], 0), Eq(g, 0)), And(w[1] != 0, close(g, w))),
                            'percentages relate the right sizes (%s)' % k)
                else:
                    E.check(Eq(g, w), 'number printed for %s' % k)
            elif isinstance(w, tuple):
                E.check(abs(float(n) - (w[0] * 100 / w[1] if w[1] else 0)) < 0.02,
                        'percentages relate the right sizes (%s)' % k)
            else:
                E.check(int(n) == w, 'number printed for %s' % k)
    E.check(seen == set(want), 'all numbers are printed')


def close(g, w):
    g = core.toreal(g)
    return Eq(g * core.toreal(w[1]), core.toreal(w[0] * 100))


claim('C30', 'statistics', quick=[dict(what='extstat', N=2, M=3), dict(what='extstat', N=2, M=2, cached=True, blocks=2),
                                  dict(what='statfs', N=2, M=2)],
      thorough=[dict(what='extstat', N=4, M=4, K=4, cached=True, blocks=3), dict(what='statfs', N=4, M=4)])
claim('C30', 'stattool', quick=[dict()])
describe('C30', bounds=['2-4 inodes, entries and objects in any combination, sizes up to 2^40, up to 3 cached blocks; one object added '
                        'between two statfs requests 0, 20 or 61 seconds apart'],
         assumptions=['statfs numbers may be up to a minute old; pretty-printing of sizes is not covered (raw output is)'])
