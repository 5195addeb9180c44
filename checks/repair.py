"""File system check: repairs inconsistent metadata, leaves consistent metadata alone (C17)."""
import os

from symx.registry import harness, claim, describe
from symx import core, strio, vfs
from symx.core import And, Or, Not, Implies, Iff, Ite, Eq, Count
from checks._fsenv import *
from checks.crash import Proxy

PROPERTIES = ['C17']
BS = 4
DIRS = (1, 3, 5)
BASE = dict(
    inodes={1: (0o040755, 1, 0), 2: (0o100600, 42, 0), 3: (0o040700, 1, 0), 4: (0o100644, 1, 3), 5: (0o040755, 1, 0),
            6: (0o100644, 1, 6), 7: (0o120777, 1, 2)},
    names={1: (b'lost+found', 1), 2: (b'a', 1), 3: (b'd', 1), 4: (b'b', 1), 5: (b's', 1), 6: (b'user.x', 1)},
    contents=[(1, 3, 1), (2, 4, 1), (3, 5, 1), (4, 6, 5), (5, 7, 1)],
    objects={1: (3, 2), 2: (2, 1)},         # length, refcount
    blocks=[(4, 0, 1), (6, 0, 1), (6, 1, 2)],
    xattrs=[(4, 6)],
    targets=[7])


class Store:
    backend = None
    max_connections = 1
    max_threads = 1

    def __init__(self, E):
        self.E = E
        self.objects = {}           # id -> stored or not (condition)

    async def list(self, prefix=''):
        for i in sorted(self.objects):
            if self.objects[i]:
                yield 's3ql_data_%d' % i

    async def contains(self, key):
        return bool(self.objects.get(int(key[10:]), False))

    async def delete(self, key):
        from s3ql.backends.common import NoSuchObject
        i = int(key[10:])
        if not self.objects.get(i, False):
            raise NoSuchObject(key)
        self.objects[i] = False

    async def get_size(self, key):
        from s3ql.backends.common import NoSuchObject
        if not self.objects.get(int(key[10:]), False):
            raise NoSuchObject(key)
        return 1000 + int(key[10:])

    async def fetch(self, key):
        raise core.Inconclusive('fetch')


def hash_(E, i):
    return ('h%02d' % i).encode() * 10


class Counted:
    """Connection that fails after more statements than any terminating check needs."""

    def __init__(self, db):
        self.__dict__.update(db=db, n=0)

    def __getattr__(self, k):
        self.__dict__['n'] += 1
        if self.n > 30000:
            raise Endless(self.n)
        return getattr(self.db, k)


class Endless(Exception):
    pass


class State:
    """Table contents with solver-chosen damage."""

    def __init__(self, E, cfg):
        self.E = E
        db = self.db = open_db(E)
        st = self.store = Store(E)
        kn = cfg['knobs'].split()
        hurt = lambda k: k in kn
        budget = cfg.get('damage', 99)
        self.left = budget
        flag = self.flag
        for i, (mode, rc, size) in BASE['inodes'].items():
            if hurt('noinode%d' % i) and flag('noinode%d' % i):
                continue
            if hurt('irefs%d' % i) or (hurt('irefs') and i > 2):
                rc = self.int('irefs%d' % i, 0, 3, rc)
            if hurt('size%d' % i):
                size = E.int('size%d' % i, 0, 12)
            if hurt('notype%d' % i) and flag('notype%d' % i):
                mode &= 0o7777
            if hurt('notdir%d' % i) and flag('notdir%d' % i):
                mode = 0o100644
            db_add(E, db, 'inodes', True, id=i, uid=0, gid=0, mode=mode, mtime_ns=0, atime_ns=0, ctime_ns=0, refcount=rc,
                   size=size, rdev=0, locked=0)
        set_seq(E, db, 'inodes', 10)
        for i, (name, rc) in BASE['names'].items():
            if hurt('noname%d' % i) and flag('noname%d' % i):
                continue
            if hurt('nrefs%d' % i) or hurt('nrefs'):
                rc = self.int('nrefs%d' % i, 0, 3, rc)
            db_add(E, db, 'names', True, id=i, name=name, refcount=rc)
        if hurt('name') and flag('name'):
            names = (b'unused', b'lost+found_1', b'inode-6', b'_d_b')
            db_add(E, db, 'names', True, id=7, name=names[E.nd('namewhat', len(names))], refcount=self.int('namerefs', 0, 2, 0))
        for k, (n, i, p) in enumerate(BASE['contents']):
            if hurt('noentry%d' % k) and flag('noentry%d' % k):
                continue
            if hurt('parent%d' % k):
                p = self.int('parent%d' % k, 1, 8, p)
                E.assume(Or([Eq(p, x) for x in (1, 3, 5, 8)]))
            if hurt('target%d' % k):
                i = self.int('target%d' % k, 3, 8, i)
            db_add(E, db, 'contents', True, name_id=n, inode=i, parent_inode=p)
        for x in ('entry', 'entry2'):
            if hurt(x) and flag(x):
                n, i, p = E.int(x + 'name', 1, 8), E.int(x + 'inode', 3, 8), E.int(x + 'parent', 1, 8)
                E.assume(Or([Eq(p, x) for x in (1, 3, 5, 8)]))
                E.assume(And([Not(And(g, Eq(r['name_id'], n), Eq(r['parent_inode'], p)))
                              for g, r in db_rows(E, db, 'contents')]))
                db_add(E, db, 'contents', True, name_id=n, inode=i, parent_inode=p)
        if hurt('taken'):               # names fsck would use are taken (file 4 has further links)
            for k, name in enumerate((b'inode-6', b'inode-6-1', b'inode-6-')):
                if flag('taken%d' % k):
                    db_add(E, db, 'names', True, id=11 + k, name=name, refcount=1)
                    db_add(E, db, 'contents', True, name_id=11 + k, inode=4, parent_inode=3)
        if hurt('dirlink') and flag('dirlink'):     # another entry for a directory
            db_add(E, db, 'contents', True, name_id=E.nd('dirlinkname', 2) + 2, inode=5, parent_inode=3)
        for i, (ln, rc) in BASE['objects'].items():
            stored = True
            if hurt('lost%d' % i) and flag('lost%d' % i):
                stored = False
            st.objects[i] = stored
            if hurt('noobj%d' % i) and flag('noobj%d' % i):
                continue
            if hurt('orefs'):
                rc = self.int('orefs%d' % i, 0, 3, rc)
            h, ps = hash_(E, i), 1000 + i
            if hurt('nohash%d' % i) and flag('nohash%d' % i):
                h = None
            if hurt('nosize%d' % i) and flag('nosize%d' % i):
                ps = -1
            if hurt('len'):
                ln = E.int('len%d' % i, 1, BS)
            db_add(E, db, 'objects', True, id=i, hash=h, refcount=rc, phys_size=ps, length=ln)
        if hurt('obj') and flag('obj'):
            db_add(E, db, 'objects', True, id=3, hash=None if hurt('objnull') and flag('objnull') else hash_(E, 3), refcount=self.int('objrefs', 0, 2, 0), phys_size=1003, length=2)
        for i in (3, 4):
            st.objects[i] = bool(hurt('stored%d' % i) and flag('stored%d' % i))
        set_seq(E, db, 'objects', 4)
        blocks = list(BASE['blocks'])
        for k, (i, b, o) in enumerate(blocks):
            if hurt('noblock%d' % k) and flag('noblock%d' % k):
                continue
            db_add(E, db, 'inode_blocks', True, inode=i, blockno=b, obj_id=o)
        if hurt('block') and flag('block'):
            i = E.int('blockinode', 4, 8)
            E.assume(Or(Eq(i, 4), Eq(i, 6), Eq(i, 8)))
            db_add(E, db, 'inode_blocks', True, inode=i, blockno=2, obj_id=E.int('blockobj', 1, 4))
        for i, n in BASE['xattrs']:
            db_add(E, db, 'ext_attributes', True, inode=i, name_id=n, value=b'v')
        if hurt('xattr') and flag('xattr'):
            i, n = E.int('xattrinode', 3, 8), E.int('xattrname', 2, 8)
            E.assume(Not(And(Eq(i, 4), Eq(n, 6))))
            db_add(E, db, 'ext_attributes', True, inode=i, name_id=n, value=b'w')
        for i in BASE['targets']:
            db_add(E, db, 'symlink_targets', True, inode=i, target=b'xy')
        if hurt('symlink') and flag('symlink'):
            db_add(E, db, 'symlink_targets', True, inode=8, target=b'z')

        # only a warning is given for entries below something that is not a directory
        nodir = [r['id'] for g, r in db_rows(E, db, 'inodes') if r['mode'] >> 12 not in (0, 4)]
        E.assume(And([Not(And(g, Eq(r['parent_inode'], i))) for g, r in db_rows(E, db, 'contents') for i in nodir]))

    def flag(self, name):
        if self.left <= 0:
            return False
        if self.E.flag(name):
            self.left -= 1
            return True
        return False

    def int(self, name, lo, hi, want):
        """A number that is right unless there is damage left to do."""
        if self.left <= 0:
            return want
        v = self.E.int(name, lo, hi)
        if v != want:
            self.left -= 1
            return v
        return want

    def tables(self):
        return {t: [(g, dict(r)) for g, r in db_rows(self.E, self.db, t)] for t in T}


def key(r, cols):
    return [r[c] for c in cols]


def exists(rows, **kw):
    return Or([And(g, [Eq(r[k], v) for k, v in kw.items()]) for g, r in rows])


def exists_dir(t, i):
    return Or([And(g, Eq(r['id'], i), isdir(r['mode'])) for g, r in t['inodes']])


def isnull(v):
    if v is None:
        return True
    return getattr(v, 'n', False)


def consistent(E, t, stored):
    """[(condition, what)]"""
    out = []
    for tab, col, ref in (('contents', 'inode', 'inodes'), ('contents', 'parent_inode', 'inodes'),
                          ('contents', 'name_id', 'names'), ('ext_attributes', 'inode', 'inodes'),
                          ('ext_attributes', 'name_id', 'names'), ('symlink_targets', 'inode', 'inodes'),
                          ('inode_blocks', 'inode', 'inodes'), ('inode_blocks', 'obj_id', 'objects')):
        for g, r in t[tab]:
            out.append((Implies(g, exists(t[ref], id=r[col])), '%s.%s refers to something that exists' % (tab, col)))
    for g, r in t['inodes']:
        n = Count([And(g2, Eq(c['inode'], r['id'])) for g2, c in t['contents']])
        out.append((Implies(And(g, r['id'] > 2), And(Eq(r['refcount'], n), n > 0)), 'link counts and reachability of inodes'))
    for g, r in t['names']:
        n = Count([And(g2, Eq(c['name_id'], r['id'])) for tab in ('contents', 'ext_attributes') for g2, c in t[tab]])
        out.append((Implies(g, Eq(r['refcount'], n)), 'reference counts of names'))
    for g, r in t['objects']:
        n = Count([And(g2, Eq(c['obj_id'], r['id'])) for g2, c in t['inode_blocks']])
        out.append((Implies(g, And(Eq(r['refcount'], n), n > 0)), 'reference counts of objects'))
        out.append((Implies(g, Or([And(Eq(r['id'], i), s) for i, s in stored.items()])), 'objects are in storage'))
        out.append((Implies(g, Not(Eq(r['phys_size'], -1))), 'objects have a size'))
        out.append((Implies(g, Not(isnull(r['hash']))), 'objects have a checksum'))
    for i, s in stored.items():
        out.append((Implies(s, exists(t['objects'], id=i)), 'no superfluous objects in storage'))
    for g, r in t['inode_blocks']:
        for g2, o in t['objects']:
            for g3, i in t['inodes']:
                out.append((Implies(And(g, g2, g3, Eq(r['obj_id'], o['id']), Eq(r['inode'], i['id'])),
                                    i['size'] >= r['blockno'] * BS + o['length']), 'file sizes cover all blocks'))
    for g, i in t['inodes']:
        out.append((Implies(g, i['mode'] >= 0o010000), 'inodes have a type'))
    lf = [And(g, Eq(c['parent_inode'], 1), g2, Eq(n['id'], c['name_id']), Eq(n['name'], b'lost+found'), g3,
              Eq(c['inode'], i['id']), isdir(i['mode'])) for g, c in t['contents'] for g2, n in t['names'] for g3, i in t['inodes']]
    out.append((Or(lf), 'lost+found is a directory'))
    for g, c in t['contents']:
        out.append((Implies(g, reach(t, c['parent_inode'])), 'directories are reachable'))
    return out


def isdir(mode):
    if isinstance(mode, int):
        return mode >> 12 == 4
    return And(mode >= 0o040000, mode < 0o050000)


def reach(t, i, depth=7):
    if depth == 0:
        return Eq(i, 1)
    return Or(Eq(i, 1), [And(g, Eq(c['inode'], i), reach_(t, c['parent_inode'], depth - 1)) for g, c in t['contents']])


def reach_(t, i, depth):
    i = core.concretize(i)
    if i == 1:
        return True
    if depth == 0:
        return False
    return Or([And(g, Eq(c['inode'], i), reach_(t, c['parent_inode'], depth - 1)) for g, c in t['contents']])


def check(E, s):
    from s3ql import fsck as F
    from s3ql.database import FsAttributes
    f = F.Fsck('/nonexistent', s.store, FsAttributes(data_block_size=BS, metadata_block_size=4096), Counted(s.db))
    f.expect_errors = True
    try:
        strio.run(lambda: f.check())
        return 'ok', f
    except (core.PathAbort, core.Inconclusive, AssertionError):
        raise
    except Exception as e:
        return '%s: %s' % (type(e).__name__, e), f


@harness
def repair(E, cfg):
    from s3ql import fsck as F
    s = State(E, cfg)
    clock = Clock()
    vfs.set_attr(E, F, 'time_ns', clock.time_ns)
    before = s.tables()
    stored0 = dict(s.store.objects)
    ok = And([c for c, _ in consistent(E, before, stored0)])
    out, f = check(E, s)
    E.witness('first:' + out.split(':')[0])
    E.observe('out', out.split(':')[0])
    E.check(out == 'ok', 'the check completes', lambda: out)
    if out != 'ok':
        return
    after = s.tables()
    stored = dict(s.store.objects)
    E.check(Implies(ok, not f.found_errors), 'no errors are reported for consistent metadata')
    E.check(not f.uncorrectable_errors, 'all errors are corrected')
    if not f.found_errors:
        E.check(unchanged(before, after), 'nothing is changed without reporting errors')
        E.check(And([Iff(stored[i], stored0[i]) for i in stored0]), 'no object is deleted without reporting errors')
    for c, what in consistent(E, after, stored):
        E.check(c, 'afterwards: ' + what)
    # nothing is lost
    for g, r in before['inode_blocks']:
        for g2, o in before['objects']:
            whole = And(g, g2, Eq(r['obj_id'], o['id']), Not(isnull(o['hash'])), exists(before['inodes'], id=r['inode']),
                        Or([And(Eq(o['id'], i), x) for i, x in stored0.items()]))
            E.check(Implies(whole, exists(after['inode_blocks'], inode=r['inode'], blockno=r['blockno'], obj_id=r['obj_id'])),
                    'no block is lost')
    for g, r in before['inodes']:
        E.check(Implies(g, exists(after['inodes'], id=r['id'])), 'no inode is lost')
    for tab, cols in (('ext_attributes', ('inode', 'value')), ('symlink_targets', ('inode', 'target'))):
        for g, r in before[tab]:
            E.check(Implies(And(g, exists(before['inodes'], id=r['inode'])), exists(after[tab], **{c: r[c] for c in cols})),
                    'no %s are lost' % tab.replace('_', ' '))
    for g, r in before['contents']:
        hurt = [And(g3, Eq(b['inode'], r['inode']), Not(Or([And(g2, Eq(b['obj_id'], o['id']), Not(isnull(o['hash'])),
                                                                Or([And(Eq(o['id'], i), x) for i, x in stored0.items()]))
                                                            for g2, o in before['objects']])))
                for g3, b in before['inode_blocks']]
        fine = And(g, exists(before['inodes'], id=r['inode']), exists(before['names'], id=r['name_id']),
                   exists(before['inodes'], id=r['parent_inode']), reach(before, r['parent_inode']), Not(Or(hurt)), Not(Eq(r['inode'], 3)),
                   Not(And(Eq(r['parent_inode'], 1), Eq(r['name_id'], 1))),         # lost+found itself
                   # of the entries of a directory that has more than one, any may be moved
                   Or(Not(exists_dir(before, r['inode'])), Eq(Count([And(g2, Eq(c['inode'], r['inode'])) for g2, c in before['contents']]), 1)))
        E.check(Implies(fine, exists(after['contents'], **{c: r[c] for c in ('name_id', 'inode', 'parent_inode')})),
                    'sound directory entries stay')
    out, f = check(E, s)
    E.check(out == 'ok' and not f.found_errors, 'another check finds nothing', lambda: out)


def unchanged(a, b):
    cs = []
    for t in a:
        ra, rb = a[t], b[t]
        cs.append(Eq(Count([g for g, _ in ra]), Count([g for g, _ in rb])))
        for g, r in ra:
            cs.append(Implies(g, Or([And(g2, [same(r[c], r2[c]) for c in r if c != 'rowid']) for g2, r2 in rb])))
    return And(cs)


def same(x, y):
    if x is None or y is None:
        return x is y
    return Eq(x, y)


SETS = ['nrefs', 'noname2 noname3 noname6 name', 'noname1 name', 'entry', 'noentry2 noentry3 name', 'noentry0 name', 'noentry1 noentry4',
        'parent0', 'parent1', 'parent2', 'parent3', 'target1 target3', 'parent2 dirlink', 'noinode4 noinode6', 'noinode5', 'noinode7 noinode3',
        'notdir3', 'irefs', 'size4 size6 len', 'notype4 notype5', 'orefs nosize1 nosize2', 'lost1 lost2 nosize1', 'noobj1 noobj2 orefs',
        'nohash1 nohash2 orefs', 'obj objnull stored3 stored4', 'block obj stored3', 'noblock0 noblock1 noblock2 orefs', 'xattr', 'xattr noname6', 'symlink']
PAIRS = ['parent0 dirlink', 'noentry2 irefs', 'noentry3 taken', 'noentry2 lost1', 'noentry2 xattr noname6', 'noinode5 lost2', 'parent2 lost2', 'noname1 lost1', 'noentry2 notype6', 'noname5 noname6']
MORE = ['parent2 entry', 'noentry1 noentry4 entry', 'noentry2 noentry3 entry']
ATOMS = sorted({a for k in SETS for a in k.split()} | {'noname4', 'noname5', 'notype6', 'parent4', 'target2', 'noinode3', 'lost1', 'size4'})
claim('C17', 'repair', quick=[dict(knobs=k) for k in SETS + PAIRS],
      thorough=[dict(knobs=k) for k in MORE] +
      [dict(knobs=a + ' ' + b) for n, a in enumerate(ATOMS) for b in ATOMS[n + 1:]])
describe('C17', bounds=[
    'a small file system (7 inodes, 5 directory entries in 3 directories, 2 objects, 3 blocks, one attribute, one symlink) in which the solver '
    'chooses damage: any of the references, counts, sizes, types, rows or stored objects named by the knobs; an added dangling or duplicate '
    'entry, attribute, block or object has arbitrary keys in 1..8',
    'quick: 37 groups of related damage, thorough: all pairs of single kinds of damage',
    'every repaired state is checked a second time by the real code'],
    assumptions=['the root inode and the tables themselves are intact and UNIQUE constraints hold (SQLite enforces them)',
                 'storage operations succeed; the damage that only calls for a warning (children of non-directories, symlinks without '
                 'target, wrong symlink sizes) is not chosen, because fsck does not claim to repair it',
                 'of several entries for one directory, any one may be moved to lost+found'])
