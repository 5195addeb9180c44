"""contrib/expire_backups.py: which backups are kept (C25)."""
import datetime as real_datetime
import os

from symx.registry import harness, claim, describe
from symx import core, vfs
from symx.core import And, Or, Not, Eq, Implies, Iff

PROPERTIES = ['C25']
NAMES = ['2026-01-%02d_10:00:00' % d for d in range(1, 20)]
OTHER = ['notes.txt', '2026-01-01', 'x2026-01-01_10:00:00', '2026-01-01_10:00:00.old']
STATE = '.expire_backups.dat'


class Frozen(bytes):
    pass


class Disk:
    """The current directory: backups, other entries and files."""

    def __init__(self, E, mod):
        self.E = E
        self.dirs = set()
        self.files = {}
        self.removed = []
        self.mod = mod
        vfs.set_attr(E, mod, 'os', self)
        vfs.set_attr(E, mod, 'shutil', self)
        vfs.set_attr(E, mod, 's3qlrm', self.s3qlrm)
        vfs.set_attr(E, mod, 'setup_logging', lambda **k: None)
        vfs.set_attr(E, mod, 'open', self.open)
        self.fail = None
        if E.mode == 'sym':
            vfs.set_attr(E, mod, 'freeze_basic_mapping', self.freeze)
            vfs.set_attr(E, mod, 'thaw_basic_mapping', self.thaw)
        else:
            from s3ql.common import freeze_basic_mapping, thaw_basic_mapping
            self.freeze, self.thaw = freeze_basic_mapping, thaw_basic_mapping
        self.path = self

    def freeze(self, d):
        r = Frozen(b'%d' % id(d))
        r.map = dict(d)
        return r

    def thaw(self, b):
        return dict(b.map)

    def listdir(self, p='.'):
        return list(self.dirs) + list(self.files)

    def exists(self, p):
        return p in self.files or p in self.dirs
    lexists = isfile = exists

    def isdir(self, p):
        return p in self.dirs

    def join(self, *a):
        return os.path.join(*a)

    def rename(self, a, b):
        self.files[b] = self.files.pop(a)
    replace = rename

    def unlink(self, p):
        del self.files[p]
    remove = unlink

    def rmtree(self, p, *a, **k):
        p = os.path.normpath(p)
        if self.fail is not None and len(self.removed) >= self.fail:
            raise OSError('cannot remove')
        if p not in self.dirs:
            raise FileNotFoundError(p)
        self.dirs.discard(p)
        self.removed.append(p)

    def s3qlrm(self, args):
        for p in args:
            self.rmtree(p)

    def open(self, p, mode='r', *a, **k):
        disk = self

        class F:
            def __enter__(self):
                if 'w' in mode:
                    disk.files[p] = b''
                elif p not in disk.files:
                    raise FileNotFoundError(p)
                return self

            def __exit__(self, *a):
                pass
            close = __exit__

            def read(self):
                return disk.files[p]

            def write(self, b):
                disk.files[p] = b if not disk.files[p] else disk.files[p] + b
        return F().__enter__()


def snapshot(d):
    return set(d.dirs), dict(d.files)


@harness
def rotation(E, cfg):
    import s3ql_expire_backups as M
    from s3ql.logging import QuietError
    d = Disk(E, M)
    n, m, r, top = cfg['old'], cfg['new'], cfg['ranges'], cfg['top']
    # boundaries of the age ranges
    cyc = []
    for k in range(r):
        cyc.append((cyc[-1] if cyc else 0) + 1 + E.choice('c%d' % k, top))
        if cyc[-1] > top:
            raise core.PathAbort()
    # known backups, oldest first, with any ages
    old = NAMES[:n]
    new = NAMES[n:n + m]
    if cfg.get('backwards') and E.flag('backwards'):
        # the clock has been set back meanwhile
        new = NAMES[:m]
        old = NAMES[m:m + n]
    age = {}
    for k, x in enumerate(old):
        age[x] = E.int('age%d' % k, 0, top + 1)
        if k:
            E.assume(age[old[k - 1]] > age[x])
    for x in OTHER:
        d.dirs.add(x)
    gone = [x for k, x in enumerate(old) if cfg.get('gone') and E.flag('gone%d' % k)]
    for x in old + new:
        if x not in gone:
            d.dirs.add(x)
    if n or cfg.get('state', True):
        d.files[STATE] = d.freeze(dict(age))
    for x in new:
        for y in age:
            age[y] = age[y] + 1
        age[x] = 0
    for x in gone:
        del age[x]
    prop = (1.0, 0.5)[E.nd('limit', 2)] if cfg.get('limit') else 1.0
    dry = E.flag('dry') if cfg.get('dry') else False
    rm = E.flag('s3qlrm') if cfg.get('dry') else True
    before = snapshot(d)
    if cfg.get('fail'):
        d.fail = E.nd('fail', 2)
    try:
        M.expire_backups(list(cyc), state=STATE, dry_run=dry, proportion_delete=prop, use_s3qlrm=rm)
        res = 'ok'
    except QuietError:
        res = 'refused'
    except OSError:
        res = 'failed'
        E.check(d.fail is not None, 'removing works')
    total = len(before[0]) - len(OTHER)
    if res == 'refused':
        E.check(snapshot(d) == before, 'nothing changes if too many backups would be removed')
        E.check(prop < 1, 'expiry is not refused without reason')
        return
    if dry:
        E.check(snapshot(d)[0] == before[0] and d.files.get(STATE) is before[1].get(STATE), 'nothing changes in a dry run')
        return
    for x in OTHER:
        E.check(x in d.dirs, 'other directory entries are left alone')
    kept = [x for x in age if x in d.dirs]
    E.check(all(x in age for x in d.removed), 'only known backups are removed')
    if total:
        E.check(len(d.removed) <= prop * total, 'no more backups are removed than allowed')
    if res == 'failed':
        E.check(d.files.get(STATE) is before[1].get(STATE), 'ages are only saved after removing everything')
    else:
        st = d.thaw(d.files[STATE])
        E.check(set(st) == set(kept), 'exactly the remaining backups are remembered')
        E.check_all([(Eq(st[x], age[x]), 'ages are counted in backups') for x in kept])
    # what is there now and what will be after k more backups
    out = []
    rng = list(zip([0] + cyc[:-1], cyc))
    for lo, hi in rng:
        for k in range(top + 1):
            fut = any(lo <= j < hi for j in range(k))       # backups made until then
            if fut:
                continue
            inr = lambda xs: Or([And(age[x] + k >= lo, age[x] + k < hi) for x in xs])
            out.append((Implies(inr(list(age)), inr(kept)),
                        'every age range that could be covered stays covered, now and later'))
    if cyc[0] == 1:
        out += [(Implies(Eq(age[x], 0), x in kept), 'the most recent backup is kept') for x in age]
    for x in kept:
        out.append((age[x] < cyc[-1], 'backups older than all ranges are removed')) if res == 'ok' else None
    E.check_all(out)
    # again, nothing new
    if res == 'ok':
        d.removed = []
        before = d.thaw(d.files[STATE])
        M.expire_backups(list(cyc), state=STATE, dry_run=False, proportion_delete=1.0, use_s3qlrm=rm)
        E.check(not d.removed, 'running again without new backups removes nothing')
        st = d.thaw(d.files[STATE])
        E.check(set(st) == set(before), 'running again without new backups changes nothing')
        E.check_all([(Eq(st[x], before[x]), 'running again without new backups changes nothing') for x in before])
    elif res == 'failed':
        # the remaining ones are removed by the next run
        d.fail = None
        M.expire_backups(list(cyc), state=STATE, dry_run=False, proportion_delete=1.0, use_s3qlrm=rm)
        st = d.thaw(d.files[STATE])
        E.check_all([(Eq(st[x], age[x]), 'ages are right after a failure') for x in st])
    E.observe('kept', sorted(kept))


@harness
def reconstruct(E, cfg):
    """Missing state file: refused, or rebuilt from the dates of regular backups."""
    import s3ql_expire_backups as M
    from s3ql.logging import QuietError
    d = Disk(E, M)
    base = real_datetime.datetime(2026, 1, 1, 10, 0, 0)
    step = (3600, 86400)[E.nd('step', 2)]
    n = 5
    have = [E.flag('b%d' % k) for k in range(n)]
    pos = [k for k in range(n) if have[k]]
    late = (0, step // 7, step + step // 3, 5 * step)[E.nd('late', 4)]
    if not pos:
        raise core.PathAbort()
    now = base + real_datetime.timedelta(seconds=step * pos[-1] + late)

    class DT(real_datetime.datetime):
        @classmethod
        def now(cls, tz=None):
            return now
    vfs.set_attr(E, M, 'datetime', DT)
    name = lambda k: (base + real_datetime.timedelta(seconds=step * k)).strftime('%Y-%m-%d_%H:%M:%S')
    for k in pos:
        d.dirs.add(name(k))
    recon = E.flag('reconstruct')
    try:
        M.expire_backups([100], state=STATE, reconstruct_state=recon, proportion_delete=1.0, use_s3qlrm=True)
    except QuietError:
        E.check(len(pos) > 1 and not recon, 'a missing state file is rebuilt if requested or trivial')
        E.check(not d.removed and STATE not in d.files, 'nothing changes without state file')
        return
    E.check(len(pos) <= 1 or recon, 'with several backups and no state file, nothing is done')
    st = d.thaw(d.files[STATE])
    if len(pos) == 1:
        E.check(all(v == 0 for v in st.values()), 'a single backup is new')
    elif 1 in [b - a for a, b in zip(pos, pos[1:])]:
        kept = [k for k in pos if name(k) in d.dirs]
        E.check(all(st[name(k)] == pos[-1] - k for k in kept), 'ages of regular backups are reconstructed')


B = dict(ranges=3, top=5)
claim('C25', 'rotation',
      quick=[dict(B, old=3, new=1), dict(B, old=2, new=2, backwards=True), dict(B, old=3, new=0),
             dict(old=2, new=1, ranges=2, top=4, gone=True, limit=True), dict(old=2, new=1, ranges=2, top=3, dry=True),
             dict(old=3, new=1, ranges=2, top=3, fail=True), dict(old=0, new=2, ranges=2, top=3)],
      thorough=[dict(old=4, new=1, ranges=3, top=7), dict(old=5, new=1, ranges=3, top=6),
                dict(old=3, new=2, ranges=4, top=7, backwards=True)])
claim('C25', 'reconstruct', quick=[dict()])
describe('C25', bounds=['up to 3 (thorough 5) remembered backups with arbitrary different ages, up to 2 new ones, some removed by hand; '
                        'up to 3 (thorough 4) age ranges with boundaries up to 5 (thorough 7); every number of future backups up to the last boundary',
                        'reconstruction of the state from up to 5 equidistant backups, some missing, run at four different times'],
         assumptions=['serialisation of the state file is covered by C24'])
