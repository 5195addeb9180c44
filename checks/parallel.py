"""Parallel pipelines, bulk deletion, verification: C23, C26, C27."""
import io

from symx.registry import harness, claim, describe
from symx import core, strio, vfs
from symx.core import And, Or, Not, Implies, Iff, Ite, Eq
from checks._cachesim import DelayPolicy, Fault, HashLib, all_faults, vals, mkbytes
from checks._fsenv import open_db, db_add

PROPERTIES = ['C23', 'C26', 'C27']
SCHED_ERR = (strio.Deadlock, strio.StepLimit)


def run(E, main, delays, steps=4000):
    """Run under a solver-chosen schedule; returns (outcome, exception)."""
    sched = strio.Scheduler(DelayPolicy(E, delays), max_steps=steps)
    try:
        sched.run(main())
        return 'ok', None
    except Fault as e:
        return 'fault', e
    except strio.Deadlock:
        return 'deadlock', None
    except strio.StepLimit:
        return 'steps', None
    except ExceptionGroup as e:
        return ('fault' if all_faults(e) else 'error'), e
    except (core.PathAbort, core.Inconclusive):
        raise
    except Exception as e:
        return 'error', e


# --------------------------------------------------------------------------------------------------
# C26: the pipeline itself

@harness
def pipeline(E, cfg):
    from s3ql.common import ParallelPipeline
    n = E.nd('items', cfg['items'] + 1)
    workers = 1 + E.nd('workers', cfg['workers'])
    buf = E.nd('buffer', cfg['buffer'] + 1)
    kind = cfg['kind']
    where = E.nd('faulty', n + 1) if cfg['fault'] else n     # n = nobody
    taken, done, log = [], [], []
    final = []

    class P(ParallelPipeline):
        async def produce(self):
            if cfg['fault'] == 'setup' and where < n:
                raise Fault()
            if kind == 'list':
                return list(range(n))
            if kind == 'gen':
                return self.gen()
            return self.agen()

        def gen(self):
            for i in range(n):
                if cfg['fault'] == 'produce' and i == where:
                    raise Fault()
                yield i

        async def agen(self):
            for i in range(n):
                await strio.io_point()
                if cfg['fault'] == 'produce' and i == where:
                    raise Fault()
                yield i

        async def consume(self, jobs):
            async for i in jobs:
                taken.append(i)
                await strio.io_point()
                if cfg['fault'] == 'consume' and i == where:
                    raise Fault()
                await strio.checkpoint()
                done.append(i)

        def finalize(self):
            final.append(sorted(done))

    async def main():
        await P().run(workers, buf)
    out, exc = run(E, main, cfg['delays'])
    E.witness(out)
    E.observe('taken', taken)
    faulty = where < n
    if kind == 'list' and cfg['fault'] == 'produce':
        faulty = False
    E.check(out == ('fault' if faulty else 'ok'), 'succeeds or reports the failure', lambda: '%s %r' % (out, exc))
    E.check(len(set(taken)) == len(taken), 'no item is handled twice', lambda: str(taken))
    if out == 'ok':
        E.check(sorted(done) == list(range(n)), 'every item was handled', lambda: str(done))
        E.check(final == [list(range(n))], 'completion only after the last item', lambda: str(final))
    else:
        E.check(final == [], 'no completion after a failure')


_PQ = [dict(kind=k, fault=f, items=3, workers=3, buffer=1, delays=2)
       for k in ('list', 'gen', 'agen') for f in (None, 'consume', 'produce')
       if not (k == 'list' and f == 'produce')] + [dict(kind='list', fault='setup', items=1, workers=1, buffer=0, delays=1)]
claim('C26', pipeline, quick=_PQ, thorough=[dict(c, items=4, delays=3, buffer=2) for c in _PQ[:-1]])


# --------------------------------------------------------------------------------------------------
# C23: deletion of many objects

class DelBackend:
    """Storage service holding a set of keys."""

    def __init__(self, E, have, conns, faults):
        self.E, self.have, self.max_connections, self.faults = E, set(have), conns, faults
        self.gone = []

    async def delete(self, key):
        await strio.io_point()
        if self.faults and self.E.nd('fault', 2):
            self.faults -= 1
            raise Fault(key)
        self.gone.append(key)
        self.have.discard(key)
        if self.faults and self.E.nd('late', 2):
            await strio.checkpoint()

    max_threads = 0


def judge_delete(E, cfg, out, exc, keys, asked, gone, have0, have, faulty):
    E.check(out == ('fault' if faulty else 'ok'), 'succeeds or reports the failure', lambda: '%s %r' % (out, exc))
    E.check(set(gone) <= set(asked), 'nothing else is deleted', lambda: str(gone))
    E.check(set(have0) - set(asked) <= set(have), 'nothing else is deleted', lambda: str(have))
    E.check(sorted(keys) == sorted(k for k in asked if k not in gone), 'remaining keys are those not deleted',
            lambda: 'deleted %s, remaining %s' % (gone, keys))


@harness
def delete_parallel(E, cfg):
    """AsyncBackend.delete_multi on top of single deletions (also used through the compression layer and by swift)."""
    from s3ql.backends import common, comprenc
    n = E.nd('n', cfg['n'] + 1)
    asked = ['k%d' % i for i in range(n)]
    have = [k for k in asked if E.nd('exists', 2)] + ['other']
    b = DelBackend(E, have, cfg['conns'], cfg['faults'])
    keys = list(asked)
    had = b.faults

    if cfg['via'] == 'comprenc':
        top = object.__new__(comprenc.AsyncComprencBackend)
        top.backend = b
        b.delete_multi = lambda ks, log_progress=False: common.AsyncBackend.delete_multi(b, ks, log_progress=log_progress)
    else:
        top = None

    async def main():
        if top is not None:
            await top.delete_multi(keys, log_progress=True)
        else:
            await common.AsyncBackend.delete_multi(b, keys, log_progress=cfg['via'] == 'log')
    out, exc = run(E, main, cfg['delays'])
    E.witness(out)
    E.observe('keys', keys)
    judge_delete(E, cfg, out, exc, keys, asked, b.gone, have, b.have, b.faults < had)


_DQ = [dict(n=3, conns=c, faults=f, via=v, delays=2 - (c > 1) * f) for c in (1, 2, 3) for f in (0, 1)
       for v in ('plain', 'log')] + [
    dict(n=2, conns=2, faults=1, via='comprenc', delays=1)]
claim('C23', delete_parallel, quick=_DQ, thorough=[dict(c, n=4, delays=3, faults=2) for c in _DQ if c['faults']])


# --------------------------------------------------------------------------------------------------
# C23: local directory, S3 and Swift bulk requests

@harness
def delete_local(E, cfg):
    from s3ql.backends import local
    n = E.nd('n', cfg['n'] + 1)
    asked = ['s3ql_data_%d' % i for i in range(n)]
    have0 = [k for k in asked if E.nd('exists', 2)] + ['s3ql_data_77', 'other']
    have, gone = set(have0), []
    faults = [cfg['faults']]
    b = object.__new__(local.AsyncBackend)
    b.prefix = '/store'
    b._io_limiter = strio.CapacityLimiter(1)
    paths = {}
    for k in asked + have0:
        paths[b._key_to_path(k)] = k

    class FakeOs:
        path = local.os.path

        @staticmethod
        def unlink(p):
            k = paths[p]
            if faults[0] and E.nd('fault', 2):
                faults[0] -= 1
                raise Fault(k)
            gone.append(k)
            if k not in have:
                raise FileNotFoundError(p)
            have.discard(k)
    vfs.set_attr(E, local, 'os', FakeOs)
    keys = list(asked)

    async def main():
        await b.delete_multi(keys, log_progress=bool(cfg.get('log')))
    out, exc = run(E, main, 1)
    E.witness(out)
    E.observe('keys', keys)
    judge_delete(E, cfg, out, exc, keys, asked, gone, have0, have, faults[0] < cfg['faults'])


claim('C23', delete_local, quick=[dict(n=4, faults=f, log=l) for f in (0, 1) for l in (0, 1)])


class DbKey:
    pass


# --------------------------------------------------------------------------------------------------
# C27: verification

class VerifyBackend:
    max_threads = 0

    def __init__(self, E, conns):
        self.E, self.max_connections = E, conns
        self.state = {}         # key -> (status, bytes)
        self.seen = []

    async def lookup(self, key):
        from s3ql.backends.common import NoSuchObject, CorruptedObjectError
        self.seen.append(key)
        await strio.io_point()
        st, _ = self.state[key]
        if st == 'missing':
            raise NoSuchObject(key)
        if st == 'corrupt':
            raise CorruptedObjectError(key)
        return {}

    async def readinto_fh(self, key, fh, size_hint=None, **kw):
        from s3ql.backends.common import NoSuchObject, CorruptedObjectError
        self.seen.append(key)
        await strio.io_point()
        st, d = self.state[key]
        if st == 'missing':
            raise NoSuchObject(key)
        n = len(vals(d))
        fh.write(mkbytes(self.E, vals(d)[:n // 2]))
        await strio.io_point()
        fh.write(mkbytes(self.E, vals(d)[n // 2:]))
        if st == 'corrupt':
            raise CorruptedObjectError(key)
        return {}


class Lines:
    """Text file that is only printed to."""

    def __init__(self):
        self.s = ''

    def write(self, s):
        self.s += s

    def flush(self):
        pass

    def tell(self):
        return len(self.s)

    def keys(self):
        return self.s.split('\n')[:-1] if self.s.endswith('\n') or not self.s else ['?' + self.s]


@harness
def verify_objects(E, cfg):
    from s3ql import verify, common
    import hashlib
    n = cfg['n']
    full = cfg['full']
    db = open_db(E)
    if E.mode == 'replay':
        E.cleanups.append(db.close)
    b = VerifyBackend(E, cfg['conns'])
    if E.mode == 'sym':
        vfs.set_attr(E, common, 'hashlib', HashLib)

        class FakeIo:
            BytesIO = vfs.SymBytesIO
        vfs.set_attr(E, verify, 'io', FakeIo)

    def sha(v):
        if E.mode == 'sym':
            return HashLib.sha256(mkbytes(E, v)).digest()
        return hashlib.sha256(bytes(v)).digest()
    expect = {}
    order = []
    nb = [0]

    def byte():
        nb[0] += 1
        return E.int('byte%d' % nb[0], 0, 255)
    def pick(name, opts):
        return opts[E.nd(name, len(opts))]
    recs = []
    ids = [2 + 3 * i for i in range(n)]
    for i in ids:
        key = 's3ql_data_%d' % i
        rec = [byte() for _ in range(pick('len', cfg['lens']))]
        for r in recs:
            E.assume(Not(And([len(r) == len(rec)] + [Eq(x, y) for x, y in zip(r, rec)])))
        recs.append(rec)
        st = ('data', 'missing', 'corrupt')[E.nd('status', 3)]
        if st == 'data':
            d = [byte() for _ in range(pick('dlen', cfg['dlens']))]
        else:
            d = [byte(), byte()]
        size = E.int('size%d' % i, -1, 3)
        db_add(E, db, 'objects', True, id=i, hash=sha(rec), refcount=1, phys_size=size, length=len(rec))
        b.state[key] = (st, mkbytes(E, d))
        bad = Or(len(d) != len(rec), Not(And([Eq(x, y) for x, y in zip(d, rec)])))
        expect[key] = (st == 'missing', Or(st == 'corrupt', And(st == 'data', full, bad)))
        order.append(key)
    offset = E.int('offset', 0, n + 1)
    missing, corrupted = Lines(), Lines()

    async def main():
        await verify.retrieve_objects(db, b, corrupted, missing, worker_count=cfg['conns'], full=full, offset=offset)
    out, exc = run(E, main, cfg['delays'])
    E.witness(out)
    E.check(out == 'ok', 'verification finishes', lambda: '%s %r' % (out, exc))
    if out != 'ok':
        return
    m, c = missing.keys(), corrupted.keys()
    E.observe('missing', sorted(m))
    E.observe('corrupted', sorted(c))
    E.check(set(m) | set(c) <= set(order) and len(set(m)) == len(m) and len(set(c)) == len(c), 'reports name objects, once each',
            lambda: '%s %s' % (m, c))
    E.check(len(set(b.seen)) == len(b.seen), 'no object is examined twice', lambda: str(b.seen))
    for k, key in enumerate(order):
        sel = Not(offset > k) if not isinstance(offset, int) else offset <= k
        E.check(Iff(key in b.seen, sel), 'every selected object is examined', lambda: key)
        E.check(Iff(key in m, And(sel, expect[key][0])), 'reported as missing exactly if missing', lambda: key)
        E.check(Iff(key in c, And(sel, expect[key][1], Not(expect[key][0]))), 'reported as corrupted exactly if corrupted',
                lambda: key)


_VQ = [dict(n=2, conns=1, full=f, delays=0, lens=[0, 1, 2], dlens=[0, 1, 2]) for f in (False, True)] + [
    dict(n=2, conns=2, full=f, delays=1, lens=[1], dlens=[1, 2]) for f in (False, True)]
claim('C27', verify_objects, quick=_VQ, thorough=[dict(c, n=3, delays=2) for c in _VQ])

describe('C26', bounds=['up to 3 items (thorough 4), up to 3 workers, channel buffer 0-1 (2); items from a list, a generator or an '
                        'asynchronous generator', 'one failure, at any item, in the producer or a worker',
                        'schedules: all with at most 2 (3) deviations from run-to-block order'],
         assumptions=['work on an item may be suspended any time; a worker handles items one after the other'])
describe('C23', bounds=['up to 4 keys, each existing or not, one failing request at any point (thorough 2), 1-3 connections',
                        'schedules with at most 2 (3) deviations from run-to-block order'])
describe('C27', bounds=['2 objects (thorough 3) of 0-2 symbolic bytes, each present with arbitrary 0-2 bytes, missing or unreadable; '
                        'symbolic start offset and recorded sizes; 1-2 workers'],
         assumptions=['SHA-256 is injective', 'every recorded object has a checksum (otherwise the tool refuses and asks for fsck)'])
