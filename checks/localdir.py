"""Local directory storage: keys, listings, atomic replacement (C20)."""
import os
import shutil

from symx.registry import harness, claim, describe
from symx import core, vfs, strio, text, namefs
from symx.core import And, Or, Not, Eq, Implies
from checks._fsenv import tmpdir

PROPERTIES = ['C20']


def chars(E, name, n, alpha):
    """n characters out of a few interesting ones and any other printable one"""
    cs = []
    for k in range(n):
        c = E.int('%s%d' % (name, k), 33, 126)
        E.assume(And(c != ord('.'), c != ord('~')))
        cs.append(c)
    return text.SymChars.make(cs) if E.mode == 'sym' else ''.join(map(chr, cs))


class Store:
    def __init__(self, E, hook=None):
        from s3ql.backends import local as L
        self.E = E
        text.reset()
        if E.mode == 'sym':
            self.fs = namefs.NameFS('/store', hook)
            vfs.set_attr(E, L, 'os', namefs.Os(self.fs))
            vfs.set_attr(E, L, 'open', self.fs.open)
            root = '/store'
        else:
            root = os.path.join(tmpdir(), 'store')
            os.mkdir(root)
        self.root = root
        self.b = L.AsyncBackend(storage_url='local://' + root, backend_options={}, max_connections=10) \
            if not hasattr(L.AsyncBackend, 'create') else \
            strio.run(lambda: L.AsyncBackend.create(storage_url='local://' + root, backend_options={}, max_connections=10))

    def io(self, data=b''):
        import io
        return vfs.SymBytesIO(data) if self.E.mode == 'sym' else io.BytesIO(data)

    async def put(self, k, data, meta=None):
        return await self.b.write_fh(k, self.io(data), metadata=meta)

    async def get(self, k):
        """(metadata, data) or None"""
        from s3ql.backends.common import NoSuchObject
        o = self.io()
        try:
            m = await self.b.readinto_fh(k, o)
        except NoSuchObject:
            return None
        return m, o.getvalue()

    async def list(self, p):
        return [text.norm(x) async for x in self.b.list(p)]


def starts(k, p):
    return text.method(k, 'startswith', p)


def key(E, cfg, i):
    n = cfg['len'][i] if isinstance(cfg['len'], list) else cfg['len']
    return cfg['base'][i] + chars(E, 'k%d_' % i, n, '')


@harness
def keys(E, cfg):
    """Two arbitrary keys; then what is read, found, listed (with any prefix) and left after a deletion."""
    from s3ql.backends.common import NoSuchObject
    S = Store(E)
    k = [key(E, cfg, i) for i in (0, 1)]
    data = [b'one', b'two!']
    metas = [{'a': 1}, {'b': b'x'}]
    same = k[0] == k[1]
    out = []

    async def main():
        for i in (0, 1):
            await S.put(k[i], data[i], metas[i])
        g = await S.get(k[0]), await S.get(k[1])
        if cfg['what'] == 'names':
            E.check(g[1] == (metas[1], data[1]), 'an object is read back as stored')
            if same:
                E.check(g[0] == (metas[1], data[1]), 'an object stored again is replaced')
            else:
                E.check(g[0] == (metas[0], data[0]), 'different keys belong to different objects')
            E.check((await S.b.lookup(k[1])) == metas[1], 'metadata is read back as stored')
            E.check(bool(await S.b.contains(k[0])) and bool(await S.b.contains(k[1])), 'stored objects are found')
            x = key(E, dict(cfg, base=[cfg['base'][0]] * 3, len=[cfg['len'][0]] * 3), 2)
            there = bool(Or(x == k[0], x == k[1]))
            E.check(bool(await S.b.contains(x)) == there, 'exactly the stored keys are found')
            await S.b.delete(x)
            for i in (0, 1):
                r = await S.get(k[i])
                if x == k[i]:
                    E.check(r is None, 'deleted objects are gone')
                else:
                    E.check(r is not None, 'only the object to be deleted is deleted')
            try:
                await S.b.lookup(x)
                E.check(False, 'deleted objects are gone')
            except NoSuchObject:
                pass
            got = await S.list('')
            left = [y for i, y in enumerate(k) if not (y == x) and not (i == 0 and same)]
            E.check(len(got) == len(left), 'the listing is complete')
            for y in left:
                E.check(Or([y == z for z in got]), 'the listing contains every key')
            return
        p = cfg['pbase'] + chars(E, 'p', cfg['plen'], '')
        got = await S.list(p)
        want = [y for i, y in enumerate(k) if starts(y, p) and not (i == 0 and same)]
        E.check(len(got) == len(want), 'a listing has exactly the keys with the prefix, each once')
        for y in want:
            E.check(Or([y == z for z in got]), 'a listing contains every key with the prefix, unchanged')
    strio.run(main)


class Died(BaseException):
    pass


@harness
def store(E, cfg):
    """A process dies while it writes an object, or several tasks write and read the same object."""
    from s3ql.backends.common import NoSuchObject
    import s3ql.common as C
    import s3ql.backends.local as L
    E.zeros_hook = vfs.zeros
    k = cfg.get('key', 's3ql_data_12345')
    B = cfg.get('bufsize', 8)
    vfs.set_attr(E, C, 'BUFSIZE', B)
    left = [None]

    def hook(kind, name):
        if left[0] is not None:
            left[0] -= 1
            if left[0] < 0:
                raise Died()
    S = Store(E, hook)
    d = []
    for i in range(cfg.get('n', 2)):
        n = E.int('len%d' % i, 0, 2 * B)
        d.append(vfs.data(E, i, n))
    meta = [{'w': i} for i in range(len(d))]
    x = E.int('x', 0, 2 * B)

    def is_(r, i):
        """Is r exactly version i?"""
        m, got = r
        if m != meta[i]:
            return False
        a, b = vfs.SymBytes.of(got), vfs.SymBytes.of(d[i])
        return And(Eq(a.length, b.length), Implies(x < b.length, Eq(a.at(x), b.at(x)))) if E.mode == 'sym' \
            else got == d[i]

    async def names():
        return sorted(map(str, await S.list('')))
    if cfg['what'] == 'crash':
        old = E.flag('old')
        if old:
            strio.run(S.put, k, d[0], meta[0])
        n = E.nd('die', cfg.get('points', 12))
        if E.mode == 'replay':
            from unittest import mock
            # die before the n-th change of the directory
            cnt = [n]

            def wrap(f):
                def g(*a, **kw):
                    hook('x', '')
                    return f(*a, **kw)
                return g

            class Fh:
                def __init__(self, fh):
                    self.fh = fh

                def write(self, b):
                    hook('write', '')
                    return self.fh.write(b)

                def __getattr__(self, m):
                    return getattr(self.fh, m)

                def __enter__(self):
                    return self

                def __exit__(self, *a):
                    self.fh.close()

            def op(p, mode='r', *a, **kw):
                if 'w' in mode or 'x' in mode:
                    hook('create', p)
                    return Fh(open(p, mode, *a, **kw))
                return open(p, mode, *a, **kw)
            vfs.set_attr(E, L, 'open', op)
            o = type('O', (), {})()
            for m in dir(os):
                setattr(o, m, getattr(os, m))
            o.rename, o.replace, o.unlink = wrap(os.rename), wrap(os.replace), wrap(os.unlink)
            vfs.set_attr(E, L, 'os', o)
        left[0] = n
        done = False
        try:
            strio.run(S.put, k, d[1], meta[1])
            done = True
        except Died:
            pass
        left[0] = None
        r = strio.run(S.get, k)
        if done:
            E.check(r is not None and is_(r, 1), 'a stored object is read back')
        elif old:
            E.check(r is not None and Or(is_(r, 0), is_(r, 1)), 'an interrupted store leaves the old or the new object')
        else:
            E.check(r is None or is_(r, 1), 'an interrupted store leaves nothing or the new object')
        ls = strio.run(names)
        E.check(ls == ([k] if r is not None else []), 'temporary files are not listed')
        E.check(bool(strio.run(S.b.contains, k)) == (r is not None), 'temporary files are not found')
        # the object can be stored afterwards
        strio.run(S.put, k, d[1], meta[1])
        r = strio.run(S.get, k)
        E.check(r is not None and is_(r, 1), 'an object can be stored after a crash')
        return
    # concurrent tasks
    from checks._cachesim import DelayPolicy
    from checks.parallel import run
    seen = []
    oks = []
    old = E.flag('old')
    if old:
        strio.run(S.put, k, d[0], meta[0])

    async def main():
        async def write(i):
            await S.put(k, d[i], meta[i])
            oks.append(i)

        async def read():
            seen.append(await S.get(k))
            seen.append(('list', await S.list('s3ql_data_')))
        async with strio.open_nursery() as nu:
            for i in range(1, len(d)):
                nu.start_soon(write, i)
            nu.start_soon(read)
        seen.append(await S.get(k))
    what, exc = run(E, main, cfg.get('delays', 2), cfg.get('steps', 400))
    if what != 'ok':
        E.check(False, 'concurrent stores succeed: %s %s' % (what, type(exc).__name__))
        return
    for r in seen:
        if r is None:
            E.check(not old, 'a stored object does not disappear')
        elif r[0] == 'list':
            E.check(all(y == k for y in r[1]) and len(r[1]) <= 1, 'only complete objects are listed')
        else:
            E.check(Or([is_(r, i) for i in range(len(d)) if i or old]), 'an object is seen completely in one version')
    E.check(seen[-1] is not None and Or([is_(seen[-1], i) for i in range(1, len(d))]),
            'after storing, one of the new versions is there')
    E.check(len(oks) == len(d) - 1, 'concurrent stores succeed')


@harness
def damage(E, cfg):
    """The file of an object is cut off or its header damaged."""
    from s3ql.backends.common import NoSuchObject, CorruptedObjectError
    S = Store(E)
    strio.run(S.put, 's3ql_x', b'data', {'a': 1})
    if E.mode == 'sym':
        node = S.fs.find('/store/s3ql_x')[2]
        whole = node.data
    else:
        fn = os.path.join(S.root, 's3ql_x')
        whole = open(fn, 'rb').read()
    whole = bytes(whole)
    n = len(whole) - 4              # header and metadata
    cut = E.nd('cut', n + 1)
    new = whole[:cut]
    if E.mode == 'sym':
        node.data = new
    else:
        with open(fn, 'wb') as fh:
            fh.write(new)
    for f in (S.b.lookup, None):
        try:
            if f is None:
                r = strio.run(S.get, 's3ql_x')[0]
            else:
                r = strio.run(f, 's3ql_x')
        except CorruptedObjectError:
            E.check(cut < n, 'complete metadata is accepted')
            continue
        except Exception as e:
            E.check(False, 'damaged objects are reported as corrupted: %s' % type(e).__name__)
            return
        E.check(cut == n and r == {'a': 1}, 'incomplete metadata is not accepted')


D = 's3ql_data_'
claim('C20', 'keys',
      quick=[dict(what='names', base=['s3ql_', 's3ql_'], len=[2, 1]),
             dict(what='list', base=['s3ql_', 's3ql_metadata'], len=[3, 0], pbase='s3ql_', plen=0),
             dict(what='list', base=['s3ql_', D], len=[1, 1], pbase='', plen=1), dict(what='names', base=[D, D], len=[2, 1]),
             dict(what='names', base=['s3ql_', D], len=[2, 1]),
             dict(what='names', base=[D + '12', D + '12'], len=[1, 2]),
             dict(what='list', base=[D, D + '12'], len=[2, 1], pbase=D, plen=2),
             dict(what='list', base=[D + '12', D + '12'], len=[2, 1], pbase=D + '1', plen=1),
             dict(what='list', base=[D + '12345', D + '12'], len=[2, 1], pbase=D + '1234', plen=1),
             dict(what='list', base=['s3ql_', D], len=[2, 2], pbase='s3ql_', plen=1),
             dict(what='list', base=['s3ql_metadata', D], len=[2, 2], pbase='s3ql_', plen=0)],
      thorough=[dict(what='names', base=[b, c], len=[2, 2]) for b in ('s3ql_', D) for c in ('s3ql_', D)]
      + [dict(what='list', base=[D + a, D + b], len=[2, 2], pbase=D + q, plen=n)
         for a in ('', '123') for b in ('1', '123456') for q in ('', '123') for n in (1, 2)])
claim('C20', 'store', quick=[dict(what='crash'), dict(what='tasks', delays=2), dict(what='tasks', n=3, delays=1)],
      thorough=[dict(what='tasks', n=3, delays=3)])
claim('C20', 'damage', quick=[dict()])
describe('C20', bounds=['two stored keys plus a third one looked up or deleted, with 1-3 arbitrary characters after '
                        'fixed beginnings, and listing prefixes with up to 2 arbitrary characters',
                        'one store interrupted before each change of the directory or file; contents up to two copy buffers; two or '
                        'three concurrent tasks with up to 2 (thorough 3) delays'],
         assumptions=['keys start with s3ql_ and consist of printable characters except dot and tilde',
                      'a process dies, the machine stays up: what was written to files persists'])
