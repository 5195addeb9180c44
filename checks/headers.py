"""Object metadata in HTTP headers (C22) and JSON."""
import io

from symx.registry import harness, claim, describe
from symx import core, strio, vfs, text
from symx.core import And, Or, Not, Implies, Iff, Ite, Eq
from checks._server import make_server, make_backend, KINDS
from checks.parallel import run

PROPERTIES = ['C22']
KEY = 's3ql_data_1'


def wire(E, server):
    """Header values lose surrounding white space on the way."""
    limit = server.limit

    def carry(k, v):
        if not k.lower().startswith(server.hdr):
            return v
        E.check(text.length(v) <= limit, 'header values are within the size limit')
        if not text.has_token(v):
            if any(ord(c) < 32 or ord(c) > 126 for c in v):
                E.check(False, 'header values consist of printable characters', lambda: repr(v))
            return v.strip(' \t')
        if text.edge_space(v):
            return v[1:-1]
        return v
    server.carry = carry


@harness
def roundtrip(E, cfg):
    kind = cfg['kind']
    text.install(E)
    server = make_server(E, kind)
    server.hdr = 'x-object-meta-' if kind == 'swift' else 'x-amz-meta-'
    server.limit = 255
    if kind == 'swift':
        server.limit = cfg['limits'][E.nd('limit', len(cfg['limits']))]
        server.info = {'swift': {'max_meta_value_length': server.limit}}
        server.limit = min(255, server.limit)
    wire(E, server)
    meta, size = {}, 0
    for j, what in enumerate(cfg['values']):
        name = 'k%d' % j
        if what == 'text':
            runs = [('a', E.int('a', 0, cfg['max']))]
            for c in cfg['chars']:
                runs += [(c, E.int('n', 0, cfg['max'])), ('b', E.int('b', 0, 1))]
            if E.mode == 'sym':
                v = text.text(runs)
                size = size + sum(n * (len(c) if c.isalnum() else 3 * len(c.encode())) for c, n in runs)
            else:
                v = ''.join(c * n for c, n in runs)
                size += sum(n * (len(c) if c.isalnum() else 3 * len(c.encode())) for c, n in runs)
        elif what == 'bytes':
            v = bytes(range(256))[:(0, 1, 2, 3, 120, 190, 191, 192, 256)[E.nd('bytes', 9)]]
            size += 2 * len(v)
        elif what == 'name':
            name = ('format', 'md5', '000', 'k,\': "%', '\xe9 ', '')[E.nd('name', 6)]
            v = 'x'
        else:
            v = (None, True, False, 0, -1, 2 ** 64, 1.5, 1 + 2j, '', "it's", '"', "'\"", '%41', '\\', '\n', ', }', '\u20ac')[E.nd('value', 17)]
        meta[name] = v
    res = {}

    async def main():
        b = await make_backend(E, server)
        res['b'] = b
        try:
            await b.write_fh(KEY, io.BytesIO(b'x'), meta)
        except ValueError as e:
            res['refused'] = e
            return
        res['lookup'] = await b.lookup(KEY)
        res['get'] = await b.readinto_fh(KEY, io.BytesIO())
    out, exc = run(E, main, 0, steps=20000)
    if 'b' not in res:
        E.check(False, 'backend can be opened', lambda: repr(exc))
        return
    E.witness('refused' if 'refused' in res else out)
    if 'refused' in res:
        E.check(size > 1000, 'only metadata that is too large is refused', lambda: repr(res['refused']))
        return
    E.check(out == 'ok', 'metadata can be retrieved', lambda: '%s %r' % (out, exc))
    if out != 'ok':
        return
    for how in ('lookup', 'get'):
        got = res[how]
        E.check(same(got, meta), 'metadata is retrieved as it was stored', lambda: '%s instead of %s' % (got, meta))


def same(a, b):
    return a == b and all(type(a[k]) is type(b[k]) or isinstance(b[k], str) and isinstance(a[k], str) for k in b)


_R = [dict(kind=k, values=['text', 'text'], chars=' ', max=2100) for k in ('s3c', 'gs')] + [
    dict(kind=k, values=['text'], chars=[' ', '%', '\n', '\u20ac', "'"], max=800) for k in ('s3c', 'gs')] + [
    dict(kind='swift', values=['text'], chars=' ', max=1000, limits=(25, 128, 254, 255, 256)),
    dict(kind='swift', values=['text', 'other'], chars=[' ', '%'], max=600, limits=(128, 255))] + [
    dict(kind=k, values=['bytes', 'other', 'name'], limits=(40, 255)) for k in ('s3c', 'gs', 'swift')]
claim('C22', roundtrip, quick=_R, thorough=[dict(c, max=2 * c.get('max', 0)) for c in _R if 'max' in c])


# what arrives instead of the metadata headers
ALTERED = [{'a': 'x' * 300, 'b': 7}, {'a': 1, 'b': b'\0\1\2'}, {'a': '%', 'bb': "'x'", 'c': True}]


@harness
def altered(E, cfg):
    """Missing, exchanged or altered headers."""
    from s3ql.backends.common import CorruptedObjectError
    from s3ql.backends.s3c import BadDigestError
    kind = cfg['kind']
    server = make_server(E, kind)
    hdr = 'x-object-meta-' if kind == 'swift' else 'x-amz-meta-'
    server.info = {'swift': {'max_meta_value_length': cfg['limit']}}
    meta = ALTERED[E.nd('meta', len(ALTERED))]
    res = {}

    async def main():
        b = await make_backend(E, server)
        res['b'] = b
        await b.write_fh(KEY, io.BytesIO(b'x'), meta)
        await b.write_fh('s3ql_data_2', io.BytesIO(b'x'), ALTERED[0] if meta is not ALTERED[0] else ALTERED[1])
        o = server.objects['pre/' + KEY].meta
        other = server.objects['pre/s3ql_data_2'].meta
        names = sorted(o)
        old = dict(o)
        n = len(names)
        what = cfg['what']
        if what == 'drop':
            del o[names[E.choice('i', n)]]
        elif what == 'swap':
            i, j = E.choice('i', n), E.choice('j', n)
            E.assume(i < j)
            o[names[i]], o[names[j]] = o[names[j]], o[names[i]]
        elif what == 'other':
            # some headers are those of another object
            k = 1 + E.choice('from', len(other) - 1)
            for x in sorted(other)[k:]:
                o[x] = other[x]
        elif what == 'cut':
            x = names[E.choice('i', n)]
            E.assume(len(o[x]) > 0)
            p = E.choice('keep', min(len(o[x]), 60))
            o[x] = o[x][:p]
        else:
            x = names[E.choice('i', n)]
            E.assume(len(o[x]) > 0)
            p = E.choice('position', min(len(o[x]), 40))
            c = cfg['chars'][E.choice('char', len(cfg['chars']))]
            o[x] = o[x][:p] + c + o[x][p + 1:]
        res['same'] = old == o
        how = E.nd('how', 2)
        if how:
            res['r'] = await b.lookup(KEY)
        else:
            res['r'] = await b.readinto_fh(KEY, io.BytesIO())
    vfs.set_attr(E, __import__('s3ql.backends.common').backends.common, 'RETRY_TIMEOUT', 1)
    out, exc = run(E, main, 0, steps=20000)
    if 'same' not in res:
        E.check(False, 'object can be stored', lambda: repr(exc))
        return
    E.witness('%s %s' % (out, res['same']))
    E.observe('out', out)
    if out == 'ok':
        E.check(same(res['r'], meta), 'altered metadata is never accepted', lambda: str(res['r']))
    else:
        E.check(not res['same'], 'unaltered metadata is accepted', lambda: repr(exc))
        E.check(isinstance(exc, (CorruptedObjectError, BadDigestError)) or isinstance(exc, TimeoutError) and isinstance(
            exc.__cause__, BadDigestError), 'altered metadata is reported as corruption', lambda: repr(exc))


_A = [dict(kind=k, what=w, limit=128, chars="'0,% }x\\(") for k in ('s3c', 'swift') for w in ('drop', 'swap', 'other', 'cut', 'char')]
claim('C22', altered, quick=_A, thorough=[dict(c, chars=''.join(map(chr, range(32, 127)))) for c in _A if c['what'] == 'char'])
describe('C22', bounds=['one or two texts of up to 2100 characters each of any composition a..a, special..special, b, plus bytes and elementary '
                        'values; Swift limits of 25 to 256 characters per header; alterations: any header missing, exchanged, cut off, with one '
                        'character replaced, or taken from another object'],
         assumptions=['quote() and unquote() are inverse (unless "%" is declared safe); their effect on lengths is modelled per character',
                      'white space around header values is not transported'])
