"""Remote storage (S3, Google Storage, Swift): retrying (C19), transfers (C29), listings (C21), bulk deletion (C23)."""
import io
import random

from symx.registry import harness, claim, describe
from symx import core, strio, vfs
from symx.core import And, Or, Not, Implies, Iff, Ite, Eq
from checks._cachesim import vals, mkbytes
from checks._server import make_server, make_backend, same_bytes, KINDS
from checks.parallel import run, judge_delete

PROPERTIES = ['C19', 'C21', 'C23', 'C29']
TEMP = ('drop', 'late', 'timeout', '503', '500', '429', '408')


# --------------------------------------------------------------------------------------------------
# C19: the retry wrapper

class TempError(Exception):
    pass


class FatalError(Exception):
    pass


def jitter(E):
    """Random numbers are chosen by the solver."""
    def u(a, b):
        return a + (b - a) * E.real('jitter', 0, 1)
    vfs.set_attr(E, random, 'uniform', u)
    vfs.set_attr(E, random, 'random', lambda: E.real('jitter', 0, 1))


@harness
def retry_loop(E, cfg):
    from s3ql.backends import common
    jitter(E)
    slept = []
    told = []           # what the failed attempts asked for

    async def sleep(d):
        slept.append(d)
        await strio.checkpoint()
    vfs.set_attr(E, strio, 'sleep', sleep)
    T = cfg.get('T')
    if T is None:
        T = E.real('timeout', 0, 1000)
    vfs.set_attr(E, common, 'RETRY_TIMEOUT', T)
    n_max = cfg['attempts']
    calls = []
    after = cfg.get('after', (None,))

    class B:
        def is_temp_failure(self, exc):
            return isinstance(exc, TempError)

        @common.retry
        async def op(self, a, b=2, is_retry=False):
            k = len(calls)
            calls.append((a, b, is_retry))
            if k >= n_max:
                raise core.PathAbort() if not cfg.get('force') else AssertionError('never gives up')
            await strio.checkpoint()
            what = 1 if cfg.get('force') else E.nd('outcome', 3)
            if what == 0:
                return ('result', k)
            if what == 2:
                raise FatalError()
            e = TempError()
            ra = after[E.nd('retry_after', len(after))]
            if ra == 'sym':
                ra = E.real('after', 0, 900)
            if ra is not None:
                e.retry_after = ra
            told.append(ra)
            raise e
    out = {}

    async def main():
        try:
            out['r'] = await B().op(7, b=8)
        except FatalError:
            out['e'] = 'fatal'
        except TimeoutError as e:
            out['e'] = 'timeout'
            out['cause'] = e.__cause__
    o, exc = run(E, main, 0, steps=10 ** 6)
    E.witness(out.get('e', 'ok'))
    E.check(o == 'ok', 'unexpected exception', lambda: '%s %r' % (o, exc))
    if o != 'ok':
        return
    E.check(all(c == (7, 8, i > 0) for i, c in enumerate(calls)), 'each attempt gets the same arguments', lambda: str(calls))
    E.check(len(slept) == len(calls) - 1, 'a delay before each repetition, and only there')
    if 'r' in out:
        E.check(out['r'] == ('result', len(calls) - 1), 'result is that of the successful attempt')
    elif out['e'] == 'fatal':
        E.check(len(told) == len(calls) - 1, 'other failures are reported at once')
    grow = None
    res = []
    for d, ra in zip(slept, told):
        # asked for a delay: that one, with up to half of it added
        ask = False if ra is None else Not(Eq(ra, 0))
        r = 0 if ra is None else ra
        lo, hi = Ite(ask, r, 0) - 0.001, Ite(ask, 1.5 * r, 450) + 0.001
        res.append((And(d >= lo, d <= hi), 'delay is within bounds'))
        if grow is not None:
            g, cap = grow
            # without jitter the delay doubles, up to five minutes; jitter is at most half of it
            res.append((Implies(Not(ask), Or(d * 3 + 0.001 >= g * 4, d >= 299.999)), 'delays grow'))
        grow = (d, ask)
    E.check_all(res)
    total = sum(slept)
    if out.get('e') == 'timeout':
        E.check(total >= T - 0.001, 'gives up only after failures persisted for the configured time')
        E.check(isinstance(out['cause'], TempError), 'the last failure is reported along')
    if out.get('e') == 'timeout' and set(after) == {None}:
        E.check(total <= 1.5 * (T + 300), 'gives up in time')
    if slept and set(after) == {None}:
        E.check(total <= 1.5 * (T + 300), 'gives up in time')
    E.observe('calls', len(calls))


_AFTER = dict(attempts=3, after=(None, 0, 'sym'))
claim('C19', retry_loop, quick=[dict(attempts=7), _AFTER, dict(attempts=330, T=86400, force=True)],
      thorough=[dict(attempts=12), dict(_AFTER, attempts=5)])


# --------------------------------------------------------------------------------------------------
# C19: which failures are temporary

@harness
def classify(E, cfg):
    import email.message
    import errno
    import socket
    import ssl
    from s3ql import http
    from s3ql.backends import s3c, gs, swift
    from s3ql.backends.common import NoSuchObject, AuthorizationError, AuthenticationError, CorruptedObjectError
    import httpcore
    kind = cfg['kind']
    m = dict(s3c=s3c, gs=gs, swift=swift)[kind]
    b = object.__new__(m.AsyncBackend)
    b.refresh_token = 'pw'
    h = email.message.Message()
    what = cfg['what']
    if what == 'status':
        st = E.int('status', 300, 599)
        if kind == 'gs':
            e = gs.RequestError(code=st, reason='x', message='y')
        elif kind == 'swift':
            e = swift.HTTPError(st, 'x', h)
        else:
            e = s3c.HTTPError(st, 'x', h)
        r = b.is_temp_failure(e)
        yes = Or([Eq(st, x) for x in (408, 429, 500, 502, 503, 504)])
        no = Or(And(st >= 300, st < 408), And(st > 408, st < 429), And(st > 429, st < 500))
        E.check(Implies(yes, r), 'overload, timeouts and server errors are temporary')
        E.check(Implies(no, Not(r)), 'rejected requests are not temporary')
    else:
        yes = [http.ConnectionClosed(), http.ConnectionTimedOut(), socket.timeout(), ConnectionResetError(), BrokenPipeError(),
               ConnectionRefusedError(), TimeoutError(), http.DNSUnavailable('host'), httpcore.ConnectError(), httpcore.ReadTimeout(),
               ssl.SSLEOFError(), OSError(errno.ENETUNREACH, 'x'), OSError(errno.EHOSTUNREACH, 'x')]
        no = [NoSuchObject('k'), AuthorizationError('x'), AuthenticationError('x'), CorruptedObjectError('x'), ValueError(), KeyError('x'),
              OSError(errno.ENOSPC, 'x'), OSError(errno.EACCES, 'x'), http.HostnameNotResolvable('host'), AssertionError(),
              RuntimeError()]
        if kind == 's3c':
            yes += [s3c.get_S3Error(c, 'm', None) for c in ('InternalError', 'ServiceUnavailable', 'SlowDown', 'RequestTimeout',
                                                            'Timeout', 'OperationAborted', 'BadDigest', 'IncompleteBody')]
            no += [s3c.get_S3Error(c, 'm', None) for c in ('AccessDenied', 'NoSuchKey', 'NoSuchBucket', 'InvalidAccessKeyId',
                                                           'SignatureDoesNotMatch', 'Whatever', None)]
        if kind == 'swift':
            yes += [swift.AuthenticationExpired('x'), s3c.BadDigestError('BadDigest', 'm')][:1]
        if kind == 'gs':
            yes += [gs.AccessTokenExpired()]
        k = E.choice('exception', len(yes) + len(no))
        e = (yes + no)[k]
        r = b.is_temp_failure(e)
        E.observe('class', type(e).__name__)
        if k < len(yes):
            E.check(r, 'network problems and overload are temporary', lambda: repr(e))
        else:
            E.check(Not(r), 'other failures are not temporary', lambda: repr(e))
    E.witness('checked')


claim('C19', classify, quick=[dict(kind=k, what=w) for k in ('s3c', 'gs', 'swift') for w in ('status', 'other')])


# --------------------------------------------------------------------------------------------------
# C19, C29: single transfers

META = {'num': 7, 'name': 'x'}
KEY = 's3ql_data_1'


def newfh(E, v, pos=0):
    fh = vfs.SymBytesIO(mkbytes(E, v)) if E.mode == 'sym' else io.BytesIO(bytes(v))
    fh.seek(pos)
    return fh


def fhvals(E, fh):
    return vals(fh.getvalue())


@harness
def transfer(E, cfg):
    from s3ql.backends.common import NoSuchObject
    p, kind, op = cfg['p'], cfg['kind'], cfg['op']
    server = make_server(E, kind, plan=cfg['plan'], budget=cfg['budget'])

    def byts(name, n):
        return [E.int('%s%d' % (name, i), 0, 255) for i in range(n)]
    n = E.nd('len', cfg.get('len', 3) + 1)
    payload = byts('data', n)
    full = 'pre/' + KEY
    have = op in ('get', 'lookup', 'size', 'contains', 'delete') and not E.nd('absent', 2 if p == 'C19' else 1)
    if op == 'put' and E.nd('old', 2):
        have = True
    res = {}

    async def main():
        b = await make_backend(E, server, ssl=bool(cfg.get('ssl')))
        res['b'] = b
        if have:
            budget, server.budget = server.budget, 0
            await b.write_fh(KEY, newfh(E, payload if op != 'put' else [1, 2]), META)
            server.budget = budget
        del server.log[:]
        try:
            if op == 'put':
                res['r'] = await b.write_fh(KEY, newfh(E, payload, min(1, n)), META)
            elif op == 'get':
                res['head'] = byts('head', 2)
                fh = res['fh'] = newfh(E, res['head'], 1)
                res['r'] = await b.readinto_fh(KEY, fh)
            elif op == 'lookup':
                res['r'] = await b.lookup(KEY)
            elif op == 'size':
                res['r'] = await b.get_size(KEY)
            elif op == 'contains':
                res['r'] = await b.contains(KEY)
            else:
                await b.delete(KEY)
                res['r'] = None
        except NoSuchObject:
            res['r'] = NoSuchObject
    out, exc = run(E, main, 0, steps=20000)
    if 'b' not in res:
        E.check(False, 'backend can be opened', lambda: repr(exc))
        return
    E.witness('%s after %s' % (out, server.faults))
    E.observe('log', [list(map(str, x)) for x in server.log])
    E.observe('out', out)
    fatal = '403' in server.faults
    if p == 'C19':
        E.check(out == ('error' if fatal else 'ok'), 'succeeds if and only if all failures are temporary',
                lambda: '%s %r %s' % (out, exc, server.log))
        if fatal:
            E.check(server.log[-1][2] == '403', 'other failures are reported at once', lambda: str(server.log))
    if out == 'ok':
        r = res['r']
        if op == 'put':
            o = server.objects.get(full)
            E.check(o is not None and same_bytes(vals(o.data), payload), 'what is stored is what was sent', lambda: str(server.log))
            if p == 'C19':
                E.check(r == n, 'size is reported')
        elif op == 'get':
            if not have:
                E.check(r is NoSuchObject, 'missing object is reported as such')
            else:
                h = res['head']
                E.check(same_bytes(fhvals(E, res['fh']), (h[:1] + payload + h[1 + n:])), 'output is the object, at the given position')
                E.check(r == META, 'metadata is that of the object')
        elif op == 'lookup':
            E.check(r == (META if have else NoSuchObject), 'metadata is that of the object', lambda: str(r))
        elif op == 'size':
            E.check(r == (n if have else NoSuchObject), 'size is that of the object', lambda: str(r))
        elif op == 'contains':
            E.check(r is have, 'existence is reported correctly')
        else:
            E.check(full not in server.objects, 'object is deleted')
    elif op == 'put' and p == 'C29':
        o = server.objects.get(full)
        if o is not None:
            E.check(Or(same_bytes(vals(o.data), payload), And(have, same_bytes(vals(o.data), [1, 2])), undeleted(server)),
                    'a damaged object is not left behind', lambda: str(server.log))


def undeleted(server):
    """the reply to the damaged upload or the deletion of the damaged object failed"""
    return any(x[2] is not None and x[2] != 'bad_put' for x in server.log)


OPS = ('put', 'get', 'lookup', 'size', 'contains', 'delete')
_K = ('s3c', 'gs', 'swift')
_Q19 = [dict(p='C19', kind=k, op=o, plan=['drop', 'late', '503', '403'] + (['401'] if k != 's3c' else []), budget=2, len=1) for k in _K
        for o in OPS] + [dict(p='C19', kind=k, op=o, plan=['timeout', '500', '429', '408'], budget=1, len=1) for k in _K for o in OPS] + [
    dict(p='C19', kind=k, op='get', plan=['cut0', 'cut', '403'], budget=2, len=2) for k in _K]
claim('C19', transfer, quick=_Q19, thorough=[dict(c, plan=list(TEMP) + ['403'], budget=3) for c in _Q19 if c['budget'] == 2])
_Q29 = [dict(p='C29', kind=k, op='put', plan=['bad_put', 'drop', 'late', '403'], budget=2) for k in ('s3c', 'swift')] + [
    dict(p='C29', kind='s3c', op='put', plan=['bad_put', 'baddigest', '503'], budget=2),
    dict(p='C29', kind='gs', op='put', plan=['late', 'drop', '503'], budget=2)] + [
    dict(p='C29', kind=k, op='get', plan=['flip', 'cut', 'cut0', '503'], budget=2) for k in ('s3c', 'swift')] + [
    dict(p='C29', kind='s3c', op='get', plan=['flip', 'cut'], budget=1, ssl=1),
    dict(p='C29', kind='gs', op='get', plan=['cut', 'cut0', 'drop', '503'], budget=2)]
claim('C29', transfer, quick=_Q29, thorough=[dict(c, budget=3) for c in _Q29])


# --------------------------------------------------------------------------------------------------
# C21: listings

NAMES = ['s3ql_a&b', 's3ql_data_1', 's3ql_data_2', 's3ql_x y<+%20', 's3ql_\xe9']


@harness
def listing(E, cfg):
    kind = cfg['kind']
    server = make_server(E, kind, plan=cfg.get('plan', ()), budget=cfg.get('budget', 0))
    pre = 'pre/x&y'
    if 'counts' in cfg:
        n = cfg['counts'][E.nd('count', len(cfg['counts']))]
        names = ['s3ql_data_%05d' % i for i in range(n)]
    else:
        names = [x for x in NAMES[:cfg['names']] if E.nd('exists', 2)]
    prefix = ('', 's3ql_data_', 's3ql_data_1', 'nothing')[E.nd('prefix', cfg.get('prefixes', 1))]
    for k in names:
        server.put_raw(pre + k)
    for k in ('other', 'pre/x&', 'pre/x&z', 'zzz'):
        server.put_raw(k)
    tmp = []
    if kind == 'swift' and 'counts' in cfg:
        # objects that are about to be renamed do not belong to the listing but count for the page
        from s3ql.backends import swift
        if hasattr(swift, 'TEMP_SUFFIX') and n:
            where = E.nd('temporary', 3)
            if where:
                tmp = [names.pop(-1 if where == 1 else min(n, 1000) - 1)]
                o = server.objects.pop(pre + tmp[0])
                server.objects[pre + tmp[0] + swift.TEMP_SUFFIX] = o
    server.pages = cfg.get('empty', 0)
    server.any_pages = bool(cfg.get('split'))
    server.malform = cfg.get('malform')
    got = []

    async def main():
        b = await make_backend(E, server, prefix=pre)
        async for k in b.list(prefix):
            got.append(k)
    out, exc = run(E, main, 0, steps=20000)
    want = sorted(k for k in names if k.startswith(prefix))
    E.witness('%s %s' % (out, server.faults))
    E.observe('got', [out, len(got)])
    bad = [f for f in server.faults if f == cfg.get('malform') or f == '403']
    if bad:
        # some replies are merely not as expected
        E.check(out in ('ok', 'error'), 'unexpected reply is an error', lambda: out)
    else:
        E.check(out == 'ok', 'listing succeeds', lambda: '%s %r' % (out, exc))
    if out == 'ok':
        E.check(sorted(got) == want, 'every object exactly once', lambda: 'got %s, expected %s' % (got[:9], want[:9]))
    else:
        E.check(len(set(got)) == len(got) and set(got) <= set(want), 'nothing else is listed', lambda: str(got))


_L = [dict(kind=k, names=5, prefixes=4) for k in KINDS if k in ('s3c', 's3c4', 'gs', 'swift')] + [
    dict(kind=k, names=3, prefixes=2, split=1, empty=1) for k in ('s3c', 'gs')] + [
    dict(kind='swift', counts=(0, 1, 999, 1000, 1001, 1999, 2000, 2001))] + [
    dict(kind=k, names=2, split=k != 'swift', plan=['drop', 'late', '503', 'cut0', '403'], budget=2) for k in ('s3c', 'gs', 'swift')] + [
    dict(kind='s3c', names=2, split=1, empty=1, malform=m) for m in ('notrunc', 'nomarker', 'emptymarker', 'ns', 'ctype', 'xml', 'nokey')] + [
    dict(kind='gs', names=2, split=1, malform=m) for m in ('ctype', 'json', 'noname')] + [
    dict(kind='swift', names=2, malform=m) for m in ('ctype', 'json', 'noname')]
claim('C21', listing, quick=_L, thorough=[dict(c, names=4) for c in _L if 'split' in c])
describe('C21', bounds=['up to 5 objects with names that need quoting, four prefixes; S3 and Google Storage: all ways to split 3 objects into '
                        'pages, with an empty page; Swift: 0 to 2001 objects around the page size of 1000; at most two failed requests or '
                        'one malformed reply at any point'],
         assumptions=['servers list in key order and continue after the marker (S3, Swift) or at the token (Google Storage)',
                      'a Swift server returns as many keys as asked for if there are as many'])


# --------------------------------------------------------------------------------------------------
# C23: bulk requests

CODES = dict(s3c4=(None, 'InternalError', 'AccessDenied', 'NoSuchKey'),
             swiftbulk=(None, '503 Service Unavailable', '409 Conflict', '401 Unauthorized', 'abort'))


@harness
def delete_bulk(E, cfg):
    from s3ql.backends import s3c4
    kind = cfg['kind']
    server = make_server(E, kind, plan=cfg.get('plan', ()), budget=cfg.get('budget', 0))
    if kind == 's3c4':
        vfs.set_attr(E, s3c4, 'MAX_KEYS', cfg['batch'])
    else:
        server.info = {'swift': {'max_meta_value_length': 256}, 'bulk_delete': {'max_deletes_per_request': 10 * cfg['batch'],
                                                                              'max_failed_deletes': cfg['batch']}}
    pre = 'pre/'
    n = E.nd('n', cfg['n'] + 1)
    asked = (['s3ql_a&b %2<', 's3ql_1', 's3ql_\xe9', 's3ql_2', 's3ql_3'])[:n]
    have0 = [k for k in asked if k in asked[cfg.get('absent', 1):] or E.nd('exists', 2)] + ['keep', 's3ql_']
    gone, errors = [], []
    budget = [cfg['errors']]
    codes = CODES[kind]

    def hook(full):
        """outcome of the deletion of one object"""
        assert full.startswith(pre), full
        k = full[len(pre):]
        f = None
        if budget[0] > 0:
            f = codes[E.nd('code', len(codes))]
        if f:
            budget[0] -= 1
            if f == 'NoSuchKey':
                gone.append(k)
                server.objects.pop(full, None)
            else:
                errors.append(f)
                if f.startswith('401'):
                    server.token += 1
            return f
        if full not in server.objects and kind == 's3c4' and E.nd('tells', 2):
            gone.append(k)
            return 'NoSuchKey'
        gone.append(k)
        return None
    server.hook = hook
    for k in have0:
        server.put_raw(pre + k)
    server.put_raw('s3ql_1')
    keys = list(asked)
    res = {}

    async def main():
        b = await make_backend(E, server, prefix=pre)
        res['b'] = b
        if kind == 'swiftbulk':
            E.check(b.features.has_bulk_delete, 'server supports bulk deletion')
        await b.delete_multi(keys, log_progress=bool(cfg.get('log')))
    out, exc = run(E, main, 0, steps=20000)
    if 'b' not in res:
        E.check(False, 'backend can be opened', lambda: repr(exc))
        return
    have = [k[len(pre):] for k in server.objects if k.startswith(pre)]
    E.witness('%s %s %s' % (out, errors, server.faults))
    E.observe('keys', keys)
    E.check(set(have0) - set(asked) <= set(have) and 's3ql_1' in server.objects, 'nothing else is deleted', lambda: str(have))
    left = [k for k in asked if k not in gone]
    fatal = [e for e in errors if e in ('AccessDenied', '409 Conflict')] 
    fatal += [f for f in server.faults if f == '403']
    # the server did not say what became of the keys
    unknown = 'abort' in errors or 'late' in server.faults
    if not fatal:
        E.check(out == 'ok', 'succeeds if all failures are temporary', lambda: '%s %r' % (out, exc))
    elif not unknown and len(fatal) == len(errors) + len(server.faults):
        E.check(out == 'error', 'failure is reported', lambda: out)
    E.check(not left if out == 'ok' else True, 'success only if everything was deleted', lambda: str(left))
    if unknown:
        E.check(set(left) <= set(keys) and len(set(keys)) == len(keys) and set(keys) <= set(asked), 'remaining keys include those not deleted',
                lambda: 'deleted %s, remaining %s' % (gone, keys))
    else:
        E.check(sorted(keys) == sorted(left), 'remaining keys are those not deleted', lambda: 'deleted %s, remaining %s' % (gone, keys))


_B = [dict(kind='s3c4', n=4, batch=2, errors=2, absent=3), dict(kind='s3c4', n=3, batch=2, errors=1, plan=['drop', 'late', '503', '403'], budget=1),
      dict(kind='swiftbulk', n=4, batch=2, errors=1, absent=4, log=1), dict(kind='swiftbulk', n=3, batch=3, errors=2),
      dict(kind='swiftbulk', n=3, batch=2, errors=1, plan=['drop', 'late', '503', '403', '401'], budget=1)]
claim('C23', delete_bulk, quick=_B, thorough=[dict(c, n=4, errors=2, budget=c.get('budget', 0) * 2) for c in _B])

describe('C19', bounds=['retry wrapper: up to 7 attempts with any outcomes, any timeout and any jitter (3 attempts with server-requested delays), and '
                        'one run of failures to the real limit; requests: any two failures out of lost connections before/after the request was '
                        'handled, timeouts, temporary and permanent status codes, expired credentials, truncated replies, on objects of at '
                        'most 2 arbitrary bytes'],
         assumptions=['requests reach a server model at the level of HTTPConnection', 'jitter is at most half of the delay'])
describe('C29', bounds=['objects of at most 3 arbitrary bytes, any two failures; damaged data is any data of the same length'],
         assumptions=['MD5 is injective', 'S3 over TLS and Google Storage do not use checksums for downloads: only truncation is considered there',
                      'upload checks of S3 apply without TLS, for Swift with server-side confirmation of the checksum'])
describe('C23', bounds=['bulk requests: up to 4 keys in batches of 2 or 3; up to two failed deletions or one failed request'],
         assumptions=['if a Swift server aborts, or a reply is lost, it is unknown what was deleted; keys then stay in the list'])
