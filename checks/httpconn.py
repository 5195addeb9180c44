"""The HTTP connection itself (C29): real HTTPConnection and h11 on top of a network stream."""
import io

from symx.registry import harness, claim, describe
from symx import core, strio, vfs
from symx.core import And, Or, Not, Implies, Iff, Ite, Eq
from checks._cachesim import vals
from checks.parallel import run

PROPERTIES = ['C29']


class Stream:
    """Network stream. `script` is what the server sends; where packets end, and where and how the connection
    breaks, is decided by the solver."""

    def __init__(self, E, out, cuts, end, writes=None, ready=None):
        self.E, self.out, self.cuts, self.end = E, out, list(cuts), end
        self.pos = 0
        self.sent = bytearray()
        self.writes = writes        # connection breaks at that write
        self.ready = ready
        self.nwrites = 0
        self.closed = False

    async def read(self, size, timeout=None):
        import httpcore
        await strio.io_point()
        data = self.out(self)
        while self.pos >= len(data) and not self.end_reached():
            data = self.out(self)
            if self.pos >= len(data):
                raise httpcore.ReadTimeout()        # server has nothing to say
        stop = len(data) if self.end is None else min(len(data), self.end[1])
        if self.end is not None and self.pos >= self.end[1]:
            if self.end[0] == 'eof':
                return b''
            raise {'reset': httpcore.ReadError, 'timeout': httpcore.ReadTimeout}[self.end[0]]()
        for c in sorted(self.cuts):
            if self.pos < c < stop:
                stop = c
        stop = min(stop, self.pos + size)
        b = bytes(data[self.pos:stop])
        self.pos = stop
        return b

    def end_reached(self):
        return self.end is not None and self.pos >= self.end[1]

    async def write(self, buf, timeout=None):
        import httpcore
        await strio.io_point()
        if self.writes is not None and self.nwrites >= self.writes[1]:
            raise {'reset': httpcore.WriteError, 'timeout': httpcore.WriteTimeout}[self.writes[0]]()
        self.nwrites += 1
        self.sent += buf

    async def aclose(self):
        self.closed = True


def connect(E, streams):
    from s3ql import http

    class Net:
        async def connect_tcp(self, host, port, timeout=None, **kw):
            await strio.io_point()
            return streams.pop(0)
    vfs.set_attr(E, http, 'TrioBackend', Net)
    return http.HTTPConnection('host', 80)


def resp(body, how, status='200 OK', close=False):
    h = b'HTTP/1.1 ' + status.encode() + b'\r\n'
    if close:
        h += b'Connection: close\r\n'
    if how == 'length':
        return h + b'Content-Length: %d\r\n\r\n' % len(body) + body
    if how == 'none':
        return h + b'\r\n' + body
    k = (len(body) + 1) // 2
    chunks = [c for c in (body[:k], body[k:]) if c]
    return (h + b'Transfer-Encoding: chunked\r\n\r\n' + b''.join(b'%x\r\n%s\r\n' % (len(c), c) for c in chunks) + b'0\r\n\r\n')


class Sink:
    """Output that is not an in-memory file"""

    def __init__(self):
        self.buf = io.BytesIO()

    def write(self, b):
        return self.buf.write(b)

    def getvalue(self):
        return self.buf.getvalue()


@harness
def http_read(E, cfg):
    """However the reply arrives and wherever it breaks off: all of it or an error."""
    from s3ql import http
    how = cfg['how']
    n = E.nd('len', cfg['len'] + 1)
    body = bytes(range(65, 65 + n))
    close = how == 'none' or bool(cfg.get('close'))
    data = resp(body, how, close=close)
    end = None
    kind = E.nd('ending', 4)
    hdr = data.index(b'\r\n\r\n') + 4
    if how == 'none':
        end = (('eof', 'reset', 'timeout', 'eof')[kind], len(data))
        if kind in (1, 2):
            end = (end[0], E.choice('end', len(data) + 1))
    elif kind:
        end = (('eof', 'reset', 'timeout')[kind - 1], E.choice('end', len(data)))
    cuts = [E.choice('cut', len(data) + 1) for _ in range(cfg['cuts'] if end is None or how == 'none' or cfg.get('both') else 0)]
    for a, b in zip(cuts, cuts[1:]):
        E.assume(a <= b)
    nxt = resp(b'next', 'length')
    full = data + (b'' if end or close else nxt)

    def out(s):
        # the second reply is sent in response to the second request
        return full if bytes(s.sent).count(b'\r\n\r\n') > 1 else data
    s = Stream(E, out, cuts, end)
    r = {}

    async def main():
        c = connect(E, [s])
        async with c:
            x = await c.send_request('GET', '/x')
            r['len'] = x.length
            r['status'] = x.status
            via = cfg['via']
            fh = io.BytesIO() if via == 'fh' else Sink()
            seen = []
            r['out'] = lambda: bytes(fh.getvalue()) if via in ('fh', 'sink') else b''.join(seen)
            if via in ('fh', 'sink'):
                await c.readinto_fh(fh, seen.append)
                r['seen'] = b''.join(seen)
            elif via == 'all':
                seen.append(bytes(await c.readall()))
            else:
                while True:
                    b = bytes(await c.read())
                    if not b:
                        break
                    seen.append(b)
            r['done'] = True
            if not close:
                x = await c.send_request('GET', '/y')
                r['next'] = bytes(await c.readall())
    out_, exc = run(E, main, 0)
    E.witness('%s %s' % (out_, end and end[0]))
    whole = end is None or (how == 'none' and end == ('eof', len(data)))
    E.observe('out', [out_, r.get('done')])
    if whole:
        E.check(out_ == 'ok', 'complete reply is accepted', lambda: '%s %r' % (out_, exc))
        if out_ == 'ok':
            E.check(r['out']() == body and r.get('seen', body) == body, 'data is that of the reply', lambda: str(r['out']()))
            E.check(r['status'] == 200 and r['len'] == (n if how == 'length' else None), 'length is that announced', lambda: str(r))
            if not close:
                E.check(r['next'] == b'next', 'the next reply on the connection belongs to the next request')
    else:
        E.check(out_ == 'error' and isinstance(exc, (http.ConnectionClosed, http.ConnectionTimedOut)), 'truncated reply is an error',
                lambda: '%s %r %s' % (out_, exc, data[:end[1]]))
        E.check(not r.get('done') or how == 'length' and n == 0, 'truncated reply is an error', lambda: str(r))
        if 'out' in r:
            E.check(body.startswith(r['out']()), 'data delivered is a prefix')


_H = [dict(how=h, via=v, len=2, cuts=1) for h in ('length', 'chunked') for v in ('fh', 'sink', 'all', 'read')] + [
    dict(how='none', via='fh', len=2, cuts=0), dict(how='length', via='fh', len=2, cuts=1, close=1)]
claim('C29', http_read, quick=_H, thorough=[dict(c, both=1, len=3) for c in _H] + [dict(c, cuts=2) for c in _H if c['via'] in ('fh', 'read')])


class Src:
    """Input that is not an in-memory file"""

    def __init__(self, b):
        self.b = io.BytesIO(b)

    def read(self, n=-1):
        return self.b.read(n)

    def seek(self, *a):
        return self.b.seek(*a)

    def tell(self):
        return self.b.tell()


@harness
def http_send(E, cfg):
    """What is sent is exactly the body; the answer of the server is reported."""
    from s3ql import http
    vfs.set_attr(E, http, 'BUFSIZE', 2)
    n = E.nd('len', cfg['len'] + 1)
    body = bytes(range(65, 65 + n))
    kind = cfg['body']
    k = E.nd('split', n + 1)
    parts = {'bytes': lambda: [body], 'two': lambda: [body[:k], body[k:]], 'fh': lambda: [io.BytesIO(body)],
             'src': lambda: [Src(body)], 'mixed': lambda: [body[:k], io.BytesIO(body[k:])]}[kind]()
    bl = None
    if E.nd('explicit', 2):
        bl = n
    for p in parts:
        if not isinstance(p, bytes):
            p.seek(E.nd('pos', 2))
    e100 = kind in ('fh', 'src', 'mixed')
    # what the server does: 0 takes it, 1 refuses after the headers (or early), 2 also sends other informational replies
    mode = E.nd('server', 3)
    broken = E.nd('break', cfg['writes'] + 1)
    writes = None if not broken else (('reset', 'timeout')[E.nd('how', 2)], broken - 1)
    early = bool(E.nd('early', 2)) if writes else False      # server said why before it closed the connection
    ok, no = resp(b'fine', 'length'), resp(b'refused', 'length', '400 Bad')

    def out(s):
        sent = bytes(s.sent)
        if b'\r\n\r\n' not in sent:
            return b''
        head, _, rest = sent.partition(b'\r\n\r\n')
        need = int([l for l in head.split(b'\r\n') if l.lower().startswith(b'content-length')][0].split(b':')[1])
        o = b''
        if mode == 2:
            o += b'HTTP/1.1 102 Processing\r\n\r\n'
        if mode == 1:
            return o + no
        if e100:
            o += b'HTTP/1.1 100 Continue\r\n\r\n'
        if len(rest) >= need:
            o += ok
        elif early and s.nwrites >= s.writes[1]:
            o += no
        return o
    end = None
    s = Stream(E, out, [], end, writes)
    r = {}

    async def main():
        async with connect(E, [s]) as c:
            x = await c.send_request('PUT', '/x', body=parts, body_len=bl)
            r['status'] = x.status
            r['body'] = bytes(await c.readall())
    out_, exc = run(E, main, 0)
    E.witness('%s %s' % (out_, r.get('status')))
    E.observe('r', [out_, r.get('status')])
    head, _, rest = bytes(s.sent).partition(b'\r\n\r\n')
    E.check(body.startswith(rest), 'only the body is sent', lambda: str(s.sent))
    if out_ == 'ok':
        if r['status'] == 200:
            E.check(rest == body, 'success only if everything was sent', lambda: str(s.sent))
            E.check(r['body'] == b'fine', 'the answer of the server is reported')
            E.check(b'content-length: %d' % n in head.lower(), 'length is announced')
        else:
            E.check(r['status'] == 400 and r['body'] == b'refused' and (mode == 1 or early), 'the answer of the server is reported',
                    lambda: str(r))
    else:
        E.check(out_ == 'error' and isinstance(exc, (http.ConnectionClosed, http.ConnectionTimedOut)) and writes is not None,
                'fails only if the connection breaks', lambda: '%s %r' % (out_, exc))
    if out_ == 'ok' and writes is None:
        E.check(r['status'] == (400 if mode == 1 else 200), 'the answer of the server is reported', lambda: str(r))


_S = [dict(body=b, len=5, writes=6) for b in ('bytes', 'two', 'fh', 'src', 'mixed')]
claim('C29', http_send, quick=_S, thorough=[dict(c, len=9, writes=10) for c in _S])
describe('C29', bounds=['HTTP: replies of up to 2 (thorough: 3) body bytes (Content-Length, chunked, until close) arriving in arbitrary pieces and '
                        'breaking off anywhere; requests of up to 5 bytes in 2-byte blocks, connection breaking at any write'],
         assumptions=['h11 runs as it is; the network stream is modelled at the level of read and write calls'])
