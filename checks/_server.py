"""Simulated storage servers behind the real backend classes.

The boundary is HTTPConnection/Pool: every request is answered by a server model, and what goes wrong
with which request is decided by the solver (`E.nd`)."""
import base64
import email.message
import email.policy
import hashlib
import json
import re
import ssl
import urllib.parse
from contextlib import asynccontextmanager
from xml.sax.saxutils import escape

from symx import core, strio, vfs
from checks._cachesim import vals, mkbytes

NS = 'http://s3.amazonaws.com/doc/2006-03-01/'


class Reply:
    def __init__(self, status=200, headers=None, body=b'', reason='x'):
        self.status, self.headers, self.body, self.reason = status, dict(headers or {}), body, reason
        self.cut = None         # connection breaks after that many bytes of the body


class Req:
    def __init__(self, method, path, headers, body):
        self.method, self.headers = method, dict((k.lower(), v) for k, v in (headers or {}).items())
        p, _, q = path.partition('?')
        self.path = urllib.parse.unquote(p)
        self.rawquery = q
        self.query = dict(urllib.parse.parse_qsl(q, keep_blank_values=True))
        self.body = body


class FakeConn:
    """Stands for s3ql.http.HTTPConnection."""

    def __init__(self, server, *a, **kw):
        self.server = server
        self.rest = None            # unread part of the response body
        self.cut = None
        self.head = False
        self.closed = False
        self.timeout = 20

    @property
    def is_idle(self):
        return not self.closed and self.rest is None

    async def send_request(self, method, path, headers=None, body=(), body_len=None, expect100=None):
        from s3ql import http
        if self.rest is not None:
            raise http.StateError('previous response has not been read')
        await strio.io_point()
        data = []
        for item in body:
            if isinstance(item, (bytes, bytearray)):
                data += item
            else:
                item.seek(0)
                data += vals(item.read())
        if body_len is not None:
            data = data[:body_len]
        if self.server.carry is not None:
            headers = {k: self.server.carry(k, v) for k, v in (headers or {}).items()}
        r = self.server.request(Req(method, path, headers, mkbytes(self.server.E, data)))
        await strio.io_point()
        if isinstance(r, Exception):
            self.closed = True
            raise r
        m = email.message.Message(policy=email.policy.compat32)
        for k, v in r.headers.items():
            m[k] = v
        size = len(vals(r.body))
        n = 0 if method == 'HEAD' or r.status == 204 else size
        if 'content-length' not in (k.lower() for k in r.headers):
            m['Content-Length'] = str(size)
        if n:
            self.rest, self.cut = vals(r.body), r.cut
        return http.HTTPResponse(method=method, path=path, status=r.status, reason=r.reason, headers=m, length=n)

    async def read(self):
        from s3ql import http
        if self.closed:
            raise http.ConnectionClosed()
        if self.rest is None:
            return b''
        await strio.io_point()
        if self.cut is not None and self.cut <= 0:
            self.closed = True
            raise http.ConnectionClosed()
        n = max(1, (len(self.rest) + 1) // 2)
        if self.cut is not None:
            n = min(n, self.cut)
            self.cut -= n
        buf, self.rest = self.rest[:n], self.rest[n:]
        if not buf:
            self.rest = None
            return b''
        b = mkbytes(self.server.E, buf)
        return bytearray(b) if isinstance(b, bytes) else b

    async def readall(self):
        out = []
        while True:
            b = await self.read()
            if not vals(b):
                return bytearray(mkbytes(self.server.E, out))
            out += vals(b)

    async def discard(self):
        while vals(await self.read()):
            pass

    async def readinto_fh(self, ofh, update=None):
        while True:
            b = await self.read()
            if not vals(b):
                return
            ofh.write(b)
            if update is not None:
                update(b)

    async def read_raw(self):
        return b''

    async def aclose(self):
        self.closed = True

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        await self.aclose()
        return False


class FakePool:
    def __init__(self, server):
        self.server = server

    @asynccontextmanager
    async def get(self):
        c = FakeConn(self.server)
        try:
            yield c
        finally:
            await c.aclose()

    async def aclose(self):
        pass


# MD5 as an injective function: a checksum is a name for the sequence of bytes it was computed from; names are
# equal exactly if the byte sequences are (decided by the solver)
DIGESTS = {}


class Hex(str):
    __hash__ = str.__hash__

    def __eq__(self, o):
        if not isinstance(o, str):
            return NotImplemented
        a, b = str(self), str(o)
        if a == b:
            return True
        if a not in DIGESTS or b not in DIGESTS:
            return False
        return same_bytes(DIGESTS[a], DIGESTS[b])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else core.Not(r)


def same_bytes(a, b):
    return core.And([len(a) == len(b)] + [core.Eq(x, y) for x, y in zip(a, b)])


class SymMd5:
    digest_size = 16

    def __init__(self, b=b'', **kw):
        self.v = list(vals(b))

    def update(self, b):
        self.v += vals(b)

    def hexdigest(self):
        if all(isinstance(x, int) for x in self.v):
            h = hashlib.md5(bytes(self.v)).hexdigest()
        else:
            h = hashlib.md5(repr([str(x) for x in self.v]).encode()).hexdigest()
        DIGESTS[h] = list(self.v)
        return Hex(h)

    def digest(self):
        return bytes.fromhex(str(self.hexdigest()))


class HashMod:
    """Stands for hashlib in the storage modules."""

    md5 = SymMd5

    @staticmethod
    def new(name, data=b'', **kw):
        return SymMd5(data) if name.lower() == 'md5' else hashlib.new(name, data, **kw)

    def __getattr__(self, n):
        return getattr(hashlib, n)


def md5(b):
    return str(SymMd5(b).hexdigest()) if core.cur().mode == 'sym' else hashlib.md5(b).hexdigest()


class Obj:
    def __init__(self, data, meta):
        self.data, self.meta = data, meta


class Server:
    carry = None
    """Common part: request faults. `plan` lists the kinds of faults that may happen, at most `budget` times."""
    token = 0

    def __init__(self, E, plan=(), budget=0):
        self.E, self.plan, self.budget = E, plan, budget
        self.objects = {}           # full key -> Obj
        self.faults = []
        self.log = []
        self.armed = False
        self.hook = None

    def pick_fault(self, req):
        if not self.armed or self.budget <= 0:
            return None
        kinds = [k for k in self.plan if self.applies(k, req)]
        if not kinds:
            return None
        k = self.E.nd('fault', len(kinds) + 1)
        if k == 0:
            return None
        self.budget -= 1
        self.faults.append(kinds[k - 1])
        return kinds[k - 1]

    def applies(self, k, req):
        if k in ('cut0', 'cut', 'flip'):
            return self.is_get(req)
        if k == '401':
            return req.path not in ('/v1.0', '/auth/v1.0', '/info', '/o/oauth2/token')
        if k == '403':
            return req.path != '/info'     # optional
        if k in ('bad_put', 'baddigest', 'lost_put'):
            return self.is_put(req)
        return True

    def request(self, req):
        from s3ql import http
        f = self.pick_fault(req)
        self.log.append((req.method, req.path, f))
        if f == 'drop':
            return http.ConnectionClosed()
        if f == 'timeout':
            return http.ConnectionTimedOut()
        if f in ('503', '500', '429', '408'):
            return self.error(int(f))
        if f == '403':
            return self.error(403)
        if f == '401':
            self.token += 1         # credentials have expired
        if f == 'baddigest':
            return self.error(400, 'BadDigest')
        if f == 'bad_put':
            self.damage_put = True
        r = self.handle(req)
        self.damage_put = False
        if f == 'late':
            return http.ConnectionClosed()
        if f == 'cut0':
            r.cut = 0
        if f == 'cut':
            r.cut = max(1, len(vals(r.body)) - 1)
        if f == 'flip':
            r.body = self.damaged(r.body)
        return r

    def put_raw(self, full):
        self.objects[full] = Obj(b'x', {})

    any_pages = False
    damage_put = False
    malform = None

    def pick_malform(self):
        """One malformed reply, to a request chosen by the solver."""
        if not self.armed or self.malform is None or not self.E.nd('malformed', 2):
            return None
        bad, self.malform = self.malform, None
        self.faults.append(bad)
        return bad

    def same_sum(self, a, b):
        return Hex(a) == b if self.E.mode == 'sym' else a == b

    ndam = 0

    def damaged(self, d, extra=0):
        """any bytes of the same length, or one byte instead of nothing"""
        self.ndam += 1
        return mkbytes(self.E, [self.E.int('damage%d_%d' % (self.ndam, i), 0, 255) for i in range(len(vals(d)) or extra)])

    def store(self, key, data, meta):
        if self.damage_put:
            data = self.damaged(data, 1)
        self.objects[key] = Obj(data, meta)
        return data


class S3Server(Server):
    bucket = 'bucket'

    def error(self, status, code=None):
        code = code or {503: 'ServiceUnavailable', 500: 'InternalError', 403: 'AccessDenied', 404: 'NoSuchKey',
                        408: 'RequestTimeout', 429: 'SlowDown'}[status]
        return Reply(status, {'Content-Type': 'application/xml'},
                     ('<Error><Code>%s</Code><Message>m</Message></Error>' % code).encode())

    def is_get(self, r):
        return r.method == 'GET' and r.path != '/bucket/'

    def is_put(self, r):
        return r.method == 'PUT'

    def handle(self, r):
        if not r.path.startswith('/bucket/'):
            return self.error(404, 'NoSuchBucket')
        key = r.path[len('/bucket/'):]
        if key == '':
            if r.method == 'GET':
                return self.listing(r)
            if r.method == 'POST' and r.rawquery.startswith('delete'):
                return self.bulk(r)
        if r.method == 'PUT':
            if 'content-md5' in r.headers and not self.damage_put:
                if core.Not(self.same_sum(base64.b64decode(r.headers['content-md5']).hex(), md5(r.body))):
                    return self.error(400, 'BadDigest')
            d = self.store(key, r.body, {k: v for k, v in r.headers.items() if k.startswith('x-amz-meta')})
            return Reply(200, {'ETag': '"%s"' % md5(d).upper()})
        o = self.objects.get(key)
        if r.method == 'DELETE':
            self.objects.pop(key, None)
            return Reply(204) if o else self.error(404)
        if o is None:
            return self.error(404) if r.method != 'HEAD' else Reply(404)
        h = dict(o.meta)
        h['ETag'] = '"%s"' % md5(o.data)
        if r.method == 'HEAD':
            h['Content-Length'] = str(len(vals(o.data)))
            return Reply(200, h)
        return Reply(200, h, o.data)

    def bulk(self, r):
        keys = [self.unxml(k) for k in re.findall(r'<Key>(.*?)</Key>', bytes(r.body).decode(), re.S)]
        out = []
        for k in keys:
            f = self.hook(k) if self.hook else None
            if f:
                out.append('<Error><Key>%s</Key><Code>%s</Code><Message>m</Message></Error>' % (escape(k), f))
            else:
                self.objects.pop(k, None)
                out.append('<Deleted><Key>%s</Key></Deleted>' % escape(k))
        body = '<?xml version="1.0"?><DeleteResult xmlns="%s">%s</DeleteResult>' % (NS, ''.join(out))
        return Reply(200, {'Content-Type': 'application/xml'}, body.encode())

    def unxml(self, k):
        return k.replace('&lt;', '<').replace('&gt;', '>').replace('&amp;', '&')

    def listing(self, r):
        q = r.query
        keys = sorted(k for k in self.objects if k.startswith(q.get('prefix', '')))
        if q.get('marker'):
            keys = [k for k in keys if k > q['marker']]
        n = min(len(keys), int(q.get('max-keys', 1000)))
        if self.armed and n and self.any_pages:
            least = 0 if self.pages else 1
            n = least + self.E.nd('page', n + 1 - least)
            if n == 0:
                self.pages -= 1
        part = keys[:n]
        bad = self.pick_malform()
        trunc = len(part) < len(keys)
        out = ''.join('<Contents><Key>%s</Key><Size>1</Size></Contents>' % escape(k) for k in part)
        if bad == 'nokey':
            out = out.replace('Key>', 'Kex>')
        out += '' if bad == 'notrunc' else '<IsTruncated>%s</IsTruncated>' % ('true' if trunc else 'false')
        if trunc and not part:
            # an empty page: continue after the last key that was considered
            out += {'nomarker': '', 'emptymarker': '<NextMarker/>'}.get(
                bad, '<NextMarker>%s</NextMarker>' % escape(q.get('marker') or '\x20'))
        ns = 'http://example.com/' if bad == 'ns' else NS
        body = '<?xml version="1.0"?><ListBucketResult xmlns="%s">%s</ListBucketResult>' % (ns, out)
        if bad == 'xml':
            body = body[:-9]
        return Reply(200, {'Content-Type': 'text/html' if bad == 'ctype' else 'application/xml'}, body.encode())

    pages = 0


class GSServer(Server):
    def error(self, status, code=None):
        return Reply(status, {'Content-Type': 'application/json; charset=UTF-8'},
                     json.dumps({'error': {'code': status, 'message': 'm'}}).encode())

    def is_get(self, r):
        return r.method == 'GET' and r.query.get('alt') == 'media'

    def is_put(self, r):
        return r.method == 'POST'

    pages = 0

    def handle(self, r):
        js = {'Content-Type': 'application/json; charset=UTF-8'}
        if r.path == '/o/oauth2/token':
            return Reply(200, js, json.dumps(dict(access_token='t%d' % self.token, expires_in=3600)).encode())
        if r.headers.get('authorization') != 'Bearer t%d' % self.token:
            return self.error(401)
        if r.path.startswith('/upload/storage/v1/b/bucket/o'):
            b = re.match(r'multipart/related; boundary=(.*)$', r.headers['content-type']).group(1).encode()
            v = vals(r.body)
            body = bytes(x if isinstance(x, int) else 0 for x in v)      # frame of the message
            parts = body.split(b'--' + b)
            meta = json.loads(parts[1].split(b'\n\n', 1)[1])
            start = body.index(b'\n\n', len(parts[0]) + len(parts[1]) + 2 * len(b) + 4) + 2
            tail = b'\n--' + b + b'--\n'
            assert body.endswith(tail)
            self.store(meta['name'], mkbytes(self.E, v[start:-len(tail)]), meta.get('metadata'))
            return Reply(200, js, b'{}')
        m = re.match(r'^/storage/v1/b/bucket(/o(?:/(.*))?)?$', r.path, re.S)
        if not m:
            return self.error(404)
        if m.group(1) is None:
            return Reply(200, js, b'{}')
        if m.group(2) is None:
            return self.listing(r, js)
        key = m.group(2)
        o = self.objects.get(key)
        if o is None:
            return self.error(404)
        if r.method == 'DELETE':
            del self.objects[key]
            return Reply(204)
        if r.query.get('alt') == 'media':
            return Reply(200, {'Content-Type': 'application/octet-stream'}, o.data)
        d = {'name': key, 'size': str(len(vals(o.data)))}
        if o.meta:
            d['metadata'] = o.meta
        return Reply(200, js, json.dumps(d).encode())

    def listing(self, r, js):
        q = r.query
        keys = sorted(k for k in self.objects if k.startswith(q.get('prefix', '')))
        start = int(q.get('pageToken', '0') or 0)
        rest = keys[start:]
        n = min(len(rest), int(q.get('maxResults', 1000)))
        if self.armed and n and self.any_pages:
            least = 0 if self.pages else 1
            n = least + self.E.nd('page', n + 1 - least)
            if n == 0:
                self.pages -= 1
        d = {'kind': 'storage#objects'}
        if n:
            d['items'] = [{'name': k, 'size': '1'} for k in rest[:n]]
        if n < len(rest):
            d['nextPageToken'] = str(start + n)
        body = json.dumps(d).encode()
        bad = self.pick_malform()
        if bad == 'ctype':
            return Reply(200, {'Content-Type': 'text/html'}, body)
        if bad == 'json':
            body = body[:-1]
        if bad == 'noname':
            for x in d.get('items', [])[:1]:
                del x['name']
            body = json.dumps(d).encode()
        return Reply(200, js, body)


class SwiftServer(Server):
    def error(self, status, code=None):
        return Reply(status, {'Content-Type': 'text/plain'}, b'failed')

    def is_get(self, r):
        return r.method == 'GET' and r.path.startswith('/v1/acct/bucket/') and r.path != '/v1/acct/bucket/'

    def is_put(self, r):
        return r.method == 'PUT'

    info = {}
    confirm = True

    def handle(self, r):
        if r.path in ('/v1.0', '/auth/v1.0'):
            return Reply(200, {'X-Auth-Token': 'tok%d' % self.token, 'X-Storage-Url': 'http://storage.example/v1/acct'})
        if r.path == '/info':
            return Reply(200, {'Content-Type': 'application/json'}, json.dumps(self.info).encode())
        base = '/v1/acct/bucket/'
        if not r.path.startswith(base):
            return self.error(404)
        if r.headers.get('x-auth-token') != 'tok%d' % self.token:
            return self.error(401)
        key = r.path[len(base):]
        if key == '':
            if r.method == 'GET':
                return self.listing(r)
            if r.method == 'POST' and r.rawquery.startswith('bulk-delete'):
                return self.bulk(r)
        if r.method == 'PUT':
            d = self.store(key, r.body, {k: v for k, v in r.headers.items() if k.startswith('x-object-meta')})
            return Reply(201, {'ETag': md5(d)})
        o = self.objects.get(key)
        if o is None:
            return self.error(404)
        if r.method == 'DELETE':
            del self.objects[key]
            return Reply(204)
        h = dict(o.meta)
        h['ETag'] = md5(o.data)
        if r.method == 'HEAD':
            h['Content-Length'] = str(len(vals(o.data)))
            return Reply(200, h)
        return Reply(200, h, o.data)

    def listing(self, r):
        q = r.query
        keys = sorted(k for k in self.objects if k.startswith(q.get('prefix', '')))
        if q.get('marker'):
            keys = [k for k in keys if k > q['marker']]
        keys = keys[:int(q.get('limit', 1000))]
        bad = self.pick_malform()
        if not keys and not bad and self.armed and self.E.nd('nocontent', 2):
            return Reply(204, {'Content-Type': 'text/plain'})
        body = json.dumps([{'name': k, 'bytes': 1} for k in keys])
        if bad == 'json':
            body = body[:-1]
        if bad == 'noname':
            body = json.dumps([{'bytes': 1} for k in keys] or [{}])
        return Reply(200, {'Content-Type': 'text/html' if bad == 'ctype' else 'application/json; charset=utf-8'},
                     body.encode())

    def bulk(self, r):
        from urllib.parse import unquote
        deleted, missing, errors = 0, 0, []
        status = '200 OK'
        lines = [l for l in bytes(r.body).decode().split('\n') if l]
        resp_body = ''
        if not lines:
            status, resp_body = '400 Bad Request', 'Invalid bulk delete.'
        for l in lines:
            assert l.startswith('/bucket/')
            k = unquote(l[len('/bucket/'):])
            f = self.hook(k) if self.hook else None
            if f == 'abort':
                status = '500 Internal Error'
                break
            if f:
                errors.append([l, f])
                status = '400 Bad Request'
            elif k in self.objects:
                del self.objects[k]
                deleted += 1
            else:
                missing += 1
        if missing and not deleted and not errors and status[0] == '2':
            status, resp_body = '400 Bad Request', 'Invalid bulk delete.'
        return Reply(200, {'Content-Type': 'application/json'}, json.dumps({
            'Number Not Found': missing, 'Response Status': status, 'Response Body': resp_body, 'Errors': errors,
            'Number Deleted': deleted}).encode())


class FixedRandom:
    @staticmethod
    def uniform(a, b):
        return a

    def __getattr__(self, n):
        import random
        return getattr(random, n)


def install(E, server):
    from s3ql.backends import s3c, s3c4, gs, swift, common
    for m in (s3c, gs, swift):
        vfs.set_attr(E, m, 'Pool', lambda *a, **kw: FakePool(server))
    for m in (gs, swift):
        vfs.set_attr(E, m, 'HTTPConnection', lambda *a, **kw: FakeConn(server))
    vfs.set_attr(E, common, 'random', FixedRandom())
    # reading the certificates of the system takes most of the time
    vfs.set_attr(E, ssl.SSLContext, 'set_default_verify_paths', lambda self: None)
    vfs.set_attr(E, ssl.SSLContext, 'load_default_certs', lambda self, *a: None)
    if E.mode == 'sym':
        for m in (common, s3c, s3c4, gs, swift):
            if hasattr(m, 'hashlib'):
                vfs.set_attr(E, m, 'hashlib', HashMod())


KINDS = {'s3c': S3Server, 's3c4': S3Server, 's3': S3Server, 'gs': GSServer, 'swift': SwiftServer, 'swiftbulk': SwiftServer}


def make_server(E, kind, **kw):
    s = KINDS[kind](E, **kw)
    s.kind = kind
    install(E, s)
    return s


async def make_backend(E, server, ssl=False, prefix='pre/'):
    from s3ql.backends import s3c, s3c4, gs, swift
    kind = server.kind
    opts = {} if ssl else {'no-ssl': True}
    if kind == 'gs':
        gs.AsyncBackend._tokens['pw'] = gs._Token(bearer='t0', deadline=float('inf'))
        b = await gs.AsyncBackend.create(storage_url='gs://bucket/' + prefix, backend_options={}, backend_login='oauth2',
                                         backend_password='pw', max_connections=1)
    elif kind.startswith('swift'):
        b = await swift.AsyncBackend.create(storage_url='swift://host/bucket/' + prefix, backend_options=opts,
                                            backend_login='l', backend_password='p', max_connections=1)
        if not ssl:
            b.ssl_context = None
    else:
        m = {'s3c': s3c, 's3c4': s3c4}[kind]
        b = await m.AsyncBackend.create(storage_url='%s://host/bucket/%s' % (kind, prefix), backend_options=opts,
                                        backend_login='l', backend_password='p', max_connections=1)
    server.armed = True
    return b
