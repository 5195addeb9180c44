"""Compression and encryption layer (C18), with idealised primitives."""
import builtins
import hashlib
import io
import os
import struct
import tempfile

from symx.registry import harness, claim, describe
from symx import core, strio, vfs
from symx.core import And, Or, Not, Implies, Iff, Ite, Eq

PROPERTIES = ['C18']
KEY, KEY2 = 's3ql_data_1', 's3ql_data_23'
S = 2 ** 64                     # plain codes are below this
HDR, FRAME, END, FROZEN, MAC = 2 ** 55, 2 ** 56, 2 ** 57, 2 ** 58, 2 ** 59
_isinstance = builtins.isinstance


class Rope(vfs.SymBytes):
    """Byte string in pieces (length, function from index); slices decide between which pieces they cut."""

    def __init__(self, parts):
        self.parts = [(n, at) for n, at in parts if not (plainint(n) and n == 0)]
        length = 0
        for n, _ in self.parts:
            length = length + n
        super().__init__(length, self.find)

    def find(self, i):
        off = 0
        opts = []
        for n, at in self.parts:
            if plainint(i) and plainint(off) and plainint(n):
                if off <= i < off + n:
                    return at(i - off)
            else:
                opts.append((off, n, at))
            off = off + n
        if not opts:
            return 0
        r = opts[-1][2](i - opts[-1][0])
        for off, n, at in reversed(opts[:-1]):
            r = Ite(i < off + n, at(i - off), r)
        return r

    def split(self, x):
        left, right, off = [], [], 0
        for n, at in self.parts:
            d = x - off
            if right or bool(d <= 0):
                right.append((n, at))
            elif bool(d >= n):
                left.append((n, at))
            else:
                left.append((d, at))
                right.append((n - d, lambda i, at=at, d=d: at(i + d)))
            off = off + n
        return Rope(left), Rope(right)

    def __getitem__(self, s):
        if not _isinstance(s, slice):
            return self.find(s)
        r, a = self, 0
        if s.stop is not None:
            if bool(s.stop < 0):
                raise core.Inconclusive('negative index')
            r = r.split(s.stop)[0]
        if s.start is not None:
            if bool(s.start < 0):
                raise core.Inconclusive('negative index')
            r = r.split(s.start)[1]
        return r

    def __add__(self, o):
        if not _isinstance(o, (bytes, bytearray, vfs.SymBytes, memoryview)):
            return NotImplemented
        return Rope(self.parts + codes(o).parts)

    def __radd__(self, o):
        return Rope(codes(o).parts + self.parts)

    def map(self, f):
        """f(position, value) applied to every byte"""
        parts, off = [], 0
        for n, at in self.parts:
            parts.append((n, lambda i, at=at, off=off: f(off + i, at(i))))
            off = off + n
        return Rope(parts)


def plainint(x):
    return _isinstance(x, int)


def codes(b):
    if _isinstance(b, Rope):
        return b
    b = vfs.SymBytes.of(b)
    return Rope([(b.length, b._at)])


def Rope1(n, at):
    return Rope([(n, at)])


def put(old, pos, new):
    old, new = codes(old), codes(new)
    if not bool(new.length > 0):
        return old
    if bool(pos > old.length):
        old = old + Rope([(pos - old.length, lambda i: 0)])
    return old.split(pos)[0] + new + old.split(pos + new.length)[1]


class Buffer(vfs.SymBytesIO):
    def write(self, b):
        self.data = put(self.data, self._pos, b)
        n = core.symlen(b)
        self._pos = self._pos + n
        return n

    def read(self, n=None):
        d = codes(self.data)
        r = d[self._pos:] if n is None else d[self._pos:self._pos + n]
        self._pos = self._pos + r.length
        return r


def same(a, b):
    """Equality of byte strings, at least one of them of concrete length."""
    a, b = codes(a), codes(b)
    n = a.length if isinstance(a.length, int) else b.length
    if not isinstance(n, int):
        # used where they are expected to be the same: any difference that is possible is explored,
        # and what remains agrees at an arbitrary index
        j = core.cur().int('index', 0, 2 ** 40)
        return Not(bool(Or(Not(Eq(a.length, b.length)), And(j < a.length, Not(Eq(a.at(j), b.at(j)))))))
    if isinstance(a.length, int) and isinstance(b.length, int) and a.length != b.length:
        return False
    return And(Eq(a.length, b.length), [Eq(a.at(i), b.at(i)) for i in range(n)])


class Ideal:
    """The primitives: a cipher whose key stream is independent of everything else, a MAC nobody can forge."""

    def __init__(self, E):
        self.E = E
        self.keys = {}
        self.macs = []              # (key, message, tag) made by honest writers
        self.frozen = []
        self.writing = True
        self.small = None

    def kid(self, key):
        return self.keys.setdefault(bytes(key), len(self.keys) + 1)

    def base(self, key, pos):
        return S * (1 + pos + 2 ** 40 * self.kid(key))

    # -- cryptography
    def ciphers(self):
        ideal = self

        class AES:
            def __init__(self, key):
                self.key = bytes(key)

        class CTR:
            def __init__(self, nonce):
                self.nonce = bytes(nonce)

        class Ctx:
            def __init__(self, key, sign):
                self.key, self.sign, self.pos = key, sign, 0

            def update(self, data):
                d, p = codes(data), self.pos
                self.pos = p + d.length
                if self.sign > 0:
                    return d.map(lambda i, c: c + ideal.base(self.key, p + i))

                def plain(i, c):
                    v = c - ideal.base(self.key, p + i)
                    return Ite(And(v >= 0, v < S), v, ideal.garbage())
                return d.map(plain)

            def finalize(self):
                return b''

        class Cipher:
            def __init__(self, algorithm, mode, backend=None):
                self.key = algorithm.key + mode.nonce

            def encryptor(self):
                return Ctx(self.key, 1)

            def decryptor(self):
                return Ctx(self.key, -1)

        class ns:
            class algorithms:
                pass

            class modes:
                pass
        ns.algorithms.AES, ns.modes.CTR, ns.Cipher = AES, CTR, Cipher
        return ns

    def garbage(self):
        """What comes out of decrypting something that was not encrypted for this key and place."""
        return 231

    def hmac(self):
        ideal = self

        class Mac:
            digest_size = 32

            def __init__(self, key):
                self.key, self.msg = bytes(key), b''

            def update(self, data):
                if _isinstance(data, (bytes, bytearray)) and _isinstance(self.msg, bytes):
                    self.msg += bytes(data)
                else:
                    self.msg = codes(self.msg) + codes(data)

            def digest(self):
                return Tag(self.key, self.msg)

            def hexdigest(self):
                raise core.Inconclusive('hexdigest')

        class Tag(Rope):
            """Result of digest(): a new tag when written, something to compare with when read."""

            def __init__(self, key, msg):
                self.key, self.msg, self.honest = key, msg, ideal.writing
                if ideal.writing:
                    n = len(ideal.macs)
                    super().__init__([(32, lambda i: MAC + 64 * n + i)])
                    ideal.macs.append((key, msg, self))
                else:
                    def unknown(i):
                        raise core.Inconclusive('value of a MAC')
                    super().__init__([(32, unknown)])

        class ns:
            @staticmethod
            def new(key, msg=None, digestmod=''):
                m = Mac(key)
                if msg is not None:
                    m.update(msg)
                return m

            @staticmethod
            def compare_digest(a, b):
                if _isinstance(a, Tag) and not a.honest:
                    a, b = b, a
                if not _isinstance(b, Tag):
                    raise core.Inconclusive('compare_digest without a digest')
                ok = Or([And(same(a, t), same(b.msg, m)) for k, m, t in ideal.macs if k == b.key])
                return bool(ok)
        return ns

    # -- serialisation of metadata
    def freeze(self, d):
        n = len(self.frozen)
        self.frozen.append(dict(d))
        return Rope1(16, lambda i: FROZEN + 32 * n + i)

    def thaw(self, buf):
        buf = codes(buf)
        for n, d in enumerate(self.frozen):
            if bool(same(buf, Rope1(16, lambda i: FROZEN + 32 * n + i))):
                return dict(d)
        return {'wrong': 1}         # whatever an attacker likes

    # -- struct
    def struct(self):
        ideal = self

        class ns:
            error = struct.error
            calcsize = staticmethod(struct.calcsize)

            @staticmethod
            def pack(fmt, *a):
                f = fmt.encode() if isinstance(fmt, str) else fmt
                if not any(isinstance(x, core.SymInt) and not _isinstance(x, int) for x in a):
                    return struct.pack(fmt, *a)
                if f != b'<I':
                    raise core.Inconclusive('pack %r' % fmt)
                n = a[0]
                return Rope1(4, lambda i: Ite(Eq(i, 0), HDR + n, HDR - 1))

            @staticmethod
            def unpack(fmt, b):
                f = fmt.encode() if isinstance(fmt, str) else fmt
                if isinstance(b, bytes) and not _isinstance(b, vfs.SymBytes):
                    return struct.unpack(fmt, b)
                if f != b'<I':
                    raise core.Inconclusive('unpack %r' % fmt)
                b = codes(b)
                c = b.at(0)
                byte = lambda c: Ite(And(c >= 0, c < 256), c, 77)
                raw = byte(c) + 256 * byte(b.at(1)) + 65536 * byte(b.at(2)) + 2 ** 24 * byte(b.at(3))
                v = Ite(And(c >= HDR, c < HDR + 2 ** 32), c - HDR, raw)
                if ideal.small:         # short streams: any length beyond the end is as good as another
                    v = core.concretize(v) if bool(v <= ideal.small) else 10 ** 7 + 1
                return (v,)
        return ns

    # -- compression
    def compression(self, real, kind, eager):
        """Compressor that emits what it has with every call (eager) or everything at the end."""
        magic = {'zlib': 1, 'bz2': 2, 'lzma': 3}[kind]

        class Compressor:
            def __init__(self, level=6, preset=None, **kw):
                level = level if preset is None else preset
                lo = 1 if kind == 'bz2' else 0
                if not (isinstance(level, int) and level >= lo and level <= 9):
                    raise ValueError('level')
                self.buf, self.out = b'', Rope1(1, lambda i: END + magic)

            def frames(self):
                n, self.buf, b = core.symlen(self.buf), b'', codes(self.buf)
                if not bool(n > 0):
                    return b''
                return Rope1(1, lambda i: FRAME + n) + b

            def compress(self, data):
                self.buf = codes(self.buf) + codes(data)
                if not eager:
                    return b''
                out, self.out = self.out, b''
                return codes(out) + codes(self.frames())

            def flush(self):
                out, self.out = self.out, b''
                return codes(out) + codes(self.frames()) + Rope1(1, lambda i: END)

        class Decompressor:
            def __init__(self, *a, **kw):
                self.buf, self.eof, self.unused_data, self.started = b'', False, b'', False

            def error(self):
                if kind == 'zlib':
                    return real.error('Error -3 while decompressing data: incorrect header check')
                if kind == 'bz2':
                    return OSError('Invalid data stream')
                return real.LZMAError('Corrupt input data')

            def decompress(self, data):
                if self.eof:
                    if kind == 'zlib':
                        self.unused_data = codes(self.unused_data) + codes(data)
                        return b''
                    raise EOFError('End of stream already reached')
                buf, out = codes(self.buf) + codes(data), b''
                while bool(buf.length > 0):
                    c = buf.at(0)
                    if not self.started:
                        if not bool(Eq(c, END + magic)):
                            raise self.error()
                        self.started, buf = True, buf[1:]
                    elif bool(Eq(c, END)):
                        self.eof, self.unused_data, buf = True, buf[1:], b''
                        break
                    else:
                        if not bool(And(c > FRAME, c < FRAME + 2 ** 40)):
                            raise self.error()
                        n = c - FRAME
                        if not bool(buf.length > n):
                            break
                        out = codes(out) + buf[1:1 + n]
                        buf = buf[1 + n:]
                self.buf = buf
                return out

        class ns:
            pass
        for n in ('error', 'LZMAError'):
            if hasattr(real, n):
                setattr(ns, n, getattr(real, n))
        for n in ('compressobj', 'BZ2Compressor', 'LZMACompressor'):
            if hasattr(real, n):
                setattr(ns, n, Compressor)
        for n in ('decompressobj', 'BZ2Decompressor', 'LZMADecompressor'):
            if hasattr(real, n):
                setattr(ns, n, Decompressor)
        return ns


def setup(E, cfg):
    """Patches the module for a symbolic run; nothing is replaced in a real one (but the buffer size)."""
    from s3ql.backends import comprenc as C, common as BC
    from s3ql import common, http
    if cfg.get('bufsize'):
        for m in (C, common):
            vfs.set_attr(E, m, 'BUFSIZE', cfg['bufsize'])
    for d in ('SYNC_COMPRESSION_THRESHOLD', 'SYNC_DECOMPRESSION_THRESHOLD'):
        if cfg.get('bufsize') and hasattr(C, d):
            vfs.set_attr(E, C, d, {k: 6 for k in getattr(C, d)})
    if E.mode != 'sym':
        return None
    ideal = Ideal(E)

    class Io:
        BytesIO = Buffer

        def __getattr__(self, n):
            return getattr(io, n)
    vfs.set_attr(E, C, 'io', Io())
    vfs.set_attr(E, http, 'BytesIO', Buffer)
    vfs.set_attr(E, C, 'struct', ideal.struct())
    mac = ideal.hmac()
    vfs.set_attr(E, C, 'hmac', mac)
    vfs.set_attr(E, BC, 'hmac', mac)
    vfs.set_attr(E, BC, 'struct', ideal.struct())
    vfs.set_attr(E, C, 'crypto_ciphers', ideal.ciphers())
    vfs.set_attr(E, C, 'freeze_basic_mapping', ideal.freeze)
    vfs.set_attr(E, C, 'thaw_basic_mapping', ideal.thaw)
    for k in ('zlib', 'bz2', 'lzma'):
        vfs.set_attr(E, C, k, ideal.compression(__import__(k), k, cfg.get('eager', True)))
    C.AsyncComprencBackend._thread_limiter = None
    E.cleanups.append(lambda: setattr(C.AsyncComprencBackend, '_thread_limiter', None))
    return ideal


class Plain:
    """The storage below."""
    max_connections = 2

    def __init__(self, E):
        self.E = E
        self.objects = {}           # key -> (data, metadata)

    def is_temp_failure(self, exc):
        return False

    async def write_fh(self, key, fh, metadata=None):
        fh.seek(0)
        data = fh.read()
        self.objects[key] = (data, dict(metadata))
        return core.symlen(data) if self.E.mode == 'sym' else len(data)

    async def readinto_fh(self, key, fh):
        data, meta = self.objects[key]
        fh.write(data)
        return dict(meta)

    async def lookup(self, key):
        return dict(self.objects[key][1])

    async def get_size(self, key):
        return core.symlen(self.objects[key][0]) if self.E.mode == 'sym' else len(self.objects[key][0])

    async def contains(self, key):
        return key in self.objects


class Files:
    """File handles with given contents."""

    def __init__(self, E):
        self.E = E
        if E.mode == 'sym':
            self.v = vfs.VFS()
        else:
            self.dir = tempfile.TemporaryDirectory()
            E.cleanups.append(self.dir.cleanup)
        self.n = 0

    def make(self, kind, data, pos):
        E = self.E
        if kind == 'buffer':
            if E.mode == 'sym':
                fh = Buffer(data)
            else:
                fh = io.BytesIO(data)
        elif E.mode == 'sym':
            self.n += 1
            name = '/f%d' % self.n
            self.v.files[name] = vfs.Inode(data)
            fh = File(self.v, name, self.v.files[name], 'r+b')
        else:
            fh = tempfile.TemporaryFile(dir=self.dir.name, buffering=0)
            fh.write(data)
        fh.seek(pos)
        return fh

    def contents(self, fh):
        if self.E.mode == 'sym':
            return fh.data if isinstance(fh, vfs.SymBytesIO) else fh.node.data
        fh.seek(0)
        return fh.read()


class File(vfs.VFile):
    def write(self, b):
        self._chk()
        self.node.data = put(self.node.data, self._pos, b)
        n = core.symlen(b)
        self._pos = self._pos + n
        return n

    def read(self, n=None):
        self._chk()
        d = codes(self.node.data)
        r = d[self._pos:] if n is None else d[self._pos:self._pos + n]
        self._pos = self._pos + r.length
        return r

    def fileno(self):
        raise io.UnsupportedOperation('fileno')


async def backend(plain, passphrase, algorithm, level=6):
    from s3ql.backends.comprenc import AsyncComprencBackend
    from s3ql.authinfo import CompressSpec, CompressAlgorithm
    return await AsyncComprencBackend.create(passphrase, CompressSpec(CompressAlgorithm(algorithm), level), plain)


META = {'x': 5, 'y': 'text', 'z': b'\0bytes', 'n': None}
OTHER = dict(same=b'secret', wrong=b'secreT', none=None)


@harness
def roundtrip(E, cfg):
    """Objects are read back unchanged (or not at all with the wrong passphrase)."""
    ideal = setup(E, cfg)
    f = Files(E)
    p = Plain(E)
    lim = cfg['max']
    n = E.int('len', 0, lim)
    off = E.int('offset', 0, cfg.get('off', 5)) if cfg.get('off', 5) else 0
    tail = E.int('rest', 0, 5)
    src = f.make(cfg['src'], vfs.data(E, 1, off + n + tail), off)
    level = E.int('level', 0, 9) if cfg.get('levels') else 6
    if not isinstance(level, int) or _isinstance(level, core.SymInt):
        level = core.concretize(level)
    meta = [dict(META), {}, None][E.nd('meta', 3)] if cfg.get('metas') else dict(META)
    passphrase = b'secret' if cfg['encrypt'] else None
    reader = passphrase if cfg.get('reader', 'same') == 'same' else OTHER[cfg['reader']]
    hint = E.int('hint', 0, lim) if cfg.get('hint') else None
    pos = E.int('pos', 0, 4)
    before = vfs.data(E, 2, E.int('before', 0, 9))
    dst = f.make(cfg['dst'], before, pos)
    res = {}

    async def main():
        b = await backend(p, passphrase, cfg['algorithm'], level)
        res['size'] = await b.write_fh(KEY, src, n, meta, **(dict(dont_compress=True) if cfg.get('dont') else {}))
        if ideal:
            ideal.writing = False
        r = await backend(p, reader, 'lzma')
        res['stored'] = await r.get_size(KEY)
        try:
            res['meta'] = await r.readinto_fh(KEY, dst, hint)
        except Exception as e:
            if reader == passphrase:
                raise
            res['exc'] = type(e).__name__
        try:
            res['lookup'] = await r.lookup(KEY)
        except Exception as e:
            if reader == passphrase:
                raise
            res['exc2'] = type(e).__name__
    try:
        strio.run(main)
    except (core.PathAbort, core.Inconclusive, AssertionError):
        raise
    except Exception as e:
        E.check(False, 'objects can be stored and read', lambda: '%s: %s' % (type(e).__name__, e))
        return
    E.observe('exc', [res.get('exc'), res.get('exc2')])
    if reader != passphrase:
        want = 'ObjectNotEncrypted' if passphrase is None else 'CorruptedObjectError'
        E.check(res.get('exc') == want and res.get('exc2') == want, 'objects of a different encryption setting are not accepted',
                lambda: res)
        return
    E.check(Eq(res['size'], res['stored']), 'the size returned is that of the stored object')
    E.check(res['meta'] == (meta or {}), 'metadata is returned unchanged')
    E.check(res['lookup'] == (meta or {}), 'metadata is looked up unchanged')
    out = f.contents(dst)
    i = E.int('index', 0, lim + 20)
    length = core.symlen(out) if E.mode == 'sym' else len(out)
    bl = core.symlen(before) if E.mode == 'sym' else len(before)
    end = pos + n
    E.check(Eq(length, Ite(Eq(n, 0), bl, Ite(end > bl, end, bl))), 'the data has the same length')
    src = vfs.data(E, 1, off + n + tail)
    want = Ite(And(i >= pos, i < end), vfs.at(src, off + i - pos), Ite(i < bl, vfs.at(before, i), 0))
    E.check(Implies(i < length, Eq(vfs.at(out, i), want)), 'the data is returned unchanged at the current position')


# --------------------------------------------------------------------------------------------------
# alterations

def stored(E, cfg, ideal, contents):
    """Objects written by honest writers; contents: list of (key, bytes)"""
    p = Plain(E)

    async def main():
        b = await backend(p, b'secret', cfg.get('algorithm', 'none'))
        for k, (key, c) in enumerate(contents):
            fh = Buffer(c) if E.mode == 'sym' else io.BytesIO(c)
            await b.write_fh(key, fh, len(c), {'obj': k})
    strio.run(main)
    if ideal:
        ideal.writing = False
        ideal.small = 64 + 2 * max(len(c) for _, c in contents)
    return p


def symbytes(E, name, n):
    vs = [E.int('%s%d' % (name, i), 0, 255) for i in range(n)]
    if E.mode != 'sym':
        return bytes(vs)

    def at(i):
        if isinstance(i, int) and not _isinstance(i, core.SymInt):
            return vs[i] if 0 <= i < n else 0
        r = 0
        for k in range(n):
            r = Ite(Eq(i, k), vs[k], r)
        return r
    return Rope1(n, at)


def encrypted(E, ideal, key, pos, vals):
    """Bytes that the holder of `key` decrypts to vals at position pos."""
    if ideal:
        return Rope1(len(vals), lambda i: pick(vals, i) + ideal.base(key + bytes(16), pos + i))
    from cryptography.hazmat.primitives.ciphers import Cipher, algorithms, modes
    ks = Cipher(algorithms.AES(key), modes.CTR(bytes(16))).encryptor().update(bytes(pos + len(vals)))
    return bytes(a ^ b for a, b in zip(vals, ks[pos:]))


def pick(vals, i):
    if isinstance(i, int) and not _isinstance(i, core.SymInt):
        return vals[i]
    r = vals[0]
    for k in range(1, len(vals)):
        r = Ite(Eq(i, k), vals[k], r)
    return r


def intact(E, meta, orig):
    if sorted(meta) != sorted(orig):
        return False
    r = []
    for k, v in meta.items():
        o = orig[k]
        if v is o:
            continue
        if _isinstance(v, (vfs.SymBytes, bytes)) and _isinstance(o, (vfs.SymBytes, bytes)) and E.mode == 'sym':
            r.append(same(v, o))
        elif type(v) is not type(o) or v != o:
            return False
    return And(r)


def outcome(E, ideal, plain, want, wmeta, odata, ometa, reader=b'secret'):
    data, meta = plain.objects[KEY]
    goodmeta = intact(E, meta, ometa)
    res = {}

    async def main():
        r = await backend(plain, reader, 'none')
        for what in ('lookup', 'read'):
            try:
                if what == 'lookup':
                    res[what] = await r.lookup(KEY)
                else:
                    fh = Buffer() if E.mode == 'sym' else io.BytesIO()
                    res[what] = (await r.readinto_fh(KEY, fh), fh.getvalue())
            except (core.PathAbort, core.Inconclusive, NameError, AttributeError):
                raise
            except Exception as e:
                res[what] = type(e).__name__
    strio.run(main)
    E.observe('lookup', res['lookup'] if isinstance(res['lookup'], str) else 'ok')
    E.observe('read', res['read'] if isinstance(res['read'], str) else 'ok')
    if not isinstance(res['lookup'], str):
        E.witness('lookup accepted')
        E.check(res['lookup'] == wmeta, 'altered metadata is not accepted', lambda: res['lookup'])
        E.check(goodmeta, 'altered metadata is not accepted', lambda: 'lookup')
    if not isinstance(res['read'], str):
        E.witness('read accepted')
        E.check(res['read'][0] == wmeta, 'altered metadata is not accepted', lambda: res['read'])
        out = res['read'][1]
        E.check(same(out, want) if E.mode == 'sym' else out == want, 'altered data is not accepted')
        E.check(goodmeta, 'altered metadata is not accepted', lambda: 'read')
        E.check(same(data, odata) if E.mode == 'sym' else data == odata, 'altered data is not accepted', lambda: 'ignored')
    else:
        E.check(Not(And(goodmeta, same(data, odata) if E.mode == 'sym' else data == odata)), 'unaltered objects are accepted')
    return res


def data_key(meta):
    return hashlib.sha256(b'secret' + meta['nonce']).digest()


@harness
def data(E, cfg):
    """Stored data: a prefix of the object, arbitrary bytes, then any part of any object."""
    ideal = setup(E, cfg)
    n = cfg['len']
    a, b = symbytes(E, 'a', n), symbytes(E, 'b', cfg.get('other', n))
    p = stored(E, cfg, ideal, [(KEY, a), (KEY2, b)])
    d, meta = p.objects[KEY]
    size = core.symlen(d)
    if not isinstance(size, int):
        size = core.concretize(size)
    cut = E.int('cut', 0, size)
    if cfg.get('cuts'):
        E.assume(Or([And(cut >= x, cut <= y) for x, y in cfg['cuts']]))
    cut = core.concretize(cut)
    ks = cfg.get('inserts') or list(range(cfg['insert'] + 1))
    k = ks[E.nd('insert', len(ks))]
    frm = (d, p.objects[KEY2][0])[E.nd('from', 2)] if cfg.get('from', True) else d
    fsize = core.symlen(frm)
    start = E.int('start', 0, fsize)
    start = core.concretize(start)
    vals = [E.int('v%d' % i, 0, 255) for i in range(k)]
    new = d[:cut]
    if k:
        new = new + encrypted(E, ideal, data_key(meta), cut, vals)
    new = new + frm[start:]
    p.objects[KEY] = (new, meta)
    if cfg.get('rbuf'):
        from s3ql.backends import comprenc as C
        from s3ql import common
        for m in (C, common):
            vfs.set_attr(E, m, 'BUFSIZE', cfg['rbuf'])
    outcome(E, ideal, p, a, {'obj': 0}, d, meta)


@harness
def fields(E, cfg):
    """Stored metadata: some of the fields replaced, or everything stored under another name."""
    ideal = setup(E, cfg)
    a, b = symbytes(E, 'a', 2), symbytes(E, 'b', 2)
    p = stored(E, cfg, ideal, [(KEY, a), (KEY2, b)])
    (da, ma), (db, mb) = p.objects[KEY], p.objects[KEY2]
    meta = dict((ma, mb)[cfg.get('base', 0)])
    p.objects[KEY] = ((da, db, b'xyz' if not ideal else vfs.SymBytes.of(b'xyz'))[E.nd('data', 3)], meta)
    left = cfg['changes']
    for name, opts in (('format_version', (1, 3, 2.0, True, None, '2')), ('compression', ('ZLIB', 'BZIP2', 'LZMA', 'none', 0)),
                       ('encryption', ('None', 'AES', None, 0)), ('nonce', ('B', 'text', b'', 'flip', 'meta')),
                       ('object_id', (KEY2, 's3ql_data_7', 5)), ('signature', ('B', b'', b'0' * 32, 's')),
                       ('data', ('B', 'flip', b'', 's')), ('payload_offset', (0, 'sym', None)), ('extra', (1,))):
        if left <= 0:
            break
        o = E.nd(name, len(opts) + 2)
        if o == 0:
            continue
        left -= 1
        if o == 1:
            meta.pop(name, None)
            continue
        v = opts[o - 2]
        if v == 'B':
            v = mb[name]
        elif v == 'flip':
            v = meta[name]
            i = E.int('at', 0, core.symlen(v) - 1)
            i = core.concretize(i)
            if name == 'data':
                key = hashlib.sha256(b'secret' + ma['nonce'] + b'meta').digest()
                v = v[:i] + encrypted(E, ideal, key, i, [E.int('flip', 0, 255)]) + v[i + 1:]
            else:
                v = v[:i] + bytes([v[i] ^ 1]) + v[i + 1:]
        elif v == 'meta' and name == 'nonce':
            v = meta['nonce'] + b'meta'
        elif v == 'sym':
            v = core.concretize(E.int('payload', 1, 9))
        meta[name] = v
    outcome(E, ideal, p, a, {'obj': 0}, da, ma)


ALG = ('none', 'zlib', 'bzip2', 'lzma')
BIG = 600 * 1024
base = dict(encrypt=True, algorithm='zlib', src='buffer', dst='buffer', max=BIG)
claim('C18', 'roundtrip',
      quick=[dict(base, algorithm=a, encrypt=e, src=s, eager=a != 'bzip2') for a in ALG for e in (True, False) for s in ('buffer', 'file')] +
      [dict(base, dst='file', hint=True), dict(base, algorithm='none', dst='file', hint=True, encrypt=False), dict(base, metas=True, max=10),
       dict(base, dont=True), dict(base, dont=True, encrypt=False, src='file')] +
      [dict(base, algorithm=a, levels=True, max=10, off=0) for a in ALG] +
      [dict(base, reader=r, max=10) for r in ('wrong', 'none')] + [dict(base, encrypt=False, reader='wrong', max=10)])
CUTS = [[0, 3], [4, 5], [6, 9], [10, 14], [15, 22], [23, 30], [31, 38], [39, 47]]
claim('C18', 'data',
      quick=[dict(len=3, bufsize=2, insert=1, cuts=[c]) for c in CUTS] + [dict(len=3, bufsize=3, rbuf=2, insert=1, cuts=[[0, 7]]), dict(len=3, bufsize=1, rbuf=9, insert=0, cuts=[[0, 2]])] +
      [dict(len=3, bufsize=2, inserts=[4], **{'from': f}, cuts=[[c, c]]) for c in (0, 7) for f in (False,)] +
      [dict(len=2, bufsize=2, insert=1, algorithm='zlib', cuts=[[0, 6]]), dict(len=0, other=3, bufsize=2, inserts=[4], **{'from': False}, cuts=[[0, 0]])],
      thorough=[dict(len=3, bufsize=2, insert=4, cuts=[[c, c]]) for c in (0, 4, 6, 7, 11)] +
      [dict(len=n, other=2, bufsize=2, insert=4, cuts=[c]) for n in (1, 5) for c in CUTS + [[48, 53]]] +
      [dict(len=3, bufsize=2, insert=1, algorithm=a, cuts=[c]) for c in CUTS + [[48, 60]] for a in ('zlib', 'bzip2', 'lzma')])
claim('C18', 'fields', quick=[dict(changes=2), dict(changes=1, base=1)], thorough=[dict(changes=3), dict(changes=2, base=1), dict(changes=2, algorithm='zlib')])
describe('C18', bounds=[
    'round trips: data of 0..600 KiB (symbolic) from a symbolic offset of a larger source, with the real buffer size of 256 KiB, into a '
    'destination with symbolic earlier contents at a symbolic position; all algorithms and levels, with and without passphrase, buffers and '
    'files, threads or not (whatever the thresholds decide)',
    'altered data: any prefix of the stored object, up to 4 bytes that decrypt to arbitrary values, any suffix of this or another object '
    'of the same passphrase (this covers truncation, insertion, removal, replacement, repetition and splicing); contents of 0..5 arbitrary '
    'bytes with the buffer size set to 2',
    'altered metadata: up to 2 (thorough: 3) fields removed or replaced, combined with the data of this object, of another, or none of both'],
    assumptions=['idealised primitives: the cipher stream of a key is independent of other keys and positions, a MAC is valid only for a '
                 'message written with the same key, the compressors restore what they were given and reject everything else; SHA-256 is real '
                 '(collisions excluded); counterexamples and samples are replayed with the real primitives',
                 'the textual form of metadata (freeze/thaw_basic_mapping) restores what it was given',
                 'older versions of the same object are authentic (nothing but the reader\'s own state could tell)',
                 'storage keys do not contain NUL'])
