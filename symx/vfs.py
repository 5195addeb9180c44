"""In-memory file layer (stands in for os/open in the modules that keep block data in local files).

File contents are either concrete bytes or SymBytes (symbolic length, contents given by a function
from index to an integer term)."""
import builtins
import errno
import io
import os as _os
from . import term as z3

from . import core
from .core import SymInt, SymBool, And, Or, Not, Ite, mkbool, mkint, toint, symlen

_isinstance, _bytes = builtins.isinstance, builtins.bytes


class SymBytes:
    """Byte string with symbolic length; at(i) gives the byte at index i (0 <= i < length)."""

    def __init__(self, length, at):
        self.length = length
        self._at = at

    def __symlen__(self):
        return self.length

    def __len__(self):
        return core.concretize(self.length)

    def __bool__(self):
        r = self.length > 0
        return bool(r)

    def at(self, i):
        return self._at(i)

    @property
    def nbytes(self):
        return self.length

    @staticmethod
    def of(b):
        if _isinstance(b, SymBytes):
            return b
        if _isinstance(b, memoryview):
            b = _bytes(b)
        if _isinstance(b, (_bytes, bytearray)):
            b = _bytes(b)

            def at(i, b=b):
                if _isinstance(i, int):
                    return b[i] if 0 <= i < len(b) else 0
                if not b or b.count(b[0]) == len(b):
                    return b[0] if b else 0
                r = 0
                for k in range(len(b) - 1, -1, -1):
                    r = Ite(i == k, b[k], r)
                return r
            return SymBytes(len(b), at)
        raise core.Inconclusive('not bytes: %r' % type(b))

    @staticmethod
    def var(name, length):
        """Fresh byte string of the given length backed by an uninterpreted function."""
        f = z3.Function('bytes!' + name, z3.IntSort(), z3.IntSort())
        return SymBytes(length, lambda i: mkint(f(toint(i))))

    def _norm(self, s):
        if s.step not in (None, 1):
            raise core.Inconclusive('slice step')
        n = self.length

        def clamp(x, d):
            if x is None:
                return d
            if _isinstance(x, int) and x >= 0 and _isinstance(n, int):
                return min(x, n)
            x = Ite(x < 0, Ite(x + n < 0, 0, x + n), x)
            return Ite(x > n, n, x)
        a, b = clamp(s.start, 0), clamp(s.stop, n)
        return a, Ite(b < a, a, b)

    def __getitem__(self, s):
        if not _isinstance(s, slice):
            return self._at(s)
        a, b = self._norm(s)
        at = self._at
        return SymBytes(b - a, (lambda i: at(i + a)) if not (_isinstance(a, int) and a == 0) else at)

    def __add__(self, o):
        if not _isinstance(o, (_bytes, bytearray, SymBytes, memoryview)):
            return NotImplemented
        o = SymBytes.of(o)
        n, a, b = self.length, self._at, o._at
        if _isinstance(n, int) and n == 0:
            return o
        if _isinstance(o.length, int) and o.length == 0:
            return self
        return SymBytes(n + o.length, lambda i: Ite(i < n, a(i), b(i - n)))

    def __radd__(self, o):
        return SymBytes.of(o) + self

    def __syminstance__(self, t):
        ts = t if _isinstance(t, tuple) else (t,)
        return _bytes in ts

    def __hash__(self):
        raise core.Inconclusive('hash of symbolic bytes')

    def __eq__(self, o):
        if self is o:
            return True
        raise core.Inconclusive('comparison of symbolic bytes')

    def tobytes(self):
        return self


def zeros(o, n):
    """bytes([v]) * n for symbolic n"""
    v = o[0]
    return SymBytes(Ite(n < 0, 0, n), lambda i: v)


def overlay(old, pos, new):
    """Contents after writing `new` at `pos`."""
    if _isinstance(old, _bytes) and _isinstance(new, _bytes) and _isinstance(pos, int):
        if not new:
            return old
        return old[:pos].ljust(pos, b'\0') + new + old[pos + len(new):]
    old, new = SymBytes.of(old), SymBytes.of(new)
    n, ol = new.length, old.length
    end = pos + n
    length = Ite(n == 0, ol, Ite(end > ol, end, ol))
    oa, na = old._at, new._at
    return SymBytes(length, lambda i: Ite(And(i >= pos, i < end), na(i - pos),
                                          Ite(i < ol, oa(i), 0)))


def resize(old, size):
    if _isinstance(old, _bytes) and _isinstance(size, int):
        return old[:size].ljust(size, b'\0')
    old = SymBytes.of(old)
    ol, oa = old.length, old._at
    return SymBytes(size, lambda i: Ite(i < ol, oa(i), 0))


class Inode:
    def __init__(self, data=b''):
        self.data = data
        self.mtime = 0.0
        self.synced = b''


class VFile:
    """File object."""

    def __init__(self, vfs, name, node, mode):
        self.vfs, self.name, self.node, self.mode = vfs, name, node, mode
        self.closed = False
        self._pos = 0
        if 'a' in mode:
            self._pos = symlen(node.data)

    def _chk(self):
        if self.closed:
            raise ValueError('I/O operation on closed file.')

    def fileno(self):
        self._chk()
        return self

    def tell(self):
        self._chk()
        return self._pos

    def seek(self, off, whence=0):
        self._chk()
        if whence == 0:
            if off < 0:
                raise OSError(errno.EINVAL, 'Invalid argument')
            self._pos = off
        elif whence == 1:
            self._pos = self._pos + off
        else:
            self._pos = symlen(self.node.data) + off
        return self._pos

    def read(self, n=None):
        self._chk()
        d = self.node.data
        if n is None or (_isinstance(n, int) and n < 0):
            r = d[self._pos:]
        else:
            r = _slice(d, self._pos, self._pos + n)
        self._pos = self._pos + symlen(r)
        return r

    def readinto(self, b):
        r = self.read(len(b))
        b[:len(r)] = r
        return len(r)

    def write(self, b):
        self._chk()
        if 'r' in self.mode and '+' not in self.mode:
            raise io.UnsupportedOperation('not writable')
        self.vfs.event('write', self.name)
        if not _isinstance(b, (_bytes, SymBytes)):
            b = _bytes(b)
        self.node.data = overlay(self.node.data, self._pos, b)
        n = symlen(b)
        self._pos = self._pos + n
        return n

    def truncate(self, size=None):
        self._chk()
        self.vfs.event('truncate', self.name)
        size = self._pos if size is None else size
        self.node.data = resize(self.node.data, size)
        return size

    def flush(self):
        self._chk()

    def close(self):
        self.closed = True

    def isatty(self):
        return False

    def readable(self):
        return True
    seekable = writable = readable

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()


def _slice(d, a, b):
    if _isinstance(d, _bytes) and not (_isinstance(a, int) and _isinstance(b, int)):
        d = SymBytes.of(d)
    return d[a:b]


class StatResult:
    def __init__(self, node):
        self.st_size = symlen(node.data)
        self.st_mtime = node.mtime
        self.st_mtime_ns = int(node.mtime * 1e9)
        self.st_mode = 0o100600


class VFS:
    """Files by absolute name; directories are names ending in '/'."""

    def __init__(self, hook=None):
        self.files = {}
        self.dirs = set()
        self.hook = hook

    def event(self, kind, name):
        if self.hook is not None:
            self.hook(kind, name)

    def open(self, name, mode='r', buffering=-1, **kw):
        name = _os.fspath(name)
        if 'b' not in mode:
            raise core.Inconclusive('text mode file in VFS')
        if 'w' in mode or 'x' in mode:
            if 'x' in mode and name in self.files:
                raise FileExistsError(errno.EEXIST, 'File exists', name)
            self.event('create', name)
            n = self.files.get(name)
            if n is None:
                d = _os.path.dirname(name)
                if d and d not in self.dirs:
                    raise FileNotFoundError(errno.ENOENT, 'No such file or directory', name)
                n = self.files[name] = Inode()
            n.data = b''
        else:
            n = self.files.get(name)
            if n is None:
                if 'a' in mode:
                    self.event('create', name)
                    n = self.files[name] = Inode()
                else:
                    raise FileNotFoundError(errno.ENOENT, 'No such file or directory', name)
        return VFile(self, name, n, mode)


class DirFd:
    def __init__(self, name):
        self.name = name


class OsPath:
    def __init__(self, v):
        self.v = v

    def exists(self, p):
        return p in self.v.files or p in self.v.dirs

    def isfile(self, p):
        return p in self.v.files

    def isdir(self, p):
        return p in self.v.dirs

    def getsize(self, p):
        return symlen(self.v.files[p].data)

    def getmtime(self, p):
        return self.v.files[p].mtime

    def __getattr__(self, n):
        return getattr(_os.path, n)


class SymOs:
    """Replacement for the os module over a VFS."""

    def __init__(self, v):
        self.v = v
        self.path = OsPath(v)

    def _need(self, p):
        if p not in self.v.files:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', p)

    def fstat(self, fd):
        return StatResult(fd.node)

    def stat(self, p, *a, **kw):
        if _isinstance(p, VFile):
            return StatResult(p.node)
        self._need(p)
        return StatResult(self.v.files[p])
    lstat = stat

    def unlink(self, p):
        self._need(p)
        self.v.event('unlink', p)
        del self.v.files[p]
    remove = unlink

    def rename(self, a, b):
        if a in self.v.dirs:
            self.v.event('rename', b)
            self.v.dirs.discard(a)
            self.v.dirs.add(b)
            for f in list(self.v.files):
                if f.startswith(a + '/'):
                    self.v.files[b + f[len(a):]] = self.v.files.pop(f)
            return
        self._need(a)
        self.v.event('rename', b)
        self.v.files[b] = self.v.files.pop(a)
    replace = rename

    def open(self, p, flags, *a, **kw):
        if not flags & _os.O_DIRECTORY:
            raise core.Inconclusive('os.open on the virtual file system')
        if p not in self.v.dirs:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', p)
        return DirFd(p)

    def close(self, fd):
        if not _isinstance(fd, DirFd):
            raise core.Inconclusive('os.close on the virtual file system')

    def listdir(self, p):
        p = p.rstrip('/') + '/'
        if p[:-1] not in self.v.dirs and not any(f.startswith(p) for f in self.v.files):
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', p[:-1])
        return [f[len(p):] for f in self.v.files if f.startswith(p) and '/' not in f[len(p):]]

    def mkdir(self, p, *a, **kw):
        if p in self.v.dirs:
            raise FileExistsError(errno.EEXIST, 'File exists', p)
        self.v.dirs.add(p)

    def makedirs(self, p, mode=0o777, exist_ok=False):
        self.v.dirs.add(p)

    def rmdir(self, p):
        if p not in self.v.dirs:
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', p)
        if self.listdir(p):
            raise OSError(errno.ENOTEMPTY, 'Directory not empty', p)
        self.v.dirs.discard(p)

    def fsync(self, fd):
        self.v.event('fsync', getattr(fd, 'name', ''))
    fdatasync = fsync

    def truncate(self, p, n):
        self._need(p)
        self.v.files[p].data = resize(self.v.files[p].data, n)

    def access(self, p, m):
        return p in self.v.files or p in self.v.dirs

    def sync(self):
        pass

    def __getattr__(self, n):
        if n in ('read', 'write', 'ftruncate', 'link', 'scandir', 'walk', 'chmod', 'utime'):
            raise core.Inconclusive('os.%s on the virtual file system' % n)
        return getattr(_os, n)


class SymBytesIO:
    """BytesIO that accepts symbolic byte strings."""

    def __init__(self, initial=b''):
        self.data = initial
        self._pos = 0

    def write(self, b):
        self.data = overlay(self.data, self._pos, b)
        n = symlen(b)
        self._pos = self._pos + n
        return n

    def read(self, n=None):
        if n is None or (_isinstance(n, int) and n < 0):
            r = self.data[self._pos:]
        else:
            r = _slice(self.data, self._pos, self._pos + n)
        self._pos = self._pos + symlen(r)
        return r

    def seek(self, off, whence=0):
        self._pos = off if whence == 0 else (self._pos if whence == 1 else symlen(self.data)) + off
        return self._pos

    def tell(self):
        return self._pos

    def getvalue(self):
        return self.data

    def getbuffer(self):
        return SymBytes.of(self.data)

    def truncate(self, n=None):
        n = self._pos if n is None else n
        self.data = resize(self.data, n)
        return n

    def close(self):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        pass


def patch(E, modules, v):
    """Route os/open of the given modules through the VFS v (restored at the end of the path)."""
    o = SymOs(v)
    for m in modules:
        set_attr(E, m, 'os', o)
        set_attr(E, m, 'open', v.open)


_MISSING = object()


def set_attr(E, obj, name, value):
    old = obj.__dict__.get(name, _MISSING) if hasattr(obj, '__dict__') else getattr(obj, name)
    setattr(obj, name, value)

    def undo():
        if old is _MISSING:
            delattr(obj, name)
        else:
            setattr(obj, name, old)
    E.cleanups.append(undo)


def data(E, k, length):
    """Byte string number k (> 0): symbolically every byte is its own origin, really a fixed pattern.

    The code under test only moves these bytes around (any inspection of their values ends the run as
    inconclusive), so that equality of origins is equality of contents."""
    if E.mode == 'sym':
        return SymBytes(length, lambda i: (i + 1) + k * 2 ** 40)
    return pattern(k, length)


def pattern(k, n):
    return _bytes((1 + (k * 101 + i * 7 + (i >> 3) * 13 + (i >> 8) * 29) % 255) for i in range(n))


def at(b, i):
    if _isinstance(b, SymBytes):
        return b.at(i)
    if _isinstance(i, SymInt):
        return SymBytes.of(b).at(i)
    return b[i] if 0 <= i < len(b) else 0
