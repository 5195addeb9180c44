"""A file system whose file names may be symbolic text (bounded length, symbolic characters)."""
import errno
import os as _os

from . import core, text, vfs
from .core import Eq, Or, And


def parts(p):
    """(directory, last component), deciding where the last slash is"""
    p = text.norm(p)
    if type(p) is str:
        d, _, b = p.rpartition('/')
        return d, b
    a = p.chars
    i = len(a) - 1
    while i >= 0:
        if core.Eq(a[i], 47):
            break
        i -= 1
    return text.SymChars.make(a[:max(i, 0)]), text.SymChars.make(a[i + 1:])


class File(vfs.VFile):
    """Remembers the concrete beginning of a file."""

    def read(self, n=None):
        p = getattr(self.node, 'begin', b'')
        if isinstance(n, int) and isinstance(self._pos, int) and 0 < n and self._pos + n <= len(p) \
                and not isinstance(self.node.data, bytes):
            r = p[self._pos:self._pos + n]
            self._pos += n
            return r
        return super().read(n)

    def write(self, b):
        p = getattr(self.node, 'begin', b'')
        pos = self._pos
        r = super().write(b)
        if not isinstance(pos, int):
            self.node.begin = p if pos >= len(p) else b''
        elif isinstance(b, bytes) and pos <= len(p):
            self.node.begin = p[:pos] + b + p[pos + len(b):]
        elif pos < len(p):
            self.node.begin = p[:pos]
        return r


class NameFS:
    def __init__(self, root, hook=None):
        self.files = []         # [directory, base name, node]
        self.dirs = [root]
        self.hook = hook

    def event(self, kind, name):
        if self.hook is not None:
            self.hook(kind, name)

    def isdir(self, p):
        p = text.norm(p)
        return any(bool(p == d) for d in self.dirs)

    def find(self, p):
        d, b = parts(p)
        for f in self.files:
            if And(d == f[0], b == f[1]):
                return f
        return None

    def need(self, p):
        f = self.find(p)
        if f is None:
            if self.isdir(p):
                raise IsADirectoryError(errno.EISDIR, 'Is a directory', 'p')
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', 'p')
        return f

    def open(self, name, mode='r', buffering=-1, **kw):
        if 'b' not in mode:
            raise core.Inconclusive('text mode file in VFS')
        name = text.norm(name)
        if 'w' in mode or 'x' in mode:
            d, b = parts(name)
            if not self.isdir(d):
                raise FileNotFoundError(errno.ENOENT, 'No such file or directory', 'p')
            if self.isdir(name):
                raise IsADirectoryError(errno.EISDIR, 'Is a directory', 'p')
            f = self.find(name)
            if f is not None and 'x' in mode:
                raise FileExistsError(errno.EEXIST, 'File exists', 'p')
            self.event('create', name)
            if f is None:
                f = [d, b, vfs.Inode()]
                self.files.append(f)
            f[2].data = b''
            f[2].begin = b''
        else:
            f = self.need(name)
        return File(self, name, f[2], mode)


class Path:
    def __init__(self, v):
        self.v = v

    def join(self, a, *p):
        r = text.norm(a)
        for x in p:
            x = text.norm(x)
            if text.method(x, 'startswith', '/'):
                r = x
            elif len(r) == 0 or text.method(r, 'endswith', '/'):
                r = r + x
            else:
                r = r + '/' + x
        return r

    def dirname(self, p):
        return parts(p)[0]

    def basename(self, p):
        return parts(p)[1]

    def split(self, p):
        return parts(p)

    def exists(self, p):
        return self.v.isdir(p) or self.v.find(p) is not None
    lexists = exists

    def isfile(self, p):
        return self.v.find(p) is not None

    def isdir(self, p):
        return self.v.isdir(p)

    def getsize(self, p):
        return core.symlen(self.v.need(p)[2].data)

    def __getattr__(self, n):
        raise core.Inconclusive('os.path.%s on the virtual file system' % n)


class Os:
    """Replacement for the os module over a NameFS."""

    def __init__(self, v):
        self.v = v
        self.path = Path(v)

    def lstat(self, p, *a, **k):
        if isinstance(p, vfs.VFile):
            return vfs.StatResult(p.node)
        return vfs.StatResult(self.v.need(p)[2])
    stat = fstat = lstat

    def unlink(self, p):
        f = self.v.need(p)
        self.v.event('unlink', p)
        self.v.files.remove(f)
    remove = unlink

    def rename(self, a, b):
        f = self.v.need(a)
        d, n = parts(b)
        if not self.v.isdir(d):
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', 'p')
        if self.v.isdir(b):
            raise IsADirectoryError(errno.EISDIR, 'Is a directory', 'p')
        self.v.event('rename', b)
        g = self.v.find(b)
        if g is not None and g is not f:
            self.v.files.remove(g)
        f[0], f[1] = d, n
    replace = rename

    def makedirs(self, p, mode=0o777, exist_ok=False):
        p = text.norm(p)
        if self.v.isdir(p):
            if not exist_ok:
                raise FileExistsError(errno.EEXIST, 'File exists', 'p')
            return
        d, b = parts(p)
        if not self.v.isdir(d):
            self.makedirs(d, exist_ok=True)
        if self.v.find(p) is not None:
            raise FileExistsError(errno.EEXIST, 'File exists', 'p')
        self.v.event('mkdir', p)
        self.v.dirs.append(p)

    def mkdir(self, p, mode=0o777):
        d, b = parts(p)
        if not self.v.isdir(d):
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', 'p')
        self.makedirs(p)

    def listing(self, p):
        p = text.norm(p)
        ds = []
        for d in self.v.dirs[1:]:
            a, b = parts(d)
            if a == p:
                ds.append(b)
        return ds, [f[1] for f in self.v.files if f[0] == p]

    def listdir(self, p):
        if not self.v.isdir(p):
            raise FileNotFoundError(errno.ENOENT, 'No such file or directory', 'p')
        ds, fs = self.listing(p)
        return ds + fs

    def walk(self, top, topdown=True, onerror=None, followlinks=False):
        top = text.norm(top)
        if not self.v.isdir(top):
            return
        ds, fs = self.listing(top)
        if not topdown:
            raise core.Inconclusive('walk bottom-up')
        yield top, ds, fs
        for d in ds:
            yield from self.walk(self.path.join(top, d))

    def fsync(self, fd):
        self.v.event('fsync', '')

    def fspath(self, p):
        return p

    def __getattr__(self, n):
        if n in ('getpid', 'sep', 'O_RDONLY', 'SEEK_SET', 'SEEK_END', 'SEEK_CUR', 'sync'):
            return getattr(_os, n)
        raise core.Inconclusive('os.%s on the virtual file system' % n)
