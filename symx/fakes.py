"""Stand-ins for extension modules at the boundary of the code under test."""
import stat as _stat
import sys
import types
from typing import NewType

from . import core


class Attrs:
    """pyfuse3.EntryAttributes without conversion to C types."""

    def __init__(self):
        self.st_ino = 0
        self.generation = 0
        self.entry_timeout = 300
        self.attr_timeout = 300
        self.st_mode = 0
        self.st_nlink = 1
        self.st_uid = self.st_gid = self.st_rdev = self.st_size = 0
        self.st_blksize = 4096
        self.st_blocks = 0
        self.st_atime_ns = self.st_mtime_ns = self.st_ctime_ns = self.st_birthtime_ns = 0


class FUSEError(Exception):
    def __init__(self, errno):
        super().__init__(errno)
        self.errno = errno
        self.errno_ = errno

    def __str__(self):
        import os
        return os.strerror(self.errno)


class SetattrFields:
    def __init__(self, **kw):
        for n in ('atime', 'mtime', 'ctime', 'mode', 'uid', 'gid', 'size'):
            setattr(self, 'update_' + n, kw.get(n, False))


class FileInfo:
    def __init__(self, fh=0, direct_io=False, keep_cache=True, nonseekable=False):
        self.fh, self.direct_io, self.keep_cache, self.nonseekable = fh, direct_io, keep_cache, nonseekable


class StatvfsData:
    pass


class RequestContext:
    def __init__(self, uid=0, gid=0, pid=0, umask=0):
        self.uid, self.gid, self.pid, self.umask = uid, gid, pid, umask


class Operations:
    supports_dot_lookup = True
    enable_writeback_cache = False
    enable_acl = False


class ReaddirToken:
    """Collects delivered entries; `accept(name, attr, off)` decides whether the buffer has room."""

    def __init__(self, accept):
        self.accept = accept
        self.got = []


def readdir_reply(token, name, attr, next_id):
    if not token.accept(name, attr, next_id):
        return False
    token.got.append((name, attr, next_id))
    return True


INVAL = []


def make_pyfuse3():
    m = types.ModuleType('pyfuse3')
    m.ROOT_INODE = 1
    m.ENOATTR = 61
    import errno
    m.ENOATTR = errno.ENODATA
    m.InodeT = NewType('InodeT', int)
    m.FileHandleT = NewType('FileHandleT', int)
    m.FileNameT = m.XAttrNameT = bytes
    m.ModeT = m.FlagT = m.OffsetT = m.FileTypeT = int
    m.EntryAttributes = Attrs
    m.FUSEError = FUSEError
    m.SetattrFields = SetattrFields
    m.FileInfo = FileInfo
    m.StatvfsData = StatvfsData
    m.RequestContext = RequestContext
    m.Operations = Operations
    m.ReaddirToken = ReaddirToken
    m.readdir_reply = readdir_reply
    m.invalidate_inode = lambda *a, **k: INVAL.append(('inode',) + a)
    m.invalidate_entry = lambda *a, **k: INVAL.append(('entry',) + a)
    m.invalidate_entry_async = lambda *a, **k: INVAL.append(('entry_async',) + a)
    m.trio_token = None
    m.default_options = frozenset()
    m.syncfs = lambda *a: None
    for n in ('terminate', 'init', 'close', 'main', 'setxattr', 'getxattr', 'listdir'):
        def f(*a, _n=n, **k):
            raise core.Inconclusive('pyfuse3.%s called' % _n)
        setattr(m, n, f)
    return m


def make_apsw(mode):
    import apsw
    m = types.ModuleType('apsw')

    class RealConnection(apsw.Connection):
        def enableloadextension(self, *a):
            pass

        def loadextension(self, *a):
            pass
        enable_load_extension = enableloadextension
        load_extension = loadextension
    m.__getattr__ = lambda n: getattr(apsw, n)
    m.config = lambda *a: None
    if mode == 'sym':
        from . import sqldb

        class Conn(sqldb.SymDB):
            def __init__(self, *a, **kw):
                super().__init__(constraint_error=apsw.ConstraintError)

            def enableloadextension(self, *a):
                pass
            loadextension = enableloadextension
        m.Connection = Conn
    else:
        m.Connection = RealConnection
    return m


def _symstat():
    def wrap(name, fmt):
        orig = getattr(_stat, name)

        def f(mode, _o=orig, _f=fmt):
            if isinstance(mode, core.SymInt):
                return (mode // 4096) % 16 == (_f >> 12)
            return _o(mode)
        setattr(_stat, name, f)
    for n, f in (('S_ISDIR', _stat.S_IFDIR), ('S_ISREG', _stat.S_IFREG), ('S_ISLNK', _stat.S_IFLNK),
                 ('S_ISFIFO', _stat.S_IFIFO), ('S_ISBLK', _stat.S_IFBLK), ('S_ISCHR', _stat.S_IFCHR),
                 ('S_ISSOCK', _stat.S_IFSOCK)):
        wrap(n, f)
    om, oi = _stat.S_IFMT, _stat.S_IMODE
    _stat.S_IFMT = lambda m: ((m // 4096) % 16) * 4096 if isinstance(m, core.SymInt) else om(m)
    _stat.S_IMODE = lambda m: m % 4096 if isinstance(m, core.SymInt) else oi(m)


def install(mode):
    sys.modules['pyfuse3'] = make_pyfuse3()
    sys.modules['apsw'] = make_apsw(mode)
    if mode == 'sym':
        _symstat()
