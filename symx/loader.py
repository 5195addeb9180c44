"""Imports the s3ql modules from /repo's current sources.

sym mode: module globals get symbolic-aware builtins, trio is the deterministic scheduler, pyfuse3 a
plain-Python stand-in, and apsw.Connection the symbolic SQL engine.
replay mode: the same sources, unmodified builtins, real apsw/SQLite, real pyfuse3; only trio is
replaced so that the schedule found by the solver can be repeated.
"""
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys
import time
import types

REPO = os.environ.get('S3QL_REPO', '/repo')
SRC = os.path.join(REPO, 'src')
MODE = None
TEXT = {'s3ql.backends.local', 's3ql.authinfo'}     # modules whose operations on text are routed through symx.text
FUNCS = {}          # qualname -> sha of code


class Loader(importlib.abc.SourceLoader):
    def __init__(self, name, path, inject):
        self.name, self.path, self.inject = name, path, inject

    def get_filename(self, fullname):
        return self.path

    def get_data(self, path):
        with open(path, 'rb') as fh:
            return fh.read()

    def path_stats(self, path):
        raise OSError       # never use or write bytecode caches

    def exec_module(self, module):
        if self.inject:
            module.__dict__.update(self.inject)
        src = self.get_data(self.path)
        if self.inject and b'pydantic' in src:
            del module.__dict__['int']      # annotations are evaluated by pydantic
        if self.inject and self.name in TEXT:
            import ast
            from . import text
            module.__dict__.update(text.NAMES)
            src = text.rewrite(ast.parse(src, self.path))
        code = compile(src, self.path, 'exec', dont_inherit=True)
        exec(code, module.__dict__)


class Finder(importlib.abc.MetaPathFinder):
    def __init__(self, inject, extra):
        self.inject = inject
        self.extra = extra

    def find_spec(self, name, path, target=None):
        if name in self.extra:
            p = self.extra[name]
            pkg = False
        elif name == 's3ql' or name.startswith('s3ql.'):
            base = os.path.join(SRC, *name.split('.'))
            if os.path.isfile(os.path.join(base, '__init__.py')):
                p, pkg = os.path.join(base, '__init__.py'), True
            elif os.path.isfile(base + '.py'):
                p, pkg = base + '.py', False
            else:
                return None
        else:
            return None
        spec = importlib.util.spec_from_file_location(
            name, p, loader=Loader(name, p, self.inject),
            submodule_search_locations=[os.path.dirname(p)] if pkg else None)
        return spec


def _record(code, off):
    fn = code.co_filename
    if fn.startswith(REPO):
        k = (fn, code.co_qualname)
        if k not in FUNCS:
            FUNCS[k] = code
    return sys.monitoring.DISABLE


def start_recording():
    m = sys.monitoring
    try:
        m.use_tool_id(4, 'symx')
    except ValueError:
        return
    m.register_callback(4, m.events.PY_START, _record)
    m.set_events(4, m.events.PY_START)


NATIVE = set()


def functions():
    return sorted(['%s:%s' % (os.path.relpath(f, REPO), q) for f, q in FUNCS
                   if not q.endswith('<module>')] + list(NATIVE))


def setup(mode):
    """Prepare sys.modules for the given mode ('sym' or 'replay')."""
    global MODE
    assert MODE is None or MODE == mode
    if MODE == mode:
        return
    MODE = mode
    sys.dont_write_bytecode = True
    sys.setrecursionlimit(20000)
    if not any(p == '/opt/venv/lib/python3.12/site-packages' for p in sys.path):
        sys.path.append('/opt/venv/lib/python3.12/site-packages')
    sys.unraisablehook = lambda *a: None
    import logging
    logging.disable(logging.CRITICAL)
    import trio as real_trio        # noqa
    try:
        import httpcore             # noqa  (must bind the real trio)
    except ImportError:
        pass
    from . import strio, core
    strio.__getattr__ = lambda n: getattr(real_trio, n)
    if not hasattr(strio, 'Path'):
        pass
    sys.modules['trio'] = strio
    inject = {}
    from . import fakes
    fakes.install(mode)
    if mode == 'sym':
        inject = dict(core.BUILTINS)
    ext = types.ModuleType('s3ql.sqlite3ext')
    ext.set_blocksize = lambda n: None
    ext.track_writes = lambda p: None
    ext.get_vfsname = lambda: 'unix'
    ext.set_writes_inhibited = lambda x: None
    ext.reset = lambda: None
    ext.WriteTracker = object
    ext.__file__ = '/nonexistent/sqlite3ext.so'
    sys.modules['s3ql.sqlite3ext'] = ext
    extra = {'s3ql_expire_backups': os.path.join(REPO, 'contrib', 'expire_backups.py')}
    sys.meta_path.insert(0, Finder(inject, extra))
    start_recording()
    import s3ql                      # noqa
    s3ql.sqlite3ext = ext
