"""Credentials and options: authinfo2 sections and command line precedence (C28)."""
import os

from symx.registry import harness, claim, describe
from symx import core, vfs, strio, text
from symx.core import And, Or, Not, Eq, Implies
from checks._fsenv import tmpdir

PROPERTIES = ['C28']
KEYS = [('backend-login', 'backend_login', None, lambda i: 'login%d' % i, lambda i: 'login%d' % i),
        ('backend-password', 'backend_password', None, lambda i: 'pw%d' % i, lambda i: 'pw%d' % i),
        ('fs-passphrase', 'fs_passphrase', None, lambda i: 'pp%d' % i, lambda i: 'pp%d' % i),
        ('backend-options', 'backend_options', '', lambda i: 'opt%d' % i, lambda i: 'opt%d' % i),
        ('cachedir', 'cachedir', os.path.expanduser('~/.s3ql'), lambda i: '/cache%d' % i, lambda i: '/cache%d' % i),
        ('max-connections', 'max_connections', 32, lambda i: '%d' % (10 + i), lambda i: 10 + i),
        ('max-threads', 'max_threads', None, lambda i: '%d' % (20 + i), lambda i: 20 + i),
        ('compress', 'compress', ('lzma', 6), lambda i: 'zlib-%d' % i, lambda i: ('zlib', i))]


def chars(E, name, n):
    cs = []
    for k in range(n):
        c = E.int('%s%d' % (name, k), 47, 122)
        E.assume(Or(Eq(c, 47), c >= 97))
        cs.append(c)
    return text.SymChars.make(cs) if E.mode == 'sym' else ''.join(map(chr, cs))


class Ini:
    """configparser.ConfigParser with prepared contents"""
    contents = {}

    def __init__(self, *a, **kw):
        self.d = {}

    def read(self, f, *a, **k):
        self.d = Ini.contents

    def sections(self):
        return list(self.d)

    def __iter__(self):
        return iter(['DEFAULT'] + list(self.d))

    def __getitem__(self, s):
        return self.d[s]

    def items(self, s):
        return list(self.d[s].items())

    def get(self, s, k, *, fallback=None, **kw):
        return self.d[s].get(k, fallback)

    def has_option(self, s, k):
        return k in self.d[s]


@harness
def sections(E, cfg):
    """Arbitrary sections, prefixes and entries."""
    from s3ql import authinfo as A
    from s3ql.logging import QuietError
    text.reset()
    K = cfg['sections']
    keys = [k for k in KEYS if k[0] in cfg['keys']]
    url = 's3://' + chars(E, 'u', cfg['url'])
    secs = []
    for i in range(K):
        kind = E.choice('kind%d' % i, 3)
        if kind == 0:
            pat = None
        elif kind == 1:
            pat = 's3://' + chars(E, 'p%d_' % i, E.choice('plen%d' % i, cfg['url'] + 2))
        else:
            pat = chars(E, 'q%d_' % i, 1)
        d = {}
        for k in keys:
            if E.flag('has%d_%s' % (i, k[0])):
                d[k[0]] = k[3](i)
        secs.append((pat, d))
    unknown = E.choice('unknown', K + 1) if cfg.get('bad') else K
    if unknown < K:
        secs[unknown][1]['no-such-key'] = 'x'
    mode = (0o600, 0o640, 0o604, 0o400)[E.nd('mode', 4)] if cfg.get('bad') else 0o600
    there = E.flag('exists') if cfg.get('bad') else True
    Ini.contents = {'sec%d' % i: (dict({'storage-url': p}, **d) if p is not None else dict(d))
                    for i, (p, d) in enumerate(secs)}
    if E.mode == 'sym':
        fn = '/authinfo2'
        o = type('O', (), {})()
        o.path = type('P', (), dict(isfile=staticmethod(lambda p: there and p == fn),
                                    exists=staticmethod(lambda p: there and p == fn),
                                    expanduser=staticmethod(os.path.expanduser)))
        def stat_(p):
            if not there:
                raise FileNotFoundError(p)
            return type('S', (), dict(st_mode=0o100000 | mode))()
        o.stat = stat_
        vfs.set_attr(E, A, 'os', o)
        cp = type('C', (), dict(ConfigParser=Ini))
        vfs.set_attr(E, A, 'configparser', cp)
    else:
        fn = os.path.join(tmpdir(), 'authinfo2')
        if there:
            with open(fn, 'w') as fh:
                for s, d in Ini.contents.items():
                    fh.write('[%s]\n' % s)
                    for k, v in d.items():
                        fh.write('%s: %s\n' % (k, v))
            os.chmod(fn, mode)
    applies = [p is not None and bool(text.method(url, 'startswith', p)) for p, d in secs]
    try:
        r = A.Authinfo.from_file(fn, url)
    except QuietError as e:
        bad = there and (mode & 0o044 or (unknown < K and applies[unknown]))
        E.check(bool(bad), 'a valid file is accepted')
        E.check(e.exitcode == (12 if mode & 0o044 else 2), 'the reason of the refusal is reported')
        return
    E.check(not (there and mode & 0o044), 'a file readable by others is refused')
    E.check(not (there and unknown < K and applies[unknown]), 'unknown entries are refused')
    for name, attr, default, _, val in KEYS:
        want = default
        for i, (p, d) in enumerate(secs):
            if there and applies[i] and name in d:
                want = val(i)
        got = getattr(r, attr)
        if attr == 'compress':
            got = (got.algorithm.value, got.level)
        E.check(got == want, 'the last applicable section determines %s' % name)


class Stop(Exception):
    pass


@harness
def raw(E, cfg):
    """open_raw_backend: what the backend is created with."""
    import s3ql.backends as B
    from s3ql.authinfo import Authinfo
    from s3ql.logging import QuietError
    made = []
    prompts = []
    needs = E.flag('needs_login')

    class Back:
        known_options = {'a', 'b', 'c'}
        needs_login = needs

        @classmethod
        async def create(cls, **kw):
            made.append(kw)
            raise Stop()
    m = dict(B.async_prefix_map)
    m['s3'] = Back
    vfs.set_attr(E, B, 'async_prefix_map', m)

    def prompt(p):
        prompts.append(p)
        return 'typed%d' % len(prompts)
    vfs.set_attr(E, B, '_prompt_credential', prompt)
    kw = {}
    login = (None, '', 'joe')[E.nd('login', 3)]
    pw = (None, '', 'secret')[E.nd('pw', 3)]
    fopt = (None, '', 'a,b=1', 'nosuch')[E.nd('fopt', 4)]
    copt = (None, '', 'c=x', 'a=2,nosuch')[E.nd('copt', 4)]
    fconn = E.int('fconn', 0, 1000)
    if login is not None:
        kw['backend_login'] = login
    if pw is not None:
        kw['backend_password'] = pw
    if fopt is not None:
        kw['backend_options'] = fopt
    ai = Authinfo(**kw)
    ai.max_connections = fconn
    conn = E.int('conn', 0, 1000) if E.flag('has_conn') else None
    eff = copt if copt is not None else (fopt or '')
    try:
        strio.run(lambda: B.open_raw_backend('s3://bucket/pre', ai, backend_options=copt, max_connections=conn))
        E.check(False, 'backend is created')
    except Stop:
        pass
    except QuietError:
        E.check('nosuch' in eff, 'known options are accepted')
        return
    E.check('nosuch' not in eff, 'unknown options are refused')
    k = made[0]
    want = {'': {}, 'a,b=1': {'a': True, 'b': '1'}, 'c=x': {'c': 'x'}}[eff]
    E.check(k['storage_url'] == 's3://bucket/pre', 'the storage location is passed on')
    E.check(k['backend_options'] == want, 'options on the command line replace those of the file')
    E.check(Eq(k['max_connections'], fconn if conn is None else conn), 'the command line wins for the number of connections')
    ask = [x for x in (login, pw) if x is None] if needs else []
    E.check(len(prompts) == len(ask), 'only missing credentials are asked for')
    n = 0
    for x, a in ((login, 'backend_login'), (pw, 'backend_password')):
        if x is None and needs:
            n += 1
            E.check(k[a] == 'typed%d' % n, 'missing credentials are asked for')
        else:
            E.check(k[a] == (x or ''), 'configured credentials are used')


@harness
def commands(E, cfg):
    """Every command hands over the effective options."""
    import importlib
    from s3ql.authinfo import Authinfo, CompressSpec
    name = cfg['cmd']
    mod = importlib.import_module('s3ql.' + name.split('.')[0])
    got = {}
    url = 's3://bucket/pre'
    ai = Authinfo()
    ai.cachedir = '/filecache'
    ai.backend_options = 'a=1'
    ai.max_connections = E.int('fconn', 0, 1000)
    ai.max_threads = None if E.flag('nothr') else E.int('fthr', 1, 1000)
    ai.compress = CompressSpec.parse('bzip2-3')
    cli = {}
    if E.flag('cli_conn'):
        cli['max_connections'] = E.int('cconn', 0, 1000)
    if E.flag('cli_thr'):
        cli['max_threads'] = E.int('cthr', 1, 1000)
    if E.flag('cli_cache'):
        cli['cachedir'] = '/clicache'
    if E.flag('cli_opt'):
        cli['backend_options'] = ('', 'b=2')[E.nd('opt', 2)]
    if E.flag('cli_auth'):
        cli['authfile'] = '/myauth'

    def from_file(f, u):
        got['authfile'], got['url'] = f, u
        return ai
    vfs.set_attr(E, Authinfo, 'from_file', staticmethod(from_file))

    async def opened(u, a, *, backend_options=None, max_connections=None, compress=None):
        got.update(opened=u, ai=a, opt=backend_options, conn=max_connections, compress=compress)
        raise Stop()

    def cachedir(d, u):
        got['cache'] = d
        return os.path.join(d, 'x')

    def threads(n):
        got['threads'] = n
    for k, v in (('open_backend', opened), ('open_raw_backend', opened), ('init_cachedir', cachedir),
                 ('is_mounted', lambda u: False), ('setup_logging', lambda **k: None),
                 ('determine_threads', lambda c: 77), ('_determine_max_cache_entries', lambda *a: 5),
                 ('_open_new_file', lambda n: None)):
        if hasattr(mod, k):
            vfs.set_attr(E, mod, k, v)
    from s3ql.backends import comprenc
    vfs.set_attr(E, comprenc.AsyncComprencBackend, 'set_max_threads', staticmethod(threads))
    want_compress = ('bzip2', 3)
    try:
        if name.startswith('adm.'):
            ctx = type('Ctx', (), {})()
            mod._setup(ctx, **cli)
            getattr(mod, name[4:])(ctx, url)
        elif name == 'mount':
            kw = dict(cli)
            if E.flag('cli_compress'):
                kw['compress'] = 'lzma-2'
                want_compress = ('lzma', 2)
            mod.mount(url, '/', fg=True, **kw)
        else:
            getattr(mod, cfg.get('fn', name))(*(cfg.get('args', []) + [url]), **cli)
    except Stop:
        pass
    E.check(got.get('opened') == url and got['ai'] is ai, 'the storage location given is opened with its own settings')
    from s3ql.authinfo import DEFAULT_AUTHFILE
    E.check(got['authfile'] == cli.get('authfile', DEFAULT_AUTHFILE) and got['url'] == url, 'the right file is read')
    E.check(got['cache'] == cli.get('cachedir', '/filecache'), 'cache directory: command line, then file')
    e = got['opt'] if got['opt'] is not None else ai.backend_options
    E.check(e == cli.get('backend_options', 'a=1'), 'backend options: command line, then file')
    e = got['conn'] if got['conn'] is not None else ai.max_connections
    E.check(Eq(e, cli.get('max_connections', ai.max_connections)), 'number of connections: command line, then file')
    w = cli.get('max_threads', ai.max_threads)
    E.check(Eq(got['threads'], 77 if w is None else w), 'number of threads: command line, then file, then computed')
    if got['compress'] is not None:
        E.check((got['compress'].algorithm.value, got['compress'].level) == want_compress, 'compression: command line, then file')


ALL = [k[0] for k in KEYS]
claim('C28', 'sections',
      quick=[dict(sections=2, url=2, keys=ALL[:2]), dict(sections=2, url=1, keys=[ALL[2], ALL[5]]), dict(sections=1, url=1, keys=ALL[:7]),
             dict(sections=2, url=0, keys=[ALL[7], ALL[4]]), dict(sections=2, url=1, keys=ALL[3:4], bad=True)],
      thorough=[dict(sections=3, url=2, keys=ALL[:1]), dict(sections=3, url=1, keys=ALL[5:6], bad=True), dict(sections=3, url=0, keys=ALL[:2])])
claim('C28', 'raw', quick=[dict()])
claim('C28', 'commands', quick=[dict(cmd=c) for c in ('mount', 'fsck', 'mkfs', 'verify', 'adm.passphrase', 'adm.clear', 'adm.recover_key',
                                                     'adm.shrink_db', 'adm.restore_metadata', 'adm.upgrade')])
describe('C28', bounds=['up to 2 (thorough 3) sections with any entries, storage-url entries and locations with up to 3 arbitrary characters '
                        'from slash and lower case letters',
                        'every combination of options given or not on the command line and in the file, for every command'],
         assumptions=['parsing of the file itself (configparser) and of the command line (typer) is not part of the check'])
