"""Serialisation of mappings (C24)."""
from symx.registry import harness, claim, describe
from symx import core, strio, vfs, text
from symx.core import And, Or, Not, Implies, Iff, Ite, Eq
from checks._cachesim import vals, mkbytes

PROPERTIES = ['C24']

NUMBERS = [None, True, False, 0, 1, -1, 12, 2 ** 64, 0.0, 1.0, 1.5, -0.0, 0j, 1j]


# --------------------------------------------------------------------------------------------------
# authenticated form

class Collect:
    """Stands for the hash function: the digest is what was hashed."""
    digest_size = 16

    def __init__(self, data=b'', key=None, **kw):
        self.v, self.key = list(vals(data)), key

    def update(self, b):
        self.v += vals(b)

    def digest(self):
        return self

    hexdigest = digest


class Hashes:
    md5 = sha256 = Collect

    def __getattr__(self, n):
        import hashlib
        return getattr(hashlib, n)


class Hmac:
    @staticmethod
    def new(key, msg=None, digestmod=None):
        return Collect(msg or b'', key)

    def __getattr__(self, n):
        import hmac
        return getattr(hmac, n)


def chars(E, name, n, ascii_=True):
    return [E.int('%s%d' % (name, i), 1 if ascii_ else 0, 127 if ascii_ else 255) for i in range(n)]


def mkstr(E, c):
    return text.SymChars.make(c) if E.mode == 'sym' else ''.join(map(chr, c))


def mapping(E, cfg, name, budget):
    """a mapping with a bounded number of characters in total"""
    m = []
    n = E.nd(name + 'n', cfg['entries'] + 1)
    for i in range(n):
        kl = E.nd(name + 'keylen', min(budget, cfg['keylen']) + 1)
        budget -= kl
        key = chars(E, '%sk%d_' % (name, i), kl)
        kind = E.nd(name + 'kind', 3)
        if kind == 0:
            vl = E.nd(name + 'len', budget + 1)
            budget -= vl
            m.append((key, 's', chars(E, '%sv%d_' % (name, i), vl)))
        elif kind == 1:
            vl = E.nd(name + 'len', budget + 1)
            budget -= vl
            m.append((key, 'b', chars(E, '%sv%d_' % (name, i), vl, False)))
        else:
            m.append((key, 'x', NUMBERS[E.nd(name + 'number', len(NUMBERS)) if cfg.get('all') else cfg.get('few', (0, 1, 6, 11))[E.nd(name + 'number', len(cfg.get('few', (0, 1, 6, 11))))]]))
    return m


def keq(a, b):
    return And([len(a) == len(b)] + [Eq(x, y) for x, y in zip(a, b)])


def entry_eq(a, b):
    if a[1] != b[1]:
        return False
    if a[1] == 'x':
        v = type(a[2]) is type(b[2]) and repr(a[2]) == repr(b[2])
    else:
        v = keq(a[2], b[2])
    return And(keq(a[0], b[0]), v)


def real(E, m):
    return {mkstr(E, k): (v if t == 'x' else mkstr(E, v) if t == 's' else mkbytes(E, v)) for k, t, v in m}


@harness
def checksum(E, cfg):
    from s3ql.backends import common
    text.reset()
    vfs.set_attr(E, common, 'hashlib', Hashes())
    vfs.set_attr(E, common, 'hmac', Hmac())
    key = (None, b'secret')[E.nd('key', 2)] if cfg.get('keyed') else None
    a, b = mapping(E, cfg, 'a', cfg['budget']), mapping(E, cfg, 'b', cfg['budget'])
    for m in (a, b):
        for i in range(len(m)):
            for j in range(i):
                E.assume(Not(keq(m[i][0], m[j][0])))
    da, db = real(E, a), real(E, b)
    if cfg.get('signed'):
        db['signature'] = b'123'
    ca, cb = (common.checksum_basic_mapping(d, key) for d in (da, db))
    E.check(ca.key == key and cb.key == key, 'the key is used')
    same_form = And([len(ca.v) == len(cb.v)] + [Eq(x, y) for x, y in zip(ca.v, cb.v)])
    if len(a) != len(b):
        same = False
    elif len(a) <= 1:
        same = And([entry_eq(x, y) for x, y in zip(a, b)])
    else:
        same = Or(And(entry_eq(a[0], b[0]), entry_eq(a[1], b[1])), And(entry_eq(a[0], b[1]), entry_eq(a[1], b[0])))
    E.witness(len(ca.v) == len(cb.v))
    E.check(Implies(same_form, same), 'different mappings have different authenticated forms', lambda: '%r %r' % (da, db))
    E.check(Implies(same, same_form), 'equal mappings have the same authenticated form', lambda: '%r %r' % (da, db))


claim('C24', checksum, quick=[dict(entries=2, keylen=1, budget=2, keyed=0, few=(0, 6)), dict(entries=1, keylen=3, budget=4, keyed=1, all=1),
                              dict(entries=1, keylen=1, budget=2, signed=1)],
      thorough=[dict(entries=2, keylen=2, budget=3, keyed=0), dict(entries=1, keylen=4, budget=7, keyed=1, all=1)])


# --------------------------------------------------------------------------------------------------
# serialised form

NAMES = ['a', '', "it's", '"', '\\', '\n', 'x: 1, ', '\u20ac', 'signature', '\0']
VALUES = NUMBERS + [-2 ** 70, 1e300, 1e-9, 1 - 2j, '', "it's \"quoted\"", '\\x41', '\0', '\u20ac\U0001f600', b'', b'\0\xff', bytes(range(256)),
                    b"'", ' }', "b'YQ=='"]


def same(a, b):
    return list(sorted(a)) == list(sorted(b)) and all(type(a[k]) is type(b[k]) and repr(a[k]) == repr(b[k]) for k in b)


@harness
def freeze(E, cfg):
    from s3ql import common, database
    text.install(E)
    d = {}
    for i in range(E.nd('entries', cfg['entries'] + 1)):
        k = NAMES[E.nd('name', len(NAMES))] if i == 0 else 'b%d' % i
        if i == 0 and E.nd('text', 2):
            n = E.int('len', 0, 10 ** 6)
            v = text.text([('a', n)]) if E.mode == 'sym' else 'a' * n
        else:
            v = VALUES[E.nd('value', len(VALUES))]
        d[k] = v
    buf = common.freeze_basic_mapping(d)
    E.check(isinstance(buf, bytes), 'serialised form consists of bytes')
    got = common.thaw_basic_mapping(buf)
    E.witness('frozen')
    E.check(same({k: str(v) if isinstance(v, str) else v for k, v in got.items()},
                 {k: str(v) if isinstance(v, str) else v for k, v in d.items()}), 'mapping is reconstructed', lambda: '%r %r' % (got, d))


claim('C24', freeze, quick=[dict(entries=2)])


@harness
def superblock(E, cfg):
    from s3ql import database
    text.install(E)
    nums = {k: E.choice(k, 3) for k in ('seq', 'gen')}
    label = ('<unnamed>', "it's", '\u20ac"')[E.choice('label', 3)]
    p = database.FsAttributes(data_block_size=2 ** 20, metadata_block_size=2 ** 16, seq_no=nums['seq'] * 2 ** 33, db_size=nums['gen'],
                              label=label, needs_fsck=E.flag('needs_fsck'), is_mounted=E.flag('is_mounted'), inode_gen=nums['gen'],
                              last_fsck=1.5, last_modified=1e9 + 0.1, db_md5='abc')
    buf = p.serialize()
    ms = E.choice('min_seq', 3)
    try:
        q = database.FsAttributes.deserialize(buf, min_seq=ms * 2 ** 33 if ms else None)
    except database.OutdatedData:
        q = None
    E.witness(q is None)
    if q is None:
        E.check(ms > nums['seq'], 'outdated superblock is rejected')
    else:
        E.check(ms <= nums['seq'], 'outdated superblock is rejected')
        E.check(q == p and all(type(getattr(p, f)) is type(getattr(q, f)) for f in vars(p)), 'superblock is reconstructed', lambda: repr(q))
    for rev, code in ((database.CURRENT_FS_REV - 1, 32), (database.CURRENT_FS_REV + 1, 33)):
        q = p.copy()
        q.revision = rev
        try:
            database.FsAttributes.deserialize(q.serialize())
            r = None
        except Exception as e:
            r = getattr(e, 'exitcode', repr(e))
        E.check(r == code, 'other file system revisions are rejected', lambda: str(r))


claim('C24', superblock, quick=[dict()])


# --------------------------------------------------------------------------------------------------
# malformed input

GARBAGE = [b'[]', b'()', b'{1}', b'set()', b'7', b'None', b'"x"', b'{1: 2}', b'{None: 1}', b'{b"a": 1}', b'{"a": [1]}', b'{"a": {}}',
           b'{"a": (1,)}', b'{"a": {1}}', b'{[]: 1}', b'{{}: 1}', b'{"a": ...}', b'{**{}}', b'{"a": f"x"}', b'{"a": open("/dev/null")}',
           b'{"a": __import__("os")}', b'{"a": 1 for a in ""}', b'{"a": 1, **{"b": 2}}', b'{"a": b"x"}', b'{"a": b"YQ="}', b'', b'{', b'}',
           b'\xff', b'{"a": "\xff"}', b'\0', b'{"a": 1}\0', b'(' * 300 + b')' * 300, b'-' * 30000 + b'1', b'{"a": ' + b'[' * 200 + b']' * 200 + b'}',
           b' {"a": 1}', b'{"a": 1} + {}', b'{"a": -1}', b'{"a": 1+1}', b'{"a": "b" "c"}', b'a', b'{a: 1}', b'{"a": True and 1}']


@harness
def thaw(E, cfg):
    from s3ql.common import thaw_basic_mapping, ThawError, freeze_basic_mapping
    what = cfg['what']
    if what == 'garbage':
        buf = GARBAGE[E.nd('buffer', len(GARBAGE))]
        orig = None
    else:
        orig = [{'a': 'x', 'b': b'\0\1\2'}, {'k': 7, 'l': None}, {'x': -1.5, 'y': 1j, 'z': True}][E.nd('mapping', 3)]
        buf = freeze_basic_mapping(orig)
        if what == 'cut':
            i = E.choice('from', len(buf) + 1)
            j = E.choice('to', len(buf) + 1)
            E.assume(i <= j)
            buf = buf[i:j]
        elif what == 'char':
            p = E.choice('position', len(buf))
            buf = buf[:p] + bytes([cfg['chars'][E.choice('char', len(cfg['chars']))]]) + buf[p + 1:]
        else:
            p, q = E.choice('position', len(buf)), E.choice('position', len(buf))
            E.assume(p < q)
            buf = buf[:p] + buf[q:q + 1] + buf[p + 1:q] + buf[p:p + 1] + buf[q + 1:]
    try:
        r = thaw_basic_mapping(buf)
    except ThawError:
        r = None
    except Exception as e:
        E.check(False, 'malformed input is reported with the documented error', lambda: '%r: %r' % (buf, e))
        return
    E.witness(r is None)
    E.observe('r', repr(r))
    if r is not None:
        E.check(isinstance(r, dict) and all(isinstance(k, str) and (v is None or isinstance(v, (str, bytes, int, float, complex)))
                                            for k, v in r.items()), 'nothing but mappings of names to elementary values is accepted',
                lambda: '%r: %r' % (buf, r))


claim('C24', thaw, quick=[dict(what='garbage'), dict(what='cut'), dict(what='swap'), dict(what='char', chars=list(b'\'"{}[](),:b1 \\.\xff\0'))],
      thorough=[dict(what='char', chars=list(range(256)))])
describe('C24', bounds=['authenticated form: two mappings of up to 2 entries with up to 2 (one entry: 4) arbitrary characters or bytes; serialised '
                        'form: two entries with names and values that need quoting and texts of any length up to 10^6; malformed input: every '
                        'part of three serialised mappings, every exchange of two characters, every replacement of one character, and 43 '
                        'other expressions'],
         assumptions=['hash functions are injective', 'repr() and literal_eval() of Python are trusted', 'floats are finite'])
