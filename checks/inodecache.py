"""C08: the attribute cache never loses a change."""
from symx.registry import harness, claim, describe
from symx import core, vfs
from checks._fsenv import *

PROPERTIES = ['C08']
KINDS = ('get', 'set', 'del', 'flush_id', 'create', 'flush', 'drop')
PER_ID = 4


@harness
def inode_cache(E, cfg):
    from s3ql import inode_cache as IC
    import pyfuse3
    depth, n = cfg['depth'], cfg['ids']
    vfs.set_attr(E, IC, 'CACHE_SIZE', cfg['cache'])
    db = open_db(E)
    model = {}
    at0 = lambda i: dict(mode=E.int('mode%d' % i, 0, 65535), uid=E.int('uid%d' % i, 0, 2 ** 31),
                         gid=E.int('gid%d' % i, 0, 2 ** 31), mtime_ns=E.int('mtime%d' % i, 0, NOW),
                         atime_ns=E.int('atime%d' % i, 0, NOW), ctime_ns=E.int('ctime%d' % i, 0, NOW),
                         refcount=E.int('ref%d' % i, 0, 5), size=E.int('size%d' % i, 0, NOW),
                         rdev=E.int('rdev%d' % i, 0, 99), locked=E.int('locked%d' % i, 0, 1))
    for i in range(3, 3 + n):
        model[i] = at0(i)
        db_add(E, db, 'inodes', True, id=i, **model[i])
    set_seq(E, db, 'inodes', 2 + n)
    ic = IC.InodeCache(db, 7)

    def done():
        for x in list(ic.attrs.values()):
            object.__setattr__(x, 'dirty', False)
        ic.attrs.clear()
        if E.mode == 'replay':
            db.close() if hasattr(db, 'close') else None
    E.cleanups.append(done)
    used = 0                # ids used so far (unused initial inodes are interchangeable)
    gone = set()
    new = 0

    def pick(step):
        lim = min(used + 1, n)
        ids = list(range(3, 3 + lim)) + list(range(3 + n, 3 + n + new))
        return ids

    def verify(i, obj):
        out = []
        for a, v in model[i].items():
            out.append((Eq(getattr(obj, a), v), 'attribute %s read is the one last set' % a))
        out.append((Eq(obj.id, i), 'object belongs to the inode'))
        return out
    held = {}
    for step in range(depth):
        ids = pick(step)
        opts = [(k, i) for k in KINDS[:PER_ID] for i in ids] + [(k, None) for k in KINDS[PER_ID:]]
        if step == depth - 1:
            # a flush or read at the end adds nothing to the final checks
            opts = [o for o in opts if o[0] in ('set', 'del', 'create', 'get')]
        if step == 0 and 'first' in cfg:
            opts = [o for o in opts if o[0] == cfg['first']]
        k, i = opts[E.nd('op%d' % step, len(opts))]
        if i is not None and i < 3 + n:
            used = max(used, i - 2)
        if k in ('get', 'set', 'del') and i in gone:
            try:
                if k == 'del':
                    del ic[i]
                else:
                    ic[i]
                E.check(False, 'deleted inodes stay deleted')
            except KeyError:
                pass
            continue
        if k == 'get':
            E.check_all(verify(i, ic[i]))
        elif k == 'set':
            o = ic[i]
            for a in cfg.get('attrs', ('uid', 'size')):
                v = E.int('new_%s_%d' % (a, step), 0, 2 ** 31)
                setattr(o, a, v)
                model[i][a] = v
        elif k == 'del':
            del ic[i]
            gone.add(i)
        elif k == 'flush_id':
            ic.flush_id(i)
        elif k == 'create':
            v = dict(mode=1, uid=E.int('cuid%d' % step, 0, 2 ** 31), gid=2, mtime_ns=3, atime_ns=4, ctime_ns=5,
                     refcount=1, size=E.int('csize%d' % step, 0, 2 ** 31), rdev=0)
            o = ic.create_inode(**v)
            v['locked'] = 0
            j = 3 + n + new
            new += 1
            model[j] = v
            E.check_all(verify(j, o))
        elif k == 'flush':
            ic.flush()
            compare(E, db, model, gone)
        elif k == 'drop':
            ic.drop()
            compare(E, db, model, gone)
    if E.nd('end', 2):
        for i in model:
            if i not in gone:
                E.check_all(verify(i, ic[i]))
                a = ic[i].entry_attributes()
                E.check(And(Eq(a.st_size, model[i]['size']), Eq(a.st_uid, model[i]['uid']), Eq(a.st_ino, i)),
                        'attributes reported are the ones last set')
    ic.flush()
    compare(E, db, model, gone)
    E.observe('db', Rows(E, 'inodes', db_rows(E, db, 'inodes')))


def compare(E, db, model, gone):
    rows = db_rows(E, db, 'inodes')
    out = []
    for g, r in rows:
        out.append((Implies(g, Or([Eq(r['id'], i) for i in model if i not in gone] + [Eq(r['id'], 1), Eq(r['id'], 2)])),
                    'nothing is stored for deleted inodes'))
    for i, v in model.items():
        if i in gone:
            continue
        out.append((Or([And(g, Eq(r['id'], i)) for g, r in rows]), 'existing inodes are stored'))
        for g, r in rows:
            if r['id'] is i or r['id'] == i:
                for a, x in v.items():
                    out.append((Implies(g, Eq(r[a], x)), 'stored attribute %s is current after flush' % a))
    E.check_all(out)


FIRST = ('get', 'set', 'del', 'create')
claim('C08', 'inode_cache',
      quick=[dict(ids=3, cache=2, depth=4, first=f) for f in FIRST] + [dict(ids=2, cache=1, depth=4, first=f) for f in FIRST]
      + [dict(ids=2, cache=1, depth=2, attrs=['mode', 'gid', 'mtime_ns', 'atime_ns', 'ctime_ns', 'refcount', 'rdev', 'locked'])],
      thorough=[dict(ids=3, cache=2, depth=5, first=f) for f in FIRST] + [dict(ids=4, cache=3, depth=5, first=f) for f in FIRST])
describe('C08', bounds=['any sequence of 4 (thorough 5) get/modify/create/delete/flush/drop operations on 2-4 inodes '
                        'with a cache of 1-3 slots, arbitrary attribute values'],
         assumptions=['callers use an inode object only until the next cache operation (documented contract)'])
