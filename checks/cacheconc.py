"""Block cache under concurrency: C09, C10, C11."""
from symx.registry import harness, claim, describe
from checks._cachesim import *

PROPERTIES = ['C09', 'C10', 'C11']


@harness
def cache_ops(E, cfg):
    from s3ql import block_cache as BC
    sim = Sim(E, cfg)
    p = cfg['p']
    logs = [[] for _ in cfg['prog']]
    state = {}
    sched = strio.Scheduler(DelayPolicy(E, cfg.get('delays', 2)), max_steps=3000)

    async def main():
        async with strio.open_nursery() as n0:
            sim.cache = c = await BC.BlockCache.create(sim.backend, sim.db, sim.cdir, cfg.get('max_size', 100),
                                                       cfg.get('max_entries', 100), nursery=n0)
            c.fs = FsStub()
            pre = []
            await sim.client(cfg.get('pre', ''), pre)
            for o in pre:
                apply(sim.model, o)
            async with strio.open_nursery() as n1:
                for prog, log in zip(cfg['prog'], logs):
                    n1.start_soon(sim.client, prog, log)
            state['quiet'] = True
            check_quiet(E, sim, p)
            await c.flush()
            if p == 'C09':
                E.check(not any(el.dirty for el in c.cache.values()), 'nothing is left unsaved after a flush')
            final = {}
            for k in {(3, 0), (3, 1), (4, 0)}:
                final[k] = sim.content(*k)
            state['final'] = final
            if cfg.get('drop', True):
                await c.drop()
                E.check(len(c.cache) == 0 and c.cache.size == 0, 'dropping empties the cache') if p == 'C11' else None
                again = {k: sim.content(*k) for k in final}
                state['again'] = again
            await c.destroy()
        state['done'] = True
    try:
        sched.run(main())
        out = 'ok'
    except Fault:
        out = 'fault'
    except strio.Deadlock:
        out = 'deadlock'
    except strio.StepLimit:
        out = 'steps'
    except ExceptionGroup as e:
        out = 'fault' if all_faults(e) else 'error %r' % e
    except Exception as e:
        out = 'error %s: %s' % (type(e).__name__, e)
    E.witness(out.split()[0])
    faulty = bool(sim.backend.failed)
    if p == 'C09':
        E.check(out == 'ok' or (faulty and out == 'fault'), 'no crash and no deadlock', lambda: out)
        if out == 'ok':
            E.check(not sim.lost, 'no stored object is missing', lambda: str(sim.lost))
            E.check(explain(sim.model, logs, state['final']), 'contents are explained by some order of the requests',
                    lambda: '%s %s' % (logs, state['final']))
            if 'again' in state:
                E.check(explain(sim.model, logs, state['again']), 'stored contents are the ones last written')
        elif out == 'fault':
            unsaved(E, sim, logs)
    if p == 'C10' and out in ('ok', 'fault'):
        stored(E, sim, out)
    E.observe('out', out.split()[0])
    E.observe('objects', sorted(sim.backend.objects))
    E.observe('deleted', sim.backend.deleted)


def check_quiet(E, sim, p):
    """No request is active (uploads may be)."""
    c = sim.cache
    if p == 'C11':
        n = sum(core.symlen(sim.file(el)) for el in c.cache.values())
        E.check(Eq(c.cache.size, n), 'cache size is the sum of the cached blocks')
        u = c.get_usage()
        dirty = [el for el in c.cache.values() if el.dirty]
        E.check(And(Eq(u[0], len(list(c.cache.values()))), Eq(u[1], n), Eq(u[2], len(dirty)),
                    Eq(u[3], sum(core.symlen(sim.file(el)) for el in dirty))), 'cache usage is reported correctly')
        import re
        if sim.E.mode == 'sym':
            names = [f for f in sim.v.files if f.startswith('/cache/')]
        else:
            names = os.listdir(sim.cdir)
        E.check(len(names) == len(c.cache), 'cache directory holds exactly the cached blocks')


def unsaved(E, sim, logs):
    """After a failed transfer: data that was not stored is still in the cache and marked."""
    c = sim.cache
    for k in {(3, 0), (3, 1), (4, 0)}:
        el = c.cache.get(k, None)
        row = [r for r in sim.rows('inode_blocks') if (core.concretize(r['inode']), core.concretize(r['blockno'])) == k]
        if el is not None and not el.dirty:
            d = vals(sim.file(el))
            E.check(bool(row) or not d, 'unmodified cached block is stored')
            if row:
                key = 's3ql_data_%d' % core.concretize(row[0]['obj_id'])
                E.check(key in sim.backend.objects, 'block marked as saved is in storage')
                if key in sim.backend.objects:
                    E.check(And([Eq(x, y) for x, y in zip(d, vals(sim.backend.objects[key]))] +
                                [len(d) == len(vals(sim.backend.objects[key]))]), 'block marked as saved is what was stored')
        if el is None and row:
            key = 's3ql_data_%d' % core.concretize(row[0]['obj_id'])
            E.check(key in sim.backend.objects, 'block that is not cached is in storage')
    # every block has contents explained by some order of the completed requests and possibly the unfinished ones
    for k in {(3, 0), (3, 1), (4, 0)}:
        ops = [o for l in logs for o in l if o[1] == k]
        cur = sim.content(*k)
        if cur is None:
            E.check(False, 'contents survive a failed transfer')
        else:
            el = c.cache.get(k, None)
            if not ops and not unfinished(sim, logs, k):
                w = sim.model.get(k, [])
                n = max(len(w), len(cur))
                E.check(And([Eq(x, y) for x, y in zip(cur + [0] * (n - len(cur)), w + [0] * (n - len(w)))]),
                        'contents survive a failed transfer')


def unfinished(sim, logs, k):
    for prog, log in zip(sim.cfg['prog'], logs):
        mine = [c for c in prog.split() if c[0] in 'WRTX']
        for c in mine[len(log):]:
            if c[0] != 'R' and (int(c[1]), int(c[2])) == k:
                return True
    return False


def stored(E, sim, out):
    rows = {core.concretize(r['id']): r for r in sim.rows('objects')}
    blocks = sim.rows('inode_blocks')
    refs = {}
    for r in blocks:
        o = core.concretize(r['obj_id'])
        refs[o] = refs.get(o, 0) + 1
    if out == 'ok':
        E.check(set(refs) == set(rows), 'objects are recorded exactly if a block refers to them',
                lambda: '%s %s' % (refs, rows))
    E.check(set(refs) <= set(rows), 'every block refers to a recorded object')
    for o, r in rows.items():
        if out == 'ok':
            E.check(Eq(r['refcount'], refs.get(o, 0)), 'object reference count')
        elif o not in refs:
            continue
        key = 's3ql_data_%d' % o
        if r['hash'] is not None and (out == 'ok' or core.concretize(r['phys_size']) != -1):
            E.check(key in sim.backend.objects, 'recorded object exists in storage', lambda: key)
            if key in sim.backend.objects:
                d = vals(sim.backend.objects[key])
                E.check(And(Eq(r['length'], len(d)), Eq(r['phys_size'], len(d) + 1000)), 'recorded sizes are correct')
                E.check(Eq(r['hash'], sim.sha(d)), 'recorded checksum is correct')
    if out == 'ok':
        keys = {'s3ql_data_%d' % o for o in rows}
        E.check(set(sim.backend.objects) <= keys, 'no unreferenced object remains in storage',
                lambda: str(set(sim.backend.objects) - keys))
        hs = [r['hash'] for r in rows.values() if r['hash'] is not None]
        for i, h in enumerate(hs):
            for g in hs[:i]:
                E.check(Not(Eq(h, g)), 'equal blocks share one object')


INIT = '30=a 31=a 40=b'
PAIRS = [('W30', 'F'), ('W30', 'D'), ('W30', 'W31'), ('W30', 'X30'), ('W30 X30', 'F'), ('W40', 'X30'), ('W30', 'R30'),
         ('R30', 'D'), ('R30', 'X31'), ('T301', 'F'), ('W301', 'D'), ('R31', 'W30'), ('X30', 'X31'), ('X40', 'W30'),
         ('W30 W30', 'F'), ('W30', 'U'), ('U', 'F'), ('T300', 'D'), ('W30 F', 'W31 F'), ('W30', 'S3')]
QUICK = [dict(prog=p, init=INIT, pre=pre, delays=2) for p in PAIRS for pre in ('', 'W30')
         if not (pre == '' and p[1] in ('W31 F',))]
# a cache with room for one block only: every access evicts
TIGHT = [dict(prog=p, init=INIT, pre=pre, delays=1, max_entries=1, max_size=2) for p in
         [('W30', 'W40'), ('R30', 'W31'), ('W30 R31', 'R40'), ('W30', 'X31'), ('W30 W31', 'F')] for pre in ('', 'W30 R31')]
# failing transfers
FAULTY = [dict(prog=p, init=INIT, pre=pre, delays=1, faults=1) for p in
          [('W30', 'F'), ('W30', 'D'), ('R30', 'W30'), ('W30', 'W31'), ('R31', 'D'), ('W30 F', 'R31')] for pre in ('', 'W30')]


def cl(p):
    q = QUICK + TIGHT + (FAULTY if p != 'C11' else [])
    claim(p, 'cache_ops', quick=[dict(c, p=p) for c in q],
          thorough=[dict(c, p=p, delays=c['delays'] + 1, conns=k) for c in q for k in (1, 2)])


for _p in PROPERTIES:
    cl(_p)
for _p in PROPERTIES:
    describe(_p, bounds=['2 files with up to 2 blocks, block contents symbolic up to equality, one upload and one removal worker '
                         '(thorough also 2), programs of up to 2 concurrent requests of 1-2 steps after an optional prefix: write, read, '
                         'truncate, remove, flush, drop, upload, size change',
                         'schedules: all with at most 2 (with evictions or faults 1; thorough one more) deviations from run-to-block order',
                         'faults: any one storage request fails; evictions: cache with room for one block'],
             assumptions=['a task is only preempted where the code awaits something or runs in a worker thread',
                          'SHA-256 is injective'])
