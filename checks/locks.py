"""Per-block locks: C12."""
from symx.registry import harness, claim, describe
from symx import core, strio
from symx.core import And, Or, Not
from checks._cachesim import DelayPolicy, FreePolicy

PROPERTIES = ['C12']


@harness
def locks(E, cfg):
    """Tasks that acquire, try, cancel and release locks, under every schedule within the bounds."""
    from s3ql.multi_lock import MultiLock
    n, nk = cfg['tasks'], cfg['keys']
    kinds = [cfg['kinds'][E.nd('kind', len(cfg['kinds']))] for _ in range(n)]
    # symmetric: tasks are numbered by the order in which they first use a key
    keys = []
    for i in range(n):
        keys.append(E.nd('key', min(nk, 1 + (max(keys) + 1 if keys else 0))))
    victim = E.nd('victim', n + 1) if cfg['cancel'] else n
    when = E.nd('when', cfg['when']) if victim < n else 0
    held = {}
    scopes = {}
    started = set()
    stuck = []

    async def main():
        lock = MultiLock()
        go = strio.Event()

        def got(i, k):
            E.check(k not in held, 'at most one task holds a lock', lambda: '%s and %s: %s' % (held.get(k), i, k))
            held[k] = i

        def drop(i, k):
            E.check(held.get(k) == i, 'lock is held until released')
            del held[k]

        async def task(i):
            k, kind = keys[i], kinds[i]
            with strio.CancelScope() as sc:
                scopes[i] = sc
                started.add(i)
                if kind == 'with':
                    async with lock(k):
                        got(i, k)
                        try:
                            await strio.checkpoint()
                        finally:
                            drop(i, k)
                elif kind == 'forever':
                    # holds the lock for as long as anybody else wants a different one
                    await lock.acquire(k)
                    got(i, k)
                    try:
                        await go.wait()
                    finally:
                        drop(i, k)
                        await lock.release(k)
                elif kind == 'other':
                    # released by a different task
                    await lock.acquire(k)
                    got(i, k)

                    async def release():
                        await strio.checkpoint()
                        drop(i, k)
                        await lock.release(k)
                    nursery.start_soon(release)
                elif kind == 'try':
                    steps = strio.SCHED.steps
                    r = lock.acquire_nowait(k)
                    E.check(strio.SCHED.steps == steps, 'a non-blocking attempt never waits')
                    if r:
                        got(i, k)
                        try:
                            await strio.checkpoint()
                        finally:
                            drop(i, k)
                            await lock.release(k)
                    else:
                        E.witness('attempt failed')

        async def canceller():
            for _ in range(when):
                await strio.checkpoint()
            if victim in scopes:
                scopes[victim].cancel()
                E.witness('cancelled')

        async with strio.open_nursery() as outer:
            # everything but the permanent holders has to finish while they hold their locks
            async with strio.open_nursery() as nursery:
                order = list(range(n))
                fk = [keys[i] for i in order if kinds[i] == 'forever']
                if fk:
                    E.assume(len(set(fk)) == len(fk))
                for i in order:
                    if keys[i] in fk:
                        outer.start_soon(task, i)
                    else:
                        nursery.start_soon(task, i)
                if victim < n:
                    nursery.start_soon(canceller)
            go.set()
        for k in range(nk):
            E.check(lock.acquire_nowait(k), 'locks are released in the end')
        E.witness('finished')
    sched = strio.Scheduler(FreePolicy(E) if cfg['delays'] is None else DelayPolicy(E, cfg['delays']), max_steps=3000)
    try:
        sched.run(main())
    except (strio.Deadlock, strio.StepLimit) as e:
        E.check(False, 'a waiting task eventually gets a released lock', lambda: repr(e))
    except (RuntimeError, KeyError, AttributeError, ExceptionGroup) as e:
        E.check(False, 'no internal error', lambda: repr(e))
    E.observe('held', sorted(held))


def cfg(tasks, kinds, delays, keys=2, cancel=True, when=8):
    return dict(p='C12', tasks=tasks, kinds=kinds, delays=delays, keys=keys, cancel=cancel, when=when)


claim('C12', locks,
      quick=[cfg(3, ['with'], 1), cfg(3, ['with', 'try'], 1, when=6), cfg(2, ['with', 'try', 'forever'], 2),
             cfg(2, ['with', 'other'], 2, cancel=False), cfg(3, ['with', 'forever'], 1, cancel=False), cfg(4, ['with', 'forever'], 1, cancel=False), cfg(3, ['with', 'forever'], 1),
             cfg(4, ['with'], 0, keys=1), cfg(2, ['with', 'try'], None, keys=1, cancel=False)],
      thorough=[cfg(3, ['with'], 2), cfg(3, ['with', 'try'], 2, when=7), cfg(4, ['with'], 1, when=9), cfg(2, ['with', 'try', 'forever'], 3, when=10),
                cfg(3, ['with', 'other', 'try'], 2, cancel=False), cfg(2, ['with'], None, keys=1)])
describe('C12', bounds=['up to 4 tasks and 2 keys, one cancellation at any point, up to 2 (3) deviations from first-come-first-served scheduling, all schedules for 2 tasks'])
