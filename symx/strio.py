"""Deterministic stand-in for the parts of trio used by s3ql.

Every scheduling decision is taken by the installed policy: FIFO (single schedule) or the engine
(`E.nd`), in which case all interleavings of the runnable tasks are explored.  A task only loses
control at a checkpoint; checkpoints sit exactly where trio has them (lock/condition acquisition,
waiting, channel operations, sleeping, worker threads, backend I/O).
"""
from __future__ import annotations
import builtins
import types
from contextlib import asynccontextmanager, contextmanager


class Cancelled(BaseException):
    pass


class WouldBlock(Exception):
    pass


class EndOfChannel(Exception):
    pass


class BrokenResourceError(Exception):
    pass


class ClosedResourceError(Exception):
    pass


class TooSlowError(Exception):
    pass


class BusyResourceError(Exception):
    pass


class Deadlock(BaseException):
    """No task can make progress."""


class StepLimit(BaseException):
    pass


class Crash(BaseException):
    """Simulated death of the process."""


@types.coroutine
def _park(abort=None):
    return (yield ('park', abort))


@types.coroutine
def _yield():
    return (yield ('sched', None))


class Task:
    n = 0

    def __init__(self, coro, nursery, name):
        Task.n += 1
        self.id = Task.n
        self.coro = coro
        self.nursery = nursery
        self.name = name or getattr(coro, '__qualname__', str(coro))
        self.scopes = []
        self.abort = None
        self.state = 'runnable'
        self.send = ('v', None)
        self.io = False
        self.wake_time = None

    def __repr__(self):
        return '<%s#%d %s>' % (self.name, self.id, self.state)


class Scheduler:
    def __init__(self, policy=None, max_steps=100000, io_choice=True):
        self.policy = policy          # None = FIFO, else callable(label, n) -> index
        self.runnable = []            # next batch
        self.batch = []
        self.io = []                  # tasks waiting for I/O that may complete at any time
        self.timers = []              # (deadline, seq, fn)
        self.time = 1000.0
        self.steps = 0
        self.max_steps = max_steps
        self.io_choice = io_choice
        self.current = None
        self.step_hook = None
        self.seq = 0
        self.tasks = []

    def spawn(self, coro, nursery=None, name=None):
        t = Task(coro, nursery, name)
        self.tasks.append(t)
        self.runnable.append(t)
        return t

    def reschedule(self, t, send=('v', None)):
        if t.state != 'parked':
            return
        t.state = 'runnable'
        t.abort = None
        if t in self.io:
            self.io.remove(t)
        t.send = send
        self.runnable.append(t)

    def cancel_task(self, t):
        """Deliver pending cancellation to a parked task."""
        if t.state == 'parked' and t.abort is not None:
            t.abort()
            self.reschedule(t, ('x', Cancelled()))

    def pending_cancel(self, t):
        for s in t.scopes:
            if s.cancel_called:
                # shield of an inner scope protects from outer scopes only
                i = t.scopes.index(s)
                if any(x.shield for x in t.scopes[i + 1:]):
                    continue
                return True
        return False

    def add_timer(self, deadline, fn):
        self.seq += 1
        x = [deadline, self.seq, fn, True]
        self.timers.append(x)
        return x

    def pick(self, label, n):
        if n == 1 or self.policy is None:
            return 0
        return self.policy(label, n)

    def run(self, main):
        global SCHED
        prev, SCHED = SCHED, self
        try:
            mt = self.spawn(main, None, 'main')
            while mt.state != 'done':
                self.step()
            if mt.exc is not None:
                raise mt.exc
            return mt.result
        finally:
            SCHED = prev
            for t in self.tasks:
                if t.state != 'done':
                    try:
                        t.coro.close()
                    except BaseException:
                        pass

    def step(self):
        self.steps += 1
        if self.steps > self.max_steps:
            raise StepLimit('scheduler step limit')
        if not self.batch and self.runnable:
            self.batch, self.runnable = self.runnable, []
        cands = list(self.batch)
        ios = list(self.io)
        if not cands and not ios:
            live = sorted(t for t in self.timers if t[3])
            if not live:
                raise Deadlock('all tasks blocked: %s' % [
                    t for t in self.tasks if t.state != 'done'])
            x = live[0]
            x[3] = False
            self.timers = [t for t in self.timers if t[3]]
            self.time = builtins.max(self.time, x[0])
            x[2]()
            return
        if self.policy is None:
            t = cands[0] if cands else ios[0]
        else:
            n = len(cands) + len(ios)
            i = self.pick('sched', n)
            t = (cands + ios)[i]
        if t in self.batch:
            self.batch.remove(t)
        else:
            self.io.remove(t)
            t.state = 'runnable'
            t.abort = None
        self._run_task(t)

    def _run_task(self, t):
        self.current = t
        kind, v = t.send
        t.send = ('v', None)
        try:
            if self.step_hook is not None:
                self.step_hook(t)
            if kind == 'v':
                trap, arg = t.coro.send(v)
            else:
                trap, arg = t.coro.throw(v)
        except StopIteration as e:
            t.state = 'done'
            t.result, t.exc = e.value, None
            if t.nursery is not None:
                t.nursery._child_done(t)
            return
        except Cancelled as e:
            t.state = 'done'
            t.result, t.exc = None, e
            if t.nursery is not None:
                t.nursery._child_done(t)
            return
        except Exception as e:
            t.state = 'done'
            t.result, t.exc = None, e
            if t.nursery is not None:
                t.nursery._child_done(t)
            elif t.name != 'main':
                raise
            return
        finally:
            self.current = None
        if trap == 'sched':
            t.state = 'runnable'
            self.runnable.append(t)
            if arg != 'shielded' and self.pending_cancel(t):
                t.send = ('x', Cancelled())
        elif trap == 'park':
            t.state = 'parked'
            t.abort = arg
            if arg is not None and self.pending_cancel(t):
                self.cancel_task(t)
        elif trap == 'io':
            t.state = 'parked'
            t.abort = None
            self.io.append(t)
        else:
            raise RuntimeError('unknown trap %r' % (trap,))


SCHED = None


@types.coroutine
def _io():
    return (yield ('io', None))


@types.coroutine
def _shielded_yield():
    return (yield ('sched', 'shielded'))


async def io_point():
    """Suspend for an arbitrary time (completion is scheduled like any other event)."""
    if SCHED.io_choice:
        await _io()
    else:
        await _yield()


def run(fn, *args):
    return Scheduler().run(fn(*args))


def current_time():
    return SCHED.time


# ---------------------------------------------------------------------------------- cancel scopes

class CancelScope:
    def __init__(self, *, deadline=float('inf'), shield=False):
        self.cancel_called = False
        self.cancelled_caught = False
        self.shield = shield
        self.deadline = deadline
        self.task = None
        self.timer = None
        self.members = []

    def __enter__(self):
        self.task = SCHED.current
        self.task.scopes.append(self)
        self.members.append(self.task)
        if self.deadline != float('inf'):
            self.timer = SCHED.add_timer(self.deadline, self.cancel)
        return self

    def cancel(self, *a, **kw):
        if self.cancel_called:
            return
        self.cancel_called = True
        for t in list(SCHED.tasks):
            if t.state == 'parked' and self in t.scopes and SCHED.pending_cancel(t):
                SCHED.cancel_task(t)

    def __exit__(self, et, ev, tb):
        self.task.scopes.remove(self)
        if self.timer is not None:
            self.timer[3] = False
        if self.cancel_called and ev is not None:
            if isinstance(ev, Cancelled) and not SCHED.pending_cancel(self.task):
                self.cancelled_caught = True
                return True
            if isinstance(ev, BaseExceptionGroup):
                rest = ev.split(Cancelled)[1]
                if not SCHED.pending_cancel(self.task):
                    if rest is None:
                        self.cancelled_caught = True
                        return True
                    raise rest
        return False


def move_on_after(seconds, **kw):
    return CancelScope(deadline=SCHED.time + seconds)


def move_on_at(t, **kw):
    return CancelScope(deadline=t)


@contextmanager
def fail_after(seconds):
    with move_on_after(seconds) as s:
        yield s
    if s.cancelled_caught:
        raise TooSlowError()


async def sleep(seconds):
    if seconds <= 0:
        await _yield()
        return
    t = SCHED.current
    s = SCHED
    x = s.add_timer(s.time + seconds, lambda: s.reschedule(t))

    def ab():
        x[3] = False
    await _park(ab)


async def sleep_until(t):
    await sleep(t - SCHED.time)


async def sleep_forever():
    await _park(lambda: None)


async def checkpoint():
    await _yield()


# ---------------------------------------------------------------------------------------- nursery

class Nursery:
    def __init__(self):
        self.cancel_scope = CancelScope()
        self.children = []
        self.excs = []
        self.waiter = None

    def start_soon(self, fn, *args, name=None):
        t = SCHED.spawn(fn(*args), self, name or getattr(fn, '__name__', None))
        t.scopes = list(self.parent.scopes) if self.parent else []
        if self.cancel_scope not in t.scopes:
            t.scopes.append(self.cancel_scope)
        self.children.append(t)

    async def start(self, fn, *args, name=None):
        ts = _TaskStatus()
        self.start_soon(lambda *a: fn(*a, task_status=ts), *args, name=name)
        await ts.ev.wait()
        return ts.value

    def _child_done(self, t):
        self.children.remove(t)
        if t.exc is not None and not isinstance(t.exc, Cancelled):
            self.excs.append(t.exc)
            self.cancel_scope.cancel()
        if not self.children and self.waiter is not None:
            w, self.waiter = self.waiter, None
            SCHED.reschedule(w)

    child_tasks = property(lambda self: frozenset(self.children))


class _TaskStatus:
    def __init__(self):
        self.ev = Event()
        self.value = None

    def started(self, value=None):
        self.value = value
        self.ev.set()


class _Ignored:
    def started(self, value=None):
        pass


TASK_STATUS_IGNORED = _Ignored()


@asynccontextmanager
async def open_nursery(**kw):
    n = Nursery()
    n.parent = SCHED.current
    with n.cancel_scope:
        exc = None
        try:
            yield n
        except Cancelled as e:
            exc = e
            n.cancel_scope.cancel() if False else None
        except Exception as e:
            n.excs.append(e)
            n.cancel_scope.cancel()
        # children inherit outer cancellation through their scope list
        while n.children:
            n.waiter = SCHED.current

            def ab():
                n.waiter = None
            try:
                await _park(ab if not n.excs and exc is None else None)
            except Cancelled as e:
                exc = e
        if n.excs:
            raise ExceptionGroup('Exceptions from Trio nursery', n.excs)
        if exc is not None:
            raise exc


# ------------------------------------------------------------------------------------- primitives

class Event:
    def __init__(self):
        self._flag = False
        self._w = []

    def is_set(self):
        return self._flag

    def set(self):
        if not self._flag:
            self._flag = True
            for t in self._w:
                SCHED.reschedule(t)
            self._w = []

    async def wait(self):
        if self._flag:
            await _yield()
            return
        t = SCHED.current
        self._w.append(t)
        await _park(lambda: self._w.remove(t))

    def statistics(self):
        return types.SimpleNamespace(tasks_waiting=len(self._w))


class Lock:
    def __init__(self):
        self._owner = None
        self._w = []

    def locked(self):
        return self._owner is not None

    def acquire_nowait(self):
        t = SCHED.current if SCHED is not None else 'notask'
        if self._owner is t and t is not None:
            raise RuntimeError('attempt to re-acquire an already held Lock')
        if self._owner is None and not self._w:
            self._owner = t
        else:
            raise WouldBlock()

    async def acquire(self):
        t = SCHED.current
        if SCHED.pending_cancel(t):
            await _yield()
        try:
            self.acquire_nowait()
        except WouldBlock:
            self._w.append(t)
            await _park(lambda: self._w.remove(t))
            assert self._owner is t
        else:
            await _shielded_yield()

    def release(self):
        t = SCHED.current if SCHED is not None else 'notask'
        if self._owner is not t:
            raise RuntimeError("can't release a Lock you don't own")
        if self._w:
            n = self._w.pop(0)
            self._owner = n
            SCHED.reschedule(n)
        else:
            self._owner = None

    async def __aenter__(self):
        await self.acquire()

    async def __aexit__(self, *a):
        self.release()


class Condition:
    def __init__(self, lock=None):
        self._lock = lock or Lock()
        self._lot = []

    def locked(self):
        return self._lock.locked()

    def acquire_nowait(self):
        return self._lock.acquire_nowait()

    async def acquire(self):
        await self._lock.acquire()

    def release(self):
        self._lock.release()

    async def __aenter__(self):
        await self._lock.acquire()

    async def __aexit__(self, *a):
        self._lock.release()

    async def wait(self):
        t = SCHED.current
        if self._lock._owner is not t:
            raise RuntimeError('must hold the lock to wait')
        self._lock.release()
        self._lot.append(t)

        def ab():
            if t in self._lot:
                self._lot.remove(t)
            elif t in self._lock._w:
                self._lock._w.remove(t)
        try:
            await _park(ab)
        except BaseException as e:
            if isinstance(e, (Cancelled, Exception)):
                with CancelScope(shield=True):
                    await self._lock.acquire()
            raise

    def _repark(self, n):
        if self._lock._owner is not SCHED.current:
            raise RuntimeError('must hold the lock to notify')
        for _ in range(n):
            if not self._lot:
                break
            self._lock._w.append(self._lot.pop(0))

    def notify(self, n=1):
        self._repark(n)

    def notify_all(self):
        self._repark(len(self._lot))

    def statistics(self):
        return types.SimpleNamespace(tasks_waiting=len(self._lot))


class Semaphore:
    def __init__(self, initial_value, *, max_value=None):
        self._v = initial_value
        self._w = []

    @property
    def value(self):
        return self._v

    def acquire_nowait(self):
        if self._v > 0:
            self._v -= 1
        else:
            raise WouldBlock()

    async def acquire(self):
        if self._v > 0:
            self._v -= 1
            await _shielded_yield()
            return
        t = SCHED.current
        self._w.append(t)
        await _park(lambda: self._w.remove(t))

    def release(self):
        if self._w:
            SCHED.reschedule(self._w.pop(0))
        else:
            self._v += 1

    async def __aenter__(self):
        await self.acquire()
        return self

    async def __aexit__(self, *a):
        self.release()


class CapacityLimiter(Semaphore):
    def __init__(self, n):
        super().__init__(n)
        self.total_tokens = n


# --------------------------------------------------------------------------------------- channels

class _Chan:
    def __init__(self, n):
        self.max = n
        self.data = []
        self.senders = []     # (task, value)
        self.receivers = []
        self.nsend = 0
        self.nrecv = 0


class MemorySendChannel:
    def __class_getitem__(cls, x):
        return cls

    def __init__(self, c):
        self._c = c
        self._closed = False
        c.nsend += 1

    def send_nowait(self, v):
        c = self._c
        if self._closed:
            raise ClosedResourceError()
        if c.nrecv == 0:
            raise BrokenResourceError()
        if c.receivers:
            SCHED.reschedule(c.receivers.pop(0)[0], ('v', ('item', v)))
        elif len(c.data) < c.max:
            c.data.append(v)
        else:
            raise WouldBlock()

    async def send(self, v):
        if SCHED.pending_cancel(SCHED.current):
            await _yield()
        try:
            self.send_nowait(v)
        except WouldBlock:
            pass
        else:
            await _shielded_yield()
            return
        t = SCHED.current
        e = (t, v, self)
        self._c.senders.append(e)
        r = await _park(lambda: self._c.senders.remove(e))
        if r == 'broken':
            raise BrokenResourceError()

    def clone(self):
        if self._closed:
            raise ClosedResourceError()
        return MemorySendChannel(self._c)

    def close(self):
        if self._closed:
            return
        self._closed = True
        c = self._c
        c.nsend -= 1
        for e in list(c.senders):
            if e[2] is self:
                c.senders.remove(e)
                SCHED.reschedule(e[0], ('x', ClosedResourceError()))
        if c.nsend == 0:
            for t, _ in c.receivers:
                SCHED.reschedule(t, ('v', ('eof', None)))
            c.receivers = []

    async def aclose(self):
        self.close()
        await _yield()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        self.close()
        await _yield()

    def statistics(self):
        c = self._c
        return types.SimpleNamespace(current_buffer_used=len(c.data), max_buffer_size=c.max,
                                     tasks_waiting_send=len(c.senders),
                                     tasks_waiting_receive=len(c.receivers))


class MemoryReceiveChannel:
    def __class_getitem__(cls, x):
        return cls

    def __init__(self, c):
        self._c = c
        self._closed = False
        c.nrecv += 1

    def receive_nowait(self):
        c = self._c
        if self._closed:
            raise ClosedResourceError()
        if c.senders:
            t, v, _ = c.senders.pop(0)
            SCHED.reschedule(t)
            c.data.append(v)
            return c.data.pop(0)
        if c.data:
            return c.data.pop(0)
        if c.nsend == 0:
            raise EndOfChannel()
        raise WouldBlock()

    async def receive(self):
        if SCHED.pending_cancel(SCHED.current):
            await _yield()
        try:
            v = self.receive_nowait()
        except WouldBlock:
            pass
        else:
            await _shielded_yield()
            return v
        t = SCHED.current
        e = (t, self)
        self._c.receivers.append(e)
        r = await _park(lambda: self._c.receivers.remove(e))
        if r[0] == 'eof':
            raise EndOfChannel()
        return r[1]

    def clone(self):
        if self._closed:
            raise ClosedResourceError()
        return MemoryReceiveChannel(self._c)

    def close(self):
        if self._closed:
            return
        self._closed = True
        c = self._c
        c.nrecv -= 1
        for e in list(c.receivers):
            if e[1] is self:
                c.receivers.remove(e)
                SCHED.reschedule(e[0], ('x', ClosedResourceError()))
        if c.nrecv == 0:
            for t, v, _ in c.senders:
                SCHED.reschedule(t, ('v', 'broken'))
            c.senders = []
            c.data = []

    async def aclose(self):
        self.close()
        await _yield()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()

    async def __aenter__(self):
        return self

    async def __aexit__(self, *a):
        self.close()
        await _yield()

    def __aiter__(self):
        return self

    async def __anext__(self):
        try:
            return await self.receive()
        except EndOfChannel:
            raise StopAsyncIteration

    statistics = MemorySendChannel.statistics


class _OMC:
    def __call__(self, n):
        c = _Chan(n)
        return MemorySendChannel(c), MemoryReceiveChannel(c)

    def __getitem__(self, x):
        return self


open_memory_channel = _OMC()


# ---------------------------------------------------------------------------------------- threads

class _ToThread:
    #: called as hook(fn, args) instead of fn(*args) when set
    hook = None

    async def run_sync(self, fn, *args, limiter=None, abandon_on_cancel=False, cancellable=False,
                       thread_name=None):
        if limiter is not None:
            await limiter.acquire()
        try:
            await io_point()
            prev = _FromThread.depth
            _FromThread.depth += 1
            try:
                if self.hook is not None:
                    return self.hook(fn, args)
                return fn(*args)
            finally:
                _FromThread.depth = prev
        finally:
            if limiter is not None:
                limiter.release()

    def current_default_thread_limiter(self):
        return CapacityLimiter(40)


class _FromThread:
    depth = 0

    def run_sync(self, fn, *args, trio_token=None):
        return fn(*args)

    def run(self, fn, *args, trio_token=None):
        raise NotImplementedError('from_thread.run')

    def check_cancelled(self):
        pass


to_thread = _ToThread()
from_thread = _FromThread()


class _LowLevel:
    @staticmethod
    def spawn_system_task(fn, *args, name=None, context=None):
        t = SCHED.spawn(fn(*args), None, name)
        return t

    @staticmethod
    def current_task():
        return SCHED.current

    @staticmethod
    def current_trio_token():
        return None

    @staticmethod
    async def checkpoint():
        await _yield()

    @staticmethod
    async def cancel_shielded_checkpoint():
        await _shielded_yield()

    @staticmethod
    async def checkpoint_if_cancelled():
        if SCHED.pending_cancel(SCHED.current):
            await _yield()


lowlevel = _LowLevel()
