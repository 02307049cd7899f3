"""Deterministic simulated world for xoscar.

One OS thread hosts a whole cluster.  `SimLoop` is an asyncio event loop whose
*only* sources of nondeterminism are decided by an `Execution` object:

  * which pending external event (delivery of bytes on one direction of one
    connection, connection establishment, end of stream, completion of a job
    handed to a worker thread, a fault or a user action armed by the scenario)
    happens next, and whether it happens while callbacks are still ready;
  * whether a timer fires before pending events.

Callbacks that are ready run in FIFO order, which asyncio guarantees.  Time is
virtual.  Several simulated *processes* (`Proc`) share the loop; per-process
global state of xoscar (global router, map of local pools, actor context) is
swapped whenever a callback of another process runs, so objects of one process
never see those of another, and a process can be killed at any choice point.
"""
import asyncio
import collections
import contextvars
import gc
import itertools
import logging
import sys
import time
import types
import weakref
from asyncio import events

PROC = contextvars.ContextVar("verif_proc", default=None)


class SimHang(Exception):
    """Nothing can happen any more (or the horizon was reached), but the driver is not done."""


class ReplayDivergence(Exception):
    pass


class Execution:
    """One schedule: a prefix of choices, default 0 afterwards."""

    __slots__ = ("prefix", "expect", "points", "trace", "obs", "explore", "max_points", "capped")

    def __init__(self, prefix=(), expect=None, max_points=100000):
        self.prefix = list(prefix)
        self.expect = expect
        self.points = []  # (number of options, chosen, labels)
        self.obs = []  # observations of the scenario
        self.explore = False
        self.max_points = max_points
        self.capped = False

    def choose(self, labels):
        n = len(labels)
        if n <= 1 or not self.explore:
            return 0
        pos = len(self.points)
        if pos >= self.max_points:
            self.capped = True
            return 0
        if pos < len(self.prefix):
            c = self.prefix[pos]
            if c >= n:
                raise ReplayDivergence("choice %d of %r at point %d" % (c, labels, pos))
        else:
            c = 0
        if self.expect is not None and pos < len(self.expect):
            if self.expect[pos] != labels:
                raise ReplayDivergence(
                    "point %d: expected %r, got %r" % (pos, self.expect[pos], labels)
                )
        self.points.append((n, c, labels))
        return c


class _SimHandle(events.Handle):
    __slots__ = ()

    def _run(self):
        p = self._context.get(PROC)
        loop = self._loop
        if p is not None:
            if p.dead:
                return
            if loop._cur is not p:
                loop._switch(p)
        return events.Handle._run(self)


class _SimTimer(events.TimerHandle):
    __slots__ = ()

    def _run(self):
        p = self._context.get(PROC)
        loop = self._loop
        if p is not None:
            if p.dead:
                return
            if loop._cur is not p:
                loop._switch(p)
        return events.Handle._run(self)


class SimTask(asyncio.Task):
    # deterministic iteration order of sets of tasks
    def __hash__(self):
        try:
            return self._vseq
        except AttributeError:
            loop = self.get_loop()
            self._vseq = next(loop._seq)
            return self._vseq


class SimFuture(asyncio.Future):
    def __hash__(self):
        try:
            return self._vseq
        except AttributeError:
            loop = self.get_loop()
            self._vseq = next(loop._seq)
            return self._vseq


class Event:
    __slots__ = ("label", "fire", "ready", "loop", "opt")

    def __init__(self, loop, label, fire, ready=None, opt=False):
        self.loop = loop
        self.opt = opt
        self.label = label
        self.fire = fire
        self.ready = ready

    def cancel(self):
        try:
            self.loop.events.remove(self)
        except ValueError:
            pass


class _Selector:
    def __init__(self, loop):
        self.loop = loop

    def select(self, timeout):
        self.loop._env(timeout)
        return []

    def close(self):
        pass


class Proc:
    def __init__(self, loop, name):
        self.loop = loop
        self.name = name
        self.dead = False
        self.frozen = False  # alive, but does not read anything
        self.lingering = False  # does not exit by itself or at SIGTERM
        self.exiting = False
        self.router = None
        self.pools = []
        self.transports = []
        self.servers = []
        self.tasks = weakref.WeakSet()
        self.returncode = None
        self.exit_waiters = []
        self.context = None
        self.ctx = contextvars.copy_context()
        self.ctx.run(PROC.set, self)

    def spawn(self, coro, name=None):
        return self.loop.create_task(coro, name=name, context=self.ctx.copy())

    def call(self, fn, *args):
        """Run fn synchronously as this process."""
        loop = self.loop
        old = loop._cur
        loop._switch(self)
        try:
            return self.ctx.copy().run(fn, *args)
        finally:
            if old is not None:
                loop._switch(old)

    def kill(self, returncode=-9, reset=False):
        if self.dead:
            return
        self.dead = True
        self.returncode = returncode
        for s in self.servers:
            s.close()
        for t in self.transports:
            t._die(reset)
        self.transports = []
        for f in self.exit_waiters:
            if not f.done():
                f.set_result(returncode)
        self.exit_waiters = []


class SimProcessHandle:
    """What asyncio.create_subprocess_exec would have returned."""

    _pids = itertools.count(99999999)

    def __init__(self, proc):
        self._proc = proc
        self.pid = 99999999

    @property
    def returncode(self):
        return self._proc.returncode

    async def wait(self):
        if self._proc.returncode is not None:
            return self._proc.returncode
        f = asyncio.get_running_loop().create_future()
        self._proc.exit_waiters.append(f)
        return await f

    def kill(self):
        if self._proc.dead:
            raise ProcessLookupError()
        self._proc.kill(-9)

    def terminate(self):
        if self._proc.dead:
            raise ProcessLookupError()
        if self._proc.frozen or self._proc.lingering:
            return  # hung so that it does not even notice the signal
        self._proc.kill(-15)


class _Asleep(BaseException):
    pass


def _thread_sleep(seconds):
    raise _Asleep(seconds)


class SimShm:
    """multiprocessing.shared_memory.SharedMemory of one world"""

    world = None

    def __init__(self, name=None, create=False, size=0, track=True):
        blocks = SimShm.world.shm
        if create:
            name = "sim%d" % next(SimShm.world.shm_ids)
            blocks[name] = bytearray(size)
        elif name not in blocks:
            raise FileNotFoundError(2, "No such file or directory", name)
        self.name = name
        self.size = size
        self.buf = memoryview(blocks[name])

    def close(self):
        self.buf = None

    def unlink(self):
        SimShm.world.shm.pop(self.name, None)


class SimLoop(asyncio.BaseEventLoop):
    def __init__(self, ex=None, horizon=300.0, max_steps=200000, chunk=None, hiwat=None):
        super().__init__()
        self._selector = _Selector(self)
        self._clock_resolution = 1e-9
        self._now = 1000.0
        self._seq = itertools.count(1)
        self.ex = ex or Execution()
        self.events = []
        self.horizon = self._now + horizon
        self.steps = 0
        self.max_steps = max_steps
        self._cur = None
        self.listeners = {}
        self.unix = {}
        self._ports = itertools.count(20001)
        self.procs = []
        self.errors = []
        self.pool_registry = []  # (address, pool, proc)
        self.busy_choices = True
        self.timer_max = 1.0  # a timer due within this many seconds may fire before pending events
        self.client_router = True
        self.unreachable = set()  # (process name, port)
        self.can_connect = lambda proc_name, key: True
        self.segment = None  # deliver at most so many write()s at once
        self.hiwat = hiwat
        self.stalled_hook = None
        self._conn_seq = itertools.count(1)
        self.in_teardown = False
        self.sealed = False
        self.fire_log = []
        self.set_exception_handler(self._on_error)
        self.set_task_factory(self._mk_task)

    # -- plumbing ---------------------------------------------------------
    @staticmethod
    def _mk_task(loop, coro, **kw):
        if loop.sealed:
            raise RuntimeError("Event loop is closed")
        t = SimTask(coro, loop=loop, **kw)
        p = PROC.get()
        ctx = kw.get("context")
        if ctx is not None:
            p = ctx.get(PROC)
        if p is not None:
            p.tasks.add(t)
        return t

    def create_future(self):
        return SimFuture(loop=self)

    def _on_error(self, loop, context):
        self.errors.append(context)

    def time(self):
        return self._now

    def _process_events(self, event_list):
        pass

    def _write_to_self(self):
        pass

    def _call_soon(self, callback, args, context):
        handle = _SimHandle(callback, args, self, context)
        if self.sealed:
            return handle
        self._ready.append(handle)
        return handle

    def call_at(self, when, callback, *args, context=None):
        timer = _SimTimer(when, callback, args, self, context)
        if self.sealed:
            return timer
        import heapq

        heapq.heappush(self._scheduled, timer)
        timer._scheduled = True
        return timer

    def call_soon_threadsafe(self, callback, *args, context=None):
        return self.call_soon(callback, *args, context=context)

    def _switch(self, p):
        cur = self._cur
        if cur is p:
            return
        hooks = PROCESS_HOOKS
        if cur is not None:
            for leave, _ in hooks:
                leave(self, cur)
        self._cur = p
        for _, enter in hooks:
            enter(self, p)

    # -- environment ------------------------------------------------------
    def add_event(self, label, fire, ready=None, front=False, opt=False):
        """opt: never happens by default (a fault), only when the explorer chooses it"""
        ev = Event(self, label, fire, ready, opt)
        if front:
            self.events.insert(0, ev)
        else:
            self.events.append(ev)
        return ev

    def _live_timer(self):
        for h in sorted(self._scheduled):
            if h._cancelled:
                continue
            p = h._context.get(PROC)
            if p is not None and p.dead:
                continue
            return h
        return None

    def _env(self, timeout):
        if self._stopping:
            return
        self.steps += 1
        busy = bool(self._ready)
        evs = [e for e in self.events if not e.opt and (e.ready is None or e.ready())]
        opts = [e for e in self.events if e.opt and (e.ready is None or e.ready())]
        if busy:
            evs += opts
            if not self.ex.explore or not self.busy_choices or not evs:
                if self.steps > self.max_steps:
                    raise SimHang("more than %d loop iterations" % self.max_steps)
                return
            labels = ["-"] + [e.label for e in evs]
            c = self.ex.choose(labels)
            if c:
                self._fire(evs[c - 1])
            return
        timer = None
        if self._scheduled:
            timer = self._live_timer()
        labels = [e.label for e in evs]
        if timer is not None and (not evs or timer._when - self._now <= self.timer_max):
            labels.append("timer")
        else:
            timer = None
        n_std = len(labels)
        if labels:
            labels.extend(e.label for e in opts)
        if not labels:
            if self.stalled_hook is not None and self.stalled_hook():
                return
            raise SimHang("nothing left to happen")
        if self.steps > self.max_steps:
            raise SimHang("more than %d loop iterations" % self.max_steps)
        c = self.ex.choose(labels)
        if c < len(evs):
            self._fire(evs[c])
        elif c >= n_std:
            self._fire(opts[c - n_std])
        else:
            if timer._when > self.horizon:
                raise SimHang("virtual time horizon reached")
            self._now = max(self._now, timer._when)

    def _fire(self, ev):
        try:
            self.events.remove(ev)
        except ValueError:
            pass
        self.fire_log.append(ev.label)
        ev.fire()

    # -- threads ----------------------------------------------------------
    def run_in_executor(self, executor, func, *args):
        p = PROC.get()
        fut = self.create_future()
        name = "exec"

        def fire():
            if p is not None and p.dead:
                return
            if fut.cancelled():
                return
            old = self._cur
            if p is not None:
                self._switch(p)
            real_sleep, time.sleep = time.sleep, _thread_sleep
            try:
                r = func(*args)
            except _Asleep as e:
                # a polling thread: it looks again later
                self.call_later(e.args[0], lambda: self.add_event(name, fire))
            except BaseException as e:  # noqa
                if isinstance(e, (SimHang, ReplayDivergence, KeyboardInterrupt)):
                    raise
                if not fut.done():
                    if isinstance(e, StopIteration):
                        e = RuntimeError("StopIteration in executor")
                    fut.set_exception(e)
            else:
                if not fut.done():
                    fut.set_result(r)
            finally:
                time.sleep = real_sleep

        self.add_event(name, fire)
        return fut

    # -- network ----------------------------------------------------------
    async def create_server(self, factory, host=None, port=None, *, start_serving=True, **kw):
        if not port:
            port = next(self._ports)
        key = (host, port)
        if key in self.listeners and not self.listeners[key]._closed:
            raise OSError(98, "Address already in use")
        s = SimServer(self, factory, key, self.listeners, PROC.get())
        self.listeners[key] = s
        if start_serving:
            s._serving = True
        return s

    async def create_unix_server(self, factory, path=None, *, start_serving=True, **kw):
        key = str(path)
        s = SimServer(self, factory, key, self.unix, PROC.get())
        self.unix[key] = s
        if start_serving:
            s._serving = True
        return s

    def _connect(self, table, key, factory, label):
        fut = self.create_future()
        p = PROC.get()

        def fire():
            if p is not None and p.dead:
                return
            if fut.done():
                return
            if p is not None and isinstance(key, tuple) and (
                (p.name, key[1]) in self.unreachable or not self.can_connect(p.name, key)
            ):
                fut.set_exception(ConnectionRefusedError(111, "Connect call failed %r" % (key,)))
                return
            srv = table.get(key)
            if srv is None and isinstance(key, tuple):
                for alt in ("0.0.0.0", "", "::"):
                    srv = srv or table.get((alt, key[1]))
            if srv is None or srv._closed or not srv._serving:
                if srv is None and not isinstance(key, tuple):
                    fut.set_exception(FileNotFoundError(2, "No such file or directory"))
                else:
                    fut.set_exception(
                        ConnectionRefusedError(111, "Connect call failed %r" % (key,))
                    )
                return
            n = next(self._conn_seq)
            sp = srv._proc
            cn = p.name if p else "?"
            sn = sp.name if sp else "?"
            a = SimTransport(self, p, "%s>%s#%d" % (cn, sn, n), key)
            b = SimTransport(self, sp, "%s<%s#%d" % (cn, sn, n), key)
            a.peer, b.peer = b, a
            if p:
                p.transports.append(a)
            if sp:
                sp.transports.append(b)
            proto_b = sp.call(srv._factory) if sp else srv._factory()
            b.protocol = proto_b
            self.call_soon(proto_b.connection_made, b, context=sp.ctx.copy() if sp else None)
            fut.set_result(a)

        self.add_event(label, fire)
        return fut

    async def create_connection(self, factory, host=None, port=None, **kw):
        t = await self._connect(self.listeners, (host, int(port)), factory, "conn:%s:%s" % (host, port))
        proto = factory()
        t.protocol = proto
        proto.connection_made(t)
        t._kick()
        return t, proto

    async def create_unix_connection(self, factory, path=None, **kw):
        t = await self._connect(self.unix, str(path), factory, "conn:unix")
        proto = factory()
        t.protocol = proto
        proto.connection_made(t)
        t._kick()
        return t, proto

    # -- end of life ------------------------------------------------------
    def teardown(self):
        """Drop everything without running any more code of the system."""
        self.sealed = True
        self._ready.clear()
        self._scheduled.clear()
        self.events.clear()
        for p in self.procs:
            p.dead = True


class _FakeSock:
    def __init__(self, addr):
        self.addr = addr

    def getsockname(self):
        return self.addr

    def setsockopt(self, *a):
        pass


class SimServer:
    def __init__(self, loop, factory, key, table, proc):
        self._loop = loop
        self._factory = factory
        self._key = key
        self._table = table
        self._proc = proc
        self._closed = False
        self._serving = False
        self._forever = None
        self.sockets = [_FakeSock(key)]
        if proc is not None:
            proc.servers.append(self)

    async def start_serving(self):
        self._serving = True

    def is_serving(self):
        return self._serving and not self._closed

    def close(self):
        if self._closed:
            return
        self._closed = True
        if self._table.get(self._key) is self:
            if isinstance(self._key, tuple):
                pass  # keep the entry: connecting is refused
        if self._forever is not None and not self._forever.done():
            self._forever.cancel()

    async def wait_closed(self):
        return

    async def serve_forever(self):
        self._serving = True
        self._forever = self._loop.create_future()
        await self._forever

    def get_loop(self):
        return self._loop


EOF = object()
RST = object()


class SimTransport(asyncio.Transport):
    def __init__(self, loop, proc, name, key):
        super().__init__()
        self._loop = loop
        self.proc = proc
        self._vseq = next(loop._seq)
        self.name = name
        self.key = key
        self.protocol = None
        self.peer = None
        self.out = collections.deque()
        self.out_bytes = 0
        self._closing = False
        self._lost = False
        self._eof = False
        self._paused = False
        self._wpaused = False
        self._space = False
        self._ev = None
        self.dead = False

    # reading side -------------------------------------------------------
    def is_reading(self):
        return not self._paused and not self._closing

    def pause_reading(self):
        self._paused = True

    def resume_reading(self):
        self._paused = False

    def set_protocol(self, p):
        self.protocol = p

    def get_protocol(self):
        return self.protocol

    def get_extra_info(self, name, default=None):
        if name in ("peername", "sockname"):
            return self.key if isinstance(self.key, tuple) else ""
        return default

    # writing side -------------------------------------------------------
    def set_write_buffer_limits(self, high=None, low=None):
        pass

    def get_write_buffer_size(self):
        return 0

    def get_write_buffer_limits(self):
        return (16384, 65536)

    def can_write_eof(self):
        return True

    def write(self, data):
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError(
                "data argument must be a bytes-like object, not %r" % type(data).__name__
            )
        if self._eof:
            raise RuntimeError("Cannot call write() after write_eof()")
        if self._closing or self._lost or self.dead:
            return
        if not data:
            return
        # asyncio hands the data to the socket, which takes some bytes, and slices off the rest
        n = data.nbytes if isinstance(data, memoryview) else len(data)
        taken = bytes(data)[: (n + 1) // 2]
        data = taken + bytes(memoryview(data)[(n + 1) // 2 :])
        if self.out and self.out[-1] is RST:
            return
        self.out.append(data)
        self.out_bytes += len(data)
        self.peer._kick()
        if self._loop.hiwat is not None and self.out_bytes > self._loop.hiwat and not self._wpaused:
            self._wpaused = True
            self.protocol.pause_writing()

    def writelines(self, lines):
        self.write(b"".join(bytes(x) for x in lines))

    def write_eof(self):
        if self._closing or self._eof:
            return
        self._eof = True
        self.out.append(EOF)
        self.peer._kick()

    def is_closing(self):
        return self._closing

    def close(self):
        if self._closing:
            return
        self._closing = True
        if self._loop.sealed:
            return
        if not self._eof:
            self.out.append(EOF)
        self.peer._kick()
        self._loop.call_soon(self._lose, None, context=self._ctx())

    def abort(self):
        if self._closing:
            return
        self._closing = True
        if self._loop.sealed:
            return
        self.out.clear()
        self.out.append(RST)
        self.peer._kick()
        self._loop.call_soon(self._lose, None, context=self._ctx())

    def _ctx(self):
        return self.proc.ctx.copy() if self.proc is not None else None

    def _lose(self, exc):
        if self._lost:
            return
        self._lost = True
        if self.protocol is not None:
            self.protocol.connection_lost(exc)

    def cut(self):
        """The network connection breaks: both ends see a reset, data in flight is lost."""
        for t in (self, self.peer):
            if t._closing or t.dead:
                continue
            t.peer.out.clear()
            t.peer.out_bytes = 0
            t.peer.out.append(RST)
            t._kick()

    def _die(self, reset):
        """The owning process disappeared."""
        if self.dead:
            return
        self.dead = True
        if self._closing or self._lost:
            return
        self._closing = self._lost = True
        if reset:
            self.out.clear()
            self.out.append(RST)
        else:
            self.out.append(EOF)
        self.peer._kick()

    # deliveries -----------------------------------------------------------
    def _kick(self):
        """Something may be deliverable to this end."""
        if self._ev is None and self.protocol is not None and self.peer.out:
            if self._loop.sealed:
                return
            self._ev = self._loop.add_event(self.name, self._deliver, self._can_read)

    def _can_read(self):
        return not self._paused and not self.dead and not (self.proc is not None and self.proc.frozen)

    def _deliver(self):
        self._ev = None
        loop = self._loop
        q = self.peer.out
        if self._lost or self._closing or self.dead:
            q.clear()
            return
        if q[0] is EOF:
            q.popleft()
            loop.call_soon(self._got_eof, context=self._ctx())
        elif q[0] is RST:
            q.popleft()
            self._closing = True
            loop.call_soon(
                self._lose, ConnectionResetError(104, "Connection reset by peer"), context=self._ctx()
            )
        else:
            chunks = []
            n = loop.segment
            while q and q[0] is not EOF and q[0] is not RST:
                chunks.append(q.popleft())
                if n is not None and len(chunks) >= n:
                    break
            data = b"".join(chunks)
            self.peer.out_bytes -= len(data)
            loop.call_soon(self._got_data, data, context=self._ctx())
            pe = self.peer
            if pe._wpaused and not pe._space and pe.out_bytes <= (loop.hiwat or 0) // 4:
                # the writer learns of the free space by an event of its own
                pe._space = True
                loop.add_event(pe.name + "~", pe._got_space, front=True)
        if q:
            self._kick()

    def _got_space(self):
        self._space = False
        if self._lost or self.dead or self.out_bytes > (self._loop.hiwat or 0) // 4:
            return
        self._wpaused = False
        self._loop.call_soon(self.protocol.resume_writing, context=self._ctx())

    def _got_data(self, data):
        if self._lost or self._closing:
            return
        self.protocol.data_received(data)

    def _got_eof(self):
        if self._lost or self._closing:
            return
        if not self.protocol.eof_received():
            self.close()


# ---------------------------------------------------------------------------
# xoscar-specific process isolation

PROCESS_HOOKS = []
_installed = False


class _Ghost:
    __slots__ = ("_actors", "__weakref__")

    def __init__(self):
        self._actors = {}


_GHOST = _Ghost()


def current_proc():
    return PROC.get()


def install():
    """Patch the interpreter-wide state of xoscar so that it is per simulated process."""
    global _installed
    if _installed:
        return
    _installed = True
    logging.disable(logging.CRITICAL)
    import xoscar  # noqa
    from xoscar._utils import TypeDispatcher

    # every sub pool does this when it starts; once here is enough for all forked workers
    TypeDispatcher.reload_all_lazy_handlers()
    from xoscar.backends import core as bcore
    from xoscar.backends import pool as bpool
    from xoscar.backends.router import Router
    from xoscar.backend import get_backend
    from xoscar import context as xctx
    from xoscar import core as xcore

    # 1. global router
    def leave_router(loop, p):
        p.router = Router._instance

    def enter_router(loop, p):
        Router._instance = p.router

    PROCESS_HOOKS.append((leave_router, enter_router))

    # 2. map of local pools
    real_register = xcore.register_local_pool

    def register(address, pool):
        try:
            loop = asyncio.get_running_loop()
        except RuntimeError:
            return real_register(address, pool)
        p = PROC.get()
        if isinstance(loop, SimLoop) and p is not None:
            loop.pool_registry.append((address, weakref.ref(pool), p))
        return real_register(address, pool)

    bpool.register_local_pool = register

    def leave_pools(loop, p):
        pass

    def enter_pools(loop, p):
        for address, pool, owner in loop.pool_registry:
            o = pool()
            if owner is not p:
                real_register(address, _GHOST)
        for address, pool, owner in loop.pool_registry:
            o = pool()
            if owner is p and o is not None and not owner.dead:
                real_register(address, o)

    PROCESS_HOOKS.append((leave_pools, enter_pools))
    global _reset_pools

    def _reset_pools(loop):
        for address, pool, owner in loop.pool_registry:
            real_register(address, _GHOST)

    # 3. actor context of each backend: one per process
    def mk(scheme, real_cls):
        class ProcContext(xctx.BaseActorContext):
            _real = None

            def __getattribute__(self, name):
                if name.startswith("__"):
                    return object.__getattribute__(self, name)
                p = PROC.get()
                if p is None:
                    raise RuntimeError("no simulated process")
                if p.context is None:
                    p.context = {}
                if scheme not in p.context:
                    p.context[scheme] = real_cls(None)
                return getattr(p.context[scheme], name)

        xctx.register_backend_context(scheme, ProcContext)

    for scheme in (None, "unixsocket", "dummy", "ucx"):
        try:
            mk(scheme, get_backend(None).get_context_cls())
        except Exception:  # noqa
            pass

    # 4. no helper threads at garbage collection
    class _W:
        def __getattr__(self, name):
            return getattr(weakref, name)

        @staticmethod
        def finalize(*a, **k):
            return None

    if hasattr(bcore, "weakref"):
        bcore.weakref = _W()
    # sets of channels are iterated in a fixed order
    from xoscar.backends.communication.socket import SocketChannel

    def chan_hash(self):
        try:
            return self.writer.transport._vseq
        except AttributeError:
            return id(self) >> 4

    SocketChannel.__hash__ = chan_hash
    # 5. starting of sub processes
    from xoscar.backends.indigen import pool as ipool

    class _Mem:
        SharedMemory = SimShm

    ipool.shared_memory = _Mem
    ipool.create_subprocess_exec = _sim_exec
    # real thread finaliser of generator wrappers stays: scenarios disarm it
    sys.unraisablehook = lambda *a: None
    gc.collect()
    gc.freeze()
    gc.disable()


class World:
    """A cluster under one SimLoop."""

    def __init__(self, ex=None, **kw):
        install()
        self._fresh()
        self.loop = SimLoop(ex, **kw)
        self.ex = self.loop.ex
        self.shm = {}
        self.shm_ids = itertools.count(1)
        SimShm.world = self
        self.client = self.new_proc("C")

    @staticmethod
    def _fresh():
        from xoscar.backends.communication.dummy import DummyServer

        # servers of an earlier world may still be referenced by tracebacks
        DummyServer._address_to_instances.clear()
        from xoscar.backends.pool import MainActorPoolBase

        MainActorPoolBase._process_index_gen = itertools.count()

    def new_proc(self, name, pool=False):
        p = Proc(self.loop, name)
        self.loop.procs.append(p)
        if not pool:
            self._client_router(p)
        return p

    def _client_router(self, p):
        """a client without a pool keeps its connections only if it has a router"""
        if self.loop.client_router:
            from xoscar.backends.router import Router

            p.router = Router([], None)

    def run(self, coro, proc=None):
        """Run a coroutine to completion as process `proc` (default: the client)."""
        proc = proc or self.client
        if proc.router is None:
            self._client_router(proc)
        asyncio.set_event_loop(None)
        self.loop._switch(proc)
        task = proc.spawn(coro)
        return self.loop.run_until_complete(task)

    def close(self):
        from xoscar.backends.router import Router

        self.loop.teardown()
        _reset_pools(self.loop)
        Router._instance = None
        events._set_running_loop(None)
        self.loop.procs.clear()
        self.loop.pool_registry.clear()

    # -- pools ---------------------------------------------------------------
    async def start_pool(self, address="127.0.0.1:0", n_process=0, name="M", proc=None, **kw):
        """create_actor_pool in a new simulated process; sub pools get processes of their own."""
        from xoscar.backends.pool import create_actor_pool

        world = self
        proc = proc or self.new_proc(name, pool=True)
        cls = make_pool_cls(world, name)

        kw.setdefault("use_uvloop", False)

        async def go():
            pool = await create_actor_pool(address, pool_cls=cls, n_process=n_process, **kw)
            return pool

        task = proc.spawn(go())
        pool = await asyncio.shield(task)
        proc.pool = pool
        return pool

    @property
    def pools(self):
        """the live or last known pool of each process"""
        out = {}
        for p in self.loop.procs:
            for address, pool, owner in self.loop.pool_registry:
                if owner is p and pool() is not None:
                    out[p.name] = pool()
        return out


async def _sim_exec(*cmd, **kw):
    """asyncio.create_subprocess_exec for the start of a sub pool"""
    from xoscar.backends.indigen import pool as ipool

    world = SimShm.world
    shm_name = cmd[cmd.index("-sn") + 1]
    me = PROC.get()
    me.n_children = getattr(me, "n_children", 0) + 1
    proc = world.new_proc("%s%d" % (me.name, me.n_children), pool=True)
    proc.parent = me
    handle = SimProcessHandle(proc)

    async def child():
        code = 1
        try:
            shm = SimShm(shm_name)
            # _start_sub_pool_in_child without the parts that concern a process of its own
            config = ipool._shm_get_object(ipool._ShmSeq.INIT_PARAMS, shm)
            config.pop("python_version", None)
            proc.process_index = config["process_index"]
            delay, world.start_delay = getattr(world, "start_delay", 0), 0
            if delay:  # imports take long
                await asyncio.sleep(delay)
            await ipool.MainActorPool._create_sub_pool(config["actor_pool_config"], config["process_index"], getattr(world, "main_pid", None), shm)
            code = 0
        except asyncio.CancelledError:
            raise
        except Exception as e:  # noqa
            proc.error = e
        finally:
            me = asyncio.current_task()
            rest = [t for t in proc.tasks if t is not me and not t.done()]
            for t in rest:
                t.cancel()
            if rest:
                await asyncio.gather(*rest, return_exceptions=True)
            if not proc.lingering:
                proc.kill(code)

    proc.spawn(child())
    return handle


def make_pool_cls(world, name):
    from xoscar.backends.indigen.pool import MainActorPool
    from xoscar.backends.pool import _register_message_handler

    class SimMainPool(MainActorPool):
        pass

    SimMainPool.__name__ = "MainActorPool"
    return _register_message_handler(SimMainPool)
