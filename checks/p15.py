"""P15: stopping a pool ends it completely and wakes everyone waiting on it."""
import asyncio

import xoscar as xo
from vlib.explore import Scenario
from vlib.scen import closed_error, fault, outcome, proc
from xoscar.backend import get_backend
from xoscar.backends.message import ControlMessage, ControlMessageType, new_message_id
from xoscar.backends.router import Router
from xoscar.context import get_context
from xoscar.core import ActorRef

RULE = "a schedule places the stop (and the death or freezing of a sub pool) at any step of the workload and reorders deliveries; distinct: distinct outcome tuples"
NOTE = "All placements of a stop, and of a process death or freeze, over the workload, with up to one (thorough: two) deliveries out of order, on the real stopping, monitoring and process handling code with simulated processes."
ASSUMPTIONS = [
    "a hung process reads nothing and ignores SIGTERM, but SIGKILL ends it",
    "bounded time means 20 s of virtual time",
]
PI = xo.allocate_strategy.ProcessIndex
LIMIT = 20


class A(xo.Actor):
    def __init__(self, peer=None):
        super().__init__()
        self.peer = peer

    def get(self):
        return "v"

    async def slow(self, d=1.0):
        await asyncio.sleep(d)
        return "done"

    async def stubborn(self):
        """does not end on cancellation at once"""
        for _ in range(3):
            try:
                await asyncio.sleep(1.0)
            except asyncio.CancelledError:
                pass
        return "done"

    async def nested(self):
        return await self.peer.slow()

    @xo.generator
    async def give(self):
        async def gen():
            for i in range(3):
                await asyncio.sleep(0.1)
                yield i

        return gen()


class Late(xo.Actor):
    async def __pre_destroy__(self):
        await asyncio.sleep(0.2)

    async def __post_create__(self):
        await super().__post_create__()
        await asyncio.sleep(0.3)

    def get(self):
        return "v"


async def start(w, n=2, mode="actor"):
    pool = await w.start_pool(n_process=n, auto_recover=mode)
    idx = pool._config.get_process_indexes()
    addrs = [pool._config.get_pool_config(i)["external_address"][0] for i in idx]
    return pool, addrs


async def on(w, fn, name="M"):
    return await proc(w, name).spawn(fn())


async def send_stop(main):
    """what an administrator's client does"""
    m = ControlMessage(new_message_id(), main, ControlMessageType.stop, None)
    return await get_backend(None).get_context_cls()(None)._call(main, m)


def children(w, name="M"):
    return [p for p in w.loop.procs if getattr(p, "parent", None) is proc(w, name)]


def check_gone(w, pool, addrs):
    for p in children(w):
        assert p.dead, "process of a sub pool is still there after the pool ended (%s)" % p.name
    names = {"M"} | {p.name for p in children(w)}
    for p in w.loop.procs:
        if p.name in names:
            for s in p.servers:
                assert s._closed, "an endpoint of %s still listens" % p.name
            for t in p.transports:
                if p.name == "M" and t.peer.proc.name not in names and t.name.startswith("M>"):
                    continue  # belongs to the process (its actor context), not to the pool
                assert t._closing or t.dead, "a connection of %s is still open: %s" % (p.name, t.name)
    assert pool.stopped
    assert not w.shm, "shared memory left behind"


def stop(ops, how="method", hurt=None, mode="actor", n=2, freeze_first=False, twice=False, grow=False, warm=True):
    async def main_(w):
        pool, addrs = await start(w, n, mode)
        main = addrs[0]
        r = []
        for i, a in enumerate(addrs):
            r.append(await xo.create_actor(A, address=a, uid="a%d" % i))
        nest = await xo.create_actor(A, r[-1], address=main, uid="nest")
        if "foreign" in ops:
            other = await w.start_pool(n_process=0, name="O")
            far = await xo.create_actor(A, address=other.external_address, uid="far")
            fnest = [await xo.create_actor(A, far, address=a, uid="fnest") for a in addrs[:2]]
        sub_nest = await xo.create_actor(A, r[-1], address=addrs[min(1, n)], uid="subnest")
        if warm:
            for x in r:
                await x.get()
        joined = []

        async def join():
            await pool.join()
            joined.append(w.loop.time())

        jt = proc(w, "M").spawn(join())
        evs = []
        if hurt and n:
            victim = pool.sub_processes[addrs[1]]._proc

            def do_hurt():
                if hurt == "kill":
                    victim.kill()
                elif hurt == "linger":
                    victim.lingering = True
                else:
                    victim.frozen = True

            if freeze_first:
                do_hurt()
            else:
                evs.append(fault(w, hurt, do_hurt))
        stopped = {}

        async def do_stop(k=0):
            if how == "control":
                o = await outcome(send_stop(main))
                assert o[0] == "ok" or closed_error(o), o
                await on(w, pool.join)
            else:
                o = await outcome(on(w, pool.stop))
                assert o == ("ok", None), "stop() failed: %r" % (o,)
            stopped[k] = w.loop.time()

        began = []
        sts = []

        def go():
            if began:
                return
            began.append(w.loop.time())
            sts.append(w.client.spawn(do_stop()))
            if twice:
                sts.append(w.client.spawn(do_stop(1)))

        async def op(kind):
            if kind == "main":
                return kind, await outcome(r[0].slow())
            if kind == "sub":
                return kind, await outcome(r[-1].slow())
            if kind == "sub1":
                return kind, await outcome(r[min(1, n)].get())
            if kind == "stubborn":
                return kind, await outcome(r[min(1, n)].stubborn())
            if kind == "stubborn-main":
                return kind, await outcome(r[0].stubborn())
            if kind == "nested":
                return kind, await outcome(nest.nested())
            if kind == "subnest":
                return kind, await outcome(sub_nest.nested())
            if kind == "foreign":
                os_ = await asyncio.gather(*[outcome(x.nested()) for x in fnest])
                for o in os_:
                    assert o == ("ok", "done") or closed_error(o) or o[0] == "CancelledError", o
                return kind, ("ok", [o[0] for o in os_])
            if kind == "via-main":
                return kind, await outcome(ActorRef(main, "a%d" % n).slow())
            if kind == "create":
                o = await outcome(xo.create_actor(Late, address=main, uid="late", allocate_strategy=PI(min(1, n))))
                return kind, (o[0], "") if o[0] == "ok" else o
            if kind == "destroy":
                d = await outcome(xo.destroy_actor(late[0]))
                return kind, d
            if kind == "gen":
                async def it():
                    g = await r[-1].give()
                    g._gc_destroy = False
                    out = []
                    async for x in g:
                        out.append(x)
                    return out
                return kind, await outcome(it())
            if kind == "wait":
                return kind, await outcome(get_context().wait_actor_pool_recovered(addrs[1], main))
            if kind == "append":
                o = await outcome(on(w, pool.append_sub_pool))
                return kind, (o[0], "") if o[0] == "ok" else o
            if kind == "remove":
                return kind, await outcome(on(w, lambda: pool.remove_sub_pool(addrs[-1])))
            if kind == "kill-actor":
                return kind, await outcome(xo.kill_actor(r[1]))
            if kind == "kill-actor-main":
                return kind, await outcome(xo.kill_actor(ActorRef(main, "a1")))
            raise KeyError(kind)

        late = []
        if "destroy" in ops:
            late.append(await xo.create_actor(Late, address=addrs[min(1, n)], uid="late0"))
        ev = fault(w, "stop", go)
        w.begin()
        w.loop.call_later(4, go)
        rs = await asyncio.gather(*[op(k) for k in ops])
        ev.cancel()
        go()
        t_ops = w.loop.time()
        await asyncio.gather(*sts)
        w.end()
        for e in evs:
            e.cancel()
        for k, t in stopped.items():
            assert t - began[0] <= LIMIT, "stopping took %.1f s" % (t - began[0])
        assert t_ops - began[0] <= LIMIT, "calls in flight ended %.1f s after the stop" % (t_ops - began[0])
        await asyncio.sleep(1)
        assert jt.done() and joined, "join() does not return although the pool was stopped"
        check_gone(w, pool, addrs)
        good = {"main": ("ok", "done"), "sub": ("ok", "done"), "sub1": ("ok", "v"), "stubborn": ("ok", "done"), "stubborn-main": ("ok", "done"), "nested": ("ok", "done"), "subnest": ("ok", "done"), "via-main": ("ok", "done"), "gen": ("ok", [0, 1, 2])}
        for k, o in rs:
            if o[0] == "ok":
                if k in good:
                    assert o == good[k], (k, o)
            elif k in ("append", "remove"):
                assert o[0] in ("RuntimeError", "OSError", "KeyError", "CancelledError") or closed_error(o), (k, o)
            else:
                assert closed_error(o) or o[0] in ("CancelledError", "ActorNotExist", "RuntimeError") or (hurt and o[0] == "ValueError"), (k, o)
        if "foreign" in ops:
            assert await far.get() == "v", "an actor of another cluster"
            await on(w, other.stop, "O")
        # later calls
        t0 = w.loop.time()
        for x in r:
            o = await outcome(x.get())
            assert closed_error(o), "call after the end: %r" % (o,)
        assert w.loop.time() - t0 < 1
        # the same place can be used again
        p2 = await w.start_pool(address=main, n_process=0, name="N")
        x = await xo.create_actor(A, address=main, uid="a0")
        assert await x.get() == "v"
        await on(w, p2.stop, "N")
        return w.hits, rs

    return main_


def kill_actor(which, via, hurt=None):
    """killing an actor ends exactly the process hosting it"""

    async def main_(w):
        pool, addrs = await start(w, 2, False)
        main = addrs[0]
        refs = [await xo.create_actor(A, address=a, uid="a%d" % i) for i, a in enumerate(addrs)]
        for x in refs:
            await x.get()
        victim = pool.sub_processes[addrs[which]]._proc if which else None
        other = pool.sub_processes[addrs[3 - which]]._proc if which else None
        if hurt == "freeze":
            victim.frozen = True
        w.begin()
        busy = asyncio.create_task(outcome(refs[which].slow()))
        keep = asyncio.create_task(outcome(refs[3 - which if which else 1].slow(0.5)))
        await asyncio.sleep(0.01)
        t0 = w.loop.time()
        ref = refs[which] if via == "direct" else ActorRef(main, "a%d" % which)
        o = await outcome(xo.kill_actor(ref))
        assert w.loop.time() - t0 < LIMIT, "took %.1f s" % (w.loop.time() - t0)
        b, k = await asyncio.gather(busy, keep)
        w.end()
        await asyncio.sleep(3)
        if which == 0:
            return o, b, k, pool.stopped, [p.dead for p in children(w)]
        assert victim.dead, "the process hosting the actor lives on (%r)" % (o,)
        assert not other.dead and not proc(w, "M").dead, "another process ended"
        assert closed_error(b) or b == ("ok", "done") or b[0] == "CancelledError", b
        assert k == ("ok", "done"), "call to another process: %r" % (k,)
        assert o[0] == "ok" or closed_error(o), o
        for i, x in enumerate(refs):
            r = await outcome(x.get())
            assert (closed_error(r) if i == which else r == ("ok", "v")), (i, r)
        assert await xo.has_actor(ActorRef(main, "a%d" % which)) is False
        return o[0], b[0], k

    return main_


def sub_stop():
    """a sub pool told to stop ends; its main pool and the others go on"""

    async def main_(w):
        pool, addrs = await start(w, 2, False)
        refs = [await xo.create_actor(A, address=a, uid="a%d" % i) for i, a in enumerate(addrs)]
        for x in refs:
            await x.get()
        victim = pool.sub_processes[addrs[1]]._proc
        w.begin()
        busy = asyncio.create_task(outcome(refs[1].slow()))
        rs = []

        async def go():
            rs.append(await outcome(send_stop(addrs[1])))

        await go()
        b = await busy
        w.end()
        await asyncio.sleep(1)
        assert victim.dead
        assert closed_error(b) or b[0] == "CancelledError", b
        assert await refs[2].get() == "v" and await refs[0].get() == "v"
        assert closed_error(await outcome(refs[1].get()))
        await on(w, pool.stop)
        check_gone(w, pool, addrs)
        return rs, b

    return main_


def failing_start(n, bad):
    """a pool whose start fails leaves no process behind"""

    async def main_(w):
        # an endpoint taken by somebody else
        other = await w.start_pool(address="127.0.0.1:7777", n_process=0, name="O")
        w.begin()
        ports = [0] * n
        addr = "127.0.0.1:0"
        if bad == 0:
            addr = "127.0.0.1:7777"
        else:
            ports[bad - 1] = 7777
        o = await outcome(w.start_pool(address=addr, n_process=n, ports=ports))
        w.end()
        assert o[0] != "ok"
        await asyncio.sleep(12)
        left = [p.name for p in children(w) if not p.dead]
        assert not left, "the start failed (%r), but processes %s are still there" % (o, left)
        assert not w.shm
        await on(w, other.stop, "O")
        return o[0]

    return main_


def scenarios():
    out = []

    def add(name, main, bound=1, bt=2, horizon=90.0, **world):
        out.append(Scenario(name, main, bound=bound, bound_thorough=bt, horizon=horizon, world=world))

    add("idle", stop([]), 1, 2)
    add("idle-control", stop([], "control"), 2)
    add("idle-n0", stop(["main"], n=0), 2)
    add("idle-n0-control", stop(["main"], "control", n=0), 2)
    for how in ("method", "control"):
        add("calls-" + how, stop(["main", "sub", "sub1", "via-main"], how))
        add("nested-" + how, stop(["nested", "subnest"], how))
        add("stubborn-" + how, stop(["stubborn", "stubborn-main"], how))
        add("create-" + how, stop(["create", "destroy"], how))
        add("gen-" + how, stop(["gen", "via-main"], how, warm=False))
    for mode in ("actor", "process", False):
        add("kill-%s" % mode, stop(["sub1", "sub"], hurt="kill", mode=mode))
        add("dead-%s" % mode, stop(["sub1", "wait"], hurt="kill", mode=mode, freeze_first=True))
    add("kill-control", stop(["sub1", "via-main"], "control", hurt="kill"))
    add("freeze", stop(["sub1"], hurt="freeze"))
    add("frozen", stop(["sub1", "via-main", "sub"], hurt="freeze", freeze_first=True))
    add("frozen-control", stop(["sub1"], "control", hurt="freeze", freeze_first=True))
    add("frozen-wait", stop(["subnest"], hurt="freeze", freeze_first=True))
    add("linger", stop(["sub1", "via-main"], hurt="linger", freeze_first=True))
    add("linger-control", stop(["sub1"], "control", hurt="linger", freeze_first=True))
    add("foreign-method", stop(["foreign"]))
    add("foreign-control", stop(["foreign"], "control"))
    add("append", stop(["append"]))
    add("append-n0", stop(["append"], n=0))
    add("append-control", stop(["append"], "control"))
    add("remove", stop(["remove"]))
    add("append-remove", stop(["append", "remove"]))
    add("kill-actor", stop(["kill-actor"]))
    add("kill-actor-main", stop(["kill-actor-main", "sub1"]))
    add("twice", stop(["sub"], twice=True))
    add("twice-control", stop(["sub1"], "control", twice=True))
    for which in (1, 2):
        for via in ("direct", "main"):
            add("ka-%d-%s" % (which, via), kill_actor(which, via))
    add("ka-freeze", kill_actor(1, "direct", "freeze"))
    add("ka-main", kill_actor(0, "direct"))
    add("sub-stop", sub_stop())
    for n, bad in ((1, 0), (2, 0), (2, 1), (2, 2), (3, 2), (3, 1)):
        add("bad-%d-%d" % (n, bad), failing_start(n, bad))
    return out


def run(ctx):
    ctx.explore(scenarios())
