"""P13: a dead sub pool is detected and recovered as configured."""
import asyncio
import itertools

import xoscar as xo
from vlib.explore import Scenario
from vlib.scen import LOG, closed_error, fault, outcome, proc
from xoscar.context import get_context
from xoscar.core import ActorRef

RULE = "a schedule places one or two deaths of sub pools at any step of the workload or of the recovery and reorders deliveries; distinct: distinct outcome tuples"
NOTE = "All placements of up to two process deaths over the workload, the detection and the recovery, with up to one (thorough: two) deliveries out of order, on the real monitor and recovery code with simulated processes."
ASSUMPTIONS = [
    "a process that died is seen by the main pool through its exit status (as asyncio's child watcher sets it)",
    "an operation that was in flight when the pool died and ended with an error may or may not have had its effect",
    "re-creating an actor does not itself fail or create further actors",
    "in histories with two reorderings, bytes from a local process arrive before the next round (half a second) of the monitor",
    "the same death may be reported more than once while it lasts",
]
PI = xo.allocate_strategy.ProcessIndex


class A(xo.Actor):
    def __init__(self, a, b=None, *, c=0):
        super().__init__()
        self.args = (a, b, c)
        self.n = 0

    async def __post_create__(self):
        await super().__post_create__()
        if self.args[2] == "slow":
            await asyncio.sleep(0.3)

    def get(self):
        return self.args

    def inc(self):
        self.n += 1
        return self.n

    async def slow(self, d):
        await asyncio.sleep(d)
        return "done"


class Cb:
    def __init__(self):
        self.log = []

    def down(self, pool, address):
        self.log.append(("down", address, sorted(a for a, p in pool.sub_processes.items() if p.returncode is not None)))

    def up(self, pool, address):
        self.log.append(("up", address, pool.sub_processes[address].returncode is None))


async def start(w, mode, n=2):
    cb = Cb()
    pool = await w.start_pool(n_process=n, auto_recover=mode, on_process_down=cb.down, on_process_recover=cb.up)
    main = pool.external_address
    addrs = [pool._config.get_pool_config(i)["external_address"][0] for i in pool._config.get_process_indexes()]
    return pool, main, addrs, cb


def handle_proc(pool, addr):
    return pool.sub_processes[addr]._proc


def killer(pool, addr, how):
    def go():
        handle_proc(pool, addr).kill(reset=how == "reset")

    return go


async def wait(addr, main):
    return await get_context().wait_actor_pool_recovered(addr, main)


async def make(addr, args, kw, **more):
    return (await xo.create_actor(A, *args, address=addr, **dict(kw, **more))).address


def check_recovered(pool, addr, cb, want_event=True):
    assert not handle_proc(pool, addr).dead, "the wait for recovery ended with the pool still down"
    assert ("up", addr, True) in cb.log, "recovery not reported: %r" % (cb.log,)
    seq = [k for k, a, *_ in cb.log if a == addr]
    assert seq[0] == "down" and all(not (x == "up" and y == "up") for x, y in zip(seq, seq[1:])), "reports %r" % (cb.log,)


def recover(mode, ops, kills=1, how="", slow=False, cold=False, fixed=False):
    async def main_(w):
        pool, main, addrs, cb = await start(w, mode)
        a1, a2 = addrs[1], addrs[2]
        sl = {"c": "slow"} if slow else {}
        # created through the main pool, through the sub pool, and elsewhere
        await make(main, ("x",), {"b": [1]}, uid="m", allocate_strategy=PI(1))
        await make(a1, ("y", 2), sl, uid="s")
        await make(main, ("gone",), {}, uid="d", allocate_strategy=PI(1))
        await make(a1, ("gone2",), {}, uid="d2")
        await make(a2, ("o",), {}, uid="other")
        await make(main, ("mm",), {}, uid="mm")
        R = {u: ActorRef(a, u) for u, a in (("m", a1), ("s", a1), ("d", a1), ("d2", a1), ("other", a2), ("mm", main))}
        await xo.destroy_actor(R["d"])
        await xo.destroy_actor(ActorRef(main, "d2"))
        exists = {"m": ("x", [1], 0), "s": ("y", 2, sl.get("c", 0))}
        absent = {"d", "d2"}
        unsure = {}
        for r in (R["m"], R["other"], R["mm"]):
            assert await r.inc() == 1
        if not cold:
            await outcome(ActorRef(main, "s").inc())
        evs = [fault(w, "kill", killer(pool, a1, how))]
        if kills == 2:
            evs.append(fault(w, "again", lambda: killer(pool, a1, how)()))
        elif kills == "two":
            evs.append(fault(w, "other", killer(pool, a2, how)))
        w.begin()
        if fixed:
            # the first death comes at once, the second one anywhere
            evs[0].cancel()
            w.hits.append("kill")
            killer(pool, a1, how)()

        async def do(op):
            t0 = w.loop.time()
            if op == "create-m":
                o = await outcome(make(main, ("c1",), {}, uid="c1", allocate_strategy=PI(1)))
                return op, o
            if op == "create-s":
                return op, await outcome(make(a1, ("c2",), {}, uid="c2"))
            if op == "destroy-m":
                return op, await outcome(xo.destroy_actor(ActorRef(main, "m")))
            if op == "destroy-s":
                return op, await outcome(xo.destroy_actor(R["s"]))
            if op == "call":
                return op, await outcome(R["m"].slow(0.1))
            if op == "calls":
                o = None
                for _ in range(3):
                    o = await outcome(R["m"].get())
                    await asyncio.sleep(0.3)
                return op, (o[0],)
            if op == "wait":
                await wait(a1, main)
                return op, w.loop.time() - t0 < 300
            if op == "late-wait":
                while handle_proc(pool, a1).returncode is None and w.loop.time() - t0 < 3:
                    await asyncio.sleep(0.1)
                await wait(a1, main)
                return op, None
            if op == "kill-actor":
                return op, await outcome(xo.kill_actor(R["m"]))

        rs = dict(await asyncio.gather(*[do(op) for op in ops]))
        if mode is not False:
            # wait as a user would, right after having learned of a death
            await wait(a1, main)
        w.end()
        for e in evs:
            e.cancel()
        dead1 = "kill" in w.hits or "again" in w.hits or "kill-actor" in ops
        dead2 = "other" in w.hits
        # a further death may have come after the wait
        if mode is not False:
            for _ in range(3):
                await wait(a1, main)
            if dead2:
                await wait(a2, main)
        else:
            await asyncio.sleep(2)
        for op, o in rs.items():
            if op in ("create-m", "create-s"):
                u = "c1" if op == "create-m" else "c2"
                if o[0] == "ok":
                    unsure[u] = (u, None, 0)  # before or after the death
                else:
                    assert dead1 and (closed_error(o) or o[0] == "CancelledError"), (op, o)
                    unsure[u] = (u, None, 0)
            if op in ("destroy-m", "destroy-s"):
                u = "m" if op == "destroy-m" else "s"
                if o[0] == "ok":
                    exists.pop(u)
                    absent.add(u)
                else:
                    assert dead1 and (closed_error(o) or o[0] == "ActorNotExist"), (op, o)
                    unsure[u] = exists.pop(u)
            if op == "call":
                assert o == ("ok", "done") or (dead1 and (closed_error(o) or o[0] in ("CancelledError", "ActorNotExist"))), (op, o)
        if not dead1:
            for u in list(unsure):
                if u in ("c1", "c2"):
                    exists[u] = unsure.pop(u)
        if mode == "actor":
            for u in list(unsure):
                op = {"c1": "create-m", "c2": "create-s"}.get(u)
                if op and rs[op][0] == "ok":
                    exists[u] = unsure.pop(u)
        if mode is not False:
            if dead1:
                check_recovered(pool, a1, cb)
            if dead2:
                check_recovered(pool, a2, cb)
            assert set(pool.sub_processes) == {a1, a2}
        elif dead1:
            assert [k for k in cb.log if k[:2] == ("down", a1)], "death not reported: %r" % (cb.log,)
            assert not [k for k in cb.log if k[0] == "up"]
        for k in cb.log:
            assert k[0] == "up" or k[1] in k[2], "reported as down, but alive: %r" % (k,)
            assert k[1] == a1 and dead1 or k[1] == a2 and dead2, "reported although it did not die: %r" % (k,)
        for u in list(exists) + sorted(absent) + list(unsure):
            o = await outcome(ActorRef(a1, u).get())
            m = await outcome(xo.has_actor(ActorRef(main, u)))
            here = o[0] == "ok"
            if mode is False and dead1:
                assert closed_error(o), "call to the dead pool: %r" % (o,)
                assert m == ("ok", False), "actor %s of a dead pool is still known: %r" % (u, m)
                continue
            assert here or o[0] == "ActorNotExist", o
            if u in exists:
                if mode == "process" and dead1:
                    assert not here or u in ("c1", "c2"), "actor %s came back with process recovery" % u
                else:
                    assert o == ("ok", exists[u]), "actor %s: %r, created with %r" % (u, o, exists[u])
            elif u in absent:
                assert not here, "actor %s had been destroyed, but answers %r" % (u, o)
            elif here:
                assert o[1] == unsure[u], (u, o)
            assert m == ("ok", here), "actor %s is %s, the main pool says %r" % (u, "there" if here else "not there", m)
        if "m" in exists and (mode == "actor" or not dead1):
            assert await R["m"].inc() == (1 if dead1 else 2), "state of a recovered actor"
        # the rest of the cluster
        assert await R["mm"].inc() == 2
        o = await outcome(R["other"].inc())
        if not dead2:
            assert o == ("ok", 2), "actor of another pool: %r" % (o,)
        elif mode == "actor":
            assert o == ("ok", 1), o
        elif mode == "process":
            assert o[0] == "ActorNotExist", o
        if mode is not False or not dead1:
            for via, kw in ((main, {"allocate_strategy": PI(1)}), (a1, {})):
                uid = "new-" + via
                assert await make(via, ("n",), {}, uid=uid, **kw) == a1
                assert await ActorRef(a1, uid).get() == ("n", None, 0)
                assert await ActorRef(main, uid).get() == ("n", None, 0)
                await xo.destroy_actor(ActorRef(a1, uid))
        return w.hits, rs, [(k, addrs.index(a)) for k, a, _ in cb.log]

    return main_


def deaths(mode, seq, waiters=True):
    """a fixed sequence of deaths one after another (repeated, of both, during the recovery)"""

    async def main_(w):
        pool, main, addrs, cb = await start(w, mode)
        for i in (1, 2):
            await make(main, ("a%d" % i,), {}, uid="u%d" % i, allocate_strategy=PI(i))
        w.begin()
        for i in seq:
            gap = 0
            if isinstance(i, tuple):
                i, gap = i
            killer(pool, addrs[i], "")()
            if gap:
                await asyncio.sleep(gap)
                continue
            ts = [asyncio.create_task(wait(addrs[i], main)) for _ in range(2 if waiters else 1)]
            await asyncio.gather(*ts)
            assert not handle_proc(pool, addrs[i]).dead, "woken before the recovery"
            o = await outcome(ActorRef(addrs[i], "u%d" % i).get())
            assert o == ("ok", ("a%d" % i, None, 0)) if mode == "actor" else o[0] == "ActorNotExist", (i, o)
            if mode == "process":
                await make(main, ("a%d" % i,), {}, uid="u%d" % i, allocate_strategy=PI(i))
        w.end()
        for i in (1, 2):
            await wait(addrs[i], main)
            check = {k[1] for k in cb.log}
            if addrs[i] in check:
                check_recovered(pool, addrs[i], cb)
        return [(k, addrs.index(a)) for k, a, _ in cb.log]

    return main_


def idle(mode, what):
    """waits that have nothing to wait for end; waits end when the pool goes away"""

    async def main_(w):
        pool, main, addrs, cb = await start(w, mode, 0 if what == "no-sub" else 2)
        target = {"alive": lambda: addrs[1], "main": lambda: main, "no-sub": lambda: "127.0.0.1:9", "unknown": lambda: "127.0.0.1:9", "stop": lambda: addrs[1], "removed": lambda: addrs[1], "removed-before": lambda: addrs[1], "dead-stop": lambda: addrs[1]}[what]()
        if what == "removed-before":
            await pool.remove_sub_pool(addrs[1])
        w.begin()
        if what == "dead-stop":
            killer(pool, addrs[1], "")()
        ts = [asyncio.create_task(outcome(wait(target, main)))]
        for _ in range(3):
            await asyncio.sleep(0)
        if what in ("stop", "dead-stop"):
            ev = fault(w, "late", lambda: None)
            await asyncio.sleep(0.2)
            await on(w, pool, pool.stop)
            ev.cancel()
        elif what == "removed":
            await on(w, pool, lambda: pool.remove_sub_pool(addrs[1]))
        rs = await asyncio.gather(*ts)
        for o in rs:
            if what in ("stop", "dead-stop"):
                assert o[0] == "ok" or closed_error(o), o
            elif what in ("alive", "main") or mode is False:
                assert o == ("ok", None), o
            else:
                assert o[0] != "CancelledError", o
        return rs

    return main_


async def on(w, pool, fn):
    """run a method of the pool in the pool's own process"""
    p = proc(w, "M")
    return await p.spawn(fn())


def scenarios():
    out = []

    def add(name, main, bound=1, bt=2, horizon=60.0):
        out.append(Scenario(name, main, bound=bound, bound_thorough=bt, horizon=horizon))

    for mode in ("actor", "process", False):
        m = str(mode)
        add("die-%s" % m, recover(mode, []), 1)
        add("die-call-%s" % m, recover(mode, ["call"]), 1)
        add("die-create-%s" % m, recover(mode, ["create-m", "create-s"]), 1)
        add("die-destroy-%s" % m, recover(mode, ["destroy-m", "destroy-s"]), 1)
        if mode:
            add("die-wait-%s" % m, recover(mode, ["wait", "late-wait"]), 1)
            add("die-two-%s" % m, recover(mode, ["late-wait"], "two", fixed=True), 1)
            add("die-again-%s" % m, recover(mode, ["late-wait"], 2, fixed=True))
            add("kill-actor-%s" % m, recover(mode, ["kill-actor", "late-wait"]), 1)
            add("reset-%s" % m, recover(mode, ["call", "wait"], how="reset"), 1)
            for i, seq in enumerate([(1, 1), (1, 2), ((1, 0.1), 2), (1, (1, 0.7), 1), ((2, 0.01), (1, 1.5), 2, 1)]):
                add("deaths-%d-%s" % (i, m), deaths(mode, seq), 1)
    add("die-slow", recover("actor", ["late-wait", "calls"], 2, slow=True, fixed=True))
    add("die-slow-create", recover("actor", ["late-wait", "create-s"], slow=True), 1)
    add("die-slow-destroy", recover("actor", ["late-wait", "destroy-s"], slow=True), 1)
    # bytes on a local connection do not arrive later than half a second
    out.extend(s.variant("-deep", {"timer_max": 0}, 2, 3) for s in list(out) if s.name in ("die-create-actor", "die-destroy-actor"))
    for mode in ("actor", False):
        for what in ("alive", "main", "no-sub", "unknown", "stop", "removed", "removed-before", "dead-stop"):
            add("idle-%s-%s" % (what, mode), idle(mode, what), 1)
    return out


def run(ctx):
    ctx.explore(scenarios())
