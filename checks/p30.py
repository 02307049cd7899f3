"""P30: a sub pool never outlives its main pool.

watch: a sub pool over the simulated world, with a stand-in of the process table; the main process dies (gone,
waited for by nobody, number taken by another process) at any step of workloads, and look-ups answer with any
sequence of errors.  thread: the polling thread of a child process, driven through every sequence of answers.
kernel / processes: real processes, killed in every listed way at every listed point of start-up and workload."""
import asyncio
import itertools
import os
import signal
import subprocess
import sys
import tempfile
import shutil
import time
import types
from contextlib import ExitStack
from unittest import mock

import psutil

import xoscar as xo
from vlib.explore import Scenario
from vlib.scen import closed_error, fault, outcome, proc

RULE = "a schedule places the death of the main process at any step of the workload; cases are sequences of answers of the process table and, for real processes, ways and points of dying"
NOTE = "All placements of the main process's death over the workloads with up to one (thorough: two) deliveries out of order, all sequences of up to four (thorough: five) answers of the process table, and a list of deaths of real processes."
ASSUMPTIONS = [
    "bounded time means 3 s of virtual time for the watch loop, 3 rounds for the polling thread, 12 s for real processes",
    "the thread that started the main pool lives as long as the main process (the kernel ends children with the thread that forked them)",
]
PID = 99999997
PI = xo.allocate_strategy.ProcessIndex


class Table:
    """the part of the process table that concerns the main process"""

    def __init__(self):
        self.state = "alive"  # alive / asleep / gone / zombie / reused
        self.script = []  # errors of the next look-ups
        self.looks = 0

    def look(self):
        self.looks += 1
        if self.script:
            e = self.script.pop(0)
            if e is not None:
                raise e


ERRORS = {
    "denied": lambda: psutil.AccessDenied(PID),
    "os": lambda: OSError(24, "Too many open files"),
    "value": lambda: ValueError("truncated"),
    "timeout": lambda: psutil.TimeoutExpired(1, PID),
}
T = Table()


class FakeProcess:
    def __init__(self, pid=None):
        assert pid == PID
        T.look()
        if T.state == "gone":
            raise psutil.NoSuchProcess(PID)
        self.pid = pid
        self.ident = "other" if T.state == "reused" else "main"

    def _state(self):
        T.look()
        return T.state

    def is_running(self):
        s = self._state()
        if s == "gone":
            return False
        return self.ident == ("other" if s == "reused" else "main")

    def status(self):
        s = self._state()
        if s == "gone":
            raise psutil.NoSuchProcess(PID)
        return {"zombie": psutil.STATUS_ZOMBIE, "asleep": psutil.STATUS_DISK_SLEEP}.get(s, psutil.STATUS_SLEEPING)

    def create_time(self):
        s = self._state()
        if s == "gone":
            raise psutil.NoSuchProcess(PID)
        return 2.0 if s == "reused" else 1.0

    def __eq__(self, o):
        return isinstance(o, FakeProcess) and self.ident == o.ident

    __hash__ = None

    @property
    def ppid(self):
        return lambda: 1


_real = (psutil.Process, psutil.pid_exists, os.kill)


def table_patches():
    def process(pid=None):
        return FakeProcess(pid) if pid == PID else _real[0](pid)

    def exists(pid):
        if pid != PID:
            return _real[1](pid)
        T.look()
        return T.state != "gone"

    def kill(pid, sig):
        if pid != PID:
            return _real[2](pid, sig)
        T.look()
        assert sig == 0
        if T.state == "gone":
            raise ProcessLookupError(3, "No such process")

    st = ExitStack()
    st.enter_context(mock.patch("psutil.Process", process))
    st.enter_context(mock.patch("psutil.pid_exists", exists))
    st.enter_context(mock.patch("os.kill", kill))
    return st


class A(xo.Actor):
    def __init__(self, peer=None):
        super().__init__()
        self.peer = peer

    def get(self):
        return "v"

    async def slow(self, d=0.5):
        await asyncio.sleep(d)
        return "done"

    async def forever(self):
        await asyncio.get_running_loop().create_future()

    async def stubborn(self):
        for _ in range(3):
            try:
                await asyncio.sleep(100)
            except asyncio.CancelledError:
                pass

    async def nested(self):
        return await self.peer.slow()

    @xo.generator
    async def give(self):
        async def gen():
            for i in range(100):
                await asyncio.sleep(0.05)
                yield i

        return gen()


class Late(xo.Actor):
    async def __pre_destroy__(self):
        await asyncio.sleep(0.2)

    async def __post_create__(self):
        await super().__post_create__()
        await asyncio.sleep(0.3)


WORK = ("idle", "call", "forever", "stubborn", "generator", "nested", "create", "destroy", "lookup")
LIMIT = 3.0


def scenario(work, how, script=(), die=True, stop=False):
    async def main(w):
        global T
        T = Table()
        w.main_pid = PID
        res = {}
        with table_patches():
            pool = await w.start_pool(n_process=2, auto_recover=False)
            idx = pool._config.get_process_indexes()
            addrs = [pool._config.get_pool_config(i)["external_address"][0] for i in idx]
            b = await xo.create_actor(A, address=addrs[0], allocate_strategy=PI(2), uid="b")
            a = await xo.create_actor(A, b, address=addrs[0], allocate_strategy=PI(1), uid="a")
            late = None
            if work == "destroy":
                late = await xo.create_actor(Late, address=addrs[0], allocate_strategy=PI(1), uid="late")
            subs = [proc(w, "M1"), proc(w, "M2")]
            m = proc(w, "M")
            pools = [w.pools["M1"], w.pools["M2"]]
            T.script = [ERRORS[s]() if s else None for s in script]

            def death():
                T.state = how
                m.kill(-9)

            async def load():
                if work == "call":
                    return await a.slow()
                if work in ("forever", "stubborn"):
                    return await getattr(a, work)()
                if work == "nested":
                    return await a.nested()
                if work == "generator":
                    out = []
                    g = await a.give()
                    g._gc_destroy = False
                    async for x in g:
                        out.append(x)
                    return len(out)
                if work == "create":
                    await xo.create_actor(Late, address=addrs[0], allocate_strategy=PI(1), uid="late")
                    return "created"
                if work == "destroy":
                    await xo.destroy_actor(late)
                    return "destroyed"
                if work == "lookup":
                    return (await xo.actor_ref("a", address=addrs[0])).uid
                await asyncio.sleep(0.5)

            w.begin()
            if die:
                fault(w, "die", death)
            t = asyncio.ensure_future(outcome(load()))
            await asyncio.wait([t], timeout=2.0)
            if die and not w.hit:
                w.loop.events[:] = [e for e in w.loop.events if e.label != "die"]
                w.hit_at = w.loop.time()
                # as long as it lives nobody ends
                res["early"] = [p.name for p in subs if p.dead] + [i for i, p in enumerate(pools) if p.stopped]
                death()
            if not die:
                await asyncio.sleep(1.0)
                res["early"] = [p.name for p in subs if p.dead] + [i for i, p in enumerate(pools) if p.stopped]
                busy = work in ("forever", "stubborn")
                res["still"] = (await asyncio.wait_for(outcome((b if busy else a).get()), 5), await asyncio.wait_for(outcome(b.get()), 5))
                if stop:
                    T.script = [ERRORS[s]() if s else None for s in script]
                    await asyncio.wait_for(m.spawn(pool.stop()), 60)
                    res["ended"] = [p.name for p in subs if not p.dead]
                w.end()
                t.cancel()
                return res
            w.end()
            await asyncio.sleep(max(0, w.hit_at + LIMIT - w.loop.time()))
            res["alive"] = [p.name for p in subs if not p.dead and not pools[subs.index(p)].stopped]
            await asyncio.sleep(2.0)
            res["running"] = [p.name for p in subs if not p.dead]
            if not t.done():
                t.cancel()
                await asyncio.wait([t], timeout=5)
                res["load"] = "hang"
            else:
                res["load"] = t.result()[0]
        return res

    def judge(w, res, errors):
        out = []
        if res.get("early"):
            out.append(("early", "ended although the main process lives: %s" % res["early"]))
        if res.get("alive"):
            out.append(("outlives", "%s not ended %.0f s after the main process (%s)" % (res["alive"], LIMIT, how)))
        if res.get("running") and work != "stubborn":  # left to the polling thread
            out.append(("running", "the process of %s goes on after its pool stopped" % res["running"]))
        if res.get("still") not in (None, (("ok", "v"), ("ok", "v"))):
            out.append(("unusable", "a living cluster answers %r" % (res["still"],)))
        if res.get("ended"):
            out.append(("stop", "not ended with the stop of the cluster: %s" % res["ended"]))
        return out

    name = "%s-%s%s%s" % (work, how if die else "lives", "-" + "+".join(s or "ok" for s in script) if script else "", "-stop" if stop else "")
    return Scenario(name, main, judge, bound=1 if die else 0, bound_thorough=2 if die else 1)


# ------------------------------------------------------- the thread of a child
def fn_thread(case):
    """rounds of look-ups: errors, life, death"""
    global T
    rounds = case
    T = Table()
    from xoscar.backends.config import ActorPoolConfig
    from xoscar.backends.indigen import pool as ip

    conf = ActorPoolConfig()
    conf.add_pool_conf(0, "main", "unixsocket:///1", "127.0.0.1:1")
    conf.add_pool_conf(1, "sub", "unixsocket:///2", "127.0.0.1:2", suspend_sigint=False, use_uvloop=False, logging_conf={})
    from vlib import sim

    sim.SimShm.world = types.SimpleNamespace(shm={}, shm_ids=itertools.count())
    patch = mock.patch.object(ip.shared_memory, "SharedMemory", sim.SimShm)
    patch.start()
    shm = sim.SimShm(create=True, size=20480)
    targets = []
    log = []

    class Thread:
        def __init__(self, *a, target=None, daemon=None, args=(), kwargs=None, name=None):
            assert daemon, "the thread would keep the process"
            targets.append((target, args, kwargs or {}))

        def start(self):
            pass

        daemon = True

    class Exit(BaseException):
        pass

    class Stop(BaseException):
        pass

    def _exit(code):
        assert code != 0
        raise Exit()

    it = iter(range(1, len(rounds)))

    def enter(i):
        r = rounds[i]
        if r in ERRORS:
            T.script = [ERRORS[r]()]
        else:
            T.script = []
            T.state = r
        log.append(r)

    slept = []

    def sleep(s):
        slept.append(s)
        try:
            enter(next(it))
        except StopIteration:
            raise Stop()

    try:
        ip._shm_put_object(ip._ShmSeq.INIT_PARAMS, shm, {"actor_pool_config": conf, "process_index": 1, "main_pool_pid": PID, "python_version": sys.hexversion})
        with table_patches(), mock.patch("threading.Thread", Thread), mock.patch("asyncio.run", lambda c: c.close()):
            ip.MainActorPool._start_sub_pool_in_child(shm.name)
        assert targets, "nobody polls the main process"
        fate = "lives"
        with table_patches(), mock.patch("os._exit", _exit), mock.patch("time.sleep", sleep):
            enter(0)
            for target, a, k in targets:
                try:
                    target(*a, **k)
                except Exit:
                    fate = "ends"
                except Stop:
                    pass
    finally:
        shm.close()
        shm.unlink()
        patch.stop()
        import random

        asyncio.set_event_loop(None)
        random.seed(1)
    dead = [i for i, r in enumerate(rounds) if r in ("gone", "zombie", "reused")]
    assert all(0 < s <= 30 for s in slept), slept
    if not dead:
        assert fate == "lives", "ended although the main process lives: %r" % (rounds,)
    else:
        # noticed in the round of the death, or in the next round without an error
        ok = [i for i in range(dead[0], len(rounds)) if rounds[i] not in ERRORS]
        assert len(log) > dead[0] or fate == "lives", "ended in round %d of %r" % (len(log), rounds)
        first = 0
        if rounds[0] == "reused":  # nobody can tell
            return {"outcome": ("reused-first",), "transitions": len(log)}
        if any(r in ERRORS for r in rounds[:1]) and "reused" in rounds and not any(r in ("alive", "asleep") for r in rounds[: rounds.index("reused")]):
            return {"outcome": ("unknown",), "transitions": len(log)}
        if ok:
            assert fate == "ends", "the main process is %s, but the process goes on: %r" % (rounds[dead[0]], rounds)
    return {"outcome": (fate, len(log)), "transitions": len(log)}


# ------------------------------------------------------------- real processes
PARENT = r"""
import asyncio, os, sys, time, signal
work, how, out = sys.argv[1:4]
import xoscar as xo
from xoscar.backends.indigen import fate_sharing

class A(xo.Actor):
    def get(self):
        return os.getpid()
    def spin(self):
        t = time.time()
        while time.time() < t + 300:
            pass
    def block(self):
        time.sleep(300)
    async def slow(self):
        await asyncio.sleep(300)
    async def inthread(self):
        await asyncio.to_thread(time.sleep, 300)

def tell(*a):
    with open(out + ".tmp", "w") as f:
        f.write(" ".join(map(str, a)))
    os.rename(out + ".tmp", out)

def die():
    if how == "exit":
        os._exit(3)
    if how == "kill":
        os.kill(os.getpid(), signal.SIGKILL)
    if how == "segv":
        os.kill(os.getpid(), signal.SIGSEGV)
    if how == "term":
        os.kill(os.getpid(), signal.SIGTERM)
    if how == "sysexit":
        sys.exit(1)
    if how == "raise":
        raise RuntimeError("main fails")

async def main():
    if work == "kernel":
        p = await fate_sharing.create_subprocess_exec(sys.executable, "-c", "import time; time.sleep(300)")
        tell(p.pid)
        await asyncio.sleep(0.3)
        die()
    if work == "starting":
        real = fate_sharing.create_subprocess_exec
        from xoscar.backends.indigen import pool as ip
        async def create(*a, **k):
            p = await real(*a, **k)
            tell(p.pid)
            die()
        ip.create_subprocess_exec = create
    pool = await xo.create_actor_pool("127.0.0.1", n_process=1, use_uvloop=(how == "segv"))
    pids = [p.pid for p in pool.sub_processes.values()]
    addr = list(pool.sub_processes)[0]
    a = await xo.create_actor(A, address=addr, uid="a")
    assert await a.get() == pids[0]
    if work not in ("idle",):
        t = asyncio.create_task(getattr(a, work)())
        await asyncio.sleep(0.3)
    tell(*pids)
    if work == "lives":
        pass
    die()

if __name__ == "__main__":
    asyncio.run(main())
"""


def running(pid, mark):
    try:
        with open("/proc/%d/stat" % pid) as f:
            s = f.read()
        if s.rsplit(")", 1)[1].split()[0] in "ZX":
            return False
        return s.rsplit(")", 1)[1].split()[19] == mark if mark else True
    except (FileNotFoundError, ProcessLookupError):
        return False


def start_mark(pid):
    try:
        with open("/proc/%d/stat" % pid) as f:
            return f.read().rsplit(")", 1)[1].split()[19]
    except (FileNotFoundError, ProcessLookupError):
        return None


def fn_process(case):
    work, how, reap = case
    d = tempfile.mkdtemp(prefix="p30-")
    pids = []
    p = None
    try:
        script, out = os.path.join(d, "parent.py"), os.path.join(d, "out")
        with open(script, "w") as f:
            f.write(PARENT)
        p = subprocess.Popen([sys.executable, script, work, how, out], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, start_new_session=True)
        end = time.time() + 40
        while not os.path.exists(out):
            assert time.time() < end, "the cluster did not start"
            if p.poll() is not None and not os.path.exists(out):
                raise AssertionError("the main process failed early (%s)" % p.returncode)
            time.sleep(0.01)
        pids = [int(x) for x in open(out).read().split()]
        marks = [start_mark(x) for x in pids]
        if reap:
            p.wait(40)
        else:  # the main process stays in the table
            while running(p.pid, None):
                assert time.time() < end
                time.sleep(0.01)
        t0 = time.time()
        while any(m and running(x, m) for x, m in zip(pids, marks)):
            assert time.time() < t0 + 12, "the main process ended (%s), its sub process (%s) goes on" % (how, work)
            time.sleep(0.02)
        return {"outcome": (work, how, reap), "transitions": 1}
    finally:
        if p is not None:
            for x, m in zip(pids, [start_mark(x) for x in pids]):
                if m and running(x, m):
                    try:
                        os.kill(x, signal.SIGKILL)
                    except ProcessLookupError:
                        pass
            if p.poll() is None:
                p.kill()
            p.wait()
        shutil.rmtree(d, ignore_errors=True)


def run(ctx):
    th = ctx.thorough
    sc = []
    for work in WORK:
        sc.append(scenario(work, "gone"))
        sc.append(scenario(work, "x", die=False))
    for how in ("zombie", "reused"):
        for work in WORK if th else ("idle", "forever", "create"):
            sc.append(scenario(work, how))
    for n in (1, 2, 3) + ((4,) if th else ()):
        for script in itertools.product(sorted(ERRORS) if n < 3 or th else ("denied", "os"), repeat=n):
            s = scenario("idle", "gone", script)
            s.bound = 0
            sc.append(s)
            sc.append(scenario("idle", "x", script, die=False))
    for script in (("denied",), (None, "os"), ("value", None, None, "timeout")):
        sc.append(scenario("call", "x", script, die=False, stop=True))
        sc.append(scenario("call", "zombie", script))
    ctx.explore(sc)
    alpha = ["alive", "asleep", "gone", "zombie", "reused", "denied", "os", "value"]
    rounds = [t for n in range(1, 6 if th else 5) for t in itertools.product(alpha, repeat=n) if sum(x in ("gone", "zombie", "reused") for x in t) <= 1 or len(set(t[[i for i, x in enumerate(t) if x in ("gone", "zombie", "reused")][0]:]) - set(ERRORS)) == 1]
    # the dead do not come back
    rounds = [t for t in rounds if not any(x in ("gone", "zombie", "reused") and y in ("alive", "asleep") for i, x in enumerate(t) for y in t[i + 1:])]
    procs = [("kernel", h, True) for h in ("kill", "exit", "segv", "term")]
    procs += [("starting", "kill", True), ("starting", "exit", False), ("idle", "kill", False), ("idle", "sysexit", True), ("idle", "raise", True), ("spin", "kill", True), ("block", "exit", True), ("slow", "segv", True), ("inthread", "term", False)]
    if th:
        procs = [(w, h, r) for w in ("kernel", "starting", "idle", "spin", "block", "slow", "inthread") for h in ("kill", "exit", "segv", "term", "sysexit", "raise") for r in (True, False) if not (w in ("kernel", "starting", "spin", "block", "slow", "inthread") and h in ("sysexit", "raise"))]
    ctx.enumerate({"thread": (rounds, fn_thread), "processes": (procs, fn_process)})
