"""P22: starting a sub process hands over complete parameters and results.

handover: the writer's stores (taken from the real code, split into bytes) interleaved in every way with the
loads of the real reader.  sizes: objects of every size around the limit.  start: sub pools over the simulated
world that end, fail or are cancelled at any step of their start.  processes: real commands in place of the
python of the child."""
import asyncio
import itertools
import os
import pickle
import shutil
import stat
import sys
import tempfile
import types

import xoscar as xo
from vlib.explore import Scenario
from vlib.scen import fault, outcome, proc

TECHNIQUE = "exhaustive interleaving of the shared-memory stores and loads of the real writer and reader, enumeration of sizes and commands, and deviation-bounded schedule exploration of starting pools with a death, failure or cancellation at every step"
RULE = "interleavings of the writer's byte stores with the reader's loads; object sizes; schedules place the death of a starting process or the cancellation of its start at any step; distinct: distinct results"
NOTE = "All interleavings of the stores (byte by byte, ascending and descending within one store) of the real writer with the loads of the real reader and one repetition, all sizes around the limit, and all placements of a death, failure or cancellation during the start of sub pools with up to one (thorough: two) reordered events."
ASSUMPTIONS = ["stores become visible to the other process in program order; the bytes of one store in ascending or descending order", "bounded time means 20 s of virtual time"]
SIZE = None


def ip():
    from xoscar.backends.indigen import pool

    return pool


class Shm:
    def __init__(self, buf):
        self.buf = buf
        self.name = "x"
        self.size = len(buf)


class Recorder:
    """memory that remembers each store"""

    def __init__(self, data):
        self.data = bytearray(data)
        self.stores = []

    def __len__(self):
        return len(self.data)

    def _range(self, k):
        if isinstance(k, slice):
            return range(*k.indices(len(self.data)))
        return range(k, k + 1)

    def __setitem__(self, k, v):
        r = self._range(k)
        v = bytes(v) if not isinstance(v, int) else bytes([v])
        if len(v) != len(r):
            raise ValueError("memoryview assignment: lvalue and rvalue have different structures")
        for i, b in zip(r, v):
            self.data[i] = b
        self.stores.append(list(zip(r, v)))

    def __getitem__(self, k):
        return bytes(self.data)[k] if isinstance(k, slice) else self.data[k]

    def __buffer__(self, flags):
        self._copy = bytearray(self.data)
        return memoryview(self._copy)

    def __release_buffer__(self, view):
        view.release()
        d = [(i, b) for i, (a, b) in enumerate(zip(self.data, self._copy)) if a != b]
        self.data[:] = self._copy
        if d:
            self.stores.append([d])  # one store, all at once


class Reader:
    """memory on which the writer goes on before each load, as the schedule says"""

    def __init__(self, data, steps, schedule):
        self.data = bytearray(data)
        self.steps = steps
        self.pos = 0
        self.schedule = schedule  # writer position before each load
        self.loads = 0

    def __len__(self):
        return len(self.data)

    def advance(self):
        if self.loads < len(self.schedule):
            to = self.schedule[self.loads]
        else:
            to = self.schedule[-1] if self.schedule else 0
        self.loads += 1
        while self.pos < to:
            for i, b in self.steps[self.pos]:
                self.data[i] = b
            self.pos += 1

    def __getitem__(self, k):
        self.advance()
        return bytes(self.data)[k] if isinstance(k, slice) else self.data[k]

    def __setitem__(self, k, v):
        raise AssertionError("the reader writes")

    def __buffer__(self, flags):
        self.advance()
        return memoryview(bytes(self.data))


def record(before, puts, order):
    p = ip()
    mem = Recorder(before)
    for seq, o in puts:
        p._shm_put_object(seq, Shm(mem), o)
    steps = []
    for st in mem.stores:
        if st and isinstance(st[0], list):
            steps.append(st[0])
            continue
        items = st if order == "up" else st[::-1]
        # bytes that do not change need no step of their own
        steps.extend([x] for x in items)
    return mem.data, steps


OBJS = [
    (1, [("127.0.0.1:1",)]),
    {"a": 1},
    "x" * 9,
    ["127.0.0.1:20001"],
    None,
    b"\x02\x00\x00\x00\x02\x00\x00\x00",
]


def fn_handover(case):
    """prior content x object x order: all interleavings with the loads of one or two looks of the reader"""
    first, obj, order, looks, which = case
    p = ip()
    S = p._ShmSeq
    before = bytearray(256)
    if first is not None:
        before, _ = record(before, [(S.INIT_PARAMS, OBJS[first])], "up")
        seq = S.INIT_RESULT
    else:
        seq = S.INIT_PARAMS
    o = OBJS[obj]
    final, steps = record(before, [(seq, o)], order)
    # loads of a look: as many as the reader needs
    probe = Reader(final, [], [])
    assert p._shm_get_object(seq, Shm(probe)) == o, "the complete object is not read"
    n_loads = probe.loads
    asked = seq if which == "new" else S.INIT_PARAMS if seq == S.INIT_RESULT else S.INIT_RESULT
    n = 0
    seen = set()
    k = len(steps)
    want = pickle.dumps(o)
    for sched in itertools.combinations_with_replacement(range(k + 1), n_loads * looks if looks == 1 else n_loads + 1):
        n += 1
        mem = Reader(before, steps, sched)
        got = []
        for _ in range(looks):
            try:
                r = p._shm_get_object(asked, Shm(mem))
            except Exception as e:  # torn
                raise AssertionError("reader failed with %r when the writer is at %r of %d" % (e, sched, k))
            if r is not None:
                assert which == "new" and pickle.dumps(r) == want, "reader got %r when the writer is at %r of %d stores" % (r, sched, k)
                got.append(1)
            else:
                got.append(0)
        if which == "new":
            if sched[0] == k and o is not None:
                assert got[0], "the complete object is not seen"
            assert got == sorted(got), "the object disappeared"
        seen.add(tuple(got))
    return {"outcome": tuple(sorted(seen)), "transitions": n}


class Sized:
    """an object whose pickle has exactly n bytes"""


def sized(n):
    o = b"x" * max(0, n - 40)
    while len(pickle.dumps(o)) < n:
        o += b"x"
    return o if len(pickle.dumps(o)) == n else None


def fn_size(case):
    n, seq, kind = case
    p = ip()
    S = p._ShmSeq(seq)
    size = p._SUBPROCESS_SHM_SIZE
    if kind == "real":
        shm = p.shared_memory.SharedMemory(create=True, size=size, track=False)
    else:
        shm = Shm(memoryview(bytearray(size)))
    o = sized(n)
    if o is None:
        return {"outcome": "none", "transitions": 0}
    try:
        before = bytes(shm.buf)
        try:
            p._shm_put_object(S, shm, o)
            put = True
        except Exception:
            put = False
        r = p._shm_get_object(S, shm)
        if put:
            assert r == o, "an object of %d bytes was accepted but is read as %s" % (n, type(r).__name__ if r is None or len(r) != len(o) else "different")
        else:
            assert r is None, "an object that was refused is published"
            assert bytes(shm.buf)[:4] == before[:4]
        if n <= size - 64:
            assert put, "an object of %d bytes was refused" % n
        if n > size - 8:
            assert not put, "an object of %d bytes was accepted" % n
    finally:
        if kind == "real":
            shm.close()
            shm.unlink()
    return {"outcome": put, "transitions": 1}


# ------------------------------------------------------------------- starting
class A(xo.Actor):
    def get(self):
        return "v"


class W:
    pass


LIMIT = 20.0


def started(w, n):
    return [p for p in w.loop.procs if p.name.startswith("M") and p.name != "M"]


def scenario(kind, n, how):
    async def main(w):
        res = {}
        m = w.new_proc("M", pool=True)
        hit = {}
        pool = None
        if kind != "create":
            pool = await w.start_pool(n_process=1, proc=m, auto_recover=False)
            base = set(id(p) for p in w.loop.procs)
        else:
            base = {id(m)}

        def victims():
            return [p for p in w.loop.procs if id(p) not in base and p.name != "C" and not p.dead]

        def kill(i):
            def fire():
                v = victims()
                if len(v) > i:
                    hit["killed"] = v[i].name
                    v[i].kill(-9)

            return fire

        kw = {}
        if how == "badmodule":
            kw = {"modules": ["p22_no_such_module"]}
        if how == "toolong":
            kw = {"kwargs": {"x": "y" * 20000}} if kind == "append" else {"envs": [{"x": "y" * 20000}] * n}
        w.begin()

        async def go():
            if kind == "create":
                if how == "badmodule":
                    kw["modules"] = [[]] + [["p22_no_such_module"]] * n
                return await w.start_pool(n_process=n, proc=m, auto_recover=False, **kw)
            if kind == "append":
                return await m.spawn(pool.append_sub_pool(**kw))
            rs = await asyncio.gather(*[m.spawn(pool.append_sub_pool(**kw)) for _ in range(n)], return_exceptions=True)
            return rs

        t = asyncio.ensure_future(outcome(go()))
        if how.startswith("kill"):
            fault(w, "kill", kill(int(how[4:])))
        if how == "cancel":

            def cancel():
                hit["cancelled"] = True
                for x in list(m.tasks):
                    if not x.done() and any(s in repr(x.get_coro()) for s in ("go", "append_sub_pool")):
                        x.cancel()

            fault(w, "cancel", cancel)
        if how == "lag":
            # the child works slowly

            def freeze():
                v = victims()
                if v:
                    v[0].frozen = True
                    w.loop.call_later(5.0, lambda: setattr(v[0], "frozen", False))

            fault(w, "freeze", freeze)
        done, _ = await asyncio.wait([t], timeout=LIMIT)
        w.end()
        if not done:
            t.cancel()
            res["start"] = "hang"
            return res
        o = t.result()
        res["start"] = o[0] if kind != "appends" or o[0] != "ok" else tuple(type(x).__name__ if isinstance(x, BaseException) else "ok" for x in o[1])
        res["hit"] = bool(hit)
        await asyncio.sleep(0.5)  # threads that still look
        res["shm"] = len(w.shm)
        alive = [p.name for p in w.loop.procs if id(p) not in base and p.name not in ("C",) and not p.dead]
        if o[0] == "ok":
            pl = o[1] if kind == "create" else pool
            live = {a for a, h in pl.sub_processes.items() if h.returncode is None}
            res["orphans"] = len(alive) - len(live) + (0 if kind == "create" else 1)
            # the result is the child's own
            for a in sorted(live):
                x = await xo.create_actor(A, address=pl.external_address, allocate_strategy=xo.allocate_strategy.AddressSpecified(a))
                res.setdefault("use", []).append((x.address == a, (await outcome(x.get()))))
            res["n"] = len(pl.sub_processes)
            await m.spawn(pl.stop())
        else:
            res["orphans"] = len(alive)
            if pool is not None:
                res["n"] = len(pool.sub_processes)
                res["conf"] = len(pool._config.get_process_indexes())
                x = await asyncio.wait_for(outcome(xo.create_actor(A, address=pool.external_address, allocate_strategy=xo.allocate_strategy.MainPool())), 10)
                res["after"] = x[0]
                await m.spawn(pool.stop())
        return res

    def judge(w, res, errors):
        out = []
        if res["start"] == "hang":
            return [("hang", "the start neither succeeds nor fails within %.0f s" % LIMIT)]
        if res["shm"]:
            out.append(("shm", "%d blocks of shared memory left" % res["shm"]))
        if res["orphans"] > 0:
            out.append(("orphan", "%d processes nobody knows are left" % res["orphans"]))
        for own, r in res.get("use", ()):
            if not own or r != ("ok", "v"):
                out.append(("foreign", "a started sub pool is not usable at its address: %r" % (res["use"],)))
        if not res["hit"]:
            fails = how in ("badmodule", "toolong")
            ok = "ok" if kind != "appends" else ("ok",) * n
            if fails and res["start"] == "ok":
                out.append(("accepted", "the start succeeded"))
            if not fails and res["start"] != ok:
                out.append(("refused", "the start failed: %r" % (res["start"],)))
        if how.startswith("kill") and res["hit"] and res["start"] not in ("ok", "OSError") and kind != "appends" and res["start"] == "hang":
            out.append(("error", "the start ended with %r" % (res["start"],)))
        if res.get("after") not in (None, "ok"):
            out.append(("after", "the main pool is unusable after a failed start: %r" % res["after"]))
        if "conf" in res and res["conf"] != res["n"] + 1:
            out.append(("conf", "%d sub pools, %d in the configuration" % (res["n"], res["conf"] - 1)))
        return out

    return Scenario("%s-%d-%s" % (kind, n, how), main, judge, bound=1, bound_thorough=2, horizon=600)


# ------------------------------------------------------------- real commands
SCRIPTS = {
    "exit0": "#!/bin/sh\nexit 0\n",
    "exit1": "#!/bin/sh\nexit 1\n",
    "kill": "#!/bin/sh\nkill -9 $$\n",
    "late": "#!/bin/sh\nsleep 0.4\nexit 7\n",
    "syntax": "#!/bin/sh\nexec %s -c 'x ='\n" % sys.executable,
    "wrong": "#!/bin/sh\nexec %s -c 'import sys; sys.exit(0)' \"$@\"\n" % sys.executable,
    "missing": None,
    "noexec": "#!/nonexistent/python\n",
    "slow": "#!/bin/sh\nsleep 0.5\nexec %s \"$@\"\n" % sys.executable,
    "direct": "#!/bin/sh\nexec %s \"$@\"\n" % sys.executable,
}


def fn_real(case):
    name, uv = case
    d = tempfile.mkdtemp(prefix="p22-")
    before = {x for x in os.listdir("/dev/shm") if x.startswith("psm_")} if os.path.isdir("/dev/shm") else set()
    try:
        path = os.path.join(d, "python")
        if SCRIPTS[name] is not None:
            with open(path, "w") as f:
                f.write(SCRIPTS[name])
            os.chmod(path, os.stat(path).st_mode | stat.S_IXUSR | stat.S_IXGRP | stat.S_IXOTH)
        made = []
        from multiprocessing import shared_memory  # noqa

        p = ip()
        real = p.shared_memory.SharedMemory

        class Track(real):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                made.append(self.name)

        async def go():
            pool = await xo.create_actor_pool("127.0.0.1", n_process=0)
            try:
                p.shared_memory.SharedMemory = Track
                try:
                    a = await asyncio.wait_for(pool.append_sub_pool(start_python=path), 60)
                finally:
                    p.shared_memory.SharedMemory = real
                ref = await xo.create_actor(A, address=a)
                assert ref.address == a and await ref.get() == "v"
                return "started"
            except asyncio.TimeoutError:
                raise AssertionError("the failed start of a child is not noticed")
            except OSError:
                assert not pool.sub_processes
                return "refused"
            finally:
                await pool.stop()

        from vlib import sim

        sim_uninstall()
        r = asyncio.run(go())
        left = [x for x in made if os.path.exists("/dev/shm/" + x.lstrip("/"))]
        assert not left, "shared memory left behind"
        want = "started" if name in ("slow", "direct") else "refused"
        assert r == want, "%s: %s" % (name, r)
        return {"outcome": (name, r), "transitions": 1}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def sim_uninstall():
    """the workers of an enumeration may have inherited the simulated world"""
    from vlib import sim

    assert not getattr(sim, "_installed", False), "run before the simulated scenarios"


def run(ctx):
    th = ctx.thorough
    hand = []
    for first in [None] + list(range(len(OBJS) if th else 3)):
        for obj in range(len(OBJS)):
            for order in ("up", "down"):
                hand.append((first, obj, order, 1, "new"))
                hand.append((first, obj, order, 1, "other" if first is None else "new"))
                if len(pickle.dumps(OBJS[obj])) <= (40 if th else 22):
                    hand.append((first, obj, order, 2, "new"))
    sizes = [(n, s, k) for n in [1, 20, 100, 5000] + list(range(10140, 10300)) + [10400, 12280, 12288, 12300, 20000, 70000] for s in (1, 2) for k in ("mem", "real")]
    real = [(n, False) for n in SCRIPTS]
    ctx.enumerate({"handover": (hand, fn_handover), "sizes": (sizes, fn_size), "processes": (real, fn_real)})
    sc = []
    for kind, n in (("create", 1), ("create", 2), ("append", 1), ("appends", 2)) + ((("create", 3), ("appends", 3)) if th else ()):
        for how in ["plain"] + ["kill%d" % i for i in range(n)] + ["cancel", "lag", "badmodule", "toolong"]:
            if kind == "appends" and how in ("badmodule", "toolong"):
                continue
            sc.append(scenario(kind, n, how))
    ctx.explore(sc)
