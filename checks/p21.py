"""P21: copying to remote buffers and files transfers exactly the source bytes.

Every vector of up to three (four) buffers or files over sizes around the block size, for every small block size,
kinds of memory and destinations, on real pools, with guard bytes around the destination; every position of a
destination that is missing, too small, read-only, closed or failing, and of a failing source.
Schedules: concurrent copies and calls, cancellation and death of the receiver at every step."""
import asyncio
import io
import itertools

import numpy as np

import xoscar as xo
from vlib.explore import Scenario
from vlib.scen import closed_error, fault, outcome, proc, run_world
from xoscar.aio import AioFileObject

TECHNIQUE = "bounded-exhaustive enumeration of buffer vectors, block sizes and faults on real pools, plus stateless exploration of schedules, cancellations and crashes"
NOTE = "Exhaustive over up to three buffers of sizes up to two blocks and a bit; GPU memory and UCX transport cannot be run here."
RULE = "a case is all vectors of one length and block size in one setting; a schedule is one execution of a closed driver; distinct: distinct results"
ASSUMPTIONS = ["a copy that reports an error may have stored part of the data"]
PI = xo.allocate_strategy.ProcessIndex
HOLD = {}  # buffers and files of the receiving side, by key


class Short(io.BytesIO):
    """gives at most k bytes at a time, like a pipe"""

    def __init__(self, data, k):
        super().__init__(data)
        self.k = k

    def read(self, n=-1):
        return super().read(self.k if n is None or n < 0 else min(n, self.k))


class Fails(io.BytesIO):
    """the n-th operation fails"""

    def __init__(self, data=b"", at=0):
        super().__init__(data)
        self.at = at

    def _tick(self):
        self.at -= 1
        if self.at == 0:
            raise OSError("device failed")

    def read(self, *a):
        self._tick()
        return super().read(*a)

    def write(self, d):
        self._tick()
        return super().write(d)


def pattern(n, seed):
    return bytes((7 * seed + 13 * i + 1) % 251 for i in range(n))


def memory(kind, n):
    if kind == "mem":
        return memoryview(bytearray(b"\xee" * n))
    if kind == "np":
        return np.full(n, 0xEE, dtype="u1")
    if kind == "npv":
        return np.full(n + 4, 0xEE, dtype="u1")[2 : n + 2]
    if kind == "ro":
        return memoryview(b"\xee" * n)
    if kind == "f8":
        return np.full(n, 238.0)
    raise AssertionError(kind)


def source(kind, data):
    if kind == "bytes":
        return data
    if kind == "mem":
        return memoryview(bytearray(data))
    if kind == "slice":
        return memoryview(b"xx" + data + b"yy")[2:-2] if data else memoryview(b"")
    if kind in ("np", "npv"):
        return np.frombuffer(data, dtype="u1")
    if kind == "f8":
        return np.frombuffer(data, dtype="u1").astype("f8")
    raise AssertionError(kind)


class Recv(xo.StatelessActor):
    """owns the destinations"""

    def make(self, kind, sizes):
        HOLD.clear()
        out = []
        for i, n in enumerate(sizes):
            HOLD[i] = memory(kind, n)
            out.append(xo.buffer_ref(self.address, HOLD[i]))
        return out

    def files(self, starts, fail=None):
        HOLD.clear()
        out = []
        for i, s in enumerate(starts):
            f = Fails(b"\xee" * s, fail[1]) if fail and fail[0] == i else io.BytesIO(b"\xee" * s)
            f.seek(s)
            HOLD[i] = AioFileObject(f)
            HOLD["f", i] = f
            out.append(xo.file_object_ref(self.address, HOLD[i]))
        return out

    def drop(self, i):
        HOLD.pop(i)

    def close(self, i):
        HOLD["f", i].close()

    def echo(self, x):
        return x

    def content(self):
        return [bytes(np.asarray(HOLD[i]).astype("u1").tobytes()) if i in HOLD else None for i in sorted(k for k in HOLD if type(k) is int)]

    def file_content(self, n):
        return [HOLD["f", i].getvalue() for i in range(n)]


class Send(xo.StatelessActor):
    async def buffers(self, refs, kind, sizes, block, seeds=None):
        loc = [source(kind, pattern(n, i + 1)) for i, n in enumerate(sizes)]
        await xo.copy_to(loc, refs, block) if block is not None else await xo.copy_to(loc, refs)
        return "copied"

    async def two(self, refs1, refs2, kind, sizes1, sizes2, block):
        l1 = [source(kind, pattern(n, i + 1)) for i, n in enumerate(sizes1)]
        l2 = [source(kind, pattern(n, i + 11)) for i, n in enumerate(sizes2)]
        return await asyncio.gather(outcome(xo.copy_to(l1, refs1, block)), outcome(xo.copy_to(l2, refs2, block)))

    async def files(self, refs, sizes, block, short=None, fail=None):
        loc = []
        for i, n in enumerate(sizes):
            d = pattern(n, i + 1)
            if fail and fail[0] == i:
                f = Fails(d, fail[1])
            else:
                f = Short(d, short) if short else io.BytesIO(d)
            loc.append(AioFileObject(f))
        await xo.copy_to(loc, refs, block) if block is not None else await xo.copy_to(loc, refs)
        return "copied"

    async def args(self, what, refs):
        b = [memoryview(b"12")]
        if what == "empty-local":
            return await outcome(xo.copy_to([], refs))
        if what == "empty-remote":
            return await outcome(xo.copy_to(b, []))
        if what == "lengths":
            return await outcome(xo.copy_to(b + b, refs[:1]))
        if what == "lengths2":
            return await outcome(xo.copy_to(b, refs[:2]))
        if what == "block0":
            return await outcome(xo.copy_to(b, refs[:1], 0))
        if what == "block-1":
            return await outcome(xo.copy_to(b, refs[:1], -1))
        if what == "destinations":
            return await outcome(xo.copy_to(b + b, [refs[0], xo.buffer_ref("127.0.0.1:1", b[0])]))


PLACES = {"other": (1, 2), "same": (1, 1), "to-main": (1, 0), "from-main": (0, 2), "main": (0, 0), "cluster": (1, None)}


async def setting(w, place):
    si, ri = PLACES[place]
    pool = await w.start_pool(n_process=2)
    if ri is None:
        pool2 = await w.start_pool(n_process=1, name="N")
        raddr, ri = pool2.external_address, 1
    else:
        raddr = pool.external_address
    s = await xo.create_actor(Send, address=pool.external_address, uid="s", allocate_strategy=PI(si))
    r = await xo.create_actor(Recv, address=raddr, uid="r", allocate_strategy=PI(ri))
    w.loop.horizon = 10**9
    w.loop.max_steps = 10**9
    return s, r


def check_content(have, sizes, pads, who):
    for i, (n, p) in enumerate(zip(sizes, pads)):
        want = pattern(n, i + 1) + b"\xee" * p
        assert have[i] == want, "%s: buffer %d holds %r, expected %r" % (who, i, have[i], want)


SIZES = [0, 1, 2, 3, 5]
PAIRS = [("mem", "mem"), ("np", "np"), ("bytes", "mem"), ("slice", "npv"), ("f8", "f8"), ("np", "mem"), ("bytes", "np")]


def case_buffers(case):
    place, (sk, rk), n, block, sizes = case
    count = [0]

    async def main(w):
        s, r = await setting(w, place)
        for vec in itertools.product(sizes, repeat=n):
            for pads in ((0,) * n, tuple((i + 1) % 3 for i in range(n))):
                refs = await r.make(rk, [a + b for a, b in zip(vec, pads)])
                who = "copy of %r in blocks of %r (%s to %s)" % (vec, block, sk, rk)
                got = await outcome(s.buffers(refs, sk, vec, block))
                assert got == ("ok", "copied"), (who, got)
                check_content(await r.content(), vec, pads, who)
                count[0] += 1
        return count[0]

    return dict(run_world(main), transitions=count[0])


def case_files(case):
    place, n, block, short, sizes = case
    count = [0]

    async def main(w):
        s, r = await setting(w, place)
        for vec in itertools.product(sizes, repeat=n):
            starts = tuple((2 * i) % 3 for i in range(n))
            refs = await r.files(starts)
            who = "copy of files of %r in blocks of %r" % (vec, block)
            got = await outcome(s.files(refs, vec, block, short))
            assert got == ("ok", "copied"), (who, got)
            have = await r.file_content(n)
            for i in range(n):
                want = b"\xee" * starts[i] + pattern(vec[i], i + 1)
                assert have[i] == want, "%s: file %d holds %r, expected %r" % (who, i, have[i], want)
            count[0] += 1
        return count[0]

    return dict(run_world(main), transitions=count[0])


def case_missing(case):
    """one of the destinations is gone, too small, read-only"""
    place, rk, what = case
    count = [0]

    async def main(w):
        s, r = await setting(w, place)
        for block in (1, 2, 3, 4, 100, None):
            for vec in [(2,), (3, 1), (1, 1, 1), (2, 0, 3), (1, 5, 1), (4, 4)]:
                for bad in range(len(vec)):
                    if not vec[bad]:
                        continue
                    if what == "small":
                        rs = list(vec)
                        rs[bad] -= 1
                        refs = await r.make(rk, rs)
                    elif what == "tiny":
                        rs = list(vec)
                        rs[bad] = 0
                        refs = await r.make(rk, rs)
                    else:
                        refs = await r.make("ro" if what == "ro" else rk, vec)
                        if what == "gone":
                            await r.drop(bad)
                    who = "copy of %r in blocks of %r, destination %d %s" % (vec, block, bad, what)
                    got = await outcome(s.buffers(refs, "np" if rk != "mem" else "mem", vec, block))
                    assert got[0] != "ok", "%s reported success: %r" % (who, got)
                    assert (await r.echo(5)) == 5
                    # the next copy is not affected
                    refs = await r.make(rk, (2, 1))
                    assert (await s.buffers(refs, "mem", (2, 1), block)) == "copied"
                    check_content(await r.content(), (2, 1), (0, 0), "copy after a failure")
                    count[0] += 1
        return count[0]

    return dict(run_world(main), transitions=count[0])


def case_bad_files(case):
    place, what = case
    count = [0]

    async def main(w):
        s, r = await setting(w, place)
        for block in (1, 2, 3, 4, 100, None):
            for vec in [(2,), (3, 1), (1, 1, 1), (2, 0, 3), (4, 4)]:
                for bad in range(len(vec)):
                    if not vec[bad]:
                        continue
                    for at in (1, 2):
                        if what == "write":
                            refs = await r.files((0,) * len(vec), (bad, at))
                            need = at == 1 or (block is not None and vec[bad] > block)
                        else:
                            refs = await r.files((0,) * len(vec))
                            need = True
                        fail = None
                        if what == "gone":
                            await r.drop(bad)
                        elif what == "closed":
                            await r.close(bad)
                        elif what == "read":
                            fail = (bad, at)
                        who = "copy of files %r in blocks of %r, file %d %s" % (vec, block, bad, what)
                        got = await outcome(s.files(refs, vec, block, None, fail))
                        if need:
                            assert got[0] != "ok", "%s reported success: %r" % (who, got)
                        if what in ("read", "write") and got[0] != "ok":
                            assert got[0] == "OSError" and "device failed" in got[1], got
                        assert (await r.echo(5)) == 5
                        count[0] += 1
        return count[0]

    return dict(run_world(main), transitions=count[0])


def case_args(case):
    place, what = case

    async def main(w):
        s, r = await setting(w, place)
        refs = await r.make("mem", (2, 2))
        o = await s.args(what, refs)
        assert o[0] in ("ValueError", "AssertionError"), o
        assert (await r.content()) == [b"\xee\xee"] * 2
        refs = await r.make("mem", (2, 2))
        await s.buffers(refs, "mem", (2, 2), None)
        check_content(await r.content(), (2, 2), (0, 0), what)
        return o[0]

    return run_world(main)


def case_large(case):
    """the default block size"""
    place, sk, rk, vec = case

    async def main(w):
        s, r = await setting(w, place)
        refs = await r.make(rk, vec)
        got = await outcome(s.buffers(refs, sk, vec, None))
        assert got == ("ok", "copied"), got
        check_content(await r.content(), vec, (0,) * len(vec), "large copy")
        return vec

    return run_world(main)


# ---------------------------------------------------------------- schedules
def concurrent(place):
    async def main(w):
        s, r = await setting(w, place)
        refs = await r.make("mem", (3, 2, 4, 1))
        w.begin()
        res = await asyncio.gather(s.two(refs[:2], refs[2:], "mem", (3, 2), (4, 1), 2), outcome(r.echo(1)), outcome(s.args("empty-local", refs)))
        w.end()
        assert res[0] == [("ok", None), ("ok", None)] and res[1] == ("ok", 1), res
        have = await r.content()
        assert have == [pattern(3, 1), pattern(2, 2), pattern(4, 11), pattern(1, 12)], have
        return have

    return main


def dying(place, what, files):
    async def main(w):
        s, r = await setting(w, place)
        refs = await (r.files((0, 0)) if files else r.make("mem", (3, 4)))
        p = proc(w, {2: "M2", 0: "M", 1: "M1"}[PLACES[place][1]])
        t = asyncio.create_task(s.files(refs, (3, 4), 2) if files else s.buffers(refs, "mem", (3, 4), 2))
        if what == "kill":
            fault(w, "kill", lambda: p.kill(-9, reset=True))
        elif what == "killed":
            fault(w, "kill", lambda: p.kill(-9, reset=False))
        else:
            fault(w, "cancel", t.cancel)
        w.begin()
        o = await outcome(t)
        w.end()
        if o[0] == "ok":
            have = [HOLD["f", i].getvalue() for i in range(2)] if files else [bytes(HOLD[0]), bytes(HOLD[1])]
            assert have == [pattern(3, 1), pattern(4, 2)], have
        elif what == "cancel":
            assert o == ("CancelledError", ""), o
        else:
            assert w.hit and closed_error(o), o
        if what == "cancel":
            refs = await r.make("mem", (2, 1))
            assert (await s.buffers(refs, "mem", (2, 1), 1)) == "copied"
            check_content(await r.content(), (2, 1), (0, 0), "copy after a cancellation")
        assert (await outcome(s.args("empty-local", [])))[0] == "ok"
        return o

    return main


def scenarios():
    out = []
    for place in ("other", "same", "to-main"):
        out.append(Scenario("concurrent-" + place, concurrent(place), bound=1, bound_thorough=2))
    for files in (False, True):
        for what in ("kill", "killed", "cancel"):
            out.append(Scenario("%s-%s" % (what, "files" if files else "buffers"), dying("other", what, files), bound=2 if what != "cancel" else 1, bound_thorough=3))
        out.append(Scenario("cancel-same-%s" % ("files" if files else "buffers"), dying("same", "cancel", files), bound=1, bound_thorough=3))
    return out


def run(ctx):
    th = ctx.thorough
    bufs, files = [], []
    for n in (4, 3, 2, 1) if th else (3, 2, 1):
        for block in (1, 2, 3, 4, 6):
            for place in PLACES if th or n < 3 else ("other", "same"):
                for pair in PAIRS if th or n < 3 else PAIRS[:2]:
                    bufs.append((place, pair, n, block, tuple(SIZES if n < 4 else (0, 1, 3, 5))))
            for place in PLACES if th or n < 3 else ("other", "same"):
                for short in (None, 1, 2) if th or n < 3 else (None,):
                    files.append((place, n, block, short, tuple(SIZES if n < 4 else (0, 1, 3, 5))))
    M = 4 * 1024**2
    ctx.enumerate(
        {
            "buffers": (bufs, case_buffers),
            "files": (files, case_files),
            "missing": ([(p, rk, x) for p in PLACES for rk in ("mem", "np", "npv") for x in ("gone", "small", "tiny", "ro")], case_missing),
            "bad-files": ([(p, x) for p in PLACES for x in ("gone", "closed", "write", "read")], case_bad_files),
            "arguments": ([(p, x) for p in ("other", "same") for x in ("empty-local", "empty-remote", "lengths", "lengths2", "block0", "block-1", "destinations")], case_args),
            "large": ([("other", "np", "np", v) for v in ((M,), (M - 1, 2), (M + 1,), (M - 1, 1, 1), (3, M, M))] + [("same", "mem", "mem", (M - 1, M + 2))], case_large),
        }
    )
    ctx.explore(scenarios())
