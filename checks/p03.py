"""P03: ordinary methods of a stateful actor never interleave; stateless and lock-free ones are not held back."""
import asyncio

import xoscar as xo
from vlib.explore import Scenario
from vlib.scen import LOG, outcome

RULE = "a schedule is one execution of a closed driver; distinct: distinct orders in which bodies ran, with results"
ASSUMPTIONS = ["members of one batch count as one body, as documented in the statement"]
PI = xo.allocate_strategy.ProcessIndex


async def body(name, tag, spins=0, delay=None, fail=False):
    LOG.append((name, "in", tag))
    try:
        for _ in range(spins):
            await asyncio.sleep(0)
        if delay is not None:
            await asyncio.sleep(delay)
        if fail:
            raise ValueError(tag)
        return tag
    finally:
        # ending includes asynchronous clean-up
        try:
            await asyncio.sleep(0)
        finally:
            LOG.append((name, "out", tag))


class A(xo.Actor):
    def __init__(self, name):
        super().__init__()
        self.name = name
        self.gate = asyncio.Event()

    async def m(self, tag, spins=1, delay=None, fail=False):
        return await body(self.name, tag, spins, delay, fail)

    async def other(self, tag, spins=1):
        return await body(self.name, tag, spins)

    def s(self, tag):
        LOG.append((self.name, "in", tag))
        LOG.append((self.name, "out", tag))
        return tag

    def s_fail(self, tag):
        LOG.append((self.name, "in", tag))
        LOG.append((self.name, "out", tag))
        raise ValueError(tag)

    @xo.extensible
    async def e(self, tag, spins=1):
        return await body(self.name, tag, spins)

    @e.batch
    async def e(self, args, kws):
        tags = [a[0] for a in args]
        await body(self.name, "+".join(tags), 2)
        return tags

    @xo.extensible
    async def e1(self, tag, spins=1):
        # no batch version: members run as one unit
        LOG.append((self.name, "min", tag))
        await asyncio.sleep(0)
        await asyncio.sleep(0)
        LOG.append((self.name, "mout", tag))
        return tag

    @xo.extensible
    async def e2(self, tag, fail=False, delay=None):
        LOG.append((self.name, "min", tag))
        try:
            await asyncio.sleep(0)
            if fail:
                raise ValueError(tag)
            if delay:
                await asyncio.sleep(delay)
            return tag
        finally:
            LOG.append((self.name, "mout", tag))

    async def hold(self, tag):
        """an ordinary body that waits for a lock-free one"""
        LOG.append((self.name, "in", tag))
        await self.gate.wait()
        LOG.append((self.name, "out", tag))
        return tag

    @xo.no_lock
    async def release(self, tag="r"):
        LOG.append((self.name, "free", tag))
        await asyncio.sleep(0)
        self.gate.set()
        return tag

    @xo.no_lock
    def release_sync(self, tag="r"):
        LOG.append((self.name, "free", tag))
        self.gate.set()
        return tag

    @xo.extensible
    @xo.no_lock
    async def release_ext(self, tag="r"):
        LOG.append((self.name, "free", tag))
        self.gate.set()
        return tag

    @xo.no_lock
    @xo.extensible
    async def release_ext2(self, tag="r"):
        LOG.append((self.name, "free", tag))
        self.gate.set()
        return tag

    async def nested(self, ref, tag):
        LOG.append((self.name, "in", tag))
        r = await ref.m(tag + "'")
        LOG.append((self.name, "out", tag))
        return r


class Stateless(xo.StatelessActor):
    def __init__(self, name):
        super().__init__()
        self.name = name
        self.gate = asyncio.Event()

    async def hold(self, tag):
        LOG.append((self.name, "free", tag))
        await self.gate.wait()
        return tag

    async def release(self, tag="r"):
        self.gate.set()
        return tag


@xo.no_lock
class FreeClass(xo.Actor):
    """the whole class is marked lock-free"""

    def __init__(self, name):
        super().__init__()
        self.name = name
        self.gate = asyncio.Event()

    hold = Stateless.hold
    release = Stateless.release


class Drv(xo.StatelessActor):
    """calls from inside the pool: references become local ones"""

    async def go(self, ref, what, *args, **kw):
        return await outcome(getattr(ref, what)(*args, **kw))

    async def tell(self, ref, what, *args):
        await getattr(ref, what).tell(*args)

    async def batch(self, ref, what, tags):
        f = getattr(ref, what)
        return await f.batch(*[f.delay(t) for t in tags])

    async def gather(self, ref, calls):
        return list(await asyncio.gather(*[outcome(getattr(ref, n)(t)) for n, t in calls]))

    async def cancelled(self, ref, what, tag, *args):
        t = asyncio.create_task(getattr(ref, what)(tag, *args))
        DRV[tag] = t
        return await outcome(t)


DRV = {}


def exclusive(names=("a",)):
    """bodies of one actor are disjoint intervals"""
    for n in names:
        cur = None
        for x in LOG:
            if x[0] != n:
                continue
            if x[1] == "in":
                assert cur is None, "body %r of actor %s started while %r was running: %r" % (x[2], n, cur, LOG)
                cur = x[2]
            elif x[1] == "out":
                assert cur == x[2], "body %r ended while %r was running: %r" % (x[2], cur, LOG)
                cur = None
            elif x[1] == "min":
                assert cur is None or cur == "members", LOG
        assert cur is None, LOG


def members(tags):
    """members of one unit batch: no other body in between"""
    idx = [i for i, x in enumerate(LOG) if x[1] in ("min", "mout") and x[2] in tags]
    lo, hi = min(idx), max(idx)
    for x in LOG[lo : hi + 1]:
        assert x[1] not in ("in", "out") and x[2] in tags, "%r ran inside the batch: %r" % (x, LOG)


async def mk(w, n_process=0, where=0, cls=A):
    pool = await w.start_pool(n_process=n_process)
    addr = pool.external_address
    a = await xo.create_actor(cls, "a", address=addr, uid="a", allocate_strategy=PI(where))
    d = await xo.create_actor(Drv, address=addr, uid="d", allocate_strategy=PI(where))
    return addr, a, d


async def remote(w):
    """two connections plus one-way calls plus failing bodies"""
    addr, a, d = await mk(w)
    c2 = w.new_proc("D")

    async def other():
        ref = await xo.actor_ref(addr, "a")
        return await asyncio.gather(outcome(ref.m("D1", 2)), outcome(ref.s("D2")))

    async def tell():
        await a.m.tell("t1", 1)

    w.begin()
    t = c2.spawn(other())
    r = await asyncio.gather(outcome(a.m("1", 1)), outcome(a.m("2", 0, None, True)), outcome(tell()), outcome(a.s("3")))
    rd = await asyncio.shield(t)
    w.end()
    await asyncio.sleep(3)
    exclusive()
    assert r[0] == ("ok", "1") and r[1][0] == "ValueError" and r[3] == ("ok", "3") and rd == [("ok", "D1"), ("ok", "D2")], (r, rd)
    assert sum(x[1] == "in" for x in LOG) == 6, LOG
    return list(LOG)


async def local(w):
    """local references inside the pool compete with remote calls"""
    addr, a, d = await mk(w)

    async def ltell():
        await d.tell(a, "other", "t1")

    w.begin()
    r = await asyncio.gather(
        outcome(d.go(a, "m", "1", 2)), outcome(a.m("2", 2)), outcome(ltell()), outcome(d.go(a, "s_fail", "3")), outcome(a.s("4"))
    )
    w.end()
    await asyncio.sleep(3)
    exclusive()
    assert r[0] == ("ok", ("ok", "1")) and r[1] == ("ok", "2") and r[3][1][0] == "ValueError" and r[4] == ("ok", "4"), r
    assert sum(x[1] == "in" for x in LOG) == 5, LOG
    return list(LOG)


async def local_only(w):
    addr, a, d = await mk(w)
    w.begin()
    r = await asyncio.gather(
        outcome(d.gather(a, [("m", "1"), ("s", "2"), ("other", "3")])), outcome(d.gather(a, [("s_fail", "4"), ("e", "5")])), outcome(d.go(a, "m", "6", 1))
    )
    w.end()
    exclusive()
    assert [x[1] for x in r[0][1]] == ["1", "2", "3"] and r[1][1][1] == ("ok", "5") and r[2] == ("ok", ("ok", "6")), r
    assert sum(x[1] == "in" for x in LOG) == 6, LOG
    return list(LOG)


async def batches(w):
    addr, a, d = await mk(w)
    w.begin()
    r = await asyncio.gather(
        outcome(a.e.batch(a.e.delay("1"), a.e.delay("2"))),
        outcome(d.batch(a, "e", ["3", "4"])),
        outcome(a.e1.batch(a.e1.delay("5"), a.e1.delay("6"))),
        outcome(d.batch(a, "e1", ["7", "8"])),
        outcome(a.m("9", 1)),
        outcome(a.e("10")),
    )
    w.end()
    exclusive()
    members(("5", "6"))
    members(("7", "8"))
    assert [x[1] for x in r] == [["1", "2"], ["3", "4"], ["5", "6"], ["7", "8"], "9", "10"], r
    return list(LOG)


def failing_batch(kind):
    async def main(w):
        """a batch one of whose members fails, or cannot even be called, ends with its last member"""
        addr, a, d = await mk(w)
        ds = {"error": [("5", True), ("6", False, 0.2)], "binding": [("5",), ("6", 1, 2, 3, 4)]}[kind]
        w.begin()
        r = await asyncio.gather(
            outcome(a.e2.batch(*[a.e2.delay(*x) for x in ds])),
            outcome(a.m("9", 1)),
            outcome(d.go(a, "m", "10", 1)),
        )
        w.end()
        await asyncio.sleep(3)
        exclusive()
        members(("5", "6"))
        assert r[0][0] in ("ValueError", "TypeError") and r[1:] == [("ok", "9"), ("ok", ("ok", "10"))], r
        return list(LOG)

    return main


def cancelling(kind):
    async def main(w):
        """a running or queued body is cancelled; the exclusion is given up and later calls proceed"""
        addr, a, d = await mk(w)
        DRV.clear()
        if kind == "remote":
            t1 = asyncio.create_task(a.m("1", 1, 0.2))
            t2 = asyncio.create_task(a.m("2", 1))
            cans = {"1": t1.cancel, "2": t2.cancel}
        else:
            t1 = asyncio.create_task(d.cancelled(a, "m", "1", 1, 0.2))
            t2 = asyncio.create_task(d.cancelled(a, "m", "2", 1))
            cans = {k: (lambda k=k: DRV[k].cancel() if k in DRV else None) for k in "12"}
        evs = [w.loop.add_event("cancel" + k, f, opt=True) for k, f in cans.items()]
        w.begin()
        r = await asyncio.gather(outcome(t1), outcome(t2), outcome(a.m("3", 1)))
        w.end()
        for e in evs:
            e.cancel()
        z = await outcome(a.m("z"))
        z2 = await outcome(d.go(a, "m", "z2"))
        await asyncio.sleep(3)
        exclusive()
        assert r[2] == ("ok", "3") and z == ("ok", "z") and z2 == ("ok", ("ok", "z2")), (r, z, z2)
        return (r, list(LOG))

    return main


def free(kind, cls):
    async def main(w):
        """a body waits for another method of the same actor that must not be held back"""
        addr, a, d = await mk(w, cls=cls)
        rel = {"async": "release", "sync": "release_sync", "ext": "release_ext", "ext2": "release_ext2", "batch2": "release_ext2", "batch": "release_ext"}[kind.split("-")[0]]
        w.begin()
        h = asyncio.create_task(outcome(a.hold("1")))
        h2 = asyncio.create_task(outcome(d.go(a, "hold", "2"))) if cls is not A else None
        while not [x for x in LOG if x[2] == "1"]:
            await asyncio.sleep(0.1)
        if kind.startswith("batch"):
            if kind.endswith("local"):
                r = await outcome(d.batch(a, rel, ["r", "q"]))
            else:
                r = await outcome(getattr(a, rel).batch(getattr(a, rel).delay("r"), getattr(a, rel).delay("q")))
            assert r == ("ok", ["r", "q"]), r
        elif kind.endswith("tell"):
            await getattr(a, rel).tell()
        elif kind.endswith("local"):
            r = await outcome(d.go(a, rel))
            assert r == ("ok", ("ok", "r")), r
        else:
            r = await outcome(getattr(a, rel)())
            assert r == ("ok", "r"), r
        o = await h
        assert o == ("ok", "1"), o
        if h2 is not None:
            assert (await h2) == ("ok", ("ok", "2"))
        w.end()
        return list(LOG)

    return main


async def nested(w):
    """a body that waits for another actor keeps the exclusion"""
    pool = await w.start_pool(n_process=1)
    addr = pool.external_address
    a = await xo.create_actor(A, "a", address=addr, uid="a", allocate_strategy=PI(0))
    b = await xo.create_actor(A, "b", address=addr, uid="b", allocate_strategy=PI(1))
    c = await xo.create_actor(A, "c", address=addr, uid="c", allocate_strategy=PI(0))
    w.begin()
    r = await asyncio.gather(outcome(a.nested(b, "1")), outcome(a.nested(c, "2")), outcome(a.m("3")), outcome(b.m("4")))
    w.end()
    exclusive("abc")
    assert [x[1] for x in r] == ["1'", "2'", "3", "4"], r
    return list(LOG)


def scenarios():
    out = [
        Scenario("remote", remote, bound=1, bound_thorough=2),
        Scenario("local", local, bound=2),
        Scenario("local-only", local_only, bound=2, bound_thorough=3),
        Scenario("batches", batches, bound=1, bound_thorough=2),
        Scenario("failing-batch", failing_batch("error"), bound=1, bound_thorough=2),
        Scenario("failing-binding", failing_batch("binding"), bound=1, bound_thorough=2),
        Scenario("cancelling-remote", cancelling("remote"), bound=2, bound_thorough=3),
        Scenario("cancelling-local", cancelling("local"), bound=2, bound_thorough=3),
        Scenario("nested", nested, bound=1, bound_thorough=2),
    ]
    for k in ("async", "sync", "ext", "async-local", "sync-local", "ext-local", "batch", "batch-local", "async-tell", "sync-tell", "ext2", "ext2-local", "batch2", "batch2-local"):
        out.append(Scenario("free-" + k, free(k, A), bound=1, bound_thorough=2))
    for k in ("async", "async-local", "async-tell"):
        out.append(Scenario("free-stateless-" + k, free(k, Stateless), bound=1, bound_thorough=2))
        out.append(Scenario("free-class-" + k, free(k, FreeClass), bound=1, bound_thorough=2))
    for s in list(out[:8]):
        s.bound = min(s.bound + 1, 3)
        s.bound_thorough = s.bound
        out.append(s.variant("-manyconn", {"client_router": False}, 2 if s.name in ("local", "local-only") else 1, 2))
    return out


def run(ctx):
    ctx.explore(scenarios())
