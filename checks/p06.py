"""P06: cancelling or timing out a call ends it and disturbs nothing else."""
import asyncio

import xoscar as xo
from vlib.explore import Scenario
from vlib.scen import LOG, fault, outcome, proc
from xoscar.core import ActorRef

RULE = "a schedule cancels one call (or lets its timed wait expire) at some step and reorders deliveries; distinct: distinct outcomes and actor logs"
ASSUMPTIONS = ["a callee that swallows the cancellation and returns a value has completed; the awaiter may then get that value"]
PI = xo.allocate_strategy.ProcessIndex


class A(xo.Actor):
    def __init__(self, name):
        super().__init__()
        self.name = name

    async def m(self, tag, delay=5, spins=0):
        LOG.append((self.name, "in", tag))
        try:
            for _ in range(spins):
                await asyncio.sleep(0)
            await asyncio.sleep(delay)
        except asyncio.CancelledError:
            LOG.append((self.name, "cancelled", tag))
            raise
        LOG.append((self.name, "out", tag))
        return tag

    async def nested(self, ref, tag, delay=5):
        LOG.append((self.name, "in", tag))
        try:
            r = await ref.m(tag + "'", delay)
        except asyncio.CancelledError:
            LOG.append((self.name, "cancelled", tag))
            raise
        LOG.append((self.name, "out", tag))
        return r

    async def swallow(self, tag):
        LOG.append((self.name, "in", tag))
        try:
            await asyncio.sleep(0.3)
        except asyncio.CancelledError:
            LOG.append((self.name, "cancelled", tag))
            await asyncio.sleep(0.1)
            return "swallowed"
        LOG.append((self.name, "out", tag))
        return tag

    async def stubborn(self, tag):
        """never ends, whatever happens"""
        LOG.append((self.name, "in", tag))
        while True:
            try:
                await asyncio.sleep(50)
            except asyncio.CancelledError:
                LOG.append((self.name, "cancelled", tag))

    def q(self, tag):
        LOG.append((self.name, "in", tag))
        LOG.append((self.name, "out", tag))
        return tag

    async def timed(self, ref, tag, timeout):
        """timed wait inside an actor"""
        try:
            return await xo.wait_for(ref.m(tag, 0.5), timeout)
        except asyncio.TimeoutError:
            LOG.append((self.name, "timeout", tag))
            return "timeout"


class S(xo.StatelessActor):
    def __init__(self, name):
        super().__init__()
        self.name = name

    m, nested, swallow, stubborn, q, timed = A.m, A.nested, A.swallow, A.stubborn, A.q, A.timed


def has(what, tag, name=None):
    return any(x[1] == what and x[2] == tag and name in (None, x[0]) for x in LOG)


LONG = 5  # virtual seconds; nothing that is not cancelled ends sooner


def callee_ended(tag, r, hit, name=None, w=None):
    """the call `tag` (possibly cancelled) is consistent with what happened in the actor"""
    if hit is None:
        assert r[0] == "ok", "never cancelled, ended with %r" % (r,)
    assert r[0] in ("ok", "CancelledError"), "cancelled call ended with %r" % (r,)
    if r[0] == "ok":
        assert has("out", tag, name), "got a result although the body did not complete: %r" % LOG
    stopped(tag, hit, name, w)


def stopped(tag, hit, name=None, w=None):
    """a body that was reached has been told"""
    if hit is not None and has("in", tag, name) and w.hit_at < w.t0 + 1:
        assert has("cancelled", tag, name) and not has("out", tag, name), "body %r was not cancelled: %r" % (tag, LOG)


async def mk(w, n=1, cls=A):
    pool = await w.start_pool(n_process=n)
    addr = pool.external_address
    refs = [
        await xo.create_actor(cls, "abc"[i], address=addr, uid="abc"[i], allocate_strategy=PI(i)) for i in range(n + 1)
    ]
    return addr, refs


async def alive(w, *refs):
    for ref in refs:
        o = await outcome(xo.wait_for(ref.q("z"), 30))
        assert o == ("ok", "z"), "actor unusable afterwards: %r" % (o,)
        o = await outcome(xo.wait_for(ref.m("y", 0), 30))
        assert o == ("ok", "y"), "actor unusable afterwards: %r" % (o,)


def cancel_one(cls, where, spins=1, innocents=True):
    async def main(w):
        addr, refs = await mk(w, where, cls)
        a = refs[where]
        await a.q("warm")
        t = asyncio.create_task(a.m("1", LONG, spins))
        ev = fault(w, "cancel", t.cancel)
        w.t0 = w.loop.time()
        w.begin()
        ts = [outcome(t)]
        if innocents:
            ts += [outcome(a.m("2", 0.1)), outcome(a.q("3"))]
        t0 = w.loop.time()
        r = await asyncio.gather(*ts)
        w.end()
        ev.cancel()
        callee_ended("1", r[0], w.hit, None, w)
        if innocents:
            assert r[1] == ("ok", "2") and r[2] == ("ok", "3"), "other calls disturbed: %r" % (r,)
        await asyncio.sleep(2)
        callee_ended("1", r[0], w.hit, None, w)
        await alive(w, *refs)
        return (w.hit, r, list(LOG))

    return main


async def queued(w):
    """the cancelled call waits for the actor's lock"""
    addr, (a,) = await mk(w, 0)
    t0 = asyncio.create_task(outcome(a.m("0", 0.5)))
    t = asyncio.create_task(a.m("1", LONG))
    ev = fault(w, "cancel", t.cancel)
    w.t0 = w.loop.time()
    w.begin()
    r = await asyncio.gather(outcome(t), t0, outcome(a.q("2")))
    w.end()
    ev.cancel()
    assert r[1] == ("ok", "0") and r[2] == ("ok", "2"), r
    callee_ended("1", r[0], w.hit, None, w)
    await asyncio.sleep(2)
    callee_ended("1", r[0], w.hit, None, w)
    await alive(w, a)
    return (w.hit, r, list(LOG))


def nested(ia, ib):
    async def main(w):
        """cancellation travels along a chain of calls"""
        addr, refs = await mk(w, max(ia, ib))
        a, b = refs[ia], refs[ib]
        if a == b:
            b = await xo.create_actor(A, "x", address=addr, uid="x", allocate_strategy=PI(ib))
        t = asyncio.create_task(a.nested(b, "1"))
        ev = fault(w, "cancel", t.cancel)
        w.t0 = w.loop.time()
        w.begin()
        r = await asyncio.gather(outcome(t), outcome(b.m("2", 0.05)), outcome(b.q("3")))
        w.end()
        ev.cancel()
        assert r[1] == ("ok", "2") and r[2] == ("ok", "3"), r
        await asyncio.sleep(2)
        callee_ended("1", r[0], w.hit, None, w)
        stopped("1'", w.hit, None, w)
        await alive(w, a, b)
        return (w.hit, r, list(LOG))

    return main


async def via_main(w):
    """the reference goes through the main pool"""
    addr, (a, b) = await mk(w, 1)
    bm = ActorRef(addr, b"b")
    t = asyncio.create_task(bm.m("1", LONG))
    ev = fault(w, "cancel", t.cancel)
    w.t0 = w.loop.time()
    w.begin()
    r = await asyncio.gather(outcome(t), outcome(bm.m("2", 0.1)), outcome(b.q("3")))
    w.end()
    ev.cancel()
    assert r[1] == ("ok", "2") and r[2] == ("ok", "3"), r
    await asyncio.sleep(2)
    callee_ended("1", r[0], w.hit, None, w)
    await alive(w, a, b, bm)
    return (w.hit, r, list(LOG))


async def via_proxy(w):
    """the reference goes through the proxy of another cluster"""
    addr, (a,) = await mk(w, 0)
    pool2 = await w.start_pool(n_process=1, name="N", proxy_conf={"127.0.0.1": addr})
    y = await xo.create_actor(A, "y", address=pool2.external_address, uid="y", allocate_strategy=PI(1))
    assert y.proxy_addresses
    # only the proxy can reach that cluster
    w.loop.unreachable = {("C", int(c["external_address"][0].rsplit(":")[-1])) for c in pool2._config.as_dict()["pools"].values()}
    t = asyncio.create_task(y.m("1", LONG))
    ev = fault(w, "cancel", t.cancel)
    w.t0 = w.loop.time()
    w.begin()
    r = await asyncio.gather(outcome(t), outcome(y.m("2", 0.1)), outcome(a.q("3")))
    w.end()
    ev.cancel()
    assert r[1] == ("ok", "2") and r[2] == ("ok", "3"), r
    await asyncio.sleep(2)
    callee_ended("1", r[0], w.hit, None, w)
    await alive(w, a, y)
    return (w.hit, r, list(LOG))


async def local(w):
    """an actor's call to an actor of its own pool is cancelled from outside"""
    addr, (a,) = await mk(w, 0)
    b = await xo.create_actor(A, "b", address=addr, uid="b")
    t = asyncio.create_task(a.nested(b, "1"))
    ev = fault(w, "cancel", t.cancel)
    w.t0 = w.loop.time()
    w.begin()
    r = await asyncio.gather(outcome(t), outcome(b.m("2", 0.1)))
    w.end()
    ev.cancel()
    assert r[1] == ("ok", "2"), r
    await asyncio.sleep(2)
    callee_ended("1", r[0], w.hit, None, w)
    stopped("1'", w.hit, None, w)
    await alive(w, a, b)
    return (w.hit, r, list(LOG))


async def swallow(w):
    addr, (a, b) = await mk(w, 1, S)
    t = asyncio.create_task(b.swallow("1"))
    ev = fault(w, "cancel", t.cancel)
    w.t0 = w.loop.time()
    w.begin()
    r = await asyncio.gather(outcome(t), outcome(b.m("2", 0.1)))
    w.end()
    ev.cancel()
    assert r[1] == ("ok", "2"), r
    if w.hit is None:
        assert r[0] == ("ok", "1"), r
    elif r[0][0] == "ok":
        assert r[0][1] == ("swallowed" if has("cancelled", "1") else "1"), (r, LOG)
    else:
        assert r[0][0] == "CancelledError", r
    await asyncio.sleep(2)
    await alive(w, a, b)
    return (w.hit, r, list(LOG))


async def twice(w):
    """two cancellations of the same call, two calls cancelled"""
    addr, (a, b) = await mk(w, 1, S)
    t = asyncio.create_task(b.m("1", LONG))
    u = asyncio.create_task(b.m("2", LONG))
    e1 = fault(w, "cancel1", t.cancel)
    e2 = fault(w, "cancel1again", t.cancel)
    e3 = fault(w, "cancel2", u.cancel)
    w.t0 = w.loop.time()
    w.begin()
    r = await asyncio.gather(outcome(t), outcome(u), outcome(b.m("3", 0.1)))
    w.end()
    for e in (e1, e2, e3):
        e.cancel()
    assert r[2] == ("ok", "3"), r
    for o in r[:2]:
        assert o[0] in ("ok", "CancelledError"), o
    await asyncio.sleep(2)
    # a second cancellation may abandon the hand-over of the first
    if len([h for h in w.hits if h.startswith("cancel1")]) < 2:
        callee_ended("1", r[0], "cancel1" in w.hits or "cancel1again" in w.hits or None, None, w)
    callee_ended("2", r[1], "cancel2" in w.hits or None, None, w)
    await alive(w, a, b)
    return (w.hit, r, list(LOG))


def timed(cls, timeout, delay, n=1):
    async def main(w):
        """timed wait around the moment of completion"""
        addr, refs = await mk(w, n, cls)
        b = refs[n]
        await b.q("warm")
        w.t0 = w.loop.time()
        w.begin()
        t0 = w.loop.time()

        async def tw():
            o = await outcome(xo.wait_for(b.m("1", delay), timeout))
            return o, w.loop.time() - t0

        r = await asyncio.gather(tw(), outcome(b.m("2", 0.02)))
        w.end()
        (o, dt), other = r
        assert other == ("ok", "2"), r
        assert o == ("ok", "1") or o[0] == "TimeoutError", o
        assert dt <= timeout + 0.001, "the wait of %.1f s ended after %.3f s" % (timeout, dt)
        await asyncio.sleep(2)
        if o[0] == "ok":
            assert has("out", "1")
        elif has("in", "1") and delay >= LONG:
            assert has("cancelled", "1") and not has("out", "1"), LOG
        await alive(w, *refs)
        return (o[0], round(dt, 3), list(LOG))

    return main


def hopeless(how):
    async def main(w):
        """the remote side never answers, not even to the cancellation"""
        addr, (a, b) = await mk(w, 1, S)
        await b.q("warm")
        if how == "frozen":
            proc(w, "M1").frozen = True
        w.t0 = w.loop.time()
        w.begin()
        t0 = w.loop.time()
        call = b.stubborn("1") if how == "stubborn" else b.m("1", 0.1)

        async def tw():
            o = await outcome(xo.wait_for(call, 0.5))
            return o, w.loop.time() - t0

        (o, dt), other = await asyncio.gather(tw(), outcome(a.m("2", 0.1)))
        r = (o, other)
        w.end()
        assert r[0][0] == "TimeoutError" and r[1] == ("ok", "2"), r
        assert dt <= 0.501, "wait ended after %r" % dt
        await alive(w, a)
        return (r, dt)

    return main


async def timed_in_actor(w):
    """timed wait used by an actor on an actor elsewhere, plus one without limit"""
    addr, (a, b) = await mk(w, 1)
    w.t0 = w.loop.time()
    w.begin()
    r = await asyncio.gather(outcome(a.timed(b, "1", 0.2)), outcome(b.m("2", 0.05)), outcome(xo.wait_for(b.m("3", 0.05), None)))
    w.end()
    assert r[0][1] in ("timeout", "1") and r[1] == ("ok", "2") and r[2] == ("ok", "3"), r
    await asyncio.sleep(2)
    await alive(w, a, b)
    return (r, list(LOG))


async def wait_for_cancel(w):
    """the task in the timed wait is itself cancelled; errors pass through"""
    addr, (a, b) = await mk(w, 1, S)
    t = asyncio.create_task(xo.wait_for(b.m("1", LONG), 40))
    ev = fault(w, "cancel", t.cancel)
    w.t0 = w.loop.time()
    w.begin()
    r = await asyncio.gather(outcome(t), outcome(xo.wait_for(b.nosuch("2"), 5)))
    w.end()
    ev.cancel()
    assert r[1][0] == "AttributeError", r
    assert r[0] == ("ok", "1") or (w.hit and r[0][0] == "CancelledError"), r
    await asyncio.sleep(2)
    await alive(w, a, b)
    return (w.hit, r, list(LOG))


async def creation(w):
    """cancelling creation, look-up and destruction requests"""
    addr, (a, b) = await mk(w, 1)
    t1 = asyncio.create_task(xo.create_actor(A, "n", address=addr, uid="n", allocate_strategy=PI(1)))
    t2 = asyncio.create_task(xo.has_actor(ActorRef(addr, b"b")))
    t3 = asyncio.create_task(xo.actor_ref(addr, "b"))
    evs = [fault(w, "cancel%d" % i, t.cancel) for i, t in enumerate((t1, t2, t3))]
    w.t0 = w.loop.time()
    w.begin()
    r = await asyncio.gather(outcome(t1), outcome(t2), outcome(t3), outcome(b.m("2", 0.05)))
    w.end()
    for e in evs:
        e.cancel()
    assert r[3] == ("ok", "2"), r
    for i, o in enumerate(r[:3]):
        assert o[0] == "ok" or (w.hit and o[0] == "CancelledError"), (w.hit, r)
    await asyncio.sleep(2)
    await alive(w, a, b)
    return (w.hit, [o[0] for o in r])


def scenarios():
    out = [
        Scenario("sub", cancel_one(A, 1), bound=2, bound_thorough=3),
        Scenario("main-stateless", cancel_one(S, 0, 0), bound=2, bound_thorough=3),
        Scenario("sub-stateless", cancel_one(S, 1, 0), bound=2, bound_thorough=2),
        Scenario("queued", queued, bound=3),
        Scenario("nested-remote", nested(0, 1), bound=2, bound_thorough=2),
        Scenario("nested-subs", nested(1, 2), bound=2, bound_thorough=2),
        Scenario("nested-same-sub", nested(1, 1), bound=2, bound_thorough=2),
        Scenario("local", local, bound=2),
        Scenario("via-main", via_main, bound=2, bound_thorough=2),
        Scenario("via-proxy", via_proxy, bound=2, bound_thorough=2),
        Scenario("swallow", swallow, bound=2, bound_thorough=2),
        Scenario("twice", twice, bound=2, bound_thorough=2),
        Scenario("timed-in-actor", timed_in_actor, bound=2, bound_thorough=2),
        Scenario("wait-for-cancel", wait_for_cancel, bound=2, bound_thorough=2),
        Scenario("creation", creation, bound=1, bound_thorough=2),
        Scenario("hopeless-stubborn", hopeless("stubborn"), bound=2, bound_thorough=2),
        Scenario("hopeless-frozen", hopeless("frozen"), bound=2, bound_thorough=2),
    ]
    for i, (c, t, d) in enumerate(((S, 0.3, 0.3), (A, 0.2, LONG), (S, 0.3, 0.1), (A, 0.3, 0.3), (S, 0.3, LONG))):
        out.append(Scenario("timed-%d" % i, timed(c, t, d), bound=2, bound_thorough=3))
    return out


def run(ctx):
    ctx.explore(scenarios())
