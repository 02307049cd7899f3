"""P01: every call is executed once and answered with its own outcome."""
import asyncio

import xoscar as xo
from xoscar.backends.allocate_strategy import ProcessIndex
from vlib.explore import Scenario
from vlib.scen import LOG, outcome
from xoscar.core import ActorRef

RULE = "a schedule is one execution of a closed driver; distinct: distinct tuples of results and actor logs"
ASSUMPTIONS = [
    "TCP delivers bytes in order per direction; the simulated transports reproduce asyncio's transport contract",
    "callbacks ready at the same time run in FIFO order (asyncio); time is virtual",
]


class W(xo.StatelessActor):
    """replies after a number of loop iterations / timer ticks, overlapping with other calls"""

    def __init__(self, name):
        super().__init__()
        self.name = name

    async def work(self, tag, spins=0, delay=None, **kw):
        LOG.append((self.name, "start", tag, spins, sorted(kw)))
        for _ in range(spins):
            await asyncio.sleep(0)
        if delay is not None:
            await asyncio.sleep(delay)
        LOG.append((self.name, "end", tag))
        return (self.name, tag, sorted(kw.items()))

    def plain(self, tag):
        LOG.append((self.name, "start", tag, 0, []))
        LOG.append((self.name, "end", tag))
        return (self.name, tag, [])

    async def fail(self, tag, spins=0):
        LOG.append((self.name, "start", tag, spins, []))
        for _ in range(spins):
            await asyncio.sleep(0)
        raise KeyError(tag)

    async def relay(self, ref, tag, spins=0, delay=None):
        LOG.append((self.name, "start", tag, spins, []))
        r = await ref.work(tag + "'", spins, delay)
        LOG.append((self.name, "end", tag))
        return (self.name, tag, [r])

    async def fan(self, refs, tag):
        LOG.append((self.name, "start", tag, 0, []))
        rs = await asyncio.gather(*[r.work("%s.%d" % (tag, i), 2 - i) for i, r in enumerate(refs)])
        return (self.name, tag, list(rs))


class S(xo.Actor):
    """stateful variant"""

    def __init__(self, name):
        super().__init__()
        self.name = name

    work = W.work
    fail = W.fail
    relay = W.relay
    plain = W.plain


def started(tag):
    return [x for x in LOG if x[1] == "start" and x[2] == tag]


def expect(name, tag, r, want=None):
    w = ("ok", (name, tag, want if want is not None else []))
    assert r == w, "call %s answered %r, expected %r" % (tag, r, w)
    once(name, tag)


def once(name, tag, n=1):
    s = started(tag)
    assert len(s) == n and all(x[0] == name for x in s), "call %s executed %r (expected %d time(s) on %s)" % (tag, s, n, name)


def expect_fail(name, tag, r):
    assert r[0] == "KeyError" and tag in r[1], "failing call %s answered %r" % (tag, r)
    once(name, tag)


async def mk(w, n_process=2, cls=W, names=("a", "b", "c"), M="M"):
    pool = await w.start_pool(n_process=n_process, name=M)
    addr = pool.external_address
    refs = []
    for i in range(n_process + 1):
        refs.append(await xo.create_actor(cls, names[i], address=addr, uid=names[i], allocate_strategy=ProcessIndex(i)))
    return addr, refs


async def same_conn(w):
    """three calls (fast, slow, failing) over one connection"""
    addr, (a,) = await mk(w, 0)
    w.begin()
    r = await asyncio.gather(
        outcome(a.work("1", 3)), outcome(a.work("2", 0, k=7)), outcome(a.fail("3", 1)), outcome(a.work("4", 0, 0.1))
    )
    w.end()
    expect("a", "1", r[0])
    expect("a", "2", r[1], [("k", 7)])
    expect_fail("a", "3", r[2])
    expect("a", "4", r[3])
    return list(LOG)


async def subs(w):
    """calls to sub pools directly and through the main pool, concurrently with registry operations"""
    addr, (a, b, c) = await mk(w, 2)
    bm = ActorRef(addr, b"b")  # addressed through the main pool
    w.begin()
    r = await asyncio.gather(
        outcome(b.work("1", 1)),
        outcome(bm.work("2", 0)),
        outcome(c.work("3", 0)),
        outcome(xo.has_actor(bm)),
        outcome(bm.fail("4")),
    )
    w.end()
    expect("b", "1", r[0])
    expect("b", "2", r[1])
    expect("c", "3", r[2])
    assert r[3] == ("ok", True), r[3]
    expect_fail("b", "4", r[4])
    return list(LOG)


async def nested(w):
    """actors calling each other across sub pools in both directions"""
    addr, (a, b, c) = await mk(w, 2)
    w.begin()
    r = await asyncio.gather(outcome(b.relay(c, "1", 1)), outcome(c.relay(b, "2")), outcome(a.relay(b, "3")))
    w.end()
    expect("b", "1", r[0], [("c", "1'", [])])
    expect("c", "2", r[1], [("b", "2'", [])])
    expect("a", "3", r[2], [("b", "3'", [])])
    for n, t in (("c", "1'"), ("b", "2'"), ("b", "3'")):
        once(n, t)
    return list(LOG)


async def nested_stateful(w):
    addr, (a, b) = await mk(w, 1, S)
    w.begin()
    r = await asyncio.gather(outcome(a.relay(b, "1", 1)), outcome(b.work("2")), outcome(b.fail("3")), outcome(b.plain("4")))
    w.end()
    expect("a", "1", r[0], [("b", "1'", [])])
    once("b", "1'")
    expect("b", "2", r[1])
    expect_fail("b", "3", r[2])
    expect("b", "4", r[3])
    return list(LOG)


async def fan(w):
    """one actor calling three (itself included, locally) at once"""
    addr, (a, b, c) = await mk(w, 2)
    w.begin()
    r = await asyncio.gather(outcome(b.fan([a, b, c], "1")), outcome(a.fan([c, b], "2")))
    w.end()
    expect("b", "1", r[0], [("a", "1.0", []), ("b", "1.1", []), ("c", "1.2", [])])
    expect("a", "2", r[1], [("c", "2.0", []), ("b", "2.1", [])])
    for n, t in (("a", "1.0"), ("b", "1.1"), ("c", "1.2"), ("c", "2.0"), ("b", "2.1")):
        once(n, t)
    return list(LOG)


async def clients(w):
    """two client processes and a client inside a pool"""
    addr, (a, b) = await mk(w, 1)
    d = w.new_proc("D")

    async def other():
        ref = await xo.actor_ref(addr, "b")
        return await asyncio.gather(outcome(ref.work("D1", 1)), outcome(ref.work("D2")))

    w.begin()
    t = d.spawn(other())
    r = await asyncio.gather(outcome(b.work("C1", 1)), outcome(b.fail("C2")), outcome(a.relay(b, "C3")))
    rd = await asyncio.shield(t)
    w.end()
    expect("b", "C1", r[0])
    expect_fail("b", "C2", r[1])
    expect("a", "C3", r[2], [("b", "C3'", [])])
    expect("b", "D1", rd[0])
    expect("b", "D2", rd[1])
    return list(LOG)


async def tells(w):
    """one-way calls mixed with calls, local and remote, directly and through the main pool"""
    addr, (a, b) = await mk(w, 1)
    bm = ActorRef(addr, b"b")
    w.begin()

    async def go(c):
        await c

    r = await asyncio.gather(
        outcome(go(b.work.tell("t1", 1))),
        outcome(b.work("1")),
        outcome(go(bm.fail.tell("t2"))),
        outcome(go(a.plain.tell("t4"))),
    )
    expect("b", "1", r[1])
    for i in (0, 2, 3):
        assert r[i] == ("ok", None), r[i]
    w.end()
    await asyncio.sleep(5)
    for n, t in (("b", "t1"), ("b", "t2"), ("a", "t4")):
        once(n, t)
    expect("b", "z", await outcome(b.work("z")))
    return list(LOG)


class Teller(xo.Actor):
    async def go(self, refs):
        for i, r in enumerate(refs):
            await r.work.tell("g%d" % i, 1)
        return "told"


async def tells_from_actor(w):
    addr, (a, b) = await mk(w, 1)
    t = await xo.create_actor(Teller, address=addr, uid="t")
    w.begin()
    r = await asyncio.gather(outcome(t.go([a, b, t and b])), outcome(b.work("1")))
    assert r[0] == ("ok", "told"), r
    expect("b", "1", r[1])
    w.end()
    await asyncio.sleep(5)
    once("a", "g0")
    once("b", "g1")
    once("b", "g2")
    return list(LOG)


async def proxied(w):
    """two clusters; messages to the second travel through the first one"""
    addr, (a, b) = await mk(w, 1)
    pool2 = await w.start_pool(n_process=1, name="N", proxy_conf={"127.0.0.1": addr})
    addr2 = pool2.external_address
    x = await xo.create_actor(W, "x", address=addr2, uid="x", allocate_strategy=ProcessIndex(0))
    y = await xo.create_actor(W, "y", address=addr2, uid="y", allocate_strategy=ProcessIndex(1))
    assert x.proxy_addresses and y.proxy_addresses
    w.begin()
    r = await asyncio.gather(
        outcome(x.work("1", 1)), outcome(y.work("2")), outcome(a.work("3")), outcome(y.fail("4")), outcome(x.relay(y, "5"))
    )
    w.end()
    expect("x", "1", r[0])
    expect("y", "2", r[1])
    expect("a", "3", r[2])
    expect_fail("y", "4", r[3])
    expect("x", "5", r[4], [("y", "5'", [])])
    once("y", "5'")
    return list(LOG)


async def create_and_call(w):
    """references returned by concurrent creations are bound to their own actors"""
    pool = await w.start_pool(n_process=1)
    addr = pool.external_address
    w.begin()

    async def one(name, idx):
        ref = await xo.create_actor(W, name, address=addr, uid=name, allocate_strategy=ProcessIndex(idx))
        return await outcome(ref.work("t" + name))

    r = await asyncio.gather(one("p", 1), one("q", 0), one("r", 1))
    w.end()
    for n, x in zip("pqr", r):
        expect(n, "t" + n, x)
    return list(LOG)


def scenarios():
    out = [
        Scenario("same_conn", same_conn, bound=3),
        Scenario("subs", subs, bound=2, bound_thorough=2),
        Scenario("nested", nested, bound=1, bound_thorough=2),
        Scenario("nested_stateful", nested_stateful, bound=2, bound_thorough=3),
        Scenario("fan", fan, bound=1, bound_thorough=2),
        Scenario("clients", clients, bound=2, bound_thorough=2),
        Scenario("tells", tells, bound=2, bound_thorough=3),
        Scenario("tells_from_actor", tells_from_actor, bound=2, bound_thorough=2),
        Scenario("proxied", proxied, bound=1, bound_thorough=2),
        Scenario("create_and_call", create_and_call, bound=1, bound_thorough=2),
        Scenario("same_conn_segmented", same_conn, bound=1, bound_thorough=2, world={"segment": 1}),
    ]
    # transports whose buffer is full at once: senders wait for space, replies may overtake the notice
    for s in list(out):
        if s.name in ("same_conn", "subs", "nested", "tells"):
            out.append(s.variant("-full", {"hiwat": 0}, 1, 2))
    # clients without a router open one connection per call
    one = {"client_router": False}
    for s in list(out):
        if s.name in ("same_conn", "tells"):
            out.append(s.variant("-manyconn", one, 2, 2))
        elif s.name != "same_conn_segmented" and "-full" not in s.name:
            out.append(s.variant("-manyconn", one, 1, 2))
    return out


def run(ctx):
    ctx.explore(scenarios())
