"""P02: a broken peer fails every affected call and nothing else."""
import asyncio

import xoscar as xo
from checks.p01 import W, S, mk, started
from vlib.explore import Scenario
from vlib.scen import LOG, closed_error, fault, outcome, proc
from xoscar.core import ActorRef

RULE = "a schedule places one crash (or cut connection) at some step and reorders deliveries; distinct: distinct outcome tuples"
NOTE = "All placements of one process death or connection break, plus up to one (thorough: two) further deliveries out of order, on the real call, routing and pool code; horizon of 300 virtual seconds stands for 'forever'."
ASSUMPTIONS = [
    "a dying process is seen by its peers as end of stream or reset at any later time; bytes already sent may be lost",
    "transports are simulated with asyncio's contract",
]


def ok_or_closed(tag, r, want):
    if r[0] == "ok":
        assert r[1] == want, "call %s answered %r, expected %r" % (tag, r, want)
        s = started(tag)
        assert len(s) == 1, "call %s answered although executed %d times" % (tag, len(s))
    else:
        assert closed_error(r), "call %s over a broken connection ended with %r" % (tag, r)
        assert len(started(tag)) <= 1, "call %s executed %d times" % (tag, len(started(tag)))


def must(tag, r, want):
    assert r == ("ok", want), "unaffected call %s answered %r, expected %r" % (tag, r, want)
    assert len(started(tag)) == 1


async def late(w, ref, name, tag, alive=False):
    """a call issued after the fault has happened"""
    t0 = w.loop.time()
    r = await outcome(ref.work(tag))
    dt = w.loop.time() - t0
    if alive:
        must(tag, r, (name, tag, []))
    else:
        assert closed_error(r), "call to a dead process ended with %r" % (r,)
    assert dt < 2, "call after the failure took %.1f s" % dt
    return r


def direct(how):
    async def main(w):
        addr, (a, b, c) = await mk0(w, 2)
        await b.work("warm")
        ev = fault(w, "kill", lambda: proc(w, "M1").kill(reset=(how == "reset")))
        w.begin()
        r = await asyncio.gather(outcome(b.work("1", 2)), outcome(c.work("2", 1)), outcome(b.work("3", 0, 0.05)), outcome(a.work("4")))
        w.end()
        ev.cancel()
        must("2", r[1], ("c", "2", []))
        must("4", r[3], ("a", "4", []))
        if w.hit is None:
            must("1", r[0], ("b", "1", []))
            must("3", r[2], ("b", "3", []))
        ok_or_closed("1", r[0], ("b", "1", []))
        ok_or_closed("3", r[2], ("b", "3", []))
        if w.hit:
            await late(w, b, "b", "5")
            await late(w, b, "b", "6")
        await late(w, c, "c", "7", True)
        return (w.hit, r)

    return main


async def mk0(w, n, cls=W, M="M"):
    pool = await w.start_pool(n_process=n, name=M, auto_recover=False)
    addr = pool.external_address
    refs = []
    for i in range(n + 1):
        nm = "abc"[i]
        refs.append(await xo.create_actor(cls, nm, address=addr, uid=nm, allocate_strategy=xo.allocate_strategy.ProcessIndex(i)))
    return addr, refs


def cold(how):
    async def main(w):
        """first contact: the process may die before or while the connection is made"""
        addr, (a, b, c) = await mk0(w, 2)
        ev = fault(w, "kill", lambda: proc(w, "M1").kill(reset=(how == "reset")))
        w.begin()
        r = await asyncio.gather(outcome(b.work("1")), outcome(c.work("2", 1)), outcome(b.work("3", 1)))
        w.end()
        ev.cancel()
        must("2", r[1], ("c", "2", []))
        ok_or_closed("1", r[0], ("b", "1", []))
        ok_or_closed("3", r[2], ("b", "3", []))
        if w.hit:
            await late(w, b, "b", "5")
        return (w.hit, r)

    return main


def routed(how, victim):
    async def main(w):
        """calls through the main pool; the sub pool or the main pool dies"""
        addr, (a, b, c) = await mk0(w, 2)
        bm, cm = ActorRef(addr, b"b"), ActorRef(addr, b"c")
        await b.work("w0")
        await bm.work("w1")
        ev = fault(w, "kill", lambda: proc(w, victim).kill(reset=(how == "reset")))
        w.begin()
        r = await asyncio.gather(outcome(bm.work("1", 1)), outcome(cm.work("2", 1)), outcome(b.work("3")), outcome(a.work("4")))
        w.end()
        ev.cancel()
        if victim == "M1":
            must("2", r[1], ("c", "2", []))
            must("4", r[3], ("a", "4", []))
        else:
            must("3", r[2], ("b", "3", []))
        for i, (n, t) in enumerate((("b", "1"), ("c", "2"), ("b", "3"), ("a", "4"))):
            ok_or_closed(t, r[i], (n, t, []))
        if w.hit and victim == "M1":
            await late(w, bm, "b", "5")
            await late(w, b, "b", "6")
            await late(w, cm, "c", "7", True)
        elif w.hit:
            await late(w, bm, "b", "5")
            await late(w, a, "a", "6")
            await late(w, b, "b", "7", True)
        return (w.hit, r)

    return main


def nested(how, victim):
    async def main(w):
        """an actor waits for an actor in a dying process, or dies while others wait for it"""
        addr, (a, b, c) = await mk0(w, 2, S)
        await b.relay(c, "w")
        ev = fault(w, "kill", lambda: proc(w, victim).kill(reset=(how == "reset")))
        w.begin()
        r = await asyncio.gather(outcome(b.relay(c, "1", 1)), outcome(a.relay(b, "2")), outcome(a.work("3")))
        w.end()
        ev.cancel()
        for (n, t, x), o in zip((("b", "1", [("c", "1'", [])]), ("a", "2", [("b", "2'", [])])), r):
            if o[0] == "ok":
                assert o[1] == (n, t, x), o
            else:
                assert closed_error(o), o
        must("3", r[2], ("a", "3", []))
        if w.hit is None:
            assert r[0][0] == r[1][0] == "ok", r
        if w.hit and victim == "M2":
            assert r[1][0] == "ok", "call not involving the dead process failed: %r" % (r[1],)
            o = await outcome(b.relay(c, "5"))
            assert closed_error(o), o
            must("6", await outcome(b.work("6")), ("b", "6", []))
        return (w.hit, r)

    return main


def cut(which):
    async def main(w):
        """one connection breaks while both processes live"""
        addr, (a, b, c) = await mk0(w, 2)
        await b.work("w0")
        await a.work("w1")
        await b.relay(c, "w2")

        def go():
            for p in w.loop.procs:
                for t in p.transports:
                    if t.name.startswith(which) and not t._closing:
                        t.cut()

        ev = fault(w, "cut", go)
        w.begin()
        r = await asyncio.gather(outcome(b.work("1", 1)), outcome(b.relay(c, "2")), outcome(a.work("3")), outcome(b.work("4", 0, 0.05)))
        w.end()
        ev.cancel()
        assert any(t.name.startswith(which) for p in w.loop.procs for t in p.transports), "no such connection"
        ok_or_closed("1", r[0], ("b", "1", []))
        ok_or_closed("4", r[3], ("b", "4", []))
        ok_or_closed("2", r[1], ("b", "2", [("c", "2'", [])]))
        must("3", r[2], ("a", "3", []))
        if which == "M1>M2" or w.hit is None:
            must("1", r[0], ("b", "1", []))
            must("4", r[3], ("b", "4", []))
        for ref, n in ((a, "a"), (b, "b"), (c, "c")):
            await late(w, ref, n, "z" + n, True)
        o = await outcome(b.relay(c, "zr"))
        assert o[0] == "ok", o
        return (w.hit, r)

    return main


def registry(how):
    async def main(w):
        """creations, look-ups and destructions in flight when the sub pool dies"""
        addr, (a, b, c) = await mk0(w, 2)
        ev = fault(w, "kill", lambda: proc(w, "M1").kill(reset=(how == "reset")))
        PI = xo.allocate_strategy.ProcessIndex
        w.begin()
        r = await asyncio.gather(
            outcome(xo.create_actor(W, "n1", address=addr, uid="n1", allocate_strategy=PI(1))),
            outcome(xo.create_actor(W, "n2", address=addr, uid="n2", allocate_strategy=PI(2))),
            outcome(xo.destroy_actor(b)),
            outcome(xo.actor_ref(b.address, "b")),
        )
        w.end()
        ev.cancel()
        assert r[1][0] == "ok", r[1]
        must("1", await outcome(r[1][1].work("1")), ("n2", "1", []))
        for o in (r[0], r[2]):
            assert o[0] == "ok" or closed_error(o), o
        assert r[3][0] in ("ok", "ActorNotExist") or closed_error(r[3]), r[3]
        if w.hit is None:
            assert r[0][0] == "ok" and r[2][0] == "ok", r
        return (w.hit, [x[0] for x in r])

    return main


def partial(how):
    async def main(w):
        """a reply cut in the middle of a message"""
        addr, (a, b) = await mk0(w, 1)
        await b.work("w0")
        ev = fault(w, "kill", lambda: proc(w, "M1").kill(reset=(how == "reset")))
        w.begin()
        r = await asyncio.gather(outcome(b.work("1", 0, k=b"x" * 2000)), outcome(b.work("2", 1)), outcome(a.work("3")))
        w.end()
        ev.cancel()
        ok_or_closed("1", r[0], ("b", "1", [("k", b"x" * 2000)]))
        ok_or_closed("2", r[1], ("b", "2", []))
        must("3", r[2], ("a", "3", []))
        if w.hit:
            await late(w, b, "b", "5")
        return (w.hit, r)

    return main


def from_pool(how):
    async def main(w):
        """callers inside the main pool (internal addresses) and one-way calls"""
        addr, (a, b, c) = await mk0(w, 2)
        await a.relay(b, "w0")
        ev = fault(w, "kill", lambda: proc(w, "M1").kill(reset=(how == "reset")))

        async def tell():
            await b.work.tell("t")

        w.begin()
        r = await asyncio.gather(outcome(a.relay(b, "1", 1)), outcome(a.relay(c, "2", 1)), outcome(tell()))
        w.end()
        ev.cancel()
        assert r[0] == ("ok", ("a", "1", [("b", "1'", [])])) or closed_error(r[0]), r[0]
        assert r[1] == ("ok", ("a", "2", [("c", "2'", [])])), r[1]
        assert r[2] == ("ok", None) or closed_error(r[2]), r[2]
        if w.hit is None:
            assert r[0][0] == "ok", r
        else:
            o = await outcome(a.relay(b, "5"))
            assert closed_error(o), o
            must("6", await outcome(a.work("6")), ("a", "6", []))
        return (w.hit, r)

    return main


def scenarios():
    out = []
    for how in ("eof", "reset"):
        out += [
            Scenario("direct-" + how, direct(how), bound=2 if how == "eof" else 1, bound_thorough=2),
            Scenario("cold-" + how, cold(how), bound=2, bound_thorough=3),
            Scenario("routed-sub-" + how, routed(how, "M1"), bound=1, bound_thorough=2),
            Scenario("routed-main-" + how, routed(how, "M"), bound=1, bound_thorough=2),
            Scenario("nested-callee-" + how, nested(how, "M2"), bound=1, bound_thorough=2),
            Scenario("nested-caller-" + how, nested(how, "M1"), bound=1, bound_thorough=2),
            Scenario("registry-" + how, registry(how), bound=1, bound_thorough=2),
            Scenario("partial-" + how, partial(how), bound=2 if how == "reset" else 1, world={"segment": 1}, bound_thorough=2),
            Scenario("from-pool-" + how, from_pool(how), bound=1, bound_thorough=2),
        ]
    out += [
        Scenario("cut-client-sub", cut("C>M1"), bound=1, bound_thorough=2),
        Scenario("cut-sub-sub", cut("M1>M2"), bound=1, bound_thorough=2),
    ]
    for s in list(out):
        if s.name.endswith("-eof") or s.name.startswith("cut-client"):
            out.append(s.variant("-manyconn", {"client_router": False}, 1, 2))
    return out


def run(ctx):
    ctx.explore(scenarios())
