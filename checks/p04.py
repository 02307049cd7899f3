"""P04: messages of one sender are executed in the order they were sent.

A sender in a pool walks through a sequence in which every kind of message (call, one-way call, batch, one-way
batch, each small, with a buffer or so large that it is serialised in another thread) follows every other, to a receiver in the
same pool, in another pool of the cluster, behind the main pool or in another cluster."""
import asyncio
import itertools

import numpy as np
import xoscar as xo
from vlib.explore import Scenario
from vlib.scen import LOG, outcome
from xoscar.backends.allocate_strategy import ProcessIndex as PI
from xoscar.core import ActorRef

RULE = "a schedule is one execution of a sender walking through a sequence of messages; distinct: distinct orders of execution"
NOTE = "Every pair of kinds of messages in sequence, over all placements of sender and receiver, with all schedules of up to one (thorough: two) deliveries, wake-ups or serialisation threads out of the default order."
ASSUMPTIONS = [
    "generator methods are left out: their body starts when it is first advanced, not when it is called", "the sender is an actor or a process that hosts a pool; other processes open a connection per call",
    "all messages go through the same reference, which names the receiver's own pool unless all messages are small",
    "asyncio's locks and ready queue are fair",
]

BIG = {"big": [[i] for i in range(130)], "buf": np.arange(3000.0), "": None}


def note(me, tag, what="start"):
    LOG.append((me, what, tag))


class Body:
    def __init__(self, name):
        super().__init__()
        self.name = name

    @xo.extensible
    async def m(self, tag, spins=0, big=None):
        assert big is None or len(big) in (130, 3000)
        note(self.name, tag)
        for _ in range(spins):
            await asyncio.sleep(0)
        return tag

    @m.batch
    async def m(self, args_list, kwargs_list):
        tags = [a[0] for a in args_list]
        for t in tags:
            note(self.name, t)
        await asyncio.sleep(0)
        return tags

    def plain(self, tag, spins=0, big=None):
        note(self.name, tag)
        return tag

    # ----- the sender
    async def walk(self, ref, ops, mode):
        """ops: (kind, method, size); mode: done (each completed before the next) or begun (all begun in order)"""
        tasks = []
        want = []
        for i, (kind, method, big) in enumerate(ops):
            m = getattr(ref, method)
            b = BIG[big]
            tag = "%d" % i
            spins = i % 3
            if kind in "bB":
                args = [m.delay(tag, spins, b), m.delay(tag + "'", 0, None)]
                want += [tag, tag + "'"]
                c = m.batch(*args, send=kind == "b")
                exp = [tag, tag + "'"]
            else:
                want.append(tag)
                c = m(tag, spins, b) if kind == "c" else m.tell(tag, spins, b)
                exp = tag
            if mode == "done":
                r = await c
                if kind in "cb":
                    assert r == exp, (r, exp)
            else:
                tasks.append((kind, exp, asyncio.ensure_future(c)))
        for kind, exp, t in tasks:
            r = await t
            if kind in "cb":
                assert r == exp, (r, exp)
        return want


class Stateful(Body, xo.Actor):
    pass


class Stateless(Body, xo.StatelessActor):
    pass


OPS = {
    mode: [(k, m, z) for k, m, z in itertools.product("ctbB", ("m", "plain"), sizes) if m == "m" or k in "ct" and not z]
    for mode, sizes in (("done", ("", "buf", "big")), ("begun", ("", "buf")))
}


def pairs(ops):
    """a closed walk in which every op follows every other once (itself included)"""
    n = len(ops)
    seen = [0] * n
    walk, stack = [], [0]
    while stack:
        v = stack[-1]
        if seen[v] < n:
            seen[v] += 1
            stack.append((v + seen[v]) % n)
        else:
            walk.append(stack.pop())
    walk = [ops[i] for i in walk]
    assert len(walk) == n * n + 1 and len(set(zip(walk, walk[1:]))) == n * n
    return walk


def pieces(walk, size):
    """overlapping pieces, so that no pair is cut"""
    return [walk[i : i + size + 1] for i in range(0, len(walk) - 1, size)]


async def build(w, place, cls):
    """place: (sender, receiver) as cluster and position, and through main or not"""
    (sc, sp), (rc, rp), via = place
    pools = {}
    for c in sorted({sc, rc}):
        n = max([p for cc, p in ((sc, sp), (rc, rp)) if cc == c] + [0])
        pools[c] = await w.start_pool(n_process=n, name="M" if c == 0 else "N")
    if via == "warm" or via == "main-warm":
        pass
    addr = {c: p.external_address for c, p in pools.items()}
    s = await xo.create_actor(Stateless, "s", address=addr[sc], uid="s", allocate_strategy=PI(sp))
    r = await xo.create_actor(cls, "r", address=addr[rc], uid="r", allocate_strategy=PI(rp))
    if via == "main":
        r = ActorRef(addr[rc], b"r")
    return s, r


def scenario(place, cls, mode, ops, i, cold, bound=1, bound_th=2):
    async def main(w):
        s, r = await build(w, place, cls)
        if not cold:
            await s.walk(r, [("c", "plain", "")], "done")
            del LOG[:]
        w.begin()
        o = await outcome(s.walk(r, ops, mode))
        w.end()
        await asyncio.sleep(5)
        assert o[0] == "ok", o
        got = [t for n, what, t in LOG if n == "r"]
        assert got == o[1], "sent %s, executed in the order %s" % (" ".join(o[1]), " ".join(got))
        return tuple(got)

    name = "%s-%s-%s%s-%d" % ("%d%d>%d%d%s" % (place[0] + place[1] + ("!" if place[2] else "",)), cls.__name__, mode, "-cold" if cold else "", i)
    return Scenario(name, main, bound=bound, bound_thorough=bound_th)


PLACES = [
    ((0, 0), (0, 0), ""),
    ((0, 1), (0, 1), ""),
    ((0, 0), (0, 1), ""),
    ((0, 1), (0, 0), ""),
    ((0, 1), (0, 2), ""),
    ((0, 0), (1, 0), ""),
    ((0, 1), (1, 1), ""),
    ((0, 0), (0, 1), "main"),
    ((0, 1), (0, 2), "main"),
    ((0, 2), (1, 1), "main"),
]


def run(ctx):
    th = ctx.thorough
    sc = []
    for place in PLACES:
        for cls in (Stateful, Stateless):
            if not th and (cls is Stateless and place not in PLACES[1:4:2] + PLACES[7:8] or place == PLACES[4]):
                continue
            for mode in ("done", "begun"):
                ops = OPS[mode]
                if place[2] == "main":
                    ops = [o for o in ops if o[2] != "big"]
                ws = pieces(pairs(ops), 12)
                for i, p in enumerate(ws):
                    sc.append(scenario(place, cls, mode, p, i, False))
                sc.append(scenario(place, cls, mode, ws[0][:8], 0, True, 2 if th else 1))
    ctx.explore(sc)
