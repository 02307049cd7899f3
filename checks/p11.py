"""P11: concurrent creation, look-up and destruction leave the registries of main and sub pools consistent."""
import asyncio
import itertools

import xoscar as xo
from vlib.explore import Scenario
from vlib.scen import fault, outcome
from xoscar.core import ActorRef

RULE = (
    "a schedule is one interleaving of two or three concurrent registry operations (creation, failing creation, destruction, look-up, call, "
    "optionally cancelled) issued by clients or actors through the main pool, the sub pool or another pool; the oracle counts, per pool and name, "
    "successful creations minus successful destructions, and compares it with what every pool reports afterwards; distinct: distinct outcomes"
)
ASSUMPTIONS = ["whether an operation that overlaps another one sees it is left open; its effect must be visible once all have ended"]
PI = xo.allocate_strategy.ProcessIndex


class Boom(Exception):
    pass


class A(xo.Actor):
    def __init__(self, gen, kind="ok"):
        super().__init__()
        self.gen = gen
        self.kind = kind
        if kind == "init":
            raise Boom("init")

    async def __post_create__(self):
        await super().__post_create__()
        if self.kind in ("slow", "slowpost"):
            await asyncio.sleep(0.05)
        if self.kind in ("post", "slowpost"):
            await asyncio.sleep(0)
            raise Boom("post")

    async def __pre_destroy__(self):
        await super().__pre_destroy__()
        if self.kind in ("slow", "slowend"):
            await asyncio.sleep(0.05)

    def who(self):
        return self.gen


class Loc(xo.StatelessActor):
    async def do(self, op):
        return await outcome(one(*op))


async def one(kind, addrs, via, name, gen, how):
    main = addrs[0]
    if kind == "create":
        p = {"m": 0, "m1": 1, "m2": 2, "s1": 1, "s2": 2}[via]
        kw = {"allocate_strategy": PI(p)} if via in ("m1", "m2") else {}
        ref = await xo.create_actor(A, gen, how, address=addrs[p] if via[0] == "s" else main, uid=name, **kw)
        return ref.address
    a = addrs[{"m": 0, "s1": 1, "s2": 2}[via]]
    if kind == "destroy":
        await xo.destroy_actor(ActorRef(a, name))
    elif kind == "ref":
        return (await xo.actor_ref(address=a, uid=name)).address
    elif kind == "has":
        return await xo.has_actor(ActorRef(a, name))
    elif kind == "call":
        return await ActorRef(a, name).who()


def scenario(start, ops, cancel=None):
    """start: operations done before; ops: (issuer, kind, via, name, how), concurrent; cancel: index of the operation that may be cancelled"""

    async def main(w):
        pool = await w.start_pool(n_process=2)
        main = pool.external_address
        addrs = [pool._config.get_pool_config(i)["external_address"][0] for i in pool._config.get_process_indexes()]
        locs = {k: await xo.create_actor(Loc, address=main, uid="loc" + k, allocate_strategy=PI(i)) for k, i in (("m", 0), ("s", 1), ("t", 2))}
        gen = itertools.count(1)
        count = {}
        alive = {}

        async def do(op):
            loc, kind, via, name, how = op
            args = (kind, addrs, via, name, next(gen), how)
            if loc == "c":
                return await outcome(one(*args))
            return await locs[loc].do(args)

        def account(op, o, cancelled=False):
            loc, kind, via, name, how = op
            if kind == "create":
                p = {"m": 0, "m1": 1, "m2": 2, "s1": 1, "s2": 2}[via]
                if o[0] == "ok":
                    assert o[1] == addrs[p], (op, o)
                    assert how not in ("init", "post", "slowpost"), "failing creation succeeded: %r" % (op,)
                    count[(p, name)] = count.get((p, name), 0) + 1
                else:
                    ok = {"ActorAlreadyExist"} | ({"Boom"} if how in ("init", "post", "slowpost") else set())
                    assert o[0] in ok or (cancelled and o[0] == "CancelledError"), "creation %r ended with %r" % (op, o)
                names.add(name)
            elif kind == "destroy":
                if o[0] == "ok":
                    key = None if via == "m" else ({"s1": 1, "s2": 2}[via], name)
                    destroyed.append((key, name))
                else:
                    assert o[0] == "ActorNotExist" or (cancelled and o[0] == "CancelledError"), "destruction %r ended with %r" % (op, o)
                names.add(name)
            elif kind == "has":
                assert o in (("ok", True), ("ok", False)), (op, o)
            elif kind == "ref":
                assert o[0] == "ActorNotExist" or (o[0] == "ok" and o[1] in addrs), "look-up %r ended with %r" % (op, o)
            elif kind == "call":
                assert o[0] in ("ok", "ActorNotExist"), "call %r ended with %r" % (op, o)

        names = set()
        destroyed = []
        for op in start:
            account(op, await do(op))
        # connections that exist before
        for a in addrs:
            for loc in "cmst":
                await do((loc, "has", {0: "m", 1: "s1", 2: "s2"}[addrs.index(a)], "zz", None))
        w.begin()
        tasks = [asyncio.create_task(do(op)) for op in ops]
        ev = None
        if cancel is not None:
            ev = fault(w, "cancel", tasks[cancel].cancel)
        rs = await asyncio.gather(*[outcome(t) for t in tasks])
        w.end()
        if ev is not None:
            ev.cancel()
        out = []
        for i, (op, o) in enumerate(zip(ops, rs)):
            if o[0] == "ok":
                o = o[1]
            unsure = i == cancel and w.hit
            account(op, o, unsure)
            out.append((o[0], str(o[1])[-5:] if op[1] in ("ref", "create") else o[1] if op[1] != "create" and o[0] == "ok" else ""))
        # what every pool reports now
        await asyncio.sleep(1)
        final = {}
        for name in sorted(names):
            at = []
            for p in (1, 2):
                o = await outcome(xo.has_actor(ActorRef(addrs[p], name)))
                assert o in (("ok", True), ("ok", False)), o
                c = await outcome(ActorRef(addrs[p], name).who())
                assert (c[0] == "ok") == o[1] and (o[1] or c[0] == "ActorNotExist"), "pool %d reports %r, a call gives %r" % (p, o, c)
                if o[1]:
                    at.append(p)
            here = await locs["m"].do(("call", addrs, "m", name, 0, None))
            # the main pool must report it exactly if some pool has it; remove them one by one to see where they were
            has_main = await outcome(xo.has_actor(ActorRef(main, name)))
            found = []
            for _ in range(4):
                o = await outcome(xo.actor_ref(address=main, uid=name))
                if o[0] != "ok":
                    assert o[0] == "ActorNotExist", o
                    break
                r = o[1]
                c = await outcome(r.who())
                assert c[0] == "ok", "the main pool refers to %s at pool %d, a call there gives %r" % (name, addrs.index(r.address), c)
                found.append(addrs.index(r.address))
                o = await outcome(xo.destroy_actor(r))
                assert o[0] == "ok", "destroying the survivor: %r" % (o,)
            assert has_main == ("ok", bool(found)), "the main pool reports %r, look-ups find %r" % (has_main, found)
            assert [p for p in sorted(found) if p] == at, "main pool's view %r, sub pools' view %r" % (sorted(found), at)
            assert len(found) == len(set(found)), found
            for p in (0, 1, 2):
                o = await outcome(xo.has_actor(ActorRef(addrs[p], name)))
                assert o == ("ok", False), "still there: %r" % (o,)
            # each pool accepts the name again
            for i, via in enumerate(("m", "m1", "m2")):
                o = await outcome(one("create", addrs, via, name, 99, "ok"))
                assert o == ("ok", addrs[i]), "name not free again at pool %d: %r" % (i, o)
                r = await outcome(one("call", addrs, "m" if i == 0 else "s%d" % i, name, 0, None))
                assert r == ("ok", 99), r
            final[name] = sorted(found)
            # bookkeeping
            if not (cancel is not None and w.hit):
                total = sum(c for (p, n), c in count.items() if n == name) - sum(1 for k, n in destroyed if n == name)
                assert total == len(found), "%d more creations than destructions of %s succeeded, but it exists %d times" % (total, name, len(found))
                for p in (0, 1, 2):
                    if not any(k is None and n == name for k, n in destroyed):
                        d = count.get((p, name), 0) - sum(1 for k, n in destroyed if k == (p, name))
                        assert d == found.count(p), "pool %d: %d more creations than destructions, exists %d times" % (p, d, found.count(p))
        return out, final

    return main


def C(loc, via, how="ok", name="a"):
    return (loc, "create", via, name, how)


def D(loc, via, name="a"):
    return (loc, "destroy", via, name, None)


def Q(loc, kind, via, name="a"):
    return (loc, kind, via, name, None)


def scenarios():
    out = []

    def add(name, start, ops, cancel=None, bound=None, bt=None):
        b = 2 if len(start) + len(ops) <= 2 else 1
        out.append(Scenario(name, scenario(start, ops, cancel), bound=bound or b, bound_thorough=bt or b + 1))

    # the same name on the same pool
    add("create-create-m1-s1", [], [C("c", "m1"), C("c", "s1")])
    add("create-create-m1-m1", [], [C("c", "m1"), C("s", "m1")])
    add("create-create-slow", [], [C("c", "m1", "slow"), C("t", "s1", "slow")])
    add("create-create-fail", [], [C("c", "m1", "slowpost"), C("t", "s1")])
    add("create-fail-create", [], [C("c", "m1"), C("s", "s1", "slowpost")])
    add("create-create-main", [], [C("c", "m", "slow"), C("s", "m")])
    add("create-two-pools", [], [C("c", "m1"), C("s", "s2"), C("m", "m")])
    add("create-fail-fail", [], [C("c", "m1", "init"), C("s", "s1", "post"), C("c", "m1")])
    # creation and destruction
    add("create-destroy-m1-s1", [], [C("c", "m1", "slow"), D("t", "s1")])
    add("create-destroy-s1-m", [], [C("t", "s1", "slow"), D("c", "m")])
    add("create-destroy-s1-s1", [], [C("t", "s1"), D("c", "s1"), D("c", "m")])
    add("create-destroy-main", [], [C("c", "m", "slow"), D("s", "m")])
    add("recreate-m1-s1", [C("c", "m1")], [D("c", "s1"), C("t", "m1")])
    add("recreate-s1-m1", [C("c", "s1")], [D("c", "m"), C("t", "s1")])
    add("recreate-slow", [C("c", "m1", "slow")], [D("c", "m"), C("t", "s1"), C("c", "m1")])
    add("recreate-slow2", [C("c", "s1", "slow")], [D("c", "s1"), D("t", "m"), C("t", "s1")])
    add("recreate-main", [C("c", "m", "slowend")], [D("c", "m"), C("t", "m"), D("s", "m")])
    # two destructions
    add("destroy-destroy-m-s1", [C("c", "m1")], [D("c", "m"), D("t", "s1")])
    add("destroy-destroy-slow", [C("c", "s1", "slowend")], [D("c", "m"), D("t", "s1"), D("s", "s1")])
    add("destroy-destroy-m-m", [C("c", "m1", "slowend")], [D("c", "m"), D("s", "m")])
    add("destroy-destroy-main", [C("c", "m", "slowend")], [D("c", "m"), D("s", "m"), Q("t", "call", "m")])
    # look-ups and calls meanwhile
    add("lookups-create", [], [C("c", "m1", "slow"), Q("t", "ref", "m"), Q("m", "call", "s1"), Q("s", "has", "m")])
    add("lookups-destroy", [C("c", "m1", "slow")], [D("t", "s1"), Q("c", "ref", "m"), Q("m", "call", "m"), Q("c", "has", "m")])
    add("lookups-recreate", [C("c", "s1")], [D("t", "s1"), C("t", "m1"), Q("c", "ref", "s2"), Q("c", "call", "m")])
    # cancelled operations
    add("cancel-create-m1", [], [C("c", "m1", "slow"), Q("t", "has", "m")], 0)
    add("cancel-create-s1", [], [C("c", "s1", "slow"), C("t", "m1")], 0)
    add("cancel-create-relay", [], [C("t", "m1", "slow")], 0)
    add("cancel-destroy-m", [C("c", "m1", "slow")], [D("c", "m"), C("t", "s1")], 0)
    add("cancel-destroy-s1", [C("c", "m1", "slow")], [D("c", "s1")], 0)
    add("cancel-create-main", [], [C("c", "m", "slow"), C("t", "m")], 0)
    return out


def run(ctx):
    sc = scenarios()
    ctx.explore(sc)
