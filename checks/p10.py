"""P10: creation, look-up, existence tests, calls and destruction agree with a map from (pool, name) to actor."""
import asyncio
import itertools

import xoscar as xo
from vlib.scen import outcome, run_world
from xoscar.core import ActorRef

TECHNIQUE = "bounded-exhaustive enumeration of operation histories on the real cluster against a reference map"
RULE = (
    "a case is a history of creations (good, failing in the constructor or in the creation hook), destructions (good, failing hook) "
    "and repeated look-ups, each issued by a client, an actor of the main pool or an actor of a sub pool and addressed to any pool; "
    "after each history all look-ups, existence tests and calls from every place are compared with the map; distinct: distinct final observations"
)
ASSUMPTIONS = [
    "a look-up at the main pool of a name present on several pools may return any of them",
    "an address of a sub pool refers to that pool only, except that looking up a reference there asks the main pool if the name is unknown",
]
PI = xo.allocate_strategy.ProcessIndex


class Boom(Exception):
    pass


class A(xo.Actor):
    def __init__(self, gen, kind="ok"):
        super().__init__()
        self.gen = gen
        self.kind = kind
        if kind == "init":
            raise Boom("init")

    async def __post_create__(self):
        await super().__post_create__()
        if self.kind == "cycle":
            self.me = self
        if self.kind == "post":
            await asyncio.sleep(0)
            raise Boom("post")

    async def __pre_destroy__(self):
        await super().__pre_destroy__()
        if self.kind == "pre":
            self.kind = "ok"
            raise Boom("pre")

    def who(self):
        return self.gen


class Stateless(xo.StatelessActor):
    kind = "ok"

    def __init__(self, gen, kind="ok"):
        super().__init__()
        self.gen = gen

    async def who(self):
        return self.gen


class Loc(xo.StatelessActor):
    """executes operations inside a pool"""

    def __init__(self):
        super().__init__()
        self.refs = {}

    async def do(self, op, *args):
        return await outcome(OPS[op](self.refs, *args))


async def o_create(refs, cls, addr, idx, name, gen, kind):
    kw = {} if idx is None else {"allocate_strategy": PI(idx)}
    ref = await xo.create_actor(cls, gen, kind, address=addr, uid=name, **kw)
    refs[name] = ref
    return ref.address, ref.uid


async def o_destroy(refs, addr, name, how):
    if how == "orig":
        ref = refs.get(name)
        if ref is None:
            raise LookupError
    elif how == "lookup":
        ref = await xo.actor_ref(address=addr, uid=name)
    else:
        ref = ActorRef(addr, name)
    if how == "method":
        await ref.destroy()
    else:
        await xo.destroy_actor(ref)
    return None


async def o_ref(refs, addr, name):
    r = await xo.actor_ref(address=addr, uid=name)
    refs.setdefault("seen", []).append(r)
    return r.address, r.uid, await r.who()


async def o_has(refs, addr, name):
    return await xo.has_actor(ActorRef(addr, name))


async def o_call(refs, addr, name):
    return await ActorRef(addr, name).who()


async def o_old(refs, name):
    """references obtained earlier"""
    out = []
    for r in refs.get("seen", []):
        if r.uid == name.encode():
            async def f(r=r):
                return await r.who()

            out.append((r.address, await outcome(f())))
    r = refs.get(name)
    if r is not None:
        async def f():
            return await r.who()

        out.append((r.address, await outcome(f())))
    return out


async def o_forget(refs):
    refs.clear()


OPS = {"create": o_create, "destroy": o_destroy, "ref": o_ref, "has": o_has, "call": o_call, "old": o_old}


class Model:
    def __init__(self):
        self.m = {}  # (pool, name) -> gen

    def pools(self, name):
        return [p for p in (0, 1, 2) if (p, name) in self.m]


async def run_history(w, ops):
    pool = await w.start_pool(n_process=2)
    main = pool.external_address
    addrs = [pool._config.get_pool_config(i)["external_address"][0] for i in pool._config.get_process_indexes()]
    assert addrs[0] == main
    locs = {}
    for k, idx in (("m", 0), ("s", 1)):
        locs[k] = await xo.create_actor(Loc, address=main, uid="loc" + k, allocate_strategy=PI(idx))
    crefs = {}

    async def do(loc, op, *args):
        if loc == "c":
            return await outcome(OPS[op](crefs, *args))
        return await locs[loc].do(op, *args)

    model = Model()
    m = model.m
    origin = {}  # (loc, name) -> pool of the last creation
    kinds = {}
    out = []
    gen = itertools.count(1)
    used = set()

    async def probe():
        obs = []
        for name in sorted(used):
            nb = name.encode()
            for loc in ("c", "m", "s"):
                for i, a in enumerate(addrs):
                    tag = "%s from %s at pool %d" % (name, loc, i)
                    cand = model.pools(name) if i == 0 else ([i] if (i, name) in m else [])
                    r = await do(loc, "has", a, name)
                    assert r == ("ok", bool(cand)), "existence of %s: %r, expected %r" % (tag, r, bool(cand))
                    r = await do(loc, "call", a, name)
                    want = {("ok", m[(p, name)]) for p in cand}
                    if want:
                        assert r in want, "call of %s: %r, expected one of %r" % (tag, r, want)
                    else:
                        assert r[0] == "ActorNotExist", "call of unknown %s: %r" % (tag, r)
                    cand = cand or model.pools(name)
                    r = await do(loc, "ref", a, name)
                    want = {("ok", (addrs[p], nb, m[(p, name)])) for p in cand}
                    if want:
                        assert r in want, "look-up of %s: %r, expected one of %r" % (tag, r, want)
                    else:
                        assert r[0] == "ActorNotExist", "look-up of unknown %s: %r" % (tag, r)
                    obs.append(r)
                r = await do(loc, "old", name)
                assert r[0] == "ok", r
                for a, o in r[1]:
                    p = addrs.index(a)
                    if (p, name) in m:
                        assert o == ("ok", m[(p, name)]), "old reference to %s at pool %d from %s: %r" % (name, p, loc, o)
                    else:
                        # the address of the main pool reaches actors of that name on other pools
                        other = p == 0 and o in [("ok", m[(q, name)]) for q in model.pools(name)]
                        assert o[0] == "ActorNotExist" or other, "old reference to destroyed %s at pool %d from %s: %r" % (name, p, loc, o)
        return obs

    for op in ops:
        if op[0] == "create":
            _, loc, via, name, kind = op
            used.add(name)
            g = next(gen)
            p = {"m": 0, "m1": 1, "m2": 2, "s1": 1, "s2": 2}[via]
            idx = {"m": None, "m1": 1, "m2": 2, "s1": None, "s2": None}[via]
            a = addrs[p] if via[0] == "s" else main
            cls = Stateless if kind == "stateless" else A
            r = await do(loc, "create", cls, a, idx, name, g, kind)
            if (p, name) in m:
                assert r[0] == "ActorAlreadyExist", "creating %r a second time: %r" % (op, r)
            elif kind in ("init", "post"):
                assert r[0] == "Boom" and kind in r[1], "failing creation %r: %r" % (op, r)
            else:
                assert r == ("ok", (addrs[p], name.encode())), "creation %r: %r" % (op, r)
                m[(p, name)] = g
                kinds[(p, name)] = kind
                origin[(loc, name)] = p
        else:
            _, loc, via, name, how = op
            used.add(name)
            if how == "orig":
                if (loc, name) not in origin:
                    continue
                p = origin[(loc, name)]
                cand = [p] if (p, name) in m else []
                r = await do(loc, "destroy", addrs[p], name, how)
            else:
                p = {"m": 0, "s1": 1, "s2": 2}[via]
                cand = model.pools(name) if p == 0 else ([p] if (p, name) in m else [])
                if how == "lookup" and not cand:
                    cand = model.pools(name)
                r = await do(loc, "destroy", addrs[p], name, how)
            if not cand:
                assert r[0] == "ActorNotExist", "destroying unknown %r: %r" % (op, r)
            elif len(cand) == 1:
                q = cand[0]
                if kinds[(q, name)] == "pre":
                    assert r[0] == "Boom" and "pre" in r[1], "failing destruction %r: %r" % (op, r)
                    kinds[(q, name)] = "ok"
                else:
                    assert r == ("ok", None), "destruction %r: %r" % (op, r)
                    del m[(q, name)]
            else:
                # one of them is gone: ask which
                if r[0] != "ok":
                    assert r[0] == "Boom" and any(kinds[(q, name)] == "pre" for q in cand), r
                    return "ambiguous"
                gone = []
                for q in cand:
                    o = await do("c", "call", addrs[q], name)
                    if o != ("ok", m[(q, name)]):
                        gone.append(q)
                assert len(gone) == 1, "destroying %s through the main pool removed it from pools %r" % (name, gone)
                del m[(gone[0], name)]
        # all shorter histories are cases themselves: here only references are collected
        if op is not ops[-1]:
            for loc in "cms":
                await do(loc, "ref", main, op[3])
    out = await probe()
    # registries hold nothing else
    for i, p in enumerate([w.pools["M"], w.pools["M1"], w.pools["M2"]]):
        names = {k.decode() for k in p._actors} - {"locm", "locs"}
        assert names == {n for (q, n) in m if q == i}, "pool %d holds %r" % (i, names)
    return sorted(m), [repr(x) for x in out]


def history(ops):
    async def main(w):
        return await run_history(w, ops)

    return run_world(main)


def ops_full(names=("a",)):
    """every operation of the alphabet"""
    for n in names:
        for loc in "cms":
            for via in ("m", "m1", "s1", "s2"):
                for kind in ("ok", "init", "post", "pre", "cycle"):
                    yield ("create", loc, via, n, kind)
            for via in ("m", "s1", "s2"):
                yield ("destroy", loc, via, n, "fn")
            yield ("destroy", loc, "m", n, "orig")
            yield ("destroy", loc, "m", n, "lookup")
            yield ("destroy", loc, "s1", n, "method")


def ops_small(names=("a",)):
    """fewer places and issuers, for deeper histories"""
    for n in names:
        for loc, via, kind in (
            ("c", "m1", "ok"), ("s", "s1", "ok"), ("c", "m", "cycle"), ("m", "m1", "post"), ("c", "s1", "post"), ("c", "s2", "pre"), ("s", "m1", "init"), ("m", "s1", "pre"),
            ("c", "m", "stateless"),
        ):
            yield ("create", loc, via, n, kind)
        for loc, via, how in (("c", "m", "fn"), ("c", "s1", "fn"), ("m", "m", "orig"), ("s", "s1", "lookup"), ("c", "s2", "method")):
            yield ("destroy", loc, via, n, how)


def run(ctx):
    full1 = list(ops_full())
    first = [o for o in full1 if o[0] == "create"]
    pairs = [(a, b) for a in first for b in full1]
    small = list(ops_small())
    fam = {
        "single": ([(o,) for o in full1], history),
        "pairs": (pairs, history),
        "deep": ([h for d in ([3, 4] if ctx.thorough else [3]) for h in itertools.product(small, repeat=d) if h[0][0] == "create"], history),
    }
    two = list(ops_small(("a", "b")))
    fam["two-names"] = ([h for h in itertools.product(two, repeat=2)] if not ctx.thorough else [h for h in itertools.product(two, repeat=3)], history)
    ctx.enumerate(fam)
