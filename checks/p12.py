"""P12: allocation strategies place actors where they promise."""
import asyncio
import itertools
import random

import xoscar as xo
from vlib.explore import Scenario
from vlib.scen import closed_error, fault, outcome, proc, run_world
from xoscar.backends import allocate_strategy as S
from xoscar.core import ActorRef

TECHNIQUE = "bounded-exhaustive enumeration of creation/destruction histories, and of the interleavings of concurrent ones, on the real cluster against a reference placement"
RULE = (
    "a case is a labelled cluster and a history of creations with every strategy (good, failing), destructions (through the main or the sub pool), "
    "each compared with the set of pools the strategy admits and with the reference table of occupied slots; schedules additionally interleave "
    "concurrent creations, failures, cancellations, destructions and deaths; distinct: distinct placements"
)
ASSUMPTIONS = [
    "strategies are evaluated by the main pool, so creations with a strategy are addressed to the main pool",
    "random placement is checked for 8 seeds of Python's generator per case",
    "while a creation or destruction is in flight its slot may count as taken or free",
]
PI = S.ProcessIndex


class Boom(Exception):
    pass


class A(xo.Actor):
    def __init__(self, how="ok"):
        super().__init__()
        self.how = how
        if how == "init":
            raise Boom("init")

    async def __post_create__(self):
        await super().__post_create__()
        if self.how in ("slow", "slowpost"):
            await asyncio.sleep(0.05)
        if self.how in ("post", "slowpost"):
            raise Boom("post")

    async def __pre_destroy__(self):
        await super().__pre_destroy__()
        if self.how == "slowend":
            await asyncio.sleep(0.05)

    def where(self):
        return self.address


def addresses(pool):
    return [pool._config.get_pool_config(i)["external_address"][0] for i in pool._config.get_process_indexes()]


CLUSTERS = {
    "none": [None, None, None],
    "ab": ["main", "a", "b"],
    "aab": ["main", "a", "a", "b"],
    "main-a": ["a", "a", "b"],
    "mixed": [None, "a", None, "a"],
    "empty": ["", "", "a"],
    "solo": ["a"],
}


def admitted(labels, st, n):
    k = st[0]
    if k == "addr":
        return {st[1]} if st[1] < n else set()
    if k == "main":
        return {0}
    if k == "index":
        return {st[1] % n} if -n <= st[1] < n else set()
    if k == "random":
        return set(range(n))
    if k == "randomsub":
        return set(range(1, n))
    if k in ("label", "idle"):
        return {i for i in range(n) if labels[i] == st[1]}
    raise KeyError(k)


def build(st, addrs):
    k = st[0]
    if k == "addr":
        return S.AddressSpecified(addrs[st[1]] if st[1] < len(addrs) else "127.0.0.1:9")
    return {"main": S.MainPool, "random": S.Random, "randomsub": S.RandomSubPool}[k]() if len(st) == 1 else {"index": S.ProcessIndex, "label": S.RandomLabel, "idle": S.IdleLabel}[k](*st[1:])


STRATS = (
    [("addr", i) for i in range(5)] + [("main",), ("random",), ("randomsub",)] + [("index", i) for i in range(-1, 4)]
    + [("label", x) for x in ("a", "b", "", "main", "zz")] + [("idle", x, "m") for x in ("a", "b", "", "main", "zz")]
)


async def check_at(addrs, uid, i):
    """the actor lives on pool i and nowhere else"""
    for j, a in enumerate(addrs):
        o = await outcome(ActorRef(a, uid).where())
        if j == i:
            assert o == ("ok", addrs[i]), "actor on pool %d answers %r" % (i, o)
        elif j:
            assert o[0] == "ActorNotExist", "actor placed on pool %d also answers on pool %d: %r" % (i, j, o)
    assert await xo.has_actor(ActorRef(addrs[0], uid))


def strategy_case(case):
    cl, st, seed, via = case
    labels = CLUSTERS[cl]

    async def main(w):
        pool = await w.start_pool(n_process=len(labels) - 1, labels=list(labels))
        addrs = addresses(pool)
        random.seed(seed)
        want = admitted(labels, st, len(addrs))
        got = []
        if via == "actor":
            mk = (await xo.create_actor(Maker, address=addrs[0], uid="mk", allocate_strategy=PI(len(addrs) - 1))).make
        else:
            mk = make
        free = set(want)
        for k in range(3):
            if st[0] == "idle":
                want = set(free)
            o = await outcome(mk(st, addrs, "u%d" % k))
            if not want:
                assert o[0] != "ok", "placed at %r although no pool qualifies" % (o,)
                if st[0] == "idle":
                    assert o[0] == "NoIdleSlot", o
                got.append(o[0])
                continue
            assert o[0] == "ok", "creation failed although pools %r qualify: %r" % (sorted(want), o)
            i = addrs.index(o[1])
            assert i in want, "placed on pool %d, strategy %r admits %r (labels %r)" % (i, st, sorted(want), labels)
            free.discard(i)
            await check_at(addrs, "u%d" % k, i)
            got.append(i)
        return got

    return dict(run_world(main), tag="-".join(map(str, case)))


async def make(st, addrs, uid, how="ok"):
    return (await xo.create_actor(A, how, address=addrs[0], uid=uid, allocate_strategy=build(st, addrs))).address


class Maker(xo.StatelessActor):
    async def make(self, st, addrs, uid, how="ok"):
        return await make(st, addrs, uid, how)


# --- idle slots: histories -----------------------------------------------------
OPS = {
    "ax": lambda: ("idle", "a", "x"),
    "ay": lambda: ("idle", "a", "y"),
    "bx": lambda: ("idle", "b", "x"),
    "p1": lambda: ("index", 1),
    "la": lambda: ("label", "a"),
}


def idle_case(hist):
    """creations ax ay bx p1 la, failing creations ax! (constructor) ax? (creation hook) ax= (name taken), d: destroy the oldest through main, e: the newest through its own pool"""
    labels = CLUSTERS["aab"]

    async def main(w):
        pool = await w.start_pool(n_process=3, labels=list(labels))
        addrs = addresses(pool)
        random.seed(3)
        live = []  # (uid, pool, key or None)
        n = itertools.count()
        out = []
        for op in hist:
            if op in ("d", "e", "D"):
                if not live:
                    return None
                uid, i, key = live.pop(0 if op == "d" else -1)
                await xo.destroy_actor(ActorRef(addrs[0 if op == "d" else i], uid))
                if op == "D":
                    pass
                out.append(op)
                continue
            st = OPS[op[:2]]()
            how = {"": "ok", "!": "init", "?": "post", "=": "ok"}[op[2:]]
            uid = "u%d" % next(n)
            if op[2:] == "=":
                if not live:
                    return None
                # the name is taken at the place the slot would be
                uid = live[0][0]
            key = st if st[0] == "idle" else None
            cand = admitted(labels, st, len(addrs))
            if key:
                cand -= {i for _, i, k in live if k == key}
            o = await outcome(make(st, addrs, uid, how))
            if not cand:
                assert o[0] == "NoIdleSlot", "no slot is free, creation ended with %r (live %r)" % (o, live)
                out.append("none")
                continue
            assert o[0] != "NoIdleSlot", "no idle slot reported, but %r are free (live %r)" % (sorted(cand), live)
            if how != "ok":
                assert o == ("Boom", o[1]), o
                out.append("fail")
                continue
            if op[2:] == "=" and o[0] != "ok":
                assert o[0] == "ActorAlreadyExist", o
                out.append("exists")
                continue
            assert o[0] == "ok", o
            i = addrs.index(o[1])
            assert i in cand, "%r placed on pool %d, admitted and free are %r (live %r)" % (st, i, sorted(cand), live)
            if op[2:] == "=":
                return None  # the same name on two pools: placement checked, stop here
            live.append((uid, i, key))
            out.append(i)
        for uid, i, _ in live:
            await check_at(addrs, uid, i)
        return out

    return dict(run_world(main), tag="-".join(hist))


# --- idle slots: concurrency ----------------------------------------------------
def concurrent(ops, start=(), cancel=None, kill=None, labels="ab2", recover="actor"):
    """ops: (kind, how) with kind x (idle a/x), y (idle a/y), p (process 1), d0.. (destroy start[k] through main), s0.. (through its sub pool)"""

    async def main(w):
        lab = ["main", "a", "a"]
        pool = await w.start_pool(n_process=2, labels=lab, auto_recover=recover)
        addrs = addresses(pool)
        mk = await xo.create_actor(Maker, address=addrs[0], uid="mk", allocate_strategy=PI(2))
        await mk.make(("index", 2), addrs, "warm")
        ST = {"x": ("idle", "a", "x"), "y": ("idle", "a", "y"), "p": ("index", 1)}
        live = {}
        for k, kind in enumerate(start):
            a = await make(ST[kind[0]], addrs, "s%d" % k, kind[1:] or "ok")
            live["s%d" % k] = (kind[0], addrs.index(a))
        evs = []

        async def do(k, op):
            kind, how = op
            if kind[0] in "ds":
                uid = "s" + kind[1:]
                a = addrs[0] if kind[0] == "d" else addrs[live[uid][1]]
                return await outcome(xo.destroy_actor(ActorRef(a, uid)))
            if how.endswith("@"):
                return await outcome(mk.make(ST[kind], addrs, "u%d" % k, how[:-1]))
            return await outcome(make(ST[kind], addrs, "u%d" % k, how))

        w.begin()
        tasks = [asyncio.create_task(do(k, op)) for k, op in enumerate(ops)]
        if cancel is not None:
            evs.append(fault(w, "cancel", tasks[cancel].cancel))
        if kill is not None:
            evs.append(fault(w, "kill", lambda: proc(w, "M1").kill()))
        rs = [r[1] if r[0] == "ok" else r for r in await asyncio.gather(*[outcome(t) for t in tasks])]
        w.end()
        for e in evs:
            e.cancel()
        hits = getattr(w, "hits", [])
        await asyncio.sleep(1)
        if kill is not None and hits:
            await xo.wait_actor_pool_recovered(addrs[1], addrs[0])
            await xo.wait_actor_pool_recovered(addrs[1], addrs[0])
        place = {}
        for k, (op, o) in enumerate(zip(ops, rs)):
            kind, how = op
            if kind[0] in "ds":
                uid = "s" + kind[1:]
                if o[0] == "ok":
                    live.pop(uid, None)
                else:
                    assert o[0] == "ActorNotExist" or (hits and closed_error(o)), (op, o)
                continue
            bad = {"init", "post", "slowpost"}
            base = how.rstrip("@")
            if o[0] == "ok":
                assert base not in bad
                i = addrs.index(o[1])
                assert i in (admitted(lab, ST[kind], 3)), (op, o)
                live["u%d" % k] = (kind, i)
            else:
                ok = {"Boom"} if base in bad else set()
                if kind in "xy":
                    ok.add("NoIdleSlot")
                if hits:
                    ok.add("CancelledError")
                assert o[0] in ok or (hits and kill is not None and closed_error(o)), (op, o)
                if o[0] == "NoIdleSlot":
                    # justified only if the slots may all have been taken at some time
                    taken = [u for u in start if u[0] == kind] + [p for j, p in enumerate(ops) if j != k and p[0] == kind]
                    assert len(taken) >= 2, "no idle slot reported with at most %d of 2 slots taken" % len(taken)
        # where they are now
        found = {}
        for u in list(live) + ["u%d" % k for k in range(len(ops)) if "u%d" % k not in live]:
            for i in (1, 2):
                o = await outcome(ActorRef(addrs[i], u).where())
                if o[0] == "ok":
                    found.setdefault(u, []).append(i)
                else:
                    assert o[0] == "ActorNotExist", o
        for u, (kind, i) in live.items():
            if kill is not None and hits and i == 1 and recover != "actor":
                continue
            assert found.get(u) == [i], "actor %s placed on pool %d is found on %r" % (u, i, found.get(u))
        kinds = {"u%d" % k: op[0] for k, op in enumerate(ops)}
        kinds.update({"s%d" % k: s[0] for k, s in enumerate(start)})
        occ = {}
        for u, at in found.items():
            if kinds[u] in "xy":
                for i in at:
                    occ.setdefault((kinds[u], i), []).append(u)
        for key, us in occ.items():
            assert len(us) == 1, "%r share pool %d with the same label and mark" % (us, key[1])
        # exactly the free slots can be filled now
        for kind in "xy":
            free = {i for i in (1, 2) if (kind, i) not in occ}
            for n in range(len(free) + 1):
                o = await outcome(make(ST[kind], addrs, "f%s%d" % (kind, n)))
                if n == len(free):
                    assert o[0] == "NoIdleSlot", "all slots are taken, creation ended with %r" % (o,)
                else:
                    assert o[0] == "ok", "slots %r of mark %s should be free: %r" % (sorted(free), kind, o)
        return [(o[0], addrs.index(o[1]) if o[0] == "ok" and o[1] in addrs else None) for o in rs], sorted(found.items())

    return main


def scenarios():
    out = []

    def add(name, main, bound=1, bt=2):
        out.append(Scenario(name, main, bound=bound, bound_thorough=bt))

    ok, slow, slowpost = "ok", "slow", "slowpost"
    add("three-on-two", concurrent([("x", ok), ("x", "ok@"), ("x", ok)]), 2, 3)
    add("three-slow", concurrent([("x", slow), ("x", ok), ("x", "slow@")]), 1, 2)
    add("marks", concurrent([("x", slow), ("y", ok), ("x", ok), ("y", "ok@")]), 1, 2)
    add("failing", concurrent([("x", slowpost), ("x", ok), ("x", "post@")]), 2, 2)
    add("failing-init", concurrent([("x", "init"), ("x", ok), ("x", ok)]), 1, 2)
    add("with-others", concurrent([("p", slow), ("x", ok), ("x", ok), ("p", ok)]), 1, 2)
    add("destroy-create", concurrent([("d0", ""), ("x", ok)], ["x", "x"]), 2, 3)
    add("destroy-sub-create", concurrent([("s0", ""), ("x", "ok@")], ["x", "x"]), 2, 3)
    add("destroy-slow", concurrent([("s1", ""), ("x", ok), ("x", slow)], ["x", "xslowend"]), 1, 2)
    add("destroy-both", concurrent([("d0", ""), ("s0", ""), ("x", ok)], ["xslowend", "x"]), 1, 2)
    add("cancel", concurrent([("x", slow), ("x", ok)], ["x"], cancel=0), 2, 2)
    add("cancel-actor", concurrent([("x", "slow@"), ("x", ok)], ["x"], cancel=0), 2, 2)
    add("die", concurrent([("x", slow), ("x", ok)], ["x"], kill=1), 1, 2)
    add("die-free", concurrent([("x", slow), ("y", ok)], ["x"], kill=1, recover="process"), 1, 2)
    return out


def run(ctx):
    ops = ["ax", "ay", "bx", "p1", "la", "ax!", "ax?", "ax=", "d", "e"]
    small = ["ax", "bx", "p1", "ax?", "d", "e"]
    depth = ctx.pick(4, 5)
    hists = [h for n in range(1, 4) for h in itertools.product(ops if n < 4 else small, repeat=n) if h[0] not in ("d", "e", "ax=")]
    hists += [h for h in itertools.product(small, repeat=depth) if h[0] not in ("d", "e")]
    ctx.enumerate(
        {
            "strategies": (
                [(c, s, seed, via) for c in CLUSTERS for s in STRATS for via in ("client", "actor") for seed in (range(8) if "random" in s[0] or s[0] == "label" else [0])],
                strategy_case,
            ),
            "idle": (hists, idle_case),
        }
    )
    ctx.explore(scenarios())
