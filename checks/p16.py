"""P16: messages reach the addressed pool through internal addresses and proxies."""
import asyncio
import itertools
import os

import xoscar as xo
from vlib.explore import Scenario
from vlib.scen import LOG, closed_error, fault, outcome, proc, run_world
from xoscar.backends.communication.errors import ChannelClosed
from xoscar.backends.communication.socket import SocketClient, SocketServer, UnixSocketClient, UnixSocketServer
from xoscar.backends.router import Router
from xoscar.context import get_context
from xoscar.core import ActorRef

TECHNIQUE = "bounded-exhaustive enumeration of proxy configurations, route histories and schedules on the real implementation against a reference model"
RULE = "a case is a cluster with one proxy configuration, caller, target and reachability (only the hops of the documented route are possible), or one history of adding and removing routes; distinct: distinct outcomes"
NOTE = "All configurations over four clusters within the stated sets of entries, all histories of up to five (thorough: six) route changes of three pools, and all single-deviation schedules of proxy failures; simulated transports."
ASSUMPTIONS = [
    "the route is decided hop by hop by the configuration of the pool that holds the message, as documented for Router.get_proxy (exact address, then host, then wildcard, never the pool itself); cyclic configurations are excluded",
    "a reference that carries proxies and is used by a process without own routes is sent to the last of them",
]

NAMES = "ABDE"
HOST = {n: "10.0.0.%d" % (i + 1) for i, n in enumerate(NAMES)}
PORT = {n: 5001 + 10 * i for i, n in enumerate(NAMES)}
MAIN = {n: "%s:%d" % (HOST[n], PORT[n]) for n in NAMES}


def sub_addr(n):
    return "%s:%d" % (HOST[n], PORT[n] + 1)


class A(xo.Actor):
    def __init__(self, name):
        super().__init__()
        self.name = name

    def get(self, x):
        LOG.append((self.name, "get", x))
        return (self.name, x)

    @xo.extensible
    def one(self, x):
        LOG.append((self.name, "get", x))
        return (self.name, x)

    def note(self, x):
        LOG.append((self.name, "note", x))

    def fail(self):
        LOG.append((self.name, "fail", None))
        raise KeyError(self.name)

    async def slow(self):
        LOG.append((self.name, "slow", None))
        try:
            await asyncio.sleep(50)
        except asyncio.CancelledError:
            LOG.append((self.name, "cancelled", None))
            raise

    def passed(self, ref):
        return ref

    def me(self):
        return self.ref()

    @xo.generator
    def numbers(self):
        def g():
            yield 1
            yield 2

        return g()


class Caller(xo.Actor):
    """does things from inside its own pool"""

    async def do(self, what, address, uid="t"):
        return await act(what, address, uid)


async def act(what, address, uid="t", ref=None):
    if ref is None:
        ref = ActorRef(address, uid)
    if what == "call":
        return await ref.get(5)
    if what == "tell":
        await ref.note.tell(6)
        return None
    if what == "fail":
        return await outcome(ref.fail())
    if what == "has":
        return await xo.has_actor(ref)
    if what == "ref":
        r = await xo.actor_ref(ref)
        return await r.get(7)
    if what == "create":
        r = await xo.create_actor(A, "new", address=address, uid="new")
        v = await r.get(8)
        e = await xo.has_actor(r)
        await xo.destroy_actor(r)
        return v, e, await xo.has_actor(r)
    if what == "cancel":
        t = asyncio.create_task(ref.slow())
        await asyncio.sleep(1)
        t.cancel()
        try:
            await t
        except asyncio.CancelledError:
            return "cancelled"
    if what == "batch":
        return await ref.one.batch(ref.one.delay(1), ref.one.delay(2))
    if what == "config":
        c = await get_context().get_pool_config(address)
        return sorted(c.get_external_addresses())
    if what == "wait":
        return await get_context().wait_actor_pool_recovered(sub_of(address), address)
    if what == "kill":
        return await xo.kill_actor(ref)
    raise KeyError(what)


def sub_of(address):
    return address.rsplit(":", 1)[0] + ":%d" % (int(address.rsplit(":", 1)[1]) + 1)


def lookup(conf, dest):
    """documented: exact address, host, wildcard; never itself"""
    host = dest.rsplit(":", 1)[0]
    for k in (dest, host, "*"):
        p = conf.get(k)
        if p and p != dest:
            return p
    return None


def route(confs, start, dest, limit=8):
    """list of addresses visited after the start; None if cyclic"""
    out = []
    cur = start
    seen = {cur}
    while True:
        p = lookup(confs[pname(cur)[0]], dest)
        if p is None or p == cur or p == dest:
            out.append(dest)
            return out
        if p in seen or len(out) > limit:
            return None
        seen.add(p)
        out.append(p)
        cur = p


async def build(w, confs, subs, names):
    for n in names:
        kw = {}
        if subs.get(n):
            kw = {"n_process": 1, "ports": [PORT[n] + 1]}
        await w.start_pool(address=MAIN[n], name=n, proxy_conf=dict(confs.get(n) or {}), **kw)


def confine(w, allowed):
    """only connections inside a cluster and along the given (process, address) pairs"""

    def can(pname, key):
        a = "%s:%d" % key
        for n in NAMES:
            if pname[0] == n and key[0] == HOST[n]:
                return True
        return (pname, a) in allowed

    w.loop.can_connect = can


def pname(address):
    for n in NAMES:
        if address == MAIN[n]:
            return n
        if address == sub_addr(n):
            return n + "1"
    raise KeyError(address)


OPS = ("call", "tell", "fail", "has", "ref", "create", "batch", "cancel", "config")


def case_route(confs, frm, to, ops=OPS):
    """an actor at `frm` does everything with an actor at `to`"""
    fn, tn = pname(frm)[0], pname(to)[0]

    async def main(w):
        subs = {fn: True, tn: True}
        path = route(confs, frm, to)
        assert path is not None
        names = [n for n in NAMES if n in (fn, tn) or MAIN[n] in path]
        await build(w, confs, subs, names)
        # set up from inside the clusters
        setup = {}
        for addr in {frm, to}:
            n = pname(addr)[0]

            async def mk(addr=addr):
                if addr == to:
                    await xo.create_actor(A, "t", address=addr, uid="t")
                if addr == frm:
                    await xo.create_actor(Caller, address=addr, uid="caller")

            await proc(w, n).spawn(mk())
        allowed = set()
        cur = frm
        for a in path:
            allowed.add((pname(cur), a))
            cur = a
        confine(w, allowed)

        # run in the process of the caller (an actor's context)
        async def drive():
            out = []
            for what in ops:
                out.append((what, await outcome(act(what, to))))
            return out

        rs = await proc(w, pname(frm)).spawn(drive())
        check(rs, to, tn)
        return [r[0] for _, r in rs], len(path)

    return main


def check(rs, to, tn):
    want_log = []
    for what, o in rs:
        if what == "call":
            assert o == ("ok", ("t", 5)), (what, o)
            want_log.append(("t", "get", 5))
        elif what == "tell":
            assert o == ("ok", None), (what, o)
            want_log.append(("t", "note", 6))
        elif what == "fail":
            assert o[0] == "ok" and o[1][0].endswith("KeyError"), (what, o)
            want_log.append(("t", "fail", None))
        elif what == "has":
            assert o == ("ok", True), (what, o)
        elif what == "ref":
            assert o == ("ok", ("t", 7)), (what, o)
            want_log.append(("t", "get", 7))
        elif what == "create":
            assert o == ("ok", (("new", 8), True, False)), (what, o)
            want_log.append(("new", "get", 8))
        elif what == "batch":
            assert o == ("ok", [("t", 1), ("t", 2)]), (what, o)
            want_log += [("t", "get", 1), ("t", "get", 2)]
        elif what == "cancel":
            assert o == ("ok", "cancelled"), (what, o)
            want_log += [("t", "slow", None), ("t", "cancelled", None)]
        elif what == "config":
            assert o == ("ok", [MAIN[tn], sub_addr(tn)]), (what, o)
    assert LOG == want_log, "executed %r, expected %r" % (LOG, want_log)


def configurations(rich):
    """proxy configurations of A, B and D for messages to C"""
    C = "E"

    def entries(keys, targets):
        for vals in itertools.product(*[[None] + targets for _ in keys]):
            yield {k: MAIN[v] for k, v in zip(keys, vals) if v}

    for to in (MAIN[C], sub_addr(C)):
        keys = [to, HOST[C], "*"]
        confs_a = list(entries(keys, ["B", "D", "A", "E"] if rich else ["B", "D", "A"]))
        confs_b = list(entries(keys if rich else [to, "*"], ["D", "B", "E"] if to != MAIN[C] else ["D", "B"]))
        confs_d = list(entries(["*"], ["D", "E"]))
        for a, b, d in itertools.product(confs_a, confs_b, confs_d):
            confs = {"A": a, "B": b, "D": d, "E": {}}
            p = route(confs, MAIN["A"], to)
            if p is None or route(confs, sub_addr("A"), to) is None:
                continue
            # configurations differ only if a pool on the way differs
            on = [pname(x)[0] for x in p]
            if ("B" not in on and b) or ("D" not in on and d):
                continue
            yield confs, to


def case_refs(conf_c, chain, at_sub, how):
    """references handed out carry what a process without routes needs"""

    async def main(w):
        to = sub_addr("E") if at_sub else MAIN["E"]
        confs = {"E": conf_c, "D": {}, "B": {}}
        expected = []
        cur = to
        while True:
            p = lookup(conf_c, cur)
            if p is None:
                break
            expected.append(p)
            cur = p
        names = ["E"] + [pname(p)[0] for p in expected if pname(p)[0] != "E"]
        await build(w, confs, {"E": True}, sorted(set(names)))
        # what the last proxy does is up to its own configuration: it reaches the pool directly
        last = expected[-1] if expected else to
        allowed = {("X", last)}
        if last != to:
            allowed.add((pname(last), to))

        # created in the cluster, handed to the client
        async def mk():
            r = await xo.create_actor(A, "t", address=to, uid="t")
            if how == "create":
                return r
            if how == "main":
                return await xo.actor_ref(MAIN["E"], "t")
            if how == "direct":
                return await xo.actor_ref(to, "t")
            if how == "self":
                return await r.me()
            if how == "copy":
                return await xo.actor_ref(await xo.actor_ref(to, "t"))

        # (a process that refers to its own actors does not ask a pool for the reference)
        ref = await proc(w, "E" if at_sub else "E1").spawn(mk())
        import cloudpickle

        assert (ref.address, ref.uid) == (to, b"t"), ref
        data = cloudpickle.dumps(ref)
        confine(w, allowed)
        x = w.new_proc("X")

        async def drive():
            r = cloudpickle.loads(data)
            out = []
            for what in ("call", "tell", "fail", "has", "ref", "batch", "cancel", "destroy"):
                if what == "destroy":
                    out.append((what, await outcome(xo.destroy_actor(r))))
                else:
                    out.append((what, await outcome(act(what, to, ref=r))))
            return out

        rs = await x.spawn(drive())
        if how != "self":
            assert (ref.proxy_addresses or []) == expected, "carries %r, needs %r" % (ref.proxy_addresses, expected)
        elif not ref.proxy_addresses:
            return "plain"
        assert rs[-1][1][0] == "ok", rs[-1]
        check(rs[:-1], to, "E")
        return [r[0] for _, r in rs], len(expected)

    return main


def ref_cases():
    C, c1 = MAIN["E"], sub_addr("E")
    vals = [C, MAIN["D"], None]
    for a, b, h, s in itertools.product(vals, vals, [None, C, MAIN["D"]], [None, C, MAIN["D"]]):
        conf = {}
        if a:
            conf[c1] = a
        if b and b != C:
            conf[C] = b
        if h:
            conf[HOST["E"]] = h
        if s:
            conf["*"] = s
        # acyclic
        ok = True
        for start in (C, c1):
            cur, n = start, 0
            while cur and n < 6:
                cur = lookup(conf, cur)
                n += 1
            ok = ok and n < 6
        if not ok:
            continue
        for at_sub in (0, 1):
            for how in ("create", "main", "direct", "self", "copy"):
                yield conf, at_sub, how


def fn_route(case):
    confs, frm, to, ops = case
    return run_world(case_route(confs, frm, to, ops))


def fn_refs(case):
    conf, at_sub, how = case
    return run_world(case_refs(conf, None, at_sub, how))


# -- control messages ---------------------------------------------------------
def case_control(what, conf_a, frm, n_hop):
    """messages to a pool itself, sent through proxies"""

    async def main(w):
        confs = {"A": dict(conf_a), "B": {} if n_hop == 1 else {"*": MAIN["D"]}, "D": {}, "E": {}}
        await build(w, confs, {"A": True, "E": True}, [n for n in NAMES if n != "D" or n_hop == 2])
        to = sub_addr("E")

        async def mk():
            await xo.create_actor(A, "t", address=to, uid="t")

        await proc(w, "E").spawn(mk())
        via = ["B"] + (["D"] if n_hop == 2 else [])
        allowed = set()
        for prev, nxt in zip([pname(frm)] + via, via + ["E"]):
            if nxt == "E":
                allowed |= {(prev, MAIN["E"]), (prev, to)}
            else:
                allowed.add((prev, MAIN[nxt]))
        confine(w, allowed)

        async def drive():
            if what == "kill":
                return await outcome(act("kill", to))
            if what == "wait-alive":
                return await outcome(act("wait", MAIN["E"]))
            if what == "wait-dead":
                w.pools["E"].sub_processes[to]._proc.kill()
                await asyncio.sleep(0.01)
                return await outcome(act("wait", MAIN["E"]))
            if what == "config":
                return await outcome(act("config", MAIN["E"]))

        await w.pools["E"].start_monitor() if False else None
        o = await proc(w, pname(frm)).spawn(drive())
        others = [p for n in ("A",) for p in w.loop.procs if p.name == "A1"]
        assert not any(p.dead for p in others), "a process of another cluster ended"
        if what == "kill":
            assert o[0] == "ok" or closed_error(o), o
            assert any(p.name == "E1" and p.dead for p in w.loop.procs), "the process of the actor lives on"
        else:
            assert o[0] == "ok", o
            if what == "wait-dead":
                assert any(p.name == "E2" and not p.dead for p in w.loop.procs)
            if what == "config":
                assert o[1] == [MAIN["E"], to], o
        return what, o[0]

    return main


def fn_control(case):
    return run_world(case_control(*case))


def control_cases():
    for what in ("kill", "wait-alive", "wait-dead", "config"):
        for frm in (MAIN["A"], sub_addr("A")):
            for n_hop in (1, 2):
                for conf in ({HOST["E"]: MAIN["B"]}, {MAIN["E"]: MAIN["B"], sub_addr("E"): MAIN["B"]}, {"*": MAIN["B"]}):
                    yield what, conf, frm, n_hop


# -- routes of several pools in one process -------------------------------------
ROUTES = {
    1: (["h1:1"], "dummy://1", {"h1:1": "unixsocket:///1", "h1:2": "unixsocket:///2"}, {}),
    2: (["h2:1", "ucx://h2:1"], "dummy://2", {"h2:1": "unixsocket:///3", "h2:3": None}, {"h3": "h2:1", "*": "h2:1"}),
    3: (["h3:1"], "dummy://3", {"h3:1": "unixsocket:///5", "h3:2": "unixsocket:///6"}, {"h9:9": "h3:1", "*": "h3:1"}),
}
PROBE = ["h1:1", "h1:2", "h1:3", "h2:1", "ucx://h2:1", "h2:3", "h3:1", "h3:2", "h3:7", "h9:9", "x:1"]


def fn_history(ops):
    g = Router([], None)
    live = {}
    maps = {}
    n = 0
    made = {}
    for op, i in ops:
        if op == "add":
            ext, loc, mapping, proxy = ROUTES[i]
            maps[i] = dict(mapping)
            made[i] = Router(list(ext), loc, maps[i], None, dict(proxy))
            g.add_router(made[i])
            live[i] = (ext, loc, maps[i], proxy)
        elif op == "del":
            g.remove_router(made[i])
            live.pop(i)
        elif op in ("grow", "shrink", "replace"):
            # as a pool does when its sub pools change: the mapping of the main pool is changed in place,
            # a sub pool gets a new one
            m = maps[i]
            if op == "replace":
                m = dict(m)
            if op == "shrink":
                m.pop("h%d:2" % i, None)
            else:
                m["h%d:3" % i] = "unixsocket:///%d9" % i
            if op == "replace":
                m.pop("h%d:2" % i, None)
            g.remove_router(made[i])
            made[i].set_mapping(m)
            g.add_router(made[i])
            maps[i] = m
            ext, loc, _, proxy = live.pop(i)
            live[i] = (ext, loc, m, proxy)
        # model
        for a in PROBE:
            want = None
            for ext, loc, m, proxy in live.values():
                if a in ext:
                    want = loc
                    break
            else:
                for ext, loc, m, proxy in live.values():
                    if a in m:
                        want = m[a]
            got = g.get_internal_address(a)
            assert got == want, "internal address of %s is %r, the live pools have %r after %r" % (a, got, want, ops)
            allowed = {lookup(x[3], a) for x in live.values()} - {None}
            merged = {}
            for x in live.values():
                merged.update(x[3])
            got = g.get_proxy(a)
            assert got == lookup(merged, a) or got in allowed, "proxy for %s is %r, the live pools have %r after %r" % (a, got, merged, ops)
            assert (got is None) == (lookup(merged, a) is None), "proxy for %s is %r, the live pools have %r after %r" % (a, got, merged, ops)
        all_ext = [a for x in live.values() for a in x[0]]
        assert (g.external_address in all_ext) if all_ext else g.external_address is None, (g.external_address, all_ext)
        # the routers of the pools themselves
        for i2 in live:
            for a in live[i2][2]:
                if a not in live[i2][0]:
                    assert made[i2].get_internal_address(a) == live[i2][2][a]
        n += 1
    return {"outcome": sorted(live), "transitions": n}


def histories(depth):
    def rec(hist, live, d):
        yield hist
        if d == 0:
            return
        for i in (1, 2, 3):
            if i not in live:
                yield from rec(hist + [("add", i)], live | {i}, d - 1)
            else:
                for op in ("del", "grow", "shrink", "replace"):
                    yield from rec(hist + [(op, i)], live - {i} if op == "del" else live, d - 1)

    return (h for h in rec([], frozenset(), depth) if h)


def fn_proxy_lookup(case):
    keys, addr = case
    r = Router([], None, proxy_config=dict(keys))
    conf = dict(keys)
    bare = addr.split("://", 1)[-1]
    want = None
    for k in (addr, bare.rsplit(":", 1)[0], "*"):
        if conf.get(k) and conf[k] != addr:
            want = conf[k]
            break
    got = r.get_proxy(addr)
    assert got == want, "proxy for %s with %r is %r, expected %r" % (addr, conf, got, want)
    ps = r.get_proxies(addr)
    chain, cur = [], addr
    while True:
        n = r.get_proxy(cur)
        if not n:
            break
        chain.append(n)
        cur = n
    assert (ps or []) == chain and ps != [], (ps, chain)
    return {"outcome": got, "transitions": 2}


def proxy_lookups():
    P, Q = "9.9.9.9:1", "8.8.8.8:2"
    for addr in ("10.0.0.1:5", "host:5", "[::1]:5", "ucx://10.0.0.1:5", P, "10.0.0.10:5"):
        bare = addr.split("://", 1)[-1]
        ks = [addr, bare.rsplit(":", 1)[0], "*", "10.0.0.1:55", "10.0.0"]
        for vals in itertools.product((None, P, Q), repeat=len(ks)):
            conf = {}
            for k, v in zip(ks, vals):
                if v:
                    conf[k] = v
            # acyclic
            cur, n = addr, 0
            while cur and n < 5:
                b = cur.split("://", 1)[-1]
                nxt = None
                for k in (cur, b.rsplit(":", 1)[0], "*"):
                    if conf.get(k) and conf[k] != cur:
                        nxt = conf[k]
                        break
                cur = nxt
                n += 1
            if n < 5:
                yield tuple(sorted(conf.items())), addr


def fn_index(pids):
    """pools of different processes, and of one process, never share an internal address"""
    from xoscar.backends.indigen.pool import MainActorPool

    real, gen = os.getpid, MainActorPool._process_index_gen if hasattr(MainActorPool, "_process_index_gen") else None
    seen = {}
    n = 0
    try:
        for pid in pids:
            os.getpid = lambda: pid
            from xoscar.backends.pool import MainActorPoolBase

            MainActorPoolBase._process_index_gen = itertools.count()  # a fresh process
            g = MainActorPool.process_index_gen("127.0.0.1:0")
            h = MainActorPool.process_index_gen("127.0.0.1:0")
            for i in range(24):
                idx = next(g if i % 3 else h)
                a = MainActorPool.gen_internal_address(idx, "127.0.0.1:1")
                assert a not in seen, "processes %r and %r both get the internal address %s" % (seen.get(a), (pid, i), a)
                seen[a] = (pid, i)
                n += 1
    finally:
        os.getpid = real
        if gen is not None:
            from xoscar.backends.pool import MainActorPoolBase

            MainActorPoolBase._process_index_gen = itertools.count()
    return {"outcome": len(seen), "transitions": n}


# -- real pools coming and going -------------------------------------------------
def live_routes(seq):
    """pools of one process come and go; a call to each address is decided by the live ones only"""

    async def main(w):
        x = w.new_proc("X", pool=True)
        pools = {}
        subs = {}
        k = 0
        far = await w.start_pool(address="10.9.9.9:1", name="F")
        prx = await w.start_pool(address="10.8.8.8:1", name="P")

        async def mk(addr, uid):
            await xo.create_actor(A, uid, address=addr, uid=uid)

        await proc(w, "F").spawn(mk("10.9.9.9:1", "far"))
        for step in seq:
            kind, n = step
            if kind == "start":
                addr = "10.1.0.%d:1" % n
                kw = {"proxy_conf": {"10.9.9.9": "10.8.8.8:1"}} if n == 2 else {}
                pools[n] = await w.start_pool(address=addr, name="X", proc=x, n_process=1, ports=[100 + n], **kw)
                subs[n] = ["10.1.0.%d:%d" % (n, 100 + n)]
                for a in [addr] + subs[n]:
                    await x.spawn(mk(a, "a"))
            elif kind == "stop":
                await x.spawn(pools.pop(n).stop())
                subs.pop(n)
            elif kind == "append":
                a = await x.spawn(pools[n].append_sub_pool(external_address="10.1.0.%d:%d" % (n, 200 + n)))
                subs[n].append(a)
                await x.spawn(mk(a, "a"))
            elif kind == "remove":
                await x.spawn(pools[n].remove_sub_pool(subs[n].pop()))
            elif kind == "other":
                # somebody else listens at an address that had been ours
                addr = "10.1.0.%d:%d" % (n, 200 + n)
                k += 1
                p = await w.start_pool(address=addr, name="O%d" % k)
                await proc(w, "O%d" % k).spawn(mk(addr, "other"))
                o = await x.spawn(outcome(ActorRef(addr, "other").get(1)))
                assert o == ("ok", ("other", 1)), "call to a pool at a re-used address: %r" % (o,)
                await proc(w, "O%d" % k).spawn(p.stop())

            # probes from the process itself
            async def probe():
                out = []
                for n in (1, 2, 3):
                    for a in ["10.1.0.%d:1" % n, "10.1.0.%d:%d" % (n, 100 + n), "10.1.0.%d:%d" % (n, 200 + n)]:
                        o = await outcome(ActorRef(a, "a").get(n))
                        if n in pools and (a == pools[n].external_address or a in subs[n]):
                            assert o == ("ok", ("a", n)), "call to %s: %r after %r" % (a, o, seq)
                        else:
                            assert closed_error(o), "call to the ended pool %s: %r after %r" % (a, o, seq)
                # through the proxy exactly as long as the pool that asked for it lives
                w.loop.can_connect = (lambda p, key: not (p == "X" and key[0] == "10.9.9.9")) if 2 in pools else (lambda p, key: not (p == "X" and key[0] == "10.8.8.8"))
                o = await outcome(ActorRef("10.9.9.9:1", "far").get(0))
                assert o == ("ok", ("far", 0)), "far call: %r after %r" % (o, seq)
                w.loop.can_connect = lambda p, key: True

            await x.spawn(probe())
        return sorted(pools)

    return main


def live_sequences(depth):
    def rec(hist, st, d):
        yield hist
        if not d:
            return
        for n in (1, 2):
            s = st.get(n)
            if s is None:
                yield from rec(hist + [("start", n)], dict(st, **{n: 0}) if False else {**st, n: 0}, d - 1)
            else:
                yield from rec(hist + [("stop", n)], {k: v for k, v in st.items() if k != n}, d - 1)
                if n == 1:
                    if s == 0:
                        yield from rec(hist + [("append", n)], {**st, n: 1}, d - 1)
                    elif s == 1:
                        yield from rec(hist + [("remove", n)], {**st, n: 0}, d - 1)
            if n == 1 and ("append", 1) in hist and s in (None, 0) and hist[-1] != ("other", 1):
                yield from rec(hist + [("other", 1)], st, d - 1)

    return [h for h in rec([], {}, depth) if len(h) == depth]


def fn_live(seq):
    return run_world(live_routes(seq))


# -- schedules: a proxy or a pool goes away and comes back -------------------------
def comeback(which):
    async def main(w):
        confs = {"A": {"*": MAIN["B"]}, "B": {}, "E": {}}
        await build(w, confs, {}, "ABE")
        await proc(w, "E").spawn(_mk(MAIN["E"]))
        confine(w, {("A", MAIN["B"]), ("A2", MAIN["B"]), ("B", MAIN["E"]), ("Bn", MAIN["E"])})
        a = proc(w, "A")

        async def call(n):
            return await outcome(ActorRef(MAIN["E"], "t").get(n))

        assert await a.spawn(call(0)) == ("ok", ("t", 0))
        del LOG[:]
        w.begin()
        victim = proc(w, which)
        ev = fault(w, "die", victim.kill)
        ts = [a.spawn(call(i)) for i in (1, 2)]
        rs = await asyncio.gather(*ts)
        ev.cancel()
        if not w.hits:
            victim.kill()
        r = await a.spawn(call(3))
        w.end()
        assert closed_error(r) or (which == "B" and closed_error(r)), r
        n = "Bn" if which == "B" else "En"
        await w.start_pool(address=MAIN[which], name=n)
        if which == "E":
            await proc(w, "En").spawn(_mk(MAIN["E"]))
        o = await a.spawn(call(4))
        assert o == ("ok", ("t", 4)), "after the pool came back: %r" % (o,)
        for i, x in ((1, rs[0]), (2, rs[1])):
            assert x == ("ok", ("t", i)) or closed_error(x), x
            assert LOG.count(("t", "get", i)) <= 1
        return rs, r

    return main


async def _mk(addr):
    await xo.create_actor(A, "t", address=addr, uid="t")


def mixed():
    """several callers over one proxy: everybody gets his own answers"""

    async def main(w):
        confs = {"A": {HOST["E"]: MAIN["B"]}, "B": {"*": MAIN["B"]}, "E": {"*": MAIN["E"]}, "D": {}}
        await build(w, confs, {"A": True, "E": True}, "ABE")
        await proc(w, "E").spawn(_mk(MAIN["E"]))

        async def mk2():
            await xo.create_actor(A, "u", address=sub_addr("E"), uid="u")

        await proc(w, "E").spawn(mk2())
        confine(w, {("A", MAIN["B"]), ("A1", MAIN["B"]), ("B", MAIN["E"]), ("B", sub_addr("E"))})

        async def calls(pre):
            r1, r2 = ActorRef(MAIN["E"], "t"), ActorRef(sub_addr("E"), "u")
            return await asyncio.gather(r1.get(pre + "1"), r2.get(pre + "2"), r1.get(pre + "3"), outcome(r2.fail()))

        w.begin()
        x, y = proc(w, "A").spawn(calls("m")), proc(w, "A1").spawn(calls("s"))
        rx, ry = await x, await y
        w.end()
        for pre, r in (("m", rx), ("s", ry)):
            assert r[:3] == [("t", pre + "1"), ("u", pre + "2"), ("t", pre + "3")], r
            assert r[3][0].endswith("KeyError"), r
        assert len(LOG) == 8 and len(set(LOG)) == 7, LOG
        return rx, ry

    return main


# -- connections of one router ---------------------------------------------------
def case_connections(ops):
    """every connection handed out is open and leads to the server that listens there now"""

    async def main(w):
        srv = w.new_proc("S")
        cli = w.new_proc("K")
        up = {}
        gen = {"a": 0, "b": 0}
        addr = {"a": "10.3.0.1:7", "b": "10.3.0.2:7"}

        def handler(tag):
            async def handle(ch):
                try:
                    while True:
                        await ch.send((tag, await ch.recv()))
                except (EOFError, ConnectionError, ChannelClosed):
                    pass

            return handle

        async def start(n):
            gen[n] += 1
            host, port = addr[n].rsplit(":", 1)
            s = [await SocketServer.create({"host": host, "port": int(port), "handle_channel": handler((n, "tcp", gen[n]))})]
            if n == "a":
                s.append(await UnixSocketServer.create({"process_index": 5, "handle_channel": handler((n, "unix", gen[n]))}))
            for x in s:
                await x.start()
            up[n] = s

        async def stop(n):
            for x in up.pop(n):
                await x.stop()

        await srv.spawn(start("a"))
        await srv.spawn(start("b"))
        router = Router([], None, mapping={addr["a"]: "unixsocket:///5"})
        who = ["x", "y"]
        last = {}
        log = []
        for n, op in enumerate(ops):
            kind = op[0]
            if kind == "stop":
                await srv.spawn(stop(op[1]))
                await asyncio.sleep(0.1)
                # whoever listens on a connection closes it when its other end is gone
                for (k, a, f), c in list(last.items()):
                    if a == op[1]:
                        await cli.spawn(c.close())
            elif kind == "start":
                await srv.spawn(start(op[1]))
            elif kind == "close":
                for c in last.values():
                    await cli.spawn(c.close())
            else:
                _, a, f = op

                async def get():
                    if kind == "get":
                        c = await router.get_client(addr[a], from_who=f)
                    else:
                        c = await router.get_client_via_type(addr[a], {"tcp": SocketClient, "unix": UnixSocketClient}[kind], from_who=f)
                    assert not c.closed, "a closed connection is handed out"
                    await c.send(n)
                    return c, await c.recv()

                o = await cli.spawn(outcome(get()))
                if a in up:
                    assert o[0] == "ok", "%r failed after %r: %r" % (op, ops[:n], o)
                    c, (tag, num) = o[1]
                    way = kind if kind != "get" else ("unix" if a == "a" else "tcp")
                    assert (tag, num) == ((a, way, gen[a]), n), "%r after %r answered by %r" % (op, ops[:n], tag)
                    old = last.get((kind, a, f))
                    assert old is None or old.closed or old is c, "a second connection while the first is open"
                    for k, v in last.items():
                        assert v is not c or k[2] == f, "connection of another user"
                    last[kind, a, f] = c
                else:
                    assert o[0] != "ok" and closed_error(o), "%r after %r: %r" % (op, ops[:n], o)
                log.append(o[0])
        for n in list(up):
            await srv.spawn(stop(n))
        return log

    return main


def connection_histories(depth):
    gets = [("get", "a", "x"), ("get", "a", "y"), ("tcp", "a", "x"), ("unix", "a", "x"), ("get", "b", "x"), ("tcp", "b", "x")]

    def rec(hist, up, d):
        if not d:
            if hist[-1] in gets:
                yield hist
            return
        for g in gets:
            yield from rec(hist + [g], up, d - 1)
        if any(h in gets for h in hist):
            yield from rec(hist + [("close",)], up, d - 1)
            if up:
                yield from rec(hist + [("stop", "a")], False, d - 1)
            else:
                yield from rec(hist + [("start", "a")], True, d - 1)

    return list(rec([], True, depth))


def fn_connections(ops):
    return run_world(case_connections(ops))


def run(ctx):
    rich = ctx.thorough
    routes = []
    for n, (confs, to) in enumerate(configurations(rich)):
        for frm in (MAIN["A"], sub_addr("A")):
            routes.append((confs, frm, to, OPS if (n % 7 == 0 or rich) else ("call", "tell", "fail", "create")))
    ctx.enumerate(
        {
            "history": (histories(ctx.pick(5, 6)), fn_history),
            "lookup": (proxy_lookups(), fn_proxy_lookup),
            "index": ([[p, q] for p in (1, 2, 3, 7, 40, 100, 4096, 65535, 32768) for q in (p + 1, 2 * p, 4 * p, p << 8, p << 16, 65537)], fn_index),
            "route": (routes, fn_route),
            "refs": (ref_cases(), fn_refs),
            "control": (control_cases(), fn_control),
            "connections": (connection_histories(ctx.pick(4, 5)), fn_connections),
            "live": (live_sequences(ctx.pick(4, 6)), fn_live),
        }
    )
    ctx.explore(
        [
            Scenario("comeback-proxy", comeback("B"), bound=1, bound_thorough=2),
            Scenario("comeback-target", comeback("E"), bound=1, bound_thorough=2),
            Scenario("mixed", mixed(), bound=1, bound_thorough=2),
        ]
    )
