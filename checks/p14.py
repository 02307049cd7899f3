"""P14: growing and shrinking a pool keeps every process's view consistent."""
import asyncio
import itertools
import random

import xoscar as xo
from vlib.explore import Scenario
from vlib.scen import CLOSED, fault, outcome, proc
from xoscar.backends import allocate_strategy as S

TECHNIQUE = "exhaustive exploration of the schedules of all bounded add/remove histories, with concurrent operations, calls and deaths, on the real pools in a simulated world, compared with a reference table of live pools"
RULE = "a history is a sequence of steps (each one operation or several concurrent ones) over appending with default or explicit address, label, environment and removing by position, gracefully or forced; its schedules are explored to the bound; distinct: distinct resulting views"
NOTE = "After each step of a history the configuration as told by every live process, the routes and placements from every process, the processes alive and the untouched actors are compared with a reference table; all histories to depth 3 (thorough: 4) in the standard order and all schedules with one (thorough: two) reordered events of the concurrent ones."
ASSUMPTIONS = ["operations are awaited by their issuer; what concurrent appends return decides their place in the order", "a call or creation in flight at a pool being removed may fail with a connection error"]
LEVEL = "exploration"


class A(xo.Actor):
    """an actor at every pool: probe of that process's view"""

    def __init__(self):
        super().__init__()
        self.n = 0

    def add(self):
        self.n += 1
        return self.n

    def where(self):
        return self.address

    async def view(self, address):
        conf = await xo.get_pool_config(address)
        return table(conf)

    async def place(self, address, strategy, uid=None):
        ref = await xo.create_actor(B, address=address, allocate_strategy=strategy, uid=uid)
        r = (ref.address, await ref.where(), await ref.echo("x"))
        await xo.destroy_actor(ref)
        return r

    async def call(self, ref):
        return await ref.where()


class B(xo.Actor):
    def where(self):
        return self.address

    def echo(self, x):
        return x

    async def slow(self, t):
        await asyncio.sleep(t)
        return self.address


def table(conf):
    d = conf.as_dict()
    return (
        tuple((i, c["label"], c["internal_address"], tuple(c["external_address"])) for i, c in d["pools"].items()),
        tuple(sorted(d["mapping"].items())),
    )


def live_pools(w, address):
    ps = {id(p()): p() for _, p, owner in w.loop.pool_registry if p() is not None and not owner.dead}
    return [p for p in ps.values() if p.external_address == address and not p.stopped]


def live_in(w, proc, address):
    return any(owner is proc and p() is not None and p().external_address == address for _, p, owner in w.loop.pool_registry)


class Oracle:
    def __init__(self, w, pool):
        self.w = w
        self.pool = pool
        t = table(pool._config)[0]
        self.rows = [[None, r[1], None, r[3][0]] for r in t]  # label, address in order
        self.n = 0
        self.removed = []
        self.probes = {}
        self.labels = {}
        self.problems = []
        self.counts = {}

    @property
    def addresses(self):
        return [r[3] for r in self.rows]

    def bad(self, kind, text):
        self.problems.append((kind, text))

    async def prepare(self, address):
        self.probes[address] = await xo.create_actor(A, address=self.addresses[0], uid="probe-%d" % self.n, allocate_strategy=S.AddressSpecified(address))
        self.counts[address] = 0
        self.n += 1

    async def check(self, unordered=0, light=False):
        """compare every view with the table; the last `unordered` rows may be permuted"""
        w = self.w
        main = self.addresses[0]
        names = {a: "P%d" % i for i, a in enumerate(self.addresses)}
        # --- views
        views = {}
        for a in self.addresses:
            if a not in self.probes:
                await self.prepare(a)
        for a in self.addresses:
            o = await outcome(self.probes[main].view(a))
            if o[0] != "ok":
                self.bad("view", "the configuration of %s cannot be had: %s" % (names[a], o[0]))
                continue
            views[a] = o[1]
        first = views.get(main)
        for a, v in views.items():
            if v != first:
                self.bad("disagree", "the main pool and %s disagree: %s vs %s" % (names[a], self.show(first, names), self.show(v, names)))
        if first is not None:
            rows, mapping = first
            want = [(r[1], r[3]) for r in self.rows]
            got = [(r[1], r[3][0]) for r in rows]
            ok = got == want if not unordered else (got[: len(want) - unordered] == want[: len(want) - unordered] and sorted(map(repr, got)) == sorted(map(repr, want)))
            if not ok:
                self.bad("table", "configuration lists %s" % self.show(first, names))
            if len({r[0] for r in rows}) != len(rows) or len({r[2] for r in rows}) != len(rows):
                self.bad("unique", "process indices or internal addresses repeat: %s" % self.show(first, names))
            want_map = sorted((x, r[2]) for r in rows for x in r[3])
            if list(mapping) != want_map:
                self.bad("mapping", "mapping has %d entries for %d pools" % (len(mapping), len(rows)))
        # --- real internal addresses
        for a in self.addresses:
            p = live_pools(w, a)
            if len(p) != 1:
                self.bad("live", "%d live pools at %s" % (len(p), names[a]))
                continue
            p = p[0]
            if first:
                row = [r for r in first[0] if r[3][0] == a]
                if row and (row[0][0] != p.process_index or row[0][2] != p.internal_address or row[0][1] != p.label):
                    self.bad("foreign", "the configuration of %s differs from the pool itself" % names[a])
            m = p._router._mapping
            if first and sorted(m.items()) != sorted(dict(first[1]).items()):
                self.bad("routes", "the routes of %s do not match the configuration" % names[a])
        # --- use from every process
        for a in self.addresses:
            pr = self.probes[a]
            self.counts[a] += 1
            o = await outcome(pr.add())
            if o != ("ok", self.counts[a]):
                self.bad("state", "an actor at %s lost its state: %r" % (names[a], o[:1] if o[0] != "ok" else o))
            for i, b in enumerate(self.addresses):
                for how in ("index", "address"):
                    st = S.ProcessIndex(i) if how == "index" else S.AddressSpecified(b)
                    if how == "index" and unordered or light and a != main:
                        continue
                    o = await outcome(pr.place(main, st))
                    if o != ("ok", (b, b, "x")):
                        self.bad("place", "placement by %s from %s at %s: %s" % (how, names[a], names[b], o[0] if o[0] != "ok" else [names.get(x, "?") for x in o[1][:2]]))
                o = await outcome(pr.call(self.probes[b])) if a != b else ("ok", b)
                if o != ("ok", b):
                    self.bad("call", "call from %s to %s: %s" % (names[a], names[b], o[0]))
                # straight to that pool, without the main pool
                o = await outcome(pr.place(b, None))
                if o != ("ok", (b, b, "x")):
                    self.bad("direct", "creation at %s by %s: %s" % (names[b], names[a], o[0]))
        for lab in {r[1] for r in self.rows if r[1]}:
            st = S.RandomLabel(lab)
            want = {r[3] for r in self.rows if r[1] == lab}
            o = await outcome(self.probes[main].place(main, st))
            if o[0] != "ok" or o[1][0] not in want:
                self.bad("label", "placement by label: %s" % (o[0] if o[0] != "ok" else names.get(o[1][0], "?")))
        subs = set(self.addresses[1:])
        if subs:
            for _ in range(2):
                o = await outcome(self.probes[main].place(main, S.RandomSubPool()))
                if o[0] != "ok" or o[1][0] not in subs:
                    self.bad("random", "placement on any sub pool: %s" % (o[0] if o[0] != "ok" else names.get(o[1][0], "?")))
        # --- removed
        for a in self.removed:
            if a in self.addresses:
                continue
            o = await outcome(self.probes[main].place(main, S.AddressSpecified(a)))
            if o[0] == "ok":
                self.bad("removed", "an actor was placed on a removed pool")
            if live_pools(w, a):
                self.bad("alive", "a removed pool is still alive")
        subs = [x for x in w.loop.procs if x.name.startswith("M") and x.name != "M" and not x.dead]
        if len(subs) != len(self.addresses) - 1:
            self.bad("processes", "%d processes for %d sub pools" % (len(subs), len(self.addresses) - 1))
        if set(self.pool.sub_processes) != set(self.addresses[1:]):
            self.bad("handles", "%d handles for %d sub pools" % (len(self.pool.sub_processes), len(self.addresses) - 1))
        return tuple((r[1],) for r in self.rows)

    @staticmethod
    def show(v, names):
        return [(names.get(r[3][0], "?"), r[1], names.get(r[2], r[2] is not None)) for r in v[0]]


PORT = itertools.count(31000)


def op_coro(orc, m, op, k):
    """coroutine of one operation, to run in the main process; the table is updated when it is done"""
    pool = orc.pool

    async def append(after=0, **kw):
        if after:
            await asyncio.sleep(after)
        a = await pool.append_sub_pool(**kw)
        orc.rows.append([None, kw.get("label"), None, a])
        if "external_address" in kw and kw["external_address"] != a:
            orc.bad("address", "the sub pool is at another address than asked for")
        return "appended"

    async def remove(i, after=0, **kw):
        if after:
            await asyncio.sleep(after)
        a = orc.addresses[i]
        row = orc.rows[i]
        try:
            await pool.remove_sub_pool(a, **kw)
        finally:
            orc.rows.remove(row)
            orc.removed.append(a)
            orc.probes.pop(a, None)
        return "removed"

    kind = op[0]
    if kind == "+":
        return append(*op[1:])
    if kind == "+s":
        orc.w.start_delay = op[1]
        return append(*op[2:])
    if kind == "+g":
        return append(label="g")
    if kind == "+h":
        return append(label="h", env={"P14": "1"}, modules=["json"])
    if kind == "+x":
        return append(external_address="127.0.0.1:%d" % (31000 + k))
    if kind == "+xg":
        return append(external_address="127.0.0.1:%d" % (31000 + k), label="g", internal_address="unixsocket:///%d" % (990000 + k))
    if kind == "-":
        return remove(*op[1:])
    if kind == "-f":
        return remove(op[1], force=True)
    if kind == "-t":
        return remove(op[1], timeout=1)
    raise KeyError(op)


def name_of(hist):
    return "/".join("&".join("".join(map(str, o)) for o in (st if isinstance(st, list) else [st])) for st in hist)


def scenario(n, hist, labels=None, extra=None, bound=0, kill=False, recover="actor"):
    async def main(w):
        res = {}
        random.seed(5)
        m = w.new_proc("M", pool=True)
        kw = {"labels": labels} if labels else {}
        pool = await w.start_pool(n_process=n, proc=m, auto_recover=recover, **kw)
        orc = Oracle(w, pool)
        for a in list(orc.addresses):
            await orc.prepare(a)
        k = 0
        shapes = []
        last = len(hist) - 1
        for s, step in enumerate(hist):
            ops = step if isinstance(step, list) else [step]
            deaths = any(o[0] == "kill" for o in ops)
            coros = []
            for o in ops:
                if o[0] in ("call", "create", "createsub", "kill"):
                    coros.append(load(w, orc, o))
                else:
                    coros.append(op_coro(orc, m, o, k))
                k += 1
            if s == last and bound:
                w.begin()
            busy = [("busy", asyncio.ensure_future(c)) for c in extra(orc)] if extra and s == last else []
            tasks = [m.spawn(c) if o[0] not in ("call", "create", "createsub", "kill") else asyncio.ensure_future(c) for o, c in zip(ops, coros)]
            rs = []
            for o, t in zip(ops, tasks):
                r = await outcome(t)
                rs.append(r)
                if o[0] in ("call", "create", "createsub"):
                    continue
                if r[0] != "ok" and not (r[0] in CLOSED and deaths):
                    orc.bad("failed", "%s failed with %s: %s" % (o[0], r[0], r[1][:80]))
            for _, t in busy:
                r = await outcome(t)
                rs.append(r)
            if s == last and bound:
                w.end()
            if deaths:
                # what failed with the death is to be repeated by nobody
                await asyncio.sleep(2)
            n_app = sum(o[0].startswith("+") for o in ops)
            shapes.append(tuple(r[0] for r in rs))
            if not bound or s == last:
                await orc.check(unordered=n_app if n_app > 1 else 0, light=bool(bound))
        res["shapes"] = tuple(shapes)
        res["rows"] = tuple(r[1] for r in orc.rows)
        res["problems"] = orc.problems
        await m.spawn(pool.stop())
        left = [x.name for x in w.loop.procs if x.name.startswith("M") and x.name != "M" and not x.dead]
        if left:
            orc.bad("leak", "%d sub pools outlive their main pool" % len(left))
        return res

    def judge(w, res, errors):
        return [(k, t) for k, t in dict.fromkeys(res["problems"])]

    return Scenario("%d%s:%s%s" % (n, "L" if labels else "", name_of(hist), ""), main, judge, bound=bound, bound_thorough=bound + 1 if bound else 0, horizon=900)


async def load(w, orc, op):
    """what goes on meanwhile: must go well, as it touches no pool being removed unless the op says so"""
    kind = op[0]
    main = orc.addresses[0]
    if kind == "kill":
        # a sub pool that stays dies, the main pool starts it again
        a = orc.addresses[op[1]]
        h = orc.pool.sub_processes[a]
        if len(op) > 2:
            await asyncio.sleep(op[2])
        [p for p in w.loop.procs if not p.dead and live_in(w, p, a)][0].kill(-9)
        if len(op) > 3:
            w.start_delay = op[3]  # of the new process
        while orc.pool.sub_processes.get(a) is h:
            await asyncio.sleep(0.1)
        await xo.wait_actor_pool_recovered(a, main)
        orc.counts[a] = 0
        return
    if kind == "call":
        # calls between two pools that stay
        a, b = orc.addresses[op[1]], orc.addresses[op[2]]
        for _ in range(3):
            o = await outcome(orc.probes[a].call(orc.probes[b]))
            if o != ("ok", b):
                orc.bad("busy", "a call between remaining actors failed: %s" % o[0])
        return
    if kind == "create":
        # creation anywhere
        strict = op[1] == "strict"
        for _ in range(2):
            if len(orc.addresses) < 2:
                return
            o = await outcome(xo.create_actor(B, address=main, allocate_strategy=S.RandomSubPool()))
            if o[0] != "ok":
                if strict or o[0] not in CLOSED:
                    orc.bad("busy-create", "a creation failed with %s: %s" % (o[0], o[1][:60]))
                continue
            ref = o[1]
            o = await outcome(ref.where())
            if o[0] == "ok" and o[1] != ref.address or o[0] != "ok" and (strict or o[0] not in CLOSED):
                orc.bad("busy-create", "a new actor does not answer: %s" % o[0])
            await asyncio.sleep(0.05)
        return


OPS = [("+",), ("+g",), ("+x",), ("-", 1), ("-", -1), ("-f", 1)]


def feasible(n, hist):
    for step in hist:
        ops = step if isinstance(step, list) else [step]
        used = set()
        for o in ops:
            if o[0].startswith("-"):
                i = o[1] if o[1] >= 0 else n + 1 + o[1]
                if i < 1 or i > n or i in used:
                    return False
                used.add(i)
        for o in ops:
            if o[0] == "kill" and (o[1] > n or o[1] in used):
                return False
            if o[0] == "call" and (o[1] > n or o[2] > n or o[1] in used or o[2] in used):
                return False
            if o[0] == "create" and n - len(used) < 1:
                return False
        n += sum(o[0].startswith("+") for o in ops) - len(used)
    return True


def run(ctx):
    th = ctx.thorough
    sc = []
    depth = 4 if th else 3
    for n in (0, 1, 2):
        for d in range(1, depth + 1):
            if n == 2 and d > depth - 1 or n == 0 and d > depth:
                continue
            for h in itertools.product(OPS, repeat=d):
                h = list(h)
                if feasible(n, h) and (d < 3 or th or n == 0 or h[0][0] in ("+", "-")):
                    sc.append(scenario(n, h))
    for n, labels in ((2, ["main", "a", "b"]), (1, ["m", "g"])):
        for d in (1, 2):
            for h in itertools.product([("+h",), ("+xg",), ("-t", 1), ("-", -1)], repeat=d):
                if feasible(n, h):
                    sc.append(scenario(n, list(h), labels=labels))
    par = [("+",), ("+x",), ("-", 1), ("-f", 2), ("call", 0, 1), ("call", 1, 2), ("create", "strict"), ("create", "any")]
    for n in (0, 1, 2):
        for a, b in itertools.combinations_with_replacement(par, 2):
            ops = [a, b]
            kinds = {o[0] for o in ops}
            if not kinds & {"+", "+x", "-", "-f"}:
                continue
            if a[0].startswith("-") and a == b:
                continue
            if ("create", "strict") in ops and (kinds & {"-", "-f"} or n == 0):
                continue
            if ("create", "any") in ops and not kinds & {"-", "-f"}:
                continue
            if "+x" in kinds and not th and n != 1:
                continue
            if feasible(n, [ops]) and (th or n < 2 or not feasible(1, [ops])):
                sc.append(scenario(n, [ops], bound=1))
            for pre in ([("+",)], [("-", 1)]) if th else ([("+",)],):
                if (n < 2 if th else n == 1) and ("+x" not in kinds or th) and feasible(n, pre + [ops]):
                    sc.append(scenario(n, pre + [ops], bound=1))
    for n in (0, 1, 2):
        for ops in ([("+s", 2.0), ("+", 1.0)], [("+s", 2.0), ("-", 1, 1.0)], [("+s", 2.0), ("-f", 2, 1.0), ("-", 1, 1.0)], [("+s", 1.0), ("+", 1.0), ("+g", )]):
            if feasible(n, [ops]) and (th or n < 2 or not feasible(1, [ops])):
                sc.append(scenario(n, [ops], bound=1))
    for n in (0, 1, 2):
        for pre in ([], [("+",)], [("+",), ("-", 1)]):
            for ops in ([("kill", 1)], [("kill", 1), ("+",)], [("kill", 1, 0.02), ("+",)], [("kill", 1, 0.05), ("+",)], [("kill", 1), ("+", 0.3)], [("kill", 1, 0, 2.0), ("+", 1.0)], [("kill", 1, 0, 2.0), ("-", 2, 1.0)], [("kill", 1), ("-", 2)], [("kill", 1), ("-", 2), ("+",)]):
                if not th and (n == 2 and not pre and feasible(1, [ops]) or n == 1 and pre and feasible(1, [ops]) or n == 2 and len(pre) == 1 and feasible(1, pre + [ops])):
                    continue
                if feasible(n, pre + [ops]) and n + len(pre) > 0 and len(pre) < 2 or n == 2 and len(pre) == 2 and feasible(n, pre + [ops]):
                    sc.append(scenario(n, pre + [ops], bound=1))
    ctx.explore(sc)
