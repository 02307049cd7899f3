"""P08: yielding actor methods give up exclusion only at yields and get the right values.

Programs: every generator body and every returned value over a small grammar (plain values, coroutines of
different durations, failing ones, tasks, awaitable objects, calls to other actors, nested generators, tuples of
all of these) runs on real pools through remote and local references, against an interpreter of the grammar.
Schedules: generators compete with ordinary calls, with each other and with cancellations."""
import asyncio
import itertools

import xoscar as xo
from vlib.explore import Scenario
from vlib.scen import LOG, outcome, proc, run_world

TECHNIQUE = "bounded-exhaustive enumeration of generator and tuple programs on real pools against an interpreter, plus stateless exploration of schedules and cancellations"
NOTE = "Exhaustive over programs of up to two yields (tuples of up to three or four members, generators nested up to three deep)."
RULE = "a program case bundles all programs of one shape; a schedule is one execution of a closed driver; distinct: distinct results"
ASSUMPTIONS = ["when several members of a tuple fail the error of any of them may surface", "members of a tuple are awaited one level deep, as implemented and documented"]
PI = xo.allocate_strategy.ProcessIndex


class Awaitable:
    def __init__(self, c):
        self.c = c

    def __await__(self):
        return self.c.__await__()


async def later(delay, val):
    if delay:
        await asyncio.sleep(delay / 10)
    return val


async def fails(delay, text):
    await asyncio.sleep(delay / 10)
    raise ValueError(text)


class Runs:
    def make(self, item):
        k = item[0]
        if k == "v":
            return item[1]
        if k == "c":
            return later(*item[1:])
        if k == "x":
            return fails(*item[1:])
        if k == "f":
            return asyncio.ensure_future(later(*item[1:]))
        if k == "xf":
            return asyncio.ensure_future(fails(*item[1:]))
        if k == "o":
            return Awaitable(later(*item[1:]))
        if k == "t":
            return tuple(self.make(x) for x in item[1:])
        if k == "g":
            return self.gen(*item[1:])
        if k == "r":
            return self.other.echo(*item[1:])
        if k == "rx":
            return self.other.fails(*item[1:])
        if k == "s":
            return self.me.echo(*item[1:])  # an ordinary method of this very actor
        if k == "two":
            return self.pair(*item[1:])
        raise AssertionError(item)

    async def pair(self, *items):
        return items

    async def gen(self, steps, end, tag=None):
        got = []
        for catch, item in steps:
            LOG.append(("a", "in", tag))
            await asyncio.sleep(0)
            v = self.make(item)
            LOG.append(("a", "out", tag))
            try:
                got.append(("ok", (yield v)))
            except Exception as e:  # noqa
                if not catch:
                    raise
                got.append((type(e).__name__, str(e).split("] ")[-1]))
        LOG.append(("a", "in", tag))
        await asyncio.sleep(0)
        LOG.append(("a", "out", tag))
        if end == "return":
            raise xo.Return(got)
        if end == "error":
            raise KeyError("end")

    async def setup(self, other, me):
        self.other, self.me = other, me

    async def echo(self, delay, val):
        LOG.append(("a", "in", val))
        await asyncio.sleep(delay / 10)
        LOG.append(("a", "out", val))
        return val

    def ret(self, item):
        return self.make(item)

    async def aret(self, item):
        await asyncio.sleep(0)
        return self.make(item)


class Act(Runs, xo.Actor):
    def __init__(self):
        super().__init__()


class Stl(Runs, xo.StatelessActor):
    def __init__(self):
        super().__init__()


class Other(xo.StatelessActor):
    async def echo(self, delay, val):
        await asyncio.sleep(delay / 10)
        return val

    async def fails(self, delay, text):
        await asyncio.sleep(delay / 10)
        raise ValueError(text)


# ---------------------------------------------------------------- the interpreter
class Err(Exception):
    """set of acceptable errors"""

    def __init__(self, alts):
        self.alts = alts


def value(item):
    k = item[0]
    if k == "v":
        return item[1]
    if k in ("c", "f", "o", "r", "s"):
        return item[2]
    if k in ("x", "xf", "rx"):
        raise Err({("ValueError", item[2])})
    if k == "two":
        return tuple(item[1:])
    if k == "g":
        return run_gen(*item[1:3])
    if k == "t":
        out, errs = [], set()
        for x in item[1:]:
            try:
                out.append(value(x) if x[0] != "t" else tuple(value(y) for y in x[1:]))
            except Err as e:
                errs |= e.alts
        if errs:
            raise Err(errs)
        return tuple(out)
    raise AssertionError(item)


def run_gen(steps, end):
    got = []
    for catch, item in steps:
        try:
            got.append(("ok", value(item)))
        except Err as e:
            if not catch:
                raise
            got.append(frozenset(e.alts))
    if end == "return":
        return got
    if end == "error":
        raise Err({("KeyError", "'end'")})
    return None


def agrees(got, want):
    if isinstance(want, frozenset):
        return tuple(got) in want
    if type(want) in (list, tuple):
        return type(got) in (list, tuple) and len(got) == len(want) and all(agrees(g, x) for g, x in zip(got, want)) and (type(got) is type(want))
    return got == want and type(got) is type(want)


# ---------------------------------------------------------------- program families
G1 = ("g", ((False, ("c", 1, "i")),), "return")
GX = ("g", ((True, ("x", 1, "ix")), (False, ("c", 0, "j"))), "return")
GE = ("g", ((False, ("x", 1, "ie")),), "return")
GN = ("g", ((False, ("c", 0, "k")),), "none")
GG = ("g", ((False, G1), (True, GE), (False, ("t", G1, ("v", 5)))), "return")
SINGLE = [("v", 1), ("v", None), ("c", 0, "a"), ("c", 2, "b"), ("c", 1, None), ("x", 1, "e"), ("f", 1, "c"), ("xf", 1, "ef"), ("o", 1, "d"), ("r", 1, "r"), ("rx", 1, "re"), ("two", 1, 2), ("c", 1, [1, (2,)]), G1, GX, GE, GN, GG]
MEMBERS = [("v", 1), ("c", 1, "a"), ("c", 2, "b"), ("x", 1, "e"), ("f", 1, "c"), ("o", 2, "o"), G1]


def wide():
    """members finishing in every order, among plain values at every place"""
    for order in itertools.permutations((0, 1, 2)):
        cs = [("c", d, "d%d" % d) for d in order]
        yield ("t", *cs)
        for pos in range(4):
            yield ("t", *cs[:pos], ("v", "p"), *cs[pos:])
        for a, b in itertools.combinations(range(5), 2):
            t = list(cs)
            t.insert(a, ("v", "p"))
            t.insert(b, ("v", ("q", 1)))
            yield ("t", *t)
    for a, b, c in itertools.product((("rx", 1, "e1"), ("r", 2, "x"), ("v", 0)), (("x", 2, "e2"), ("c", 1, "y")), (("xf", 1, "e3"), ("f", 1, "z"), GE)):
        yield ("t", a, b, c)


def tuples(n):
    return [("t", *m) for m in itertools.product(MEMBERS, repeat=n)]


def shapes(thorough):
    yield "single", SINGLE
    yield "tuple0", [("t",)]
    yield "tuple1", tuples(1)
    yield "tuple2", tuples(2)
    t3 = tuples(3)
    for i in range(0, len(t3), 49):
        yield "tuple3-%d" % i, t3[i : i + 49]
    yield "wide", list(wide())
    yield "nested-plain", [("t", ("v", (1, 2)), ("c", 1, (3, 4))), ("t", ("v", [1]), ("v", None))]
    if thorough:
        t4 = tuples(4)
        for i in range(0, len(t4), 343):
            yield "tuple4-%d" % i, t4[i : i + 343]


SHAPES = dict(shapes(True))
TWO = [("v", 1), ("c", 1, "a"), ("x", 1, "e"), ("t", ("c", 2, "b"), ("v", 2), ("c", 1, "c")), ("t", ("x", 1, "e"), ("c", 2, "b")), G1, GE, ("r", 1, "r")]


def programs(shape, items):
    """(method, arguments, item or generator giving the expected value)"""
    for it in items:
        yield "ret", (it,), it
        yield "aret", (it,), it
        for catch in (False, True):
            g = (((catch, it),), "return")
            yield "gen", g, ("g", *g)
    if shape == "single":
        for ends in ("return", "none", "error"):
            for n in (0, 2):
                for its in itertools.product(TWO, repeat=n):
                    for catch in itertools.product((False, True), repeat=n):
                        g = (tuple(zip(catch, its)), ends)
                        yield "gen", g, ("g", *g)


async def check_one(ref, meth, args, item):
    got = await outcome(getattr(ref, meth)(*args))
    try:
        want = ("ok", value(item))
        ok = got[0] == "ok" and agrees(got[1], want[1])
    except Err as e:
        want = sorted(e.alts)
        ok = (got[0], got[1].split("] ")[-1] if got[0] != "ok" else None) in e.alts
    assert ok, "%s%r gave %r, expected %r" % (meth, args, got, want)


def exclusive():
    cur = None
    for a, what, tag in LOG:
        if what == "in":
            assert cur is None, "%r ran while %r did: %r" % (tag, cur, LOG)
            cur = tag or "gen"
        else:
            cur = None
    assert cur is None, LOG


def case_programs(case):
    where, shape = case
    items = SHAPES[shape]
    count = [0]

    async def main(w):
        pool = await w.start_pool(n_process=1)
        addr = pool.external_address
        cls = Stl if "stateless" in where else Act
        ref = await xo.create_actor(cls, address=addr, uid="a", allocate_strategy=PI(1 if where.startswith("sub") else 0))
        other = await xo.create_actor(Other, address=addr, uid="o", allocate_strategy=PI(1))
        await ref.setup(other, ref)
        w.loop.horizon = 10**9

        async def work():
            r = await xo.actor_ref(addr, "a")
            assert ("local" in where) == (type(r).__name__ == "LocalActorRef")
            for meth, args, item in programs(shape, items):
                del LOG[:]
                await check_one(r, meth, args, item)
                if cls is Act:
                    exclusive()
                count[0] += 1

        await proc(w, "M" if "local" in where else "C").spawn(work())
        return count[0]

    r = run_world(main)
    r["transitions"] = count[0]
    return r


# ---------------------------------------------------------------- schedules
class G(xo.Actor):
    def __init__(self):
        super().__init__()
        self.gate = asyncio.Event()

    async def setup(self, other, me):
        self.other, self.me = other, me

    async def m(self, tag, spins=1, delay=None):
        LOG.append(("a", "in", tag))
        try:
            for _ in range(spins):
                await asyncio.sleep(0)
            if delay:
                await asyncio.sleep(delay)
        finally:
            LOG.append(("a", "out", tag))
        return tag

    async def seg(self, tag):
        LOG.append(("a", "in", tag))
        try:
            await asyncio.sleep(0)
        finally:
            LOG.append(("a", "out", tag))

    async def two(self, tag, delay=0.1):
        """two yields, clean-up included"""
        got = []
        try:
            await self.seg(tag + "1")
            got.append((yield later(delay * 10, tag + "x")))
            await self.seg(tag + "2")
            got.append((yield (self.other.echo(1, tag + "y"), 7, self.me.m(tag + "m"))))
            await self.seg(tag + "3")
        finally:
            await self.seg(tag + "F")
        raise xo.Return(got)

    async def opens(self, tag):
        """waits, at a yield, for something only another ordinary method provides"""
        await self.seg(tag + "1")
        x = yield self.gate.wait()
        await self.seg(tag + "2")
        raise xo.Return(x)

    async def open(self):
        LOG.append(("a", "in", "open"))
        self.gate.set()
        LOG.append(("a", "out", "open"))

    def fan(self, tag, n):
        return tuple(self.other.echo(0, tag + str(i)) if i % 2 == 0 else (self.me.m(tag + str(i)) if i % 3 else tag + str(i)) for i in range(n))

    async def nest(self, tag):
        await self.seg(tag + "n1")
        x = yield self.two(tag)
        await self.seg(tag + "n2")
        y = yield self.two(tag + "'"), self.two(tag + '"')
        await self.seg(tag + "n3")
        raise xo.Return((x, y))


class Drv(xo.StatelessActor):
    async def go(self, ref, meth, *args):
        return await outcome(getattr(ref, meth)(*args))

    async def cancelled(self, ref, meth, *args):
        DRV["t"] = asyncio.create_task(getattr(ref, meth)(*args))
        return await outcome(DRV["t"])


DRV = {}


async def mk(w, where):
    pool = await w.start_pool(n_process=1)
    addr = pool.external_address
    a = await xo.create_actor(G, address=addr, uid="a", allocate_strategy=PI(0 if where == "local" else 1))
    o = await xo.create_actor(Other, address=addr, uid="o", allocate_strategy=PI(0))
    d = await xo.create_actor(Drv, address=addr, uid="d", allocate_strategy=PI(0))
    await a.setup(o, a)
    return a, d


def call(where, a, d, *args):
    if where == "local":

        async def f():
            return await d.go(a, *args)

        return f()
    return outcome(getattr(a, args[0])(*args[1:]))


def two_result(tag):
    return [tag + "x", (tag + "y", 7, tag + "m")]


def compete(where):
    async def main(w):
        a, d = await mk(w, where)
        w.begin()
        r = await asyncio.gather(call(where, a, d, "two", "p"), call(where, a, d, "two", "q", 0), outcome(a.m("1", 2)), call(where, a, d, "m", "2", 1, 0.1))
        w.end()
        exclusive()
        assert r == [("ok", two_result("p")), ("ok", two_result("q")), ("ok", "1"), ("ok", "2")], r
        return list(LOG)

    return main


def opening(where):
    async def main(w):
        a, d = await mk(w, where)
        w.begin()
        r = await asyncio.gather(call(where, a, d, "opens", "p"), outcome(a.open()), call(where, a, d, "opens", "q"))
        w.end()
        exclusive()
        assert r == [("ok", True), ("ok", None), ("ok", True)], r
        return list(LOG)

    return main


def fanning(where):
    async def main(w):
        a, d = await mk(w, where)
        w.begin()
        r = await asyncio.gather(call(where, a, d, "fan", "p", 5), call(where, a, d, "m", "1"))
        w.end()
        exclusive()
        assert r == [("ok", tuple("p%d" % i for i in range(5))), ("ok", "1")], r
        return list(LOG)

    return main


def nesting(where):
    async def main(w):
        a, d = await mk(w, where)
        w.begin()
        r = await asyncio.gather(call(where, a, d, "nest", "p"), call(where, a, d, "m", "1", 2))
        w.end()
        exclusive()
        assert r == [("ok", (two_result("p"), (two_result("p'"), two_result('p"')))), ("ok", "1")], r
        return list(LOG)

    return main


def cancelling(where, meth):
    async def main(w):
        a, d = await mk(w, where)
        DRV.clear()
        if where == "local":
            t = asyncio.create_task(d.cancelled(a, meth, "p"))
            ev = w.loop.add_event("cancel", lambda: DRV["t"].cancel() if "t" in DRV else None, opt=True)
        else:
            t = asyncio.create_task(getattr(a, meth)("p"))
            ev = w.loop.add_event("cancel", t.cancel, opt=True)
        w.begin()
        r = await asyncio.gather(outcome(t), outcome(a.m("1", 1, 0.15)))
        ev.cancel()
        w.end()
        n = len(LOG)
        z = await call(where, a, d, "two", "z")
        await asyncio.sleep(3)
        exclusive()
        tags = [x[2] for x in LOG if x[1] == "in"]
        late = [x for x in LOG[n:] if x[2].startswith("p") and x[2][-1] != "m"]
        assert not late, "code of the cancelled method ran after it had ended: %r" % LOG
        for g in ("p", "p'", 'p"'):
            if ("a", "in", g + "1") in LOG and tags.count(g + "F") != 1 or tags.count(g + "F") > 1:
                raise AssertionError("no clean-up: %r" % LOG)
        assert r[1] == ("ok", "1") and z == ("ok", two_result("z")), (r, z)
        r0 = r[0][1] if where == "local" and r[0][0] == "ok" else r[0]
        if r0[0] == "ok" and meth == "two":
            assert r0[1] == two_result("p"), r0
        elif r0[0] != "ok":
            assert r0 == ("CancelledError", ""), r0
        return (r0, list(LOG))

    return main


def scenarios():
    out = []
    for where in ("remote", "local"):
        out.append(Scenario("compete-" + where, compete(where), bound=1, bound_thorough=2))
        out.append(Scenario("opening-" + where, opening(where), bound=1, bound_thorough=3))
        out.append(Scenario("fanning-" + where, fanning(where), bound=1, bound_thorough=2))
        out.append(Scenario("nesting-" + where, nesting(where), bound=1, bound_thorough=1))
        out.append(Scenario("cancelling-two-" + where, cancelling(where, "two"), bound=2, bound_thorough=3))
        out.append(Scenario("cancelling-nest-" + where, cancelling(where, "nest"), bound=1, bound_thorough=2))
    return out


def run(ctx):
    cases = [(wh, s) for s, items in shapes(ctx.thorough) for wh in ("sub", "local", "sub-stateless", "local-stateless")]
    ctx.enumerate({"programs": (cases, case_programs)})
    ctx.explore(scenarios())
