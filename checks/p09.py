"""P09: iterating a remote generator equals iterating it locally.

Every generator body of up to three steps (values of all kinds, errors, awaits, iteration of a further remote
generator) in every way an actor can return one, read through remote and local references by one consumer, by
two with every interleaving of their steps, by an actor the iterator was passed on to, and disposed of (explicitly
or by dropping it) after every number of steps; compared with local iteration of the same body.
Schedules: concurrent consumers, cancelled steps, death of the actor or of its process."""
import asyncio
import gc
import itertools
import pickle
import types

import xoscar as xo
from vlib.explore import Scenario
from vlib.scen import LOG, closed_error, fault, outcome, proc, run_world
from xoscar import api

TECHNIQUE = "bounded-exhaustive enumeration of generator bodies, consumers and disposals on real pools against local iteration, plus stateless exploration of schedules and faults"
NOTE = "Exhaustive over bodies of up to three steps; the thread that disposes of a dropped iterator is replaced by a further client process."
RULE = "a case is all bodies of one length and style in one setting; a schedule is one execution of a closed driver; distinct: distinct sequences"
ASSUMPTIONS = ["after an error or disposal a further step may report the end or an error, never a value"]
PI = xo.allocate_strategy.ProcessIndex
WORLD = []


class FakeThread:
    """stands for the thread IteratorWrapper.__del__ starts: another event loop in the same process"""

    def __init__(self, target=None, args=(), daemon=None):
        self.coro = args[0]

    def start(self):
        if WORLD:
            WORLD[0].loop.call_soon(lambda: WORLD[0].gcproc.spawn(self.coro)) if WORLD[0].gcproc else self.coro.close()
        else:
            self.coro.close()

    def join(self):
        pass


api.threading = types.SimpleNamespace(Thread=FakeThread, Lock=api.threading.Lock, local=api.threading.local) if not isinstance(api.threading, types.SimpleNamespace) else api.threading


class Boom(Exception):
    def __eq__(self, o):
        return type(o) is Boom and o.args == self.args

    def __hash__(self):
        return 0


# ---------------------------------------------------------------- bodies
VALUES = {"1": 1, "none": None, "zero": 0, "empty": "", "list": [1, [2]], "tuple": (1, (2, None)), "exc": Boom("value"), "stopval": StopIteration, "false": False, "endtext": "StopIteration"}
ERRORS = {
    "!boom": Boom("b"),
    "!text": ValueError("no StopIteration here"),
    "!stop": StopIteration("s"),
    "!astop": StopAsyncIteration("s"),
    "!plain": Exception("StopIteration"),
    "!key": KeyError("k"),
}


def sync_gen(body):
    for s in body:
        if s == "ret":
            return
        if s.startswith("!"):
            raise ERRORS[s]
        if s == "sleep":
            continue
        yield VALUES[s]


async def async_gen(body, me=None):
    for s in body:
        if s == "ret":
            return
        if s.startswith("!"):
            raise ERRORS[s]
        if s == "sleep":
            await asyncio.sleep(0.1)
            continue
        if s == "inner":
            async for x in await me.other.sgen(("1", "none")):
                yield x
            continue
        if s == "innerfail":
            async for x in await me.other.sgen(("1", "!text")):
                yield x
            continue
        yield VALUES[s]


def local(body):
    """what local iteration of the body gives: values, then how it ends"""
    out = []
    for s in body:
        if s == "ret":
            break
        if s.startswith("!"):
            e = ERRORS[s]
            if isinstance(e, (StopIteration, StopAsyncIteration)):
                # Python turns these into RuntimeError inside generators
                return out, "RuntimeError"
            return out, type(e).__name__
        if s == "sleep":
            continue
        if s == "inner":
            out += [1, None]
        elif s == "innerfail":
            out += [1]
            return out, "ValueError"
        else:
            out.append(VALUES[s])
    return out, "end"


class Gens:
    async def setup(self, other):
        self.other = other

    @xo.generator
    def sgen(self, body):
        yield from sync_gen(body)

    @xo.generator
    async def agen(self, body):
        async for x in async_gen(body, self):
            yield x

    @xo.generator
    def rets(self, body):
        return sync_gen(body)

    @xo.generator
    async def aretss(self, body):
        await asyncio.sleep(0)
        return sync_gen(body)

    @xo.generator
    async def aretsa(self, body):
        return async_gen(body, self)

    @xo.generator
    def retsa(self, body):
        return async_gen(body, self)

    @xo.generator
    def notgen(self, x):
        return x

    @xo.generator
    async def anotgen(self, x):
        return x

    def state(self):
        return len(self._generators)

    def echo(self, x):
        return x

    async def consume(self, it, n=None):
        """read an iterator made elsewhere"""
        out = []
        async for x in it:
            out.append(x)
            if n is not None and len(out) == n:
                break
        it._gc_destroy = False
        return out

    async def hand_out(self, body):
        """an iterator of another actor, passed on"""
        return await self.other.sgen(body)

    async def hand_out_started(self, body):
        it = await self.other.sgen(body)
        await it.__anext__()
        return it


class Act(Gens, xo.Actor):
    def __init__(self):
        super().__init__()


class Stl(Gens, xo.StatelessActor):
    def __init__(self):
        super().__init__()


STYLES = {"sgen": "s", "agen": "a", "rets": "s", "aretss": "s", "aretsa": "a", "retsa": "a"}
STEPS_S = ["1", "none", "tuple", "exc", "!boom", "!text", "!stop", "sleep"]
ALL_S = list(VALUES) + list(ERRORS) + ["ret", "sleep"]


def bodies(style, n, full):
    if n == 1 or full:
        al = ALL_S + (["inner", "innerfail"] if STYLES[style] == "a" else [])
    else:
        al = STEPS_S + (["inner", "innerfail"] if STYLES[style] == "a" else [])
    for b in itertools.product(al, repeat=n):
        # nothing after an error or return is ever reached
        if any(x.startswith("!") or x in ("ret", "innerfail") for x in b[:-1]):
            continue
        yield b


async def step(it):
    try:
        return ("ok", await it.__anext__())
    except StopAsyncIteration:
        return ("end",)
    except Exception as e:  # noqa
        return ("error", e)


def same(a, b):
    return type(a) is type(b) and a == b


def errname(e):
    for c in type(e).__mro__:
        if c.__module__ in ("builtins", __name__):
            return c.__name__
    return "?"


async def read(it, body, limit=None):
    """compare with local iteration; returns the values read"""
    vals, end = local(body)
    got = []
    while limit is None or len(got) < limit:
        r = await step(it)
        if r[0] != "ok":
            break
        got.append(r[1])
        assert len(got) <= len(vals), "%r gave %r, local iteration %r" % (body, got, vals)
    if limit is not None and len(got) == limit:
        assert all(same(a, b) for a, b in zip(got, vals)), (body, got)
        return got
    assert len(got) == len(vals) and all(same(a, b) for a, b in zip(got, vals)), "%r gave %r then %r, local iteration %r" % (body, got, r, vals)
    if end == "end":
        assert r == ("end",), "%r ended with %r" % (body, r)
        for _ in range(2):
            assert (await step(it)) == ("end",), "%r: a step after the end" % (body,)
    else:
        assert r[0] == "error" and errname(r[1]) == end, "%r ended with %r, local iteration with %s" % (body, r, end)
        for _ in range(2):
            assert (await step(it))[0] != "ok"
    return got


async def setting(w, where, hold=False):
    WORLD[:] = [w]
    w.gcproc = None
    pool = await w.start_pool(n_process=2)
    addr = pool.external_address
    cls = Stl if "stateless" in where else Act
    a = await xo.create_actor(cls, address=addr, uid="a", allocate_strategy=PI(1 if where.startswith("sub") else 0))
    b = await xo.create_actor(Stl, address=addr, uid="b", allocate_strategy=PI(2))
    await a.setup(b)
    await b.setup(a)
    return addr, a, b


async def in_user(w, where, work):
    w.loop.horizon = 10**9
    try:
        return await proc(w, "M" if "local" in where else "C").spawn(work())
    finally:
        gc.collect()
        WORLD.clear()


async def fetch(ref, style, body):
    it = await getattr(ref, style)(body)
    assert type(it).__name__ == "IteratorWrapper", it
    it._gc_destroy = False
    return it


def case_single(case):
    where, style, n, full = case
    count = [0]

    async def main(w):
        addr, a, b = await setting(w, where)

        async def work():
            ref = await xo.actor_ref(addr, "a")
            for body in bodies(style, n, full):
                it = await fetch(ref, style, body)
                await read(it, body)
                st = await ref.state()
                assert st == 0, "%d generators left after %r" % (st, body)
                count[0] += 1

        await in_user(w, where, work)
        return count[0]

    r = run_world(main)
    r["transitions"] = count[0]
    return r


def case_disposal(case):
    """disposed of explicitly after every number of steps"""
    where, style = case
    count = [0]

    async def main(w):
        addr, a, b = await setting(w, where)

        async def work():
            ref = await xo.actor_ref(addr, "a")
            for body in [(), ("1",), ("1", "none"), ("tuple", "1", "none"), ("1", "!boom"), ("1", "!text")]:
                vals, end = local(body)
                for k in range(len(vals) + 2):
                    it = await fetch(ref, style, body)
                    keep = await fetch(ref, style, ("1", "none", "zero"))
                    assert (await step(keep)) == ("ok", 1)
                    await read(it, body, k)
                    await it.destroy()
                    assert (await ref.state()) == 1, "state left behind"
                    assert (await step(it))[0] != "ok"
                    await it.destroy()
                    assert (await step(keep)) == ("ok", None), "another iterator was disturbed"
                    assert (await ref.state()) == 1
                    await read(keep, ("zero",))
                    assert (await ref.state()) == 0
                    count[0] += 1

        await in_user(w, where, work)
        return count[0]

    r = run_world(main)
    r["transitions"] = count[0]
    return r


def case_dropping(case):
    """dropped after every number of steps (also by leaving the loop), or after having been copied"""
    style, how = case
    count = [0]

    async def main(w):
        addr, a, b = await setting(w, "sub")
        w.gcproc = w.new_proc("G")

        async def work():
            ref = await xo.actor_ref(addr, "a")
            for body in [(), ("1",), ("1", "none"), ("tuple", "1", "none"), ("1", "!boom")]:
                vals, end = local(body)
                for k in range(len(vals) + 2):
                    it = await getattr(ref, style)(body)
                    if how == "direct":
                        await read(it, body, k)
                    elif how == "copied":
                        # the duty to dispose moves to the copy
                        cp = pickle.loads(pickle.dumps(it))
                        del it
                        gc.collect()
                        await asyncio.sleep(1)
                        await read(cp, body, k)
                        it = cp
                        del cp
                    elif how == "loop":
                        i = 0
                        try:
                            async for x in it:
                                assert same(x, vals[i])
                                i += 1
                                if i == k:
                                    break
                        except Boom:
                            pass
                    elif how == "returned":
                        del it
                        it = await ref.echo(await getattr(ref, style)(body))
                        await read(it, body, k)
                    del it
                    gc.collect()
                    await asyncio.sleep(1)
                    st = await ref.state()
                    assert st == 0, "%r dropped after %d steps: %d generators left" % (body, k, st)
                    count[0] += 1

        await in_user(w, "sub", work)
        return count[0]

    r = run_world(main)
    r["transitions"] = count[0]
    return r


def case_two(case):
    """two iterators of one actor, all interleavings of their steps, with ordinary calls in between"""
    where, style = case
    count = [0]

    async def main(w):
        addr, a, b = await setting(w, where)

        async def work():
            ref = await xo.actor_ref(addr, "a")
            for b1, b2 in [(("1", "none"), ("tuple", "zero")), (("1", "!text"), ("none", "1")), (("1",), ("!boom",))]:
                n1, n2 = len(b1) + 1, len(b2) + 1
                for pos in itertools.combinations(range(n1 + n2), n1):
                    its = [await fetch(ref, style, b1), await fetch(ref, style, b2)]
                    got = [[], []]
                    for i in range(n1 + n2):
                        k = 0 if i in pos else 1
                        r = await step(its[k])
                        got[k].append((r[0], errname(r[1])) if r[0] == "error" else r)
                        assert (await ref.echo(i)) == i
                    for k, body in enumerate((b1, b2)):
                        vals, end = local(body)
                        exp = [("ok", v) for v in vals] + [("end",) if end == "end" else ("error", end)]
                        g = got[k][: len(exp)]
                        assert g == exp, (body, got)
                    assert (await ref.state()) == 0
                    count[0] += 1

        await in_user(w, where, work)
        return count[0]

    r = run_world(main)
    r["transitions"] = count[0]
    return r


def case_passing(case):
    """iterators handed to and by other actors, fresh or started"""
    where, style = case
    count = [0]

    async def main(w):
        addr, a, b = await setting(w, where)

        async def work():
            ref = await xo.actor_ref(addr, "a")
            rb = await xo.actor_ref(addr, "b")
            for body in [(), ("1",), ("1", "none"), ("tuple", "1", "none"), ("1", "!text"), ("!boom",)]:
                vals, end = local(body)
                for k in range(len(vals) + 1):
                    it = await fetch(ref, style, body)
                    await read(it, body, k)
                    o = await outcome(rb.consume(it))
                    if end == "end":
                        assert o[0] == "ok" and len(o[1]) == len(vals) - k and all(same(x, y) for x, y in zip(o[1], vals[k:])), (body, k, o)
                    else:
                        assert o[0] == end, (body, k, o)
                    assert (await ref.state()) == 0
                    # part of it there, the rest here
                    if vals[k:] and end == "end":
                        it = await fetch(ref, style, body)
                        await read(it, body, k)
                        o = await rb.consume(it, 1)
                        assert o == vals[k : k + 1]
                        await read(it, body[k + 1 :])
                    count[0] += 1
                # obtained through another actor
                it = await ref.hand_out(body)
                it._gc_destroy = False
                await read(it, body)
                if vals:
                    it = await ref.hand_out_started(body)
                    it._gc_destroy = False
                    await read(it, body[1:])
                assert (await rb.state()) == 0

        await in_user(w, where, work)
        return count[0]

    r = run_world(main)
    r["transitions"] = count[0]
    return r


def case_values(where):
    """a generator method that returns something else; unknown iterators"""

    async def main(w):
        addr, a, b = await setting(w, where)

        async def work():
            ref = await xo.actor_ref(addr, "a")
            for v in VALUES.values():
                for m in ("notgen", "anotgen"):
                    assert same(await getattr(ref, m)(v), v)
            it = api.IteratorWrapper("nothing", ref.address, b"a")
            it._gc_destroy = False
            r = await step(it)
            assert r[0] == "error", r
            assert (await ref.state()) == 0

        await in_user(w, where, work)
        return True

    return run_world(main)


# ---------------------------------------------------------------- schedules
def consumers(where, style, cls):
    async def main(w):
        addr, a, b = await setting(w, where + ("-stateless" if cls is Stl else ""))

        async def one(ref, body):
            it = await fetch(ref, style, body)
            return await read(it, body)

        async def inside():
            ref = await xo.actor_ref(addr, "a")
            return await one(ref, ("tuple", "none"))

        w.begin()
        t = proc(w, "M").spawn(inside())
        r = await asyncio.gather(one(a, ("1", "none")), one(a, ("zero", "!text")), outcome(a.echo(5)))
        rt = await asyncio.shield(t)
        w.end()
        st = await a.state()
        WORLD.clear()
        assert st == 0 and r[2] == ("ok", 5), (st, r)
        return (r, rt)

    return main


def cancelled_step(style):
    async def main(w):
        addr, a, b = await setting(w, "sub")
        it = await fetch(a, style, ("1", "sleep", "none"))
        it2 = await fetch(a, style, ("zero", "tuple"))
        assert (await step(it2)) == ("ok", 0)
        t = asyncio.create_task(step(it))
        ev = w.loop.add_event("cancel", t.cancel, opt=True)
        w.begin()
        o = await outcome(t)
        ev.cancel()
        w.end()
        r2 = await read(it2, ("tuple",))
        e = await a.echo(1)
        rest = await step(it)
        await it.destroy()
        st = await a.state()
        WORLD.clear()
        if o[0] == "ok":
            assert o[1] == ("ok", 1) and rest == ("ok", None), (o, rest)
        else:
            # a step was given up: its value may be lost, but nothing is delivered twice or out of order
            assert rest in (("ok", 1), ("ok", None), ("end",)) or rest[0] == "error", rest
        assert e == 1 and st == 0, st
        return (o, rest[0], r2)

    return main


def dying(style, what):
    async def main(w):
        addr, a, b = await setting(w, "sub")
        it = await fetch(a, style, ("1", "none", "zero"))
        vals = [1, None, 0]
        p = proc(w, "M1")
        if what == "kill":
            fault(w, "kill", lambda: p.kill(-9, reset=True))
        else:
            fault(w, "destroy", lambda: setattr(w, "dt", asyncio.ensure_future(outcome(xo.destroy_actor(a)))))
        w.begin()
        got = []
        while True:
            r = await step(it)
            if r[0] != "ok":
                break
            got.append(r[1])
        w.end()
        WORLD.clear()
        assert got == vals[: len(got)], got
        if len(got) < len(vals):
            assert w.hit, "ended early: %r" % got
            assert r[0] == "error", "the death of the %s was taken for the end: %r %r" % (what, got, r)
            name = outcome_name(r[1])
            assert closed_error((name, str(r[1]))) if what == "kill" else "ActorNotExist" in name, r
        else:
            assert r[0] == "end" or w.hit, r
        return (got, r[0])

    return main


def outcome_name(e):
    return "/".join(c.__name__ for c in type(e).__mro__ if c.__name__ in ("ServerClosed", "ActorNotExist", "ConnectionRefusedError")) or type(e).__name__


def scenarios():
    out = []
    for style in ("sgen", "agen"):
        for cls in (Act, Stl):
            for where in ("sub", "main"):
                out.append(Scenario("consumers-%s-%s-%s" % (style, cls.__name__, where), consumers(where, style, cls), bound=1, bound_thorough=1 if style == "agen" else 2))
        out.append(Scenario("cancelled-" + style, cancelled_step(style), bound=2, bound_thorough=3))
        out.append(Scenario("kill-" + style, dying(style, "kill"), bound=2, bound_thorough=3))
        out.append(Scenario("destroy-" + style, dying(style, "destroy"), bound=2, bound_thorough=3))
    return out


def run(ctx):
    th = ctx.thorough
    wheres = ["sub", "local", "main-stateless", "local-stateless"]
    single = [(wh, s, n, th) for n in range(4 if th else 3, -1, -1) for wh in wheres for s in STYLES]
    if not th:
        single = [(wh, s, 3, False) for wh, s in zip(wheres + wheres, STYLES)] + [x for x in single if x[2] < 3]
    ctx.enumerate(
        {
            "single": (single, case_single),
            "disposal": ([(wh, s) for wh in wheres for s in STYLES], case_disposal),
            "dropping": ([(s, h) for s in STYLES for h in ("direct", "copied", "loop", "returned")], case_dropping),
            "two": ([(wh, s) for wh in wheres for s in STYLES], case_two),
            "passing": ([(wh, s) for wh in wheres for s in STYLES], case_passing),
            "values": (wheres, case_values),
        }
    )
    ctx.explore(scenarios())
