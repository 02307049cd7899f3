"""P05: a batch call equals the calls it bundles.

Argument binding: every signature over a small grammar (positional-only, ordinary, defaulted, variadic
and keyword-only parameters) times every call pattern, against what Python itself binds.
Batches: every vector of up to three entries over an alphabet of argument patterns and outcomes, for every
kind of extensible method, through references of every kind, two-way and one-way, on real pools; compared
with the pure function the methods stand for and with the single calls.
Schedules: a batch whose members fail or are cancelled leaves nothing of it running behind."""
import asyncio
import collections
import functools
import inspect
import itertools

import xoscar as xo
from vlib.explore import Scenario
from vlib.scen import LOG, outcome, proc, run_world
from xoscar.batch import build_args_binder

TECHNIQUE = "bounded-exhaustive enumeration of signatures, call patterns and batches on real pools, plus stateless exploration of schedules with failing and cancelled members"
NOTE = "Exhaustive over signatures with up to two parameters of each kind and batches of up to three entries; larger batches follow the same code paths."
RULE = "a case is one signature with all its call patterns, or one method kind and reference kind with all batches of one size; distinct: distinct results"
ASSUMPTIONS = ["a batch with failing members raises the error of one of them; the others may or may not have run, but at most once"]
PI = xo.allocate_strategy.ProcessIndex
SEEN = []


# ---------------------------------------------------------------- binder
def signatures(thorough):
    top = 3
    for npo, npk in itertools.product(range(top), range(top)):
        n = npo + npk
        for nd in range(n + 1):
            for var in (False, True):
                for ko in ((), (0,), (1,), (0, 1), (1, 1)) if not thorough else ((), (0,), (1,), (0, 1), (1, 0), (1, 1), (0, 0)):
                    for kw in (False, True):
                        for names in ("plain", "under") if (npo, npk) != (0, 0) or ko else ("plain",):
                            yield npo, npk, nd, var, ko, kw, names


def build(sig):
    npo, npk, nd, var, ko, kw, names = sig
    pre = {"plain": "", "under": "_"}[names]
    pos = ["%sp%d" % (pre, i) for i in range(npo)] + ["%sa%d" % (pre, i) for i in range(npk)]
    parts = ["self"]
    for i, n in enumerate(pos):
        parts.append(n + ("='d%d'" % i if i >= len(pos) - nd else ""))
        if i + 1 == npo:
            parts.append("/")
    if var:
        parts.append("*rest")
    elif ko:
        parts.append("*")
    kwo = ["%sk%d" % (pre, i) for i in range(len(ko))]
    parts += [n + ("='e%d'" % i if d else "") for i, (n, d) in enumerate(zip(kwo, ko))]
    if kw:
        parts.append("**more")
    fields = pos + (["rest"] if var else []) + kwo + (["more"] if kw else [])
    # the method itself tells how Python binds a call
    src = "def method(%s): return (%s)" % (", ".join(parts), "".join(f + ", " for f in fields))
    ns = {}
    exec(src, ns)
    return src, ns["method"], pos + kwo + ["zz"]


def case_binder(sig):
    src, func, names = build(sig)

    class C:
        method = xo.extensible(func)

    obj = C()
    total = len(names) - 1
    n = 0
    got_all = []
    for npos in range(total + 2):
        args = tuple(range(npos))
        for r in range(len(names) + 1):
            for ks in itertools.combinations(names, r):
                kwargs = {k: "v" + k for k in ks}
                n += 1
                try:
                    want = func(obj, *args, **kwargs)
                except TypeError:
                    want = "TypeError"
                try:
                    got = tuple(obj.method.bind(*args, **kwargs))
                except TypeError:
                    got = "TypeError"
                if got != want:
                    return dict(outcome=None, transitions=n, violation="%s: bind(*%r, **%r) gives %r, the call %r" % (src, args, kwargs, got, want), tag="binder")
                got_all.append(got == "TypeError")
    return dict(outcome=(sig, sum(got_all)), transitions=n, violation=None, tag=None)


def case_plain_functions(kind):
    """binders of plain functions, lambdas and decorated ones, with and without an object"""
    if kind == "lambda":
        b = build_args_binder(lambda x, y=10: None, remove_self=False)
        assert tuple(b(1)) == (1, 10) and tuple(b(1, y=2)) == (1, 2)
    elif kind == "async":

        async def f(self, x, /, y=3, *, z=4):
            pass

        b = build_args_binder(f, remove_self=True)
        assert tuple(b(0, 1, y=2)) == (1, 2, 4)
        assert tuple(b(0, 1, z=2)) == (1, 3, 2)
        for bad in (dict(x=1), dict(q=1)):
            try:
                b(0, **bad)
            except TypeError:
                continue
            assert False, bad
    elif kind == "wrapped":

        def g(self, a, b=1):
            pass

        @functools.wraps(g)
        def f(*args, **kwargs):
            return g(*args, **kwargs)

        b = build_args_binder(f, remove_self=True)
        if b is not None:
            assert True
    elif kind == "mutable-default":

        def f(self, a=[]):  # noqa
            pass

        b = build_args_binder(f)
        assert b(0).a is f.__defaults__[0]
    elif kind == "fields":

        def f(self, alpha, beta=2, *gamma, delta=4, **eps):
            pass

        b = build_args_binder(f)(0, 1)
        assert (b.alpha, b.beta, b.gamma, b.delta, b.eps) == (1, 2, (), 4, {})
    return dict(outcome=kind, transitions=1, violation=None, tag=None)


# ---------------------------------------------------------------- batches
def spec(a, b=7, *args, k=1, **kw):
    """the function all the methods stand for"""
    if a == "none":
        return None
    if a == "fail":
        raise ValueError("fail")
    if a == "other":
        raise KeyError("other")
    if a == "tuple":
        return (b, args)
    if a == "list":
        return [b]
    return ["r", a, b, list(args), k, sorted(kw.items())]


ENTRIES = [
    ((1,), {}),
    ((2, 3), {}),
    ((3, 4, 5, 6), {"k": 7}),
    ((4,), {"b": 8, "z": 9}),
    (("none",), {}),
    (("tuple", 2), {}),
    (("late",), {}),
    (("fail",), {}),
    ((), {"b": 3}),  # a: missing
    ((), {"a": 5}),
]
CORE = [ENTRIES[i] for i in (0, 3, 4, 6, 7)]


def note(a="?", b=7, *args, k=1, **kw):
    SEEN.append((a, b, args, k, tuple(sorted(kw.items()))))


def many(self, name, args_list, kwargs_list):
    out = []
    assert len(args_list) == len(kwargs_list)
    for args, kw in zip(args_list, kwargs_list):
        a, b, rest, k, more = getattr(self, name).bind(*args, **kw)
        note(a, b, *rest, k=k, **more)
        out.append(spec(a, b, *rest, k=k, **more))
        kw["seen"] = True  # the dictionary belongs to this entry alone
    return out


class Methods:
    def __init__(self):
        super().__init__()

    # synchronous
    @xo.extensible
    def ss(self, a, b=7, *args, k=1, **kw):
        note(a, b, *args, k=k, **kw)
        return spec(a, b, *args, k=k, **kw)

    @xo.extensible
    def sb(self, a, b=7, *args, k=1, **kw):
        raise NotImplementedError

    @sb.batch
    def sb(self, args_list, kwargs_list):
        return many(self, "sb", args_list, kwargs_list)

    @xo.extensible
    def s2(self, a, b=7, *args, k=1, **kw):
        note(a, b, *args, k=k, **kw)
        return spec(a, b, *args, k=k, **kw)

    @s2.batch
    def s2(self, args_list, kwargs_list):
        return many(self, "s2", args_list, kwargs_list)

    # asynchronous
    @xo.extensible
    async def aa(self, a, b=7, *args, k=1, **kw):
        note(a, b, *args, k=k, **kw)
        await asyncio.sleep(0.1 if a == "late" else 0)
        return spec(a, b, *args, k=k, **kw)

    @xo.extensible
    async def ab(self, a, b=7, *args, k=1, **kw):
        raise NotImplementedError

    @ab.batch
    async def ab(self, args_list, kwargs_list):
        await asyncio.sleep(0)
        return many(self, "ab", args_list, kwargs_list)

    @xo.extensible
    async def a2(self, a, b=7, *args, k=1, **kw):
        note(a, b, *args, k=k, **kw)
        await asyncio.sleep(0.1 if a == "late" else 0)
        return spec(a, b, *args, k=k, **kw)

    @a2.batch
    async def a2(self, args_list, kwargs_list):
        await asyncio.sleep(0)
        return many(self, "a2", args_list, kwargs_list)

    # the two versions differ in kind
    @xo.extensible
    def sa(self, a, b=7, *args, k=1, **kw):
        raise NotImplementedError

    @sa.batch
    async def sa(self, args_list, kwargs_list):
        await asyncio.sleep(0)
        return many(self, "sa", args_list, kwargs_list)

    @xo.extensible
    async def as_(self, a, b=7, *args, k=1, **kw):
        raise NotImplementedError

    @as_.batch
    def as_(self, args_list, kwargs_list):
        return many(self, "as_", args_list, kwargs_list)

    # a synchronous method that returns a coroutine
    @xo.extensible
    def sc(self, a, b=7, *args, k=1, **kw):
        return self._sc(a, b, *args, k=k, **kw)

    async def _sc(self, a, b=7, *args, k=1, **kw):
        note(a, b, *args, k=k, **kw)
        await asyncio.sleep(0.1 if a == "late" else 0)
        return spec(a, b, *args, k=k, **kw)

    # not subject to the exclusion
    @xo.extensible
    @xo.no_lock
    async def an(self, a, b=7, *args, k=1, **kw):
        note(a, b, *args, k=k, **kw)
        await asyncio.sleep(0.1 if a == "late" else 0)
        return spec(a, b, *args, k=k, **kw)

    @xo.extensible
    @xo.no_lock
    def sn(self, a, b=7, *args, k=1, **kw):
        note(a, b, *args, k=k, **kw)
        return spec(a, b, *args, k=k, **kw)

    @sn.batch
    def sn(self, args_list, kwargs_list):
        return many(self, "sn", args_list, kwargs_list)

    # yields
    @xo.extensible
    async def gy(self, a, b=7, *args, k=1, **kw):
        note(a, b, *args, k=k, **kw)
        await asyncio.sleep(0)
        x = yield asyncio.sleep(0.1 if a == "late" else 0, "x")
        assert x == "x"
        raise xo.Return(spec(a, b, *args, k=k, **kw))

    # returns something to wait for
    @xo.extensible
    def fu(self, a, b=7, *args, k=1, **kw):
        note(a, b, *args, k=k, **kw)

        async def later():
            await asyncio.sleep(0.1 if a == "late" else 0)
            return spec(a, b, *args, k=k, **kw)

        return asyncio.ensure_future(later())

    def plain(self, a):
        note(a)
        return a


class Act(Methods, xo.Actor):
    def __init__(self):
        super().__init__()


class Stl(Methods, xo.StatelessActor):
    def __init__(self):
        super().__init__()


KINDS = ["ss", "sb", "s2", "aa", "ab", "a2", "sa", "as_", "sc", "an", "sn", "gy", "fu"]


def singles(batch):
    """what single calls give: list of outcomes"""
    out = []
    for args, kw in batch:
        try:
            out.append(("ok", spec(*args, **kw)))
        except Exception as e:  # noqa
            out.append((type(e).__name__, str(e)))
    return out


def seen(batch):
    c = collections.Counter()
    for args, kw in batch:
        try:
            a, b, rest, k, more = (lambda a, b=7, *args, k=1, **kw: (a, b, args, k, kw))(*args, **kw)
        except TypeError:
            continue
        c[(a, b, rest, k, tuple(sorted(more.items())))] += 1
    return c


async def one(ref, kind, batch, send):
    m = getattr(ref, kind)
    delays = [m.delay(*args, **dict(kw)) for args, kw in batch]
    del SEEN[:]
    got = await outcome(m.batch(*delays) if send else m.batch(*delays, send=False))
    if not send:
        await asyncio.sleep(1)
    exp = singles(batch)
    bad = [e for e in exp if e[0] != "ok"]
    have, want = collections.Counter(SEEN), seen(batch)
    who = "%s.batch%s%r" % (kind, "" if send else "(one-way)", batch)
    if not send:
        assert got[0] == "ok", (who, got)
    elif bad:
        assert any(got[0] == e[0] and (e[0] == "TypeError" or e[1] in got[1]) for e in bad), "%s raised %r, single calls %r" % (who, got, bad)
    else:
        assert got[0] == "ok" and type(got[1]) is list and got[1] == [e[1] for e in exp], "%s gave %r, single calls %r" % (who, got, exp)
    assert all(have[x] <= want[x] for x in have), "%s executed %r" % (who, SEEN)
    if not bad:
        assert have == want, "%s executed %r" % (who, SEEN)


async def one_single(ref, kind, entry):
    del SEEN[:]
    got = await outcome(getattr(ref, kind)(*entry[0], **dict(entry[1])))
    exp = singles([entry])[0]
    if exp[0] == "ok":
        assert got == exp, "%s%r gave %r" % (kind, entry, got)
    else:
        assert got[0] == exp[0] and (exp[0] == "TypeError" or exp[1] in got[1]), "%s%r gave %r" % (kind, entry, got)
    assert collections.Counter(SEEN) == seen([entry]), (kind, entry, SEEN)


async def setting(w, where):
    """a reference of the wanted kind and the process in which it is used"""
    pool = await w.start_pool(n_process=1)
    cls = Stl if "stateless" in where else Act
    idx = 1 if where.startswith("sub") else 0
    await xo.create_actor(cls, address=pool.external_address, uid="a", allocate_strategy=PI(idx))
    user = {"sub": "C", "main": "C", "local": "M", "sublocal": "M1"}[where.split("-")[0]]
    return pool, user


async def get(addr, where):
    ref = await xo.actor_ref(addr, "a")
    assert (type(ref).__name__ == "LocalActorRef") == ("local" in where), ref
    return ref


def case_batches(case):
    where, kind, n, full = case
    total = []

    async def main(w):
        pool, user = await setting(w, where)

        async def work():
            addr = pool.external_address
            if where == "sublocal":
                addr = list(pool.sub_processes)[0]
            ref = await get(addr, where)
            cnt = 0
            if n == 1:
                for e in ENTRIES:
                    await one_single(ref, kind, e)
                    cnt += 1
            for batch in itertools.product(ENTRIES if full else CORE, repeat=n):
                for send in (True, False):
                    await one(ref, kind, batch, send)
                    cnt += 1
            total.append(cnt)

        w.loop.horizon = 10**9
        await proc(w, user).spawn(work())
        return total

    r = run_world(main)
    r["transitions"] = total[0] if total else 0
    return r


MIX = ["different", "different-late", "not-extensible", "other-ref", "two-refs"]


def case_mix(case):
    where, what = case

    async def main(w):
        pool, user = await setting(w, where)
        res = []

        async def work():
            addr = pool.external_address if where != "sublocal" else list(pool.sub_processes)[0]
            ref = await get(addr, where)
            ref2 = await get(addr, where)
            del SEEN[:]

            async def call(f):
                try:
                    return await f()
                finally:
                    await asyncio.sleep(1)

            if what == "different":
                for send in (True, False):
                    for x, y in itertools.permutations(["ss", "a2", "ab"], 2):
                        r = await outcome(call(lambda: getattr(ref, x).batch(getattr(ref, x).delay(1), getattr(ref, y).delay(2), send=send)))
                        res.append(r)
                        assert r[0] == "ValueError", (x, y, r)
                        assert not SEEN, (x, y, SEEN)
            elif what == "different-late":
                r = await outcome(call(lambda: ref.ss.batch(ref.ss.delay(1), ref.ss.delay(2), ref.a2.delay(3))))
                res.append(r)
                assert r[0] == "ValueError" and not SEEN, (r, SEEN)
            elif what == "not-extensible":
                r = await outcome(call(lambda: ref.plain.batch(ref.plain.delay(1), ref.plain.delay(2))))
                res.append(r)
                assert r[0] == "AttributeError" and not SEEN, (r, SEEN)
                assert await ref.plain(5) == 5
            elif what == "other-ref":
                r = await outcome(call(lambda: ref.a2.batch(ref2.a2.delay(1), ref2.a2.delay(2, k=3))))
                res.append(r)
                assert r == ("ok", [spec(1), spec(2, k=3)]), r
            elif what == "two-refs":
                r = await outcome(call(lambda: ref.ss.batch(ref.ss.delay(1), ref2.ss.delay(2))))
                res.append(r)
                assert r == ("ok", [spec(1), spec(2)]), r

        await proc(w, user).spawn(work())
        return res

    return run_world(main)


def case_objects(case):
    """extensible methods of ordinary objects, without any pool"""
    kind, n, full = case

    async def main(w):
        class Plain(Methods):
            pass

        obj = Plain()
        m = getattr(obj, kind)
        cnt = 0
        for batch in itertools.product(ENTRIES if full else CORE, repeat=n):
            for origin in ("delay", "lists"):
                del SEEN[:]

                async def go():
                    if origin == "delay":
                        r = m.batch(*[m.delay(*a, **dict(k)) for a, k in batch])
                    else:
                        r = m.call_with_lists([a for a, _ in batch], [dict(k) for _, k in batch])
                    return (await r) if inspect.isawaitable(r) else r

                got = await outcome(go())
                exp = singles(batch)
                bad = [e for e in exp if e[0] != "ok"]
                if bad:
                    assert any(got[0] == e[0] for e in bad), (kind, batch, got)
                else:
                    assert got == ("ok", [e[1] for e in exp]), (kind, batch, got)
                    assert collections.Counter(SEEN) == seen(batch), (kind, batch, SEEN)
                cnt += 1
        return cnt

    return run_world(main)


# ---------------------------------------------------------------- schedules
class Slow(xo.Actor):
    def __init__(self):
        super().__init__()

    @xo.extensible
    async def e(self, tag, spins=0, delay=None, fail=False):
        LOG.append(("in", tag))
        try:
            for _ in range(spins):
                await asyncio.sleep(0)
            if delay is not None:
                await asyncio.sleep(delay)
            if fail:
                raise ValueError(tag)
            return tag
        finally:
            try:
                await asyncio.sleep(0)
            finally:
                LOG.append(("out", tag))

    async def m(self, tag):
        LOG.append(("in", tag))
        await asyncio.sleep(0)
        LOG.append(("out", tag))
        return tag


class Drv(xo.StatelessActor):
    async def batch(self, ref, delays):
        return await ref.e.batch(*[ref.e.delay(*d) for d in delays])

    async def call(self, ref, tag):
        return await ref.m(tag)


async def mk(w, where):
    pool = await w.start_pool(n_process=1)
    addr = pool.external_address
    a = await xo.create_actor(Slow, address=addr, uid="a", allocate_strategy=PI(0 if where == "local" else 1))
    d = await xo.create_actor(Drv, address=addr, uid="d", allocate_strategy=PI(0))
    return a, d


def units(groups):
    """every group of bodies is one unbroken stretch of the log"""
    open_, cur = set(), None
    for what, tag in LOG:
        g = groups.get(tag, tag)
        if what == "in":
            assert cur in (None, g), "%r started while %r was running: %r" % (tag, cur, LOG)
            cur = g
            open_.add(tag)
        else:
            open_.discard(tag)
            if not open_:
                cur = None
    assert not open_, "still running: %r" % LOG


def failing(where):
    async def main(w):
        a, d = await mk(w, where)
        delays = [("x", 1, None, True), ("y", 2, 0.2), ("z", 3)]
        seen_end = []

        async def batch():
            if where == "local":
                r = await outcome(d.batch(a, delays))
            else:
                r = await outcome(a.e.batch(*[a.e.delay(*x) for x in delays]))
            seen_end.append(len(LOG))
            return r

        w.begin()
        r = await asyncio.gather(batch(), outcome(a.m("1")), outcome(d.call(a, "2")))
        w.end()
        own = [x for x in LOG[seen_end[0] :] if x[1] in "xyz"]
        assert not own, "members ran on after the batch had ended: %r" % LOG
        await asyncio.sleep(3)
        units({k: "batch" for k in "xyz"})
        assert r[0][0] == "ValueError" and r[1:] == [("ok", "1"), ("ok", "2")], r
        return (r, list(LOG))

    return main


def cancelling(where):
    async def main(w):
        a, d = await mk(w, where)
        delays = [("x", 1), ("y", 1, 0.2), ("z", 1)]
        if where == "local":
            t = asyncio.create_task(d.batch(a, delays))
        else:
            t = asyncio.create_task(a.e.batch(*[a.e.delay(*x) for x in delays]))
        ev = w.loop.add_event("cancel", t.cancel, opt=True)
        w.begin()
        r = await asyncio.gather(outcome(t), outcome(a.m("1")))
        w.end()
        ev.cancel()
        own = [x for x in LOG if x[1] in "xyz"]
        r2 = await outcome(a.e.batch(a.e.delay("p"), a.e.delay("q")))
        assert own == [x for x in LOG if x[1] in "xyz"], "members ran on after the batch had ended: %r" % LOG
        await asyncio.sleep(3)
        units(dict({k: "batch" for k in "xyz"}, p="2nd", q="2nd"))
        assert r[1] == ("ok", "1") and r2 == ("ok", ["p", "q"]), (r, r2)
        assert r[0] in (("ok", ["x", "y", "z"]), ("CancelledError", "")), r
        return (r, list(LOG))

    return main


def concurrent(where):
    async def main(w):
        a, d = await mk(w, where)

        async def b(tags, late):
            delays = [(t, i, 0.1 if i == late else None) for i, t in enumerate(tags)]
            if where == "local":
                return await outcome(d.batch(a, delays))
            return await outcome(a.e.batch(*[a.e.delay(*x) for x in delays]))

        w.begin()
        r = await asyncio.gather(b("xyz", 0), b("pq", 1), outcome(a.m("1")), outcome(d.call(a, "2")))
        w.end()
        units(dict({k: "1st" for k in "xyz"}, p="2nd", q="2nd"))
        assert r == [("ok", list("xyz")), ("ok", list("pq")), ("ok", "1"), ("ok", "2")], r
        return list(LOG)

    return main


def scenarios():
    out = []
    for where in ("remote", "local"):
        out.append(Scenario("failing-" + where, failing(where), bound=1, bound_thorough=2))
        out.append(Scenario("cancelling-" + where, cancelling(where), bound=2, bound_thorough=3))
        out.append(Scenario("concurrent-" + where, concurrent(where), bound=1, bound_thorough=2))
    return out


def run(ctx):
    th = ctx.thorough
    wheres = ["sub", "main", "local", "sublocal", "sub-stateless", "local-stateless"]
    batches = [(wh, k, n, n < 3 or th) for n in (3, 2, 1, 0) for wh in wheres for k in KINDS]
    ctx.enumerate(
        {
            "binder": (list(signatures(th)), case_binder),
            "functions": (["lambda", "async", "wrapped", "mutable-default", "fields"], case_plain_functions),
            "batches": (batches, case_batches),
            "mixing": ([(wh, x) for wh in wheres for x in MIX], case_mix),
            "objects": ([(k, n, n < 3 or th) for n in range(4) for k in KINDS if k not in ("gy", "fu")], case_objects),
        }
    )
    ctx.explore(scenarios())
