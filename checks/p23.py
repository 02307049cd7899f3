"""P23: the asynchronous LRU cache agrees with a sequential LRU model.

Three parts: (seq) all sequences of calls over a key domain, one after the other, against
functools.lru_cache; (ops) all sequences of calls, completions, failures, cancellations,
invalidations, clears, closes and re-opens against an explicit model, compared after every
operation; (races) interleavings of overlapping calls with completions, cancellations and
invalidations under the controlled event loop, judged by the guarantees alone."""
import asyncio
import functools
import itertools
from collections import OrderedDict

from vlib.explore import Scenario
from vlib.scen import LOG, fault, outcome
from xoscar.aio import alru_cache

TECHNIQUE = "bounded-exhaustive enumeration of operation histories against an explicit LRU model, and deviation-bounded exhaustive schedule exploration, on the real cache"
NOTE = "Exhaustive over all histories up to the stated length for every configuration listed; one event loop, one thread."
RULE = "every history of the listed operations up to the length bound, per configuration; schedules up to the deviation bound"

_LOOP = None


def arun(coro):
    global _LOOP
    if _LOOP is None:
        _LOOP = asyncio.new_event_loop()
        _LOOP.set_exception_handler(lambda loop, context: None)
    return _LOOP.run_until_complete(coro)


# ------------------------------------------------- sequential use, against functools.lru_cache
ARGS = [
    ((1,), {}),
    ((1.0,), {}),
    ((True,), {}),
    ((2,), {}),
    (("1",), {}),
    ((), {"a": 1}),
    ((1, 2), {}),
    ((1,), {"b": 2}),
    ((), {}),
    (((1, 2),), {}),
    ((-1,), {}),
    ((-2,), {}),
    ((), {"a": 1, "b": 2}),
    ((), {"b": 2, "a": 1}),
    ((None,), {}),
]


class Fail(Exception):
    def __init__(self, v):
        super().__init__(v)
        self.v = v


def fn_seq(case):
    maxsize, typed, seq, how = case
    ns, na = [], []

    def s(*a, **k):
        ns.append((a, tuple(k.items())))
        return (len(ns), a, tuple(sorted(k.items())))

    async def f(*a, **k):
        na.append((a, tuple(k.items())))
        if how == "slow":
            await asyncio.sleep(0)
        return (len(na), a, tuple(sorted(k.items())))

    cs = functools.lru_cache(maxsize=maxsize, typed=typed)(s)
    if how == "partial":
        ca = alru_cache(functools.partial(f), maxsize=maxsize, typed=typed)
    else:
        ca = alru_cache(maxsize=maxsize, typed=typed)(f)

    async def go():
        for i in seq:
            a, k = ARGS[i]
            x, y = cs(*a, **k), await ca(*a, **k)
            assert repr(x) == repr(y), "call %r returned %r, the model %r" % (ARGS[i], y, x)
            assert tuple(cs.cache_info()) == tuple(ca.cache_info()), (tuple(cs.cache_info()), tuple(ca.cache_info()))
            assert ns == na
        return tuple(ca.cache_info())

    return {"outcome": arun(go()), "transitions": len(seq)}


class Obj:
    def __init__(self, n):
        self.n = n
        self.calls = []

    @alru_cache(maxsize=2)
    async def m(self, k):
        self.calls.append(k)
        return (self.n, k, len(self.calls))


def fn_method(seq):
    """one cache per function: the instance is part of the key"""
    Obj.m.cache_clear()
    a, b = Obj(0), Obj(1)
    model, made = OrderedDict(), {0: 0, 1: 0}

    async def go():
        for o, k in seq:
            x = await (a, b)[o].m(k)
            if (o, k) in model:
                model.move_to_end((o, k))
            else:
                made[o] += 1
                model[o, k] = (o, k, made[o])
                if len(model) > 2:
                    model.popitem(last=False)
            assert x == model[o, k], (x, model)

    arun(go())
    return {"outcome": tuple(made.values()), "transitions": len(seq)}


# ------------------------------------------------- histories, against an explicit model
class Comp:
    """a computation, in the model"""

    def __init__(self, n, key):
        self.n, self.key, self.status = n, key, None

    def result(self):
        return ("ok", (self.key, self.n)) if self.status == "ok" else ("Fail", str((self.key, self.n))) if self.status == "err" else ("CancelledError", "")


class Model:
    def __init__(self, maxsize, keep):
        self.maxsize, self.keep = maxsize, keep
        self.cache, self.tasks = OrderedDict(), []
        self.hits = self.misses = 0
        self.closed = False
        self.comps, self.waiters = [], []  # waiters: Comp or final outcome
        self.closers = []  # list of tracked comps or None when done

    def running(self):
        return [c for c in self.comps if c.status is None]

    def waiting(self):
        return [i for i, w in enumerate(self.waiters) if isinstance(w, Comp)]

    def ops(self, keys):
        """enabled operations"""
        for k in range(keys):
            yield ("call", k)
            yield ("inval", k)
        for c in self.running():
            for how in ("ok", "err", "cancel"):
                yield ("end", c.n, how)
        for i in self.waiting():
            yield ("drop", i)
        yield ("clear",)
        yield ("close", False)
        yield ("close", True)
        yield ("open",)

    def end(self, c, how):
        c.status = how
        if c in self.tasks:
            self.tasks.remove(c)
        for i, w in enumerate(self.waiters):
            if w is c:
                self.waiters[i] = c.result()

    def settle(self):
        for n, tracked in enumerate(self.closers):
            if tracked is not None and all(c.status for c in tracked):
                self.closers[n] = None
                self.clear()

    def clear(self):
        self.cache, self.tasks = OrderedDict(), []
        self.hits = self.misses = 0

    def apply(self, op):
        """the operation's own observable result"""
        what, res = op[0], None
        if what == "call":
            k = op[1]
            if self.closed:
                self.waiters.append(("RuntimeError", None))
                return None
            c = self.cache.get(k)
            if c is not None and (c.status in (None, "ok") or c.status == "err" and self.keep):
                self.hits += 1
                self.cache.move_to_end(k)
            else:
                self.cache.pop(k, None)
                c = Comp(len(self.comps), k)
                self.comps.append(c)
                self.tasks.append(c)
                self.cache[k] = c
                if self.maxsize is not None and len(self.cache) > self.maxsize:
                    self.cache.popitem(last=False)
                self.misses += 1
            self.waiters.append(c if c.status is None else c.result())
        elif what == "inval":
            res = self.cache.pop(op[1], None) is not None
        elif what == "end":
            self.end(self.comps[op[1]], op[2])
        elif what == "drop":
            self.waiters[op[1]] = ("CancelledError", "")
        elif what == "clear":
            self.clear()
        elif what == "close":
            if self.closed:
                return "refused"
            self.closed = True
            self.closers.append(list(self.tasks))
            if op[1]:
                for c in list(self.tasks):
                    self.end(c, "cancel")
        elif what == "open":
            if not self.closed or self.hits or self.misses or self.tasks or self.cache:
                return "refused"
            self.closed = False
        self.settle()
        return res

    def view(self):
        return (
            tuple(w if isinstance(w, tuple) else "waiting" for w in self.waiters),
            (self.hits, self.misses, self.maxsize, len(self.cache)),
            tuple((c.key, c.status is None) for c in self.comps),
            tuple(t is None for t in self.closers),
        )


def key(k):
    return ((k,), {}) if k != 1 else ((), {"kw": 1})


async def tidy(n=6):
    for _ in range(n):
        await asyncio.sleep(0)


async def replay_ops(maxsize, keep, ops):
    m = Model(maxsize, keep)
    running = []  # [key, future, alive]
    loop = asyncio.get_running_loop()

    @alru_cache(maxsize=maxsize, cache_exceptions=keep)
    async def f(*a, **kw):
        k = a[0] if a else kw["kw"]
        me = [k, loop.create_future(), True]
        n = len(running)
        running.append(me)
        try:
            how = await me[1]
            if how == "err":
                raise Fail((k, n))
            if how == "cancel":
                raise asyncio.CancelledError
            return (k, n)
        finally:
            me[2] = False

    waiters, closers = [], []

    async def ask(k):
        a, kw = key(k)
        o = await outcome(f(*a, **kw))
        return o if o[0] != "RuntimeError" else ("RuntimeError", None)

    for i, op in enumerate(ops):
        what, res = op[0], None
        if what == "call":
            waiters.append(loop.create_task(ask(op[1])))
        elif what == "inval":
            a, kw = key(op[1])
            res = f.invalidate(*a, **kw)
        elif what == "end":
            running[op[1]][1].set_result(op[2])
        elif what == "drop":
            waiters[op[1]].cancel()
        elif what == "clear":
            f.cache_clear()
        else:
            try:
                if what == "close":
                    closers.append(loop.create_task(f.close(cancel=op[1])))
                else:
                    f.open()
            except RuntimeError:
                res = "refused"
        await tidy()
        want = m.apply(op)
        have = (
            tuple(t.result() if t.done() else "waiting" for t in waiters),
            tuple(f.cache_info()),
            tuple((r[0], r[2]) for r in running),
            tuple(t.done() for t in closers),
        )
        assert res == want, "step %d %r: returned %r instead of %r" % (i, op, res, want)
        if have != m.view():
            raise AssertionError("after step %d %r: %r, the model says %r" % (i, op, have, m.view()))
    for r in running:
        if not r[1].done():
            r[1].set_result("ok")
    await tidy(8)
    for t in waiters:
        assert t.done(), "a caller is left waiting"
    for t in closers:
        t.done() and t.exception()
    return repr(m.view())


def fn_ops(case):
    maxsize, keep, keys, depth, few, prefix = case
    n, out = 0, set()
    for ops in expand(maxsize, keep, keys, depth, few, prefix):
        n += len(ops)
        try:
            out.add(arun(replay_ops(maxsize, keep, ops)))
        except AssertionError as e:
            return {"outcome": "bad", "transitions": n, "violation": "maxsize=%r cache_exceptions=%r %r: %s" % (maxsize, keep, ops, e), "tag": "ops"}
    return {"outcome": sorted(out)[:1], "transitions": n}


def expand(maxsize, keep, keys, depth, few, prefix):
    def rec(p):
        if len(p) == depth:
            yield p
            return
        m = Model(maxsize, keep)
        for op in p:
            m.apply(op)
        top = max([op[1] for op in p if op[0] in ("call", "inval")], default=-1)
        for op in m.ops(keys):
            if op[0] in ("call", "inval") and op[1] > top + 1 or op[0] in few:
                continue
            yield from rec(p + (op,))

    return rec(tuple(prefix))


# ------------------------------------------------- interleavings
def race(maxsize, keep, keys, extra):
    async def main(w):
        loop = asyncio.get_running_loop()
        made, fut = [], []

        @alru_cache(maxsize=maxsize, cache_exceptions=keep)
        async def f(k):
            n = len(made)
            made.append(k)
            me = loop.create_future()
            w.loop.add_event("end%d" % n, lambda: me.done() or me.set_result(None), ready=None)
            LOG.append(("begin", k, n))
            await me
            LOG.append(("end", k, n))
            if extra == "fail" and n == 0:
                raise Fail((k, n))
            return (k, n)

        async def ask(k, i):
            if i:
                gate = loop.create_future()
                w.loop.add_event("go%d" % i, lambda: gate.done() or gate.set_result(None))
                await gate
            began = len(made)
            o = await outcome(f(k))
            return o, began

        w.begin()
        ts = [asyncio.create_task(ask(k, i)) for i, k in enumerate(keys)]
        if extra == "cancel":
            fault(w, "cancel", ts[0].cancel)
        elif extra == "cancel1":
            fault(w, "cancel", ts[1].cancel)
        elif extra == "inval":
            fault(w, "inval", lambda: f.invalidate(keys[0]))
        elif extra == "clear":
            fault(w, "clear", f.cache_clear)
        res = await asyncio.gather(*ts, return_exceptions=True)
        w.end()
        info = f.cache_info()
        dropped = {"cancel": 0, "cancel1": 1}.get(extra)
        hit = getattr(w, "hit", None)
        for i, r in enumerate(res):
            if i == dropped and hit:
                continue  # may have been dropped
            assert not isinstance(r, BaseException), ("caller %d" % i, r)
            (o, began) = r
            if o[0] == "ok":
                assert o[1][0] == keys[i], "key %r answered with %r" % (keys[i], o)
                assert made[o[1][1]] == keys[i]
            else:
                assert o[0] == "Fail" and extra == "fail" and keys[i] == keys[0], o
        # one computation per key unless it was dropped from the cache, failed or pushed out
        per = {k: made.count(k) for k in set(keys)}
        if maxsize is None or maxsize >= len(set(keys)):
            for k, n in per.items():
                again = (hit in ("inval", "clear") and (k == keys[0] or hit == "clear")) or (extra == "fail" and k == keys[0] and not keep)
                assert n <= (2 if again else 1), "%d computations for %r" % (n, k)
        if not (hit == "clear"):
            unstarted = 1 if hit == "cancel" else 0
            assert len(keys) - unstarted <= info.hits + info.misses <= len(keys), info
            assert info.misses == len(made), (info, made)
        if maxsize is not None:
            assert info.currsize <= maxsize
        # what is kept afterwards is right
        for k in dict.fromkeys(keys):
            o = await outcome(f(k))
            assert o[0] == "Fail" and extra == "fail" and keep or o[0] == "ok" and o[1][0] == k, o
        return [r if isinstance(r, tuple) else type(r).__name__ for r in res], tuple(info)

    return main


def scenarios():
    out = []
    for maxsize in (None, 1, 0):
        for keep in (True, False):
            for keys in ((0, 0, 0), (0, 1, 0), (0, 1, 0, 1)):
                for extra in ("", "cancel", "cancel1", "inval", "clear", "fail"):
                    if keep and extra not in ("", "fail") and maxsize != 1:
                        continue
                    out.append(Scenario("race-%s-%s-%s-%s" % (maxsize, "keep" if keep else "retry", "".join(map(str, keys)), extra or "plain"), race(maxsize, keep, keys, extra), bound=2, bound_thorough=4))
    return out


def run(ctx):
    th = ctx.thorough
    seq = []
    for maxsize in (None, 0, 1, 2, 3):
        for typed in (False, True):
            for n in (1, 2, 3):
                for s in itertools.product(range(len(ARGS)), repeat=n):
                    seq.append((maxsize, typed, s, "plain"))
            for s in itertools.product((0, 3, 5, 6), repeat=6 if th else 5):
                seq.append((maxsize, typed, s, "slow"))
            for s in itertools.product((0, 1, 3), repeat=3):
                seq.append((maxsize, typed, s, "partial"))
    meth = list(itertools.product(itertools.product((0, 1), (0, 1)), repeat=5))
    ops = []
    depth = 6 if th else 5
    for maxsize in (None, 2, 1, 0):
        for keep in (True, False):
            for p in expand(maxsize, keep, 3, 2, (), ()):
                ops.append((maxsize, keep, 3, depth, (), p))
            # deeper, without closing
            for p in expand(maxsize, keep, 3, 3, ("close", "open", "clear"), ()) if th or (maxsize, keep) in ((1, False), (2, True)) else ():
                ops.append((maxsize, keep, 3, depth + 1, ("close", "open", "clear"), p))
    # longest: calls and completions only
    for maxsize in (2, 1):
        for p in expand(maxsize, True, 3, 3, ("close", "open", "clear", "inval", "drop"), ()):
            ops.append((maxsize, True, 3, depth + 2, ("close", "open", "clear", "inval", "drop"), p))
    ctx.enumerate({"seq": (seq, fn_seq), "method": (meth, fn_method), "ops": (ops, fn_ops)}, budget=ctx.pick(200, 2500))
    ctx.explore(scenarios())
