"""P25: debug mode observes without changing behaviour and finds call cycles.

trees: all call trees of up to four calls over three actors (awaited, through another pool's address, in tasks,
in batches, yielded, returned, one-way, left behind in a task; locking and lock-free methods; failing leaves) under
every combination of options, compared with an interpreter of the tree (result, order, warnings) and with the run
without debug.  times: calls, locks and messages of durations around the configured times against the reports.
"""
import asyncio
import itertools
import logging
import re

import xoscar as xo
from vlib import scen
from vlib.explore import Scenario
from vlib.scen import LOG, outcome, run_world
from xoscar.backends import allocate_strategy as S
from xoscar.core import ActorRef
from xoscar.debug import DebugOptions, set_debug_options

TECHNIQUE = "bounded-exhaustive enumeration of call trees and durations times debug options on real pools against an interpreter, plus stateless exploration of schedules of concurrent chains"
RULE = "a case bundles all call trees of one shape and placement under one combination of options; a schedule is one execution of concurrent chains; distinct: distinct results with warnings"
NOTE = "Exhaustive over call trees of up to three (thorough: four) calls over three actors, all kinds of calls and option combinations; durations below, between and above the configured times."
ASSUMPTIONS = [
    "an actor waits in a chain while its method runs; what it yielded or returned is waited for without it, and tasks that outlive the method do not belong to the chain",
    "all processes use the same options, set before references are made",
    "messages of errors are compared without the prefix naming the pool they come from",
]

TIMEOUT = 5.0


def call_of(ref, child, free):
    target, kind, kids, leaf = child
    if any(k[1] in "yY" for k in kids):
        return ref.genf if free else ref.gen
    if kids and kids[-1][1] == "r":
        return ref.retf if free else ref.ret
    return ref.runf if free else ref.run


def make(cls_name):
    class N(xo.Actor):
        def setup(self, me, refs, mains, free):
            self.me = me
            self.refs = refs
            self.mains = mains
            self.free = free

        def meth(self, child):
            return call_of((self.mains if child[1] == "m" else self.refs)[child[0]], child, self.free)

        def begin(self, node):
            LOG.append((self.me, node[3]))
            if node[3] == "x":
                raise ValueError("leaf of %s" % self.me)

        async def do(self, child):
            m = self.meth(child)
            kind = child[1]
            if kind in "am":
                return await m(child)
            if kind == "k":
                return await asyncio.create_task(m(child))
            if kind == "b":
                return (await m.batch(m.delay(child)))[0]
            if kind == "t":
                await m.tell(child)
                return None
            if kind == "s":

                async def later():
                    await asyncio.sleep(1)
                    await m(child)

                t = asyncio.create_task(later())
                t.add_done_callback(lambda t: t.cancelled() or t.exception())
                KEEP.append(t)
                return None
            raise KeyError(kind)

        @xo.extensible
        async def run(self, node):
            return await self._run(node)

        @xo.no_lock
        @xo.extensible
        async def runf(self, node):
            return await self._run(node)

        async def _run(self, node):
            self.begin(node)
            return (self.me, [await self.do(c) for c in node[2]])

        async def gen(self, node):
            self.begin(node)
            out = []
            for c in node[2]:
                if c[1] == "y":
                    out.append((yield self.meth(c)(c)))
                elif c[1] == "Y":
                    out.append((yield asyncio.create_task(self.meth(c)(c))))
                else:
                    out.append(await self.do(c))
            raise xo.Return((self.me, out))

        @xo.no_lock
        async def genf(self, node):
            self.begin(node)
            out = []
            for c in node[2]:
                if c[1] == "y":
                    out.append((yield self.meth(c)(c)))
                elif c[1] == "Y":
                    out.append((yield asyncio.create_task(self.meth(c)(c))))
                else:
                    out.append(await self.do(c))
            raise xo.Return((self.me, out))

        async def ret(self, node):
            return await self._ret(node)

        @xo.no_lock
        async def retf(self, node):
            return await self._ret(node)

        async def _ret(self, node):
            self.begin(node)
            out = [await self.do(c) for c in node[2][:-1]]
            last = node[2][-1]
            return (self.me, out, self.meth(last)(last))

    N.__name__ = N.__qualname__ = cls_name
    return N


N = make("N")
KEEP = []


# ------------------------------------------------------------------ interpreter
class Deadlock(Exception):
    pass


class Fail(Exception):
    pass


class Interp:
    def __init__(self, free):
        self.free = free
        self.warn = []
        self.log = []
        self.later = []
        self.failed = 0

    def call(self, node, chain, held):
        try:
            return self._call(node, chain, held)
        except Fail:
            self.failed += 1
            raise

    def _call(self, node, chain, held):
        """chain: actors waiting; held: actors whose lock is held by those waiting; returns the value"""
        target, kind, kids, leaf = node
        if target in chain:
            self.warn.append(tuple(chain) + (target,))
        isgen = any(k[1] in "yY" for k in kids)
        isret = bool(kids) and kids[-1][1] == "r" and not isgen
        locks = isgen or not self.free  # segments of generators take the lock in any case
        if locks and target in held:
            raise Deadlock
        self.log.append((target, leaf))
        if leaf == "x":
            raise Fail("leaf of %s" % target)
        out = []
        for c in kids:
            k = c[1]
            if k in "tX":
                self.later.append(c)
                out.append(None)
            elif k == "s":
                self.later.append(c)
                out.append(None)
            elif k in "yYr":
                v = self.call(c, chain, held)
                if k == "r":
                    return (target, out, v)
                out.append(v)
            else:
                out.append(self.call(c, chain + [target], held | {target} if locks else held))
        return (target, out)


def run_interp(tree, free):
    it = Interp(free)
    try:
        o = ("ok", it.call(tree, [], frozenset()))
    except Deadlock:
        o = ("TimeoutError",)
    except Fail as e:
        o = ("ValueError", str(e))
    tail = []
    while it.later:
        c = it.later.pop(0)
        if o[0] == "TimeoutError":
            return None  # when it runs depends on the time the locks are freed
        try:
            it.call(c, [], frozenset())
        except Deadlock:
            return None
        except Fail:
            pass
    return o, it.log, it.warn, it.failed


def trees(n, kinds, targets="ABC"):
    """all trees of n nodes"""

    def forests(n):
        if n == 0:
            yield ()
            return
        for k in range(1, n + 1):
            for first in nodes(k):
                for rest in forests(n - k):
                    yield (first,) + rest

    def nodes(n):
        for kids in forests(n - 1):
            for t in targets:
                for k in kinds:
                    yield (t, k, kids, "")

    for kids in forests(n - 1):
        for t in targets:
            yield (t, "a", kids, "")


def valid(tree):
    def ok(node, last):
        kids = node[2]
        isgen = any(k[1] in "yY" for k in kids)
        for i, c in enumerate(kids):
            end = last and i == len(kids) - 1
            if c[1] in "ts" and not end:
                return False
            if c[1] == "r" and (isgen or i != len(kids) - 1):
                return False
            if c[1] == "b" and (any(k[1] in "yYr" for k in c[2])):
                return False
            if not ok(c, end):
                return False
        return True

    return ok(tree, True)


def leaves(tree):
    """the same tree with each leaf failing"""

    def go(node):
        if not node[2]:
            yield node[:3] + ("x",)
            return
        for i, c in enumerate(node[2]):
            for d in go(c):
                yield (node[0], node[1], node[2][:i] + (d,) + node[2][i + 1 :], node[3])

    return go(tree)


class Capture(logging.Handler):
    def __init__(self):
        super().__init__()
        self.records = []

    def emit(self, r):
        self.records.append((r.getMessage(), r.levelname, asyncio.get_event_loop().time()))


OPTIONS = {
    "off": None,
    "all": dict(actor_call_timeout=100, process_message_timeout=100, actor_lock_timeout=100),
    "cycle": dict(actor_call_timeout=0, process_message_timeout=0, actor_lock_timeout=0, log_unhandled_errors=False),
    "errors": dict(actor_call_timeout=0, process_message_timeout=0, actor_lock_timeout=0, log_cycle_send=False),
    "times": dict(actor_call_timeout=100, process_message_timeout=100, actor_lock_timeout=100, log_cycle_send=False, log_unhandled_errors=False),
    "none": dict(actor_call_timeout=-1, process_message_timeout=0, actor_lock_timeout=0, log_cycle_send=False, log_unhandled_errors=False),
}

PREFIX = re.compile(r"\[address=[^\]]*\] ")


def fn_trees(case):
    opts, free, place, group = case
    o = OPTIONS[opts]
    n = 0
    cap = Capture()
    lg = logging.getLogger("xoscar.debug")

    async def main(w):
        nonlocal n
        pool = await w.start_pool(n_process=max(place))
        addrs = [pool._config.get_pool_config(i)["external_address"][0] for i in pool._config.get_process_indexes()]
        main_addr = addrs[0]
        out = []
        refs = None
        k = 0
        for tree in group:
            want = run_interp(tree, free)
            if want is None:
                continue
            n += 1
            if refs is None:
                k += 1
                refs, mains = {}, {}
                for name, p in zip("ABC", place):
                    refs[name] = await xo.create_actor(N, address=main_addr, uid="%s%d" % (name, k), allocate_strategy=S.ProcessIndex(p))
                    mains[name] = ActorRef(main_addr, refs[name].uid)
                for name in "ABC":
                    await refs[name].setup(name, refs, mains, free)
            del LOG[:]
            del cap.records[:]
            root = refs[tree[0]]
            got = await outcome(asyncio.wait_for(call_of(root, tree, free)(tree), TIMEOUT))
            if got[0] == "ValueError":
                got = (got[0], PREFIX.sub("", got[1]))
            elif got[0] != "ok":
                got = got[:1]
            await asyncio.sleep(4 if "'s'" in repr(tree) else 0.01)
            names = {refs[x].uid.decode(): x for x in refs}
            warns = []
            failed = 0
            for m, level, _ in cap.records:
                if "Call cycle" in m:
                    warns.append(tuple(names.get(u, u) for u in re.findall(r"in actor b?'?(\w+)'? at", m)))
                elif "unhandled error" in m:
                    failed += 1
                else:
                    raise AssertionError("%s: unexpected report %r" % (show(tree), m[:100]))
            exp_warn = want[2] if o is not None and o.get("log_cycle_send", True) else []
            assert got == want[0], "%s: %r instead of %r" % (show(tree), got, want[0])
            done = LOG[: len(want[1])] if got[0] == "TimeoutError" else list(LOG)  # the cancellation may free those that wait
            assert done == want[1], "%s: executed %r instead of %r" % (show(tree), LOG, want[1])
            assert warns == exp_warn, "%s: cycles reported %r instead of %r" % (show(tree), warns, exp_warn)
            if got[0] != "TimeoutError":
                exp_failed = want[3] if o is not None and o.get("log_unhandled_errors", True) else 0
                assert failed == exp_failed, "%s: %d errors reported instead of %d" % (show(tree), failed, exp_failed)
            out.append((got[0], len(warns), failed))
            if got[0] == "TimeoutError":
                refs = None  # to be sure
        return tuple(sorted(set(out)))

    lg.addHandler(cap)
    old = lg.propagate
    lg.propagate = False
    set_debug_options(DebugOptions(**o) if o is not None else None)
    scen.run_world(idle)  # installs the simulation, which switches logging off
    logging.disable(logging.NOTSET)
    try:
        r = run_world(main)
    finally:
        logging.disable(logging.CRITICAL)
        set_debug_options(None)
        lg.removeHandler(cap)
        lg.propagate = old
        del KEEP[:]
    r["tag"] = "%s-%s" % (opts, "free" if free else "lock")
    return r


# ------------------------------------------------------------------------ times
class T(xo.Actor):
    def __init__(self, post=0, pre=0):
        super().__init__()
        self.post = post
        self.pre = pre

    async def __post_create__(self):
        await asyncio.sleep(self.post)

    async def __pre_destroy__(self):
        await asyncio.sleep(self.pre)

    @xo.extensible
    async def sleep(self, d):
        await asyncio.sleep(d)
        return d

    @xo.no_lock
    async def free(self, d):
        await asyncio.sleep(d)
        return d

    async def steps(self, a, b, c):
        await asyncio.sleep(a)
        yield asyncio.sleep(b)
        await asyncio.sleep(c)
        raise xo.Return(a + b + c)

    async def rest(self, a, b):
        await asyncio.sleep(a)
        return (asyncio.sleep(b), 1)

    async def other(self, ref, d):
        return await ref.sleep(d)

    async def tell(self, ref, d):
        await ref.sleep.tell(d)

    async def fail(self, d):
        await asyncio.sleep(d)
        raise ValueError("f")


def reports(t, d):
    """at t, 3t, 6t, ..."""
    if not t or t <= 0:
        return 0
    k = 0
    while t * (k + 1) * (k + 2) / 2 < d:
        k += 1
    return k


# what is slow: ("c" call, "m" message, "l" lock) with its duration, as a function of two durations
ACTIONS = {
    "call": lambda a, b: [("c", a), ("m", a), ("l", a)],
    "free": lambda a, b: [("c", a), ("m", a)],
    "batch": lambda a, b: [("c", max(a, b)), ("m", max(a, b)), ("l", max(a, b))],
    "steps": lambda a, b: [("c", a + b + a), ("m", a + b + a), ("l", a), ("l", a)],
    "rest": lambda a, b: [("c", a + b), ("m", a + b), ("l", a)],
    "tell": lambda a, b: [("m", a), ("l", a)],
    "fail": lambda a, b: [("c", a), ("m", a), ("l", a)],
    "timeout": lambda a, b: [("c", min(a, b)), ("m", min(a, b)), ("l", min(a, b))],
    "queue": lambda a, b: [("c", a), ("m", a), ("l", a), ("c", a + b), ("m", a + b), ("l", b)],
    "other": lambda a, b: [("c", a), ("m", a), ("l", a)] * 2,
    "othertell": lambda a, b: [("m", a), ("l", a)],
    "main": lambda a, b: [("c", a), ("m", a), ("l", a), ("m", a)],
    "create": lambda a, b: [("m", a), ("m", b)],
    "createsub": lambda a, b: [("m", a)] * 2 + [("m", b)],
}


async def act(name, a, b, t, u, main, tsub):
    if name == "call":
        assert await t.sleep(a) == a
    elif name == "free":
        assert await t.free(a) == a
    elif name == "batch":
        assert await t.sleep.batch(t.sleep.delay(a), t.sleep.delay(b)) == [a, b]
    elif name == "steps":
        assert await t.steps(a, b, a) == a + b + a
    elif name == "rest":
        assert await t.rest(a, b) == (None, 1)
    elif name == "tell":
        await t.sleep.tell(a)
    elif name == "fail":
        assert (await outcome(t.fail(a)))[0] == "ValueError"
    elif name == "timeout":
        await outcome(xo.wait_for(t.sleep(a), b))
    elif name == "queue":
        x = asyncio.ensure_future(t.sleep(a))
        y = asyncio.ensure_future(t.sleep(b))
        assert await x == a and await y == b
    elif name == "other":
        assert await u.other(t, a) == a
    elif name == "othertell":
        await u.tell(t, a)
    elif name == "main":
        assert await ActorRef(main, tsub.uid).sleep(a) == a
    elif name in ("create", "createsub"):
        await xo.destroy_actor(await xo.create_actor(T, a, b, address=main, allocate_strategy=S.ProcessIndex(int(name == "createsub"))))


def fn_times(case):
    name, opts, durs, place = case
    cap = Capture()
    lg = logging.getLogger("xoscar.debug")
    n = 0

    async def main(w):
        nonlocal n
        pool = await w.start_pool(n_process=1)
        addrs = [pool._config.get_pool_config(i)["external_address"][0] for i in pool._config.get_process_indexes()]
        t = await xo.create_actor(T, address=addrs[0], uid="t", allocate_strategy=S.ProcessIndex(place))
        u = await xo.create_actor(T, address=addrs[0], uid="u", allocate_strategy=S.MainPool())
        tsub = await xo.create_actor(T, address=addrs[0], uid="ts", allocate_strategy=S.ProcessIndex(1))
        out = []
        for a, b in itertools.product(durs, durs):
            n += 1
            del cap.records[:]
            start = asyncio.get_event_loop().time()
            await act(name, a, b, t, u, addrs[0], tsub)
            await asyncio.sleep(30)
            got = {"c": [], "m": [], "l": []}
            for m, level, at in cap.records:
                if "unhandled" in m:
                    assert name == "fail", m
                    continue
                k = "c" if m.startswith("Calling ") else "m" if m.startswith("Process message") else "l" if "hold lock" in m else None
                assert k is not None and level == "WARNING", m[:100]
                got[k].append(round(at - start, 3))
            for k, opt in (("c", "actor_call_timeout"), ("m", "process_message_timeout"), ("l", "actor_lock_timeout")):
                lim = opts.get(opt)
                ds = [d for kk, d in ACTIONS[name](a, b) if kk == k]
                want = sum(reports(lim, d) for d in ds)
                assert len(got[k]) == want, "%s with durations %s: %d reports of %s, expected %d (limit %s)" % (name, (a, b), len(got[k]), opt, want, lim)
                assert not got[k] or got[k][0] >= lim
            out.append(tuple(len(v) for v in got.values()))
        return tuple(out)

    lg.addHandler(cap)
    old = lg.propagate
    lg.propagate = False
    set_debug_options(DebugOptions(**opts))
    run_world(idle)
    logging.disable(logging.NOTSET)
    try:
        r = run_world(main, horizon=100000)
    finally:
        logging.disable(logging.CRITICAL)
        set_debug_options(None)
        lg.removeHandler(cap)
        lg.propagate = old
    r["tag"] = name
    return r


async def idle(w):
    return None


# -------------------------------------------------------------------- schedules
def scheduled(free, forest, place, options):
    """concurrent chains: trees started together"""

    async def main(w):
        cap = Capture()
        lg = logging.getLogger("xoscar.debug")
        lg.addHandler(cap)
        old = lg.propagate
        lg.propagate = False
        logging.disable(logging.NOTSET)
        set_debug_options(DebugOptions(**options))
        del LOG[:]
        try:
            pool = await w.start_pool(n_process=max(place))
            addr = pool._config.get_pool_config(pool._config.get_process_indexes()[0])["external_address"][0]
            refs, mains = {}, {}
            for name, p in zip("ABC", place):
                refs[name] = await xo.create_actor(N, address=addr, uid=name, allocate_strategy=S.ProcessIndex(p))
                mains[name] = ActorRef(addr, refs[name].uid)
            for name in "ABC":
                await refs[name].setup(name, refs, mains, free)
            del LOG[:]
            w.begin()
            rs = await asyncio.gather(*[outcome(call_of(refs[t[0]], t, free)(t)) for t in forest])
            w.end()
            await asyncio.sleep(1)
            want_log, want_warn = [], []
            for t, r in zip(forest, rs):
                o, log, warn, failed = run_interp(t, free)
                if r[0] == "ValueError":
                    r = (r[0], PREFIX.sub("", r[1]))
                assert r == o, "%s: %r instead of %r" % (show(t), r, o)
                want_log += log
                want_warn += warn
            warns = [tuple(re.findall(r"in actor b?'?(\w+)'? at", m)) for m, _, _ in cap.records if "Call cycle" in m]
            other = [m[:80] for m, _, _ in cap.records if "Call cycle" not in m]
            assert sorted(warns) == sorted(want_warn), "cycles reported: %r instead of %r" % (sorted(warns), sorted(want_warn))
            assert not other, "unexpected reports %r" % other
            assert sorted(LOG) == sorted(want_log), "executed %r" % LOG
            return sorted(warns)
        finally:
            set_debug_options(None)
            logging.disable(logging.CRITICAL)
            lg.removeHandler(cap)
            lg.propagate = old

    return main


def parse(text):
    """the inverse of show"""
    pos = 0

    def node():
        nonlocal pos
        k, t = text[pos], text[pos + 1]
        pos += 2
        leaf = ""
        if text[pos : pos + 1] == "x":
            leaf = "x"
            pos += 1
        kids = []
        if text[pos : pos + 1] == "(":
            pos += 1
            while text[pos] != ")":
                if text[pos] == " ":
                    pos += 1
                kids.append(node())
            pos += 1
        return (t, k, tuple(kids), leaf)

    return node()


QUIET = dict(actor_call_timeout=100, process_message_timeout=100, actor_lock_timeout=100, log_unhandled_errors=False)
FORESTS = [
    # (lock-free, trees)
    (True, "aA(aB(aC)) aB(aA(aC))"),
    (True, "aA(aB) aA(aB(aA))"),
    (True, "aA(yB(aC) aB) aB(aA)"),
    (True, "aA(yB aC) aA(yC(aA) aB)"),
    (True, "aA(mB(mC)) aC(mB)"),
    (True, "aA(kB(aA) rC) aB(aC)"),
    (True, "aA(bB(aC) bC(aA)) aB(aAx)"),
    (False, "aA(aB(aC)) aA(aC) aB"),
    (False, "aA(yB(aA) aC) aB"),
    (False, "aA(aB rC(aB)) aB(yC)"),
    (False, "aA(yC(aB) yB) aA(yB yC)"),
]


def forest(text):
    out, depth, cur = [], 0, ""
    for ch in text + " ":
        if ch == " " and depth == 0:
            out.append(parse(cur))
            cur = ""
            continue
        depth += (ch == "(") - (ch == ")")
        cur += ch
    return out


def show(t):
    return "%s%s%s" % (t[1] + t[0], t[3], "(" + " ".join(show(c) for c in t[2]) + ")" if t[2] else "")


def chunks(xs, n):
    xs = list(xs)
    return [xs[i : i + n] for i in range(0, len(xs), n)]


def run(ctx):
    th = ctx.thorough
    KINDS = "amkbyYrts"
    base = []
    for n in (1, 2, 3):
        base += [t for t in trees(n, KINDS) if valid(t)]
    small = []
    for n in (1, 2, 3):
        small += [t for t in trees(n, "amyt") if valid(t)]
    chain4 = [t for t in trees(4, "amyY" if th else "ay", "AB" if not th else "ABC") if valid(t)]
    fails = [f for n in (1, 2, 3) for t in trees(n, "amyrt") if valid(t) for f in leaves(t)]
    cases = []
    places = [(0, 1, 1), (0, 0, 1)] + ([(1, 1, 2), (0, 1, 2)] if th else [])
    for place in places:
        for free in (False, True):
            for opts in OPTIONS:
                if opts in ("off", "all") or th:
                    sets = [base, chain4 if opts in ("all", "cycle") else [], fails]
                elif opts == "cycle":
                    sets = [small, chain4 if place == (0, 1, 1) else []]
                else:
                    sets = [small] if place == (0, 1, 1) else []
                for s in sets:
                    for c in chunks(s, 60):
                        cases.append((opts, free, place, c))
    times = []
    for c, m, l in ((2, 3, 4), (4, 2, 3), (3, 4, 2), (0, 2, 0), (2, 0, -1), (None, None, 2)):
        for rest in ({}, dict(log_cycle_send=False), dict(log_cycle_send=False, log_unhandled_errors=False)):
            o = dict(actor_call_timeout=c, process_message_timeout=m, actor_lock_timeout=l, **rest)
            for name in ACTIONS:
                for place in (0, 1):
                    times.append((name, o, [0, 2.55, 3.61, 4.73, 13.17] if th else [0, 2.55, 3.61, 13.17], place))
    scenarios = []
    for place in ([(0, 1, 1), (0, 1, 2), (0, 0, 1)] if th else [(0, 1, 1)]):
        for free, text in FORESTS:
            scenarios.append(Scenario("%s %s %s" % ("free" if free else "lock", text, "".join(map(str, place))), scheduled(free, forest(text), place, QUIET), bound=1, bound_thorough=2))
    ctx.enumerate({"trees": (cases, fn_trees), "times": (times, fn_times)})
    ctx.explore(scenarios)
