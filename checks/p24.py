"""P24: metrics and profiling report what was recorded.

series: every sequence of records (values, tags, clock steps) for every type of metric, backend and
moment of creation, the reported value compared with a model after every record.  percentiles: all
sequences of values around windows against the order statistic of a sorted window.  slow-calls: all
sequences of call durations around the capacity, with equal and incomparable calls, against sorting.
operators: histories of the profiling data operators against plain dictionaries.  calls: numbers of
actor calls of every kind in a real cluster."""
import asyncio
import itertools
import logging
import math
import time
from fractions import Fraction

import prometheus_client as pc
import xoscar as xo
from vlib.scen import outcome, run_world
from xoscar.backends.message import CreateActorMessage, HasActorMessage, SendMessage, TellMessage
from xoscar.core import ActorRef
from xoscar.metrics import Metrics, Percentile, api, init_metrics, record_time_cost_percentile, shutdown_metrics
from xoscar.profiling import ProfilingData, DummyOperator

TECHNIQUE = "bounded-exhaustive enumeration of record histories (with a controlled clock) on the real metrics and profiling against reference models"
NOTE = "Exhaustive over all histories up to the length bounds; values and clock steps are chosen around the thresholds."
RULE = "sequences of (value, tags, clock step) per metric type, backend and moment of creation; sequences of durations; distinct: distinct series of reported values"
ASSUMPTIONS = [
    "names of metrics are unique, as the backends demand",
    "a percentile reporter reports the value of rank capacity in the sorted window, capacity being the share of the window its name leaves (as the existing tests demand)",
    "a meter or histogram reports at the first record after a second or at the 2000th event",
]
logging.getLogger("xoscar.metrics.api").disabled = True
logging.getLogger("xoscar.profiling").disabled = True
pc.start_http_server = lambda *a, **k: None


class Clock:
    """stands in for the functions of the time module while metrics are used"""

    names = ("time", "monotonic", "perf_counter")

    def __enter__(self):
        self.now = 1000.0
        self.saved = {n: getattr(time, n) for n in self.names}
        for n in self.names:
            setattr(time, n, lambda: self.now)
        return self

    def __exit__(self, *exc):
        for n, f in self.saved.items():
            setattr(time, n, f)


LIMIT, SECS = 2000, 1


class Model:
    def __init__(self, kind, now):
        self.kind = kind
        self.reported = None
        self.total = 0
        self.last = now
        self.data = []

    def record(self, value, now):
        """True if something is reported"""
        if self.kind == "counter":
            self.total += value
            self.reported = self.total
        elif self.kind == "gauge":
            self.reported = value
        else:
            self.data.append(value)
            past = now - self.last
            n = len(self.data) if self.kind == "histogram" else sum(self.data)
            if not (n >= LIMIT or past >= SECS):
                return False
            s = sum(map(Fraction, self.data))
            self.reported = float(s / len(self.data)) if self.kind == "histogram" else float(s / Fraction(max(past, 1e-9)))
            self.last = now
            self.data = []
        return True


TAGS = {None: None, "a": {"t": "a"}, "b": {"t": "b"}}


def close(a, b):
    return a == b or (isinstance(a, (int, float)) and math.isclose(a, b, rel_tol=1e-9, abs_tol=1e-12))


def drop_collectors(before):
    for c in list(pc.REGISTRY._collector_to_names):
        if c not in before:
            pc.REGISTRY.unregister(c)


def fn_series(case):
    backend, when, kind, tagged, seq = case
    before = set(pc.REGISTRY._collector_to_names)
    shutdown_metrics()
    name = "m.x"
    keys = ("t",) if tagged else None
    out = []
    import gc

    try:
        with Clock() as clock:
            make = getattr(Metrics, kind)
            if when == "before":
                m = make(name, "about", keys)
                other = make("n.y", "", None)
                clock.now += 0.25
                if seq and seq[0][0] == "early":
                    m.record(77)
                init_metrics(backend)
            elif when == "again":
                # initialised twice, with another backend at first
                m = make(name, "about", keys)
                other = make("n.y", "", None)
                init_metrics()
                m.record(5, None)
                clock.now += 3
                m.record(6, None)
                shutdown_metrics()
                init_metrics(backend)
            else:
                init_metrics(backend)
                m = make(name, "about", keys)
                other = make("n.y", "", None)
            model = Model(kind, clock.now)
            shown = {}
            for step in seq:
                if step[0] == "early":
                    continue
                value, tag, dt = step
                clock.now += dt
                tags = dict(TAGS[tag]) if TAGS[tag] else None
                if value == "default":
                    v = 1
                    m.record(**({"tags": tags} if tags else {}))
                else:
                    v = value
                    m.record(value, tags)
                assert tags == TAGS[tag], "record() added %r to the tags" % (sorted(set(tags) - set(TAGS[tag])),)
                if model.record(v, clock.now):
                    shown[tag] = model.reported
                if backend == "console":
                    got = m.value
                    want = model.reported if model.reported is not None else 0
                    assert close(got, want), "%s reports %r instead of %r after %r" % (kind, got, want, seq)
                    assert other.value == 0
                else:
                    found = {}
                    for fam in pc.REGISTRY.collect():
                        for s in fam.samples:
                            if s.name == "m:x":
                                found[s.labels.get("t")] = s.value
                                assert set(s.labels) == {"host", "pid"} | ({"t"} if tagged else set()), s.labels
                            assert s.name != "n:y" or not s.labels
                    want = dict(shown)
                    assert set(found) == set(want) and all(close(found[t], want[t]) for t in want), "%s reports %r instead of %r after %r" % (kind, found, want, seq)
                out.append(model.reported)
            assert m.type == kind.capitalize() and m.description == "about", (m.type, m.description)
            del m, other
    finally:
        shutdown_metrics()
        drop_collectors(before)
        api._metrics_to_be_initialized.clear()
    return {"outcome": (kind, tuple(out)), "transitions": len(seq)}


def fn_bulk(case):
    """the limit on the number of events"""
    kind, n, value, tail = case
    shutdown_metrics()
    try:
        with Clock() as clock:
            init_metrics("console")
            m = getattr(Metrics, kind)("m")
            model = Model(kind, clock.now)
            for i in range(n):
                v = value + i % 3
                clock.now += 0.0001
                m.record(v)
                model.record(v, clock.now)
                assert close(m.value, model.reported or 0), "%s reports %r instead of %r after %d records" % (kind, m.value, model.reported, i + 1)
            for v, dt in tail:
                clock.now += dt
                m.record(v)
                model.record(v, clock.now)
                assert close(m.value, model.reported or 0), (kind, m.value, model.reported, n, tail)
            return {"outcome": (kind, m.value), "transitions": n}
    finally:
        shutdown_metrics()


# --------------------------------------------------------------- percentiles
def fn_percentile(case):
    cap, window, values = case
    got = []
    p = Percentile(cap, window, got.append)
    want = []
    for i, v in enumerate(values):
        p.record_data(v)
        if (i + 1) % window == 0:
            w = sorted(values[i + 1 - window : i + 1])
            want.append(w[min(cap, window) - 1])
        assert got == want, "capacity %d, window %d: %r gives %r instead of %r" % (cap, window, values[: i + 1], got, want)
    return {"outcome": (cap, window, tuple(got)), "transitions": len(values)}


SHARE = {"P90": 10, "P95": 20, "P99": 100}


def perm(n, k):
    """deterministic order of 0..n-1"""
    return [(i * k) % n for i in range(n)] if math.gcd(n, k) == 1 else list(range(n))[::-1]


def fn_builders(case):
    which, window, k, how, rounds = case
    t = Percentile.PercentileType[which]
    cap = window // SHARE[which]
    got = []
    try:
        if how == "direct":
            p = getattr(Percentile, "build_" + which.lower())(got.append, window)
        elif cap == 0:
            return {"outcome": "skip", "transitions": 0}
    except ValueError:
        assert cap == 0, "no reporter for a window of %d" % window
        return {"outcome": "refused", "transitions": 0}
    assert cap > 0
    want = []
    data = perm(window, k)
    with Clock() as clock:
        if how == "decorator":

            @record_time_cost_percentile([(t, got.append, window)])
            def work(d):
                clock.now += d
                return d

        for r in range(rounds):
            for d in data:
                d = float(d + r)
                if how == "direct":
                    p.record_data(d)
                else:
                    assert work(d) == d
            want.append(sorted(data)[cap - 1] + r)
            assert len(got) == len(want) and all(close(round(a, 6), b) for a, b in zip(got, want)), "%s over %d: %r instead of %r" % (which, window, got, want)
    return {"outcome": (which, window, tuple(want)), "transitions": rounds * window}


# --------------------------------------------------------------- profiling
CALLS = [
    (b"u", "addr1", ("f", 0, (1,), {})),
    (b"u", "addr1", ("f", 0, ({},), {})),
    (b"u", "addr1", ("f", 0, ("s",), {"k": 1})),
    (b"v", "addr2", ("g", 1, ([(1,), (2,)], None), None)),
    (b"u", "addr1", ("g", 0, (None,), {})),
]


def call_name(uid, addr, content):
    return "[%s]%s.%s(args=%s, kwargs=%s)" % (addr, uid.decode(), content[0], content[2], content[3])


def fn_slow(case):
    threshold, how, calls = case
    opts = {} if threshold is None else {"slow_calls_duration_threshold": threshold}
    limit = 1 if threshold is None else threshold
    ProfilingData.init("t", opts or None)
    if how == "two":
        ProfilingData.init("t2", {"slow_calls_duration_threshold": 0})
    counts, slow = {}, []
    try:
        for i, (c, dur) in enumerate(calls):
            uid, addr, content = CALLS[c] if c is not None else (b"w", "a", ("h", 0, (i,), {}))
            cls = TellMessage if i % 2 else SendMessage
            ProfilingData.collect_actor_call(cls(b"%d" % i, ActorRef(addr, uid), content), dur)
            ProfilingData.collect_actor_call(HasActorMessage(b"x", ActorRef(addr, uid)), 99)
            counts["%s.%s" % (uid.decode(), content[0])] = counts.get("%s.%s" % (uid.decode(), content[0]), 0) + 1
            slow.append((dur, call_name(uid, addr, content)))
        if how == "two":
            r = ProfilingData.pop("t2")
            check_slow(r, slow, 0, calls)
            assert r["most_calls"] == counts, (r["most_calls"], counts)
    finally:
        r = ProfilingData.pop("t")
    assert r["most_calls"] == counts, "%r calls counted instead of %r" % (r["most_calls"], counts)
    check_slow(r, slow, limit, calls)
    assert ProfilingData.pop("t") is None
    return {"outcome": repr(r), "transitions": len(calls)}


def check_slow(r, slow, limit, calls):
    got = list(r["slow_calls"].items())
    assert [d for _, d in got] == sorted([d for _, d in got], reverse=True), got
    top = sorted((d for d, _ in slow if d >= limit), reverse=True)
    if len(top) > 10:
        bound, kept = top[9], 10
    else:
        bound, kept = limit, len(top)
    # names of the calls kept: all that are slower than the slowest one left out, some of those that equal it
    must, may = {}, {}
    for d, n in slow:
        if d >= limit and (d > bound or len(top) <= 10):
            must[n] = max(d, must.get(n, d))
        if d >= bound:
            may[n] = max(d, may.get(n, d))
    g = dict(got)
    for n, d in must.items():
        assert g.get(n) == d, "slow calls %r lack %s of %r s (calls %r)" % (g, n, d, calls)
    for n, d in g.items():
        assert may.get(n) == d, "slow calls %r report %s of %r s (calls %r)" % (g, n, d, calls)
    if len({n for _, n in slow}) == len(slow):
        assert len(got) == kept, "%d slow calls instead of %d: %r" % (len(got), kept, calls)


def fn_most(case):
    """the ten methods called most"""
    counts = case
    ProfilingData.init("t")
    try:
        left = list(counts)
        while any(left):
            for i, n in enumerate(left):
                if n:
                    left[i] -= 1
                    ProfilingData.collect_actor_call(SendMessage(b"x", ActorRef("a", b"u%d" % (i // 4)), ("f%d" % i, 0, (), {})), 0.1)
    finally:
        r = ProfilingData.pop("t")["most_calls"]
    want = sorted((n for n in counts if n), reverse=True)[:10]
    assert list(r.values()) == want, "%r instead of %r" % (r, want)
    for k, n in r.items():
        i = int(k.rsplit(".f")[-1])
        assert counts[i] == n and k == "u%d.f%d" % (i // 4, i), (k, n)
    return {"outcome": tuple(want), "transitions": sum(counts)}


PATHS = [("t",), ("t", "general"), ("t", "general", "x"), ("t", "serialization"), ("q", "general"), ("t", "nothing")]
OPSET = [("set", "a", 1), ("set", "x", 2.5), ("inc", "a", 2), ("inc", "b", 0.5), ("nest", "x"), ("nest", "a")]


def fn_ops(case):
    init, ops = case
    for t in init:
        ProfilingData.init(t)
    model = {t: {"general": {}, "serialization": {}, "most_calls": {}, "slow_calls": {}} for t in init}
    out = []
    try:
        for path, op in ops:
            o = ProfilingData[path if len(path) > 1 else path[0]]
            d = model
            for k in path:
                d = d.get(k) if isinstance(d, dict) else None
                if d is None:
                    break
            if d is not None and not isinstance(d, dict):
                continue  # a value, not a group
            if d is None:
                assert o is DummyOperator, (path, o)
                assert o.empty() and list(o.values()) == []
                d = {}
                dummy = True
            else:
                dummy = False
                assert o is not DummyOperator, path
            if op[0] == "nest" and not dummy and not isinstance(d.setdefault(op[1], {}), dict):
                try:
                    o.nest(op[1])
                    raise AssertionError("nest(%r) in %r" % (op[1], d))
                except TypeError:
                    out.append("typeerror")
                continue
            if op[0] == "nest":
                n = o.nest(op[1])
                n.inc("z", 1)
                if not dummy:
                    d[op[1]]["z"] = d[op[1]].get("z", 0) + 1
                    assert list(n.values()) == list(d[op[1]].values())
            elif op[0] == "set":
                o.set(op[1], op[2])
                if not dummy:
                    d[op[1]] = op[2]
            elif isinstance(d.get(op[1]), dict):
                continue
            else:
                o.inc(op[1], op[2])
                if not dummy:
                    d[op[1]] = d.get(op[1], 0) + op[2]
            if not dummy:
                assert list(o.values()) == list(d.values()) and o.empty() == (not d), (path, op)
    finally:
        got = {t: ProfilingData.pop(t) for t in init}
    assert got == model, "%r give %r instead of %r" % (ops, got, model)
    return {"outcome": repr(got), "transitions": len(ops)}


# --------------------------------------------------------------- calls of a real cluster
class A(xo.Actor):
    def f(self, x):
        return x

    @xo.extensible
    def e(self, x):
        return x

    async def slow(self, x):
        await asyncio.sleep(x)
        return x

    def bad(self, x):
        raise ValueError(x)


def fn_calls(case):
    where, seq = case

    async def main(w):
        pool = await w.start_pool(n_process=1)
        ref = await xo.create_actor(A, uid="act", address=pool.external_address, allocate_strategy=xo.allocate_strategy.ProcessIndex(where))
        w.begin()
        ProfilingData.init("t", {"slow_calls_duration_threshold": 0})
        counts = {}
        clock = Clock()
        clock.__enter__()
        try:
            for n in Clock.names:
                setattr(time, n, w.loop.time)
            await go(counts, ref)
        finally:
            clock.__exit__()
        r = ProfilingData.pop("t")
        w.end()
        got = {k: v for k, v in r["most_calls"].items() if k.startswith("act.")}
        assert got == counts, "%r counted for %r" % (got, seq)
        slow = {k: v for k, v in r["slow_calls"].items() if ".slow(" in k}
        want = {"[%s]act.slow(args=(%r,), kwargs={})" % (ref.address, d): d for n, d in (("slow1", 1.5), ("slow2", 2.5)) if n in seq}
        assert set(slow) == set(want) and all(abs(slow[k] - want[k]) < 1e-6 for k in want), "slow calls %r instead of %r" % (slow, want)
        return repr(got), len(slow)

    async def go(counts, ref):
        for op in seq:
            name = {"send": "f", "tell": "f", "batch": "e", "bad": "bad", "slow1": "slow", "slow2": "slow"}[op]
            if op == "send":
                await ref.f(1)
            elif op.startswith("slow"):
                await ref.slow(int(op[4:]) + 0.5)
            elif op == "tell":
                await ref.f.tell(1)
            elif op == "bad":
                await outcome(ref.bad(1))
            else:
                await ref.e.batch(ref.e.delay(1), ref.e.delay(2))
            counts["act." + name] = counts.get("act." + name, 0) + 1
        await asyncio.sleep(1)  # one-way calls end

    r = run_world(main)
    ProfilingData.pop("t")
    return r


def run(ctx):
    th = ctx.thorough
    steps = [(v, t, dt) for v in (1, 0, 2.5) for t in (None,) for dt in (0.0, 0.5, 1.0)] + [("default", None, 0.25), (-3, None, 0.999), (1999, None, 0.0), (2000, None, 0.5), (5, None, -0.5), (3, None, 2)]
    tsteps = [(v, t, dt) for v in (1, "default", 7) for t in ("a", "b") for dt in (0.0, 1.0)]
    series = []
    for kind in ("counter", "gauge", "meter", "histogram"):
        for backend in ("console", "prometheus"):
            for when in ("before", "after", "again"):
                deep = 3 if (backend == "console" and when != "again") or th else 2
                for n in range(1, deep + 1):
                    for seq in itertools.product(steps, repeat=n):
                        series.append((backend, when, kind, False, seq))
                for n in range(1, 3 + th):
                    for seq in itertools.product(tsteps, repeat=n):
                        series.append((backend, when, kind, True, seq))
                for s in steps:
                    series.append((backend, when, kind, False, (("early",), s, s)))
    bulk = []
    for kind in ("meter", "histogram"):
        for n in (1, 1999, 2000, 2001, 3999, 4000, 4001):
            for value in (1, 0, 0.5, 3):
                for tail in ([], [(1, 0.0)], [(2, 1.0)], [(1, 0.9), (4, 0.2)]):
                    bulk.append((kind, n, value, tuple(tail)))
    perc = []
    for window in (1, 2, 3, 4):
        for cap in (1, 2, 3, 4, 5):
            for n in (window, window + 1, 2 * window) if window < 4 or th else (window, window + 1):
                for values in itertools.product((0, 1, 2) if n > 4 else (-1, 0, 1.5, 2), repeat=n):
                    perc.append((cap, window, values))
    build = []
    for which in SHARE:
        for window in (1, 5, 9, 10, 19, 20, 21, 30, 99, 100, 101, 140, 200, 290, 300):
            for k in (1, 7, 11):
                for how in ("direct", "decorator"):
                    build.append((which, window, k, how, 2))
    slow = []
    # around the capacity of ten: a prefix of ten calls, then more
    pres = [tuple((None, d) for d in ds) for ds in ((1,) * 10, range(1, 11), range(10, 0, -1), (5,) * 5 + (7,) * 5, (3, 9, 4, 8, 5, 7, 6, 2, 1, 10))]
    for pre in pres:
        for n in (0, 1, 2, 3):
            for tail in itertools.product((0.5, 1, 2.5, 5, 11), repeat=n):
                slow.append((None, "one", pre + tuple((None, d) for d in tail)))
                if n < 3 or th:
                    slow.append((1.5, "two", tuple((None, d) for d in tail) + pre))
    for n in (1, 2, 3):
        for cs in itertools.product([(c, d) for c in range(len(CALLS)) for d in (1, 2)] + [(0, 0.5), (1, 1.5)], repeat=n):
            slow.append((None, "one", cs))
            if n < 3:
                slow.append((1.5, "two", cs))
                slow.append((0, "one", cs))
                slow.append((2, "one", cs))
                slow.append((None, "one", pres[0] + cs))
                slow.append((None, "two", cs + pres[4]))
    for k in range(11):
        slow.append((None, "one", tuple((c, 2) for c in (0, 1, 2, 4)) * 3 + tuple((None, k) for _ in range(k))))
    most = [c for n in (1, 2, 3) for c in itertools.product((0, 1, 2, 3), repeat=n)]
    most += [tuple((i * k) % 13 for i in range(n)) for n in (9, 10, 11, 12, 14) for k in (1, 2, 5)]
    ops = []
    for init in ((), ("t",), ("t", "q")):
        for n in (1, 2):
            for o in itertools.product([(p, op) for p in PATHS for op in OPSET], repeat=n):
                ops.append((init, o))
        if th:
            for o in itertools.product([(p, op) for p in PATHS[1:4] for op in OPSET], repeat=3):
                ops.append((init, o))
    calls = [(where, seq) for where in (0, 1) for n in (1, 2, 3) for seq in itertools.product(("send", "tell", "batch", "bad", "slow1", "slow2"), repeat=n)]
    ctx.enumerate({
        "series": (series, fn_series),
        "bulk": (bulk, fn_bulk),
        "percentile": (perc, fn_percentile),
        "builders": (build, fn_builders),
        "slow-calls": (slow, fn_slow),
        "most-calls": (most, fn_most),
        "operators": (ops, fn_ops),
        "calls": (calls, fn_calls),
    })
