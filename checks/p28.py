"""P28: addresses, sizes and helper wrappers are interpreted consistently.

Exhaustive input domains for wildcard repair (all zero/non-zero patterns of IPv6 groups in several
notations, IPv4, schemes, ports), readable sizes, retry limits and exception wrapping; and clusters
listening on wildcard addresses whose returned references are used from another host."""
import asyncio
import ipaddress
import itertools
import traceback
from fractions import Fraction

import xoscar as xo
from vlib.explore import Scenario
from vlib.scen import fault, outcome, proc, run_world
from xoscar import utils
from xoscar.backends import allocate_strategy as st
from xoscar.utils import wrap_exception

TECHNIQUE = "bounded-exhaustive enumeration of address notations, sizes, retry histories and wrapped exceptions; exploration of clusters on wildcard addresses under the simulated network"
NOTE = "Exhaustive over the stated domains; hostnames stand for non-wildcard addresses."
RULE = "every combination of the listed notations, schemes, ports, sizes, failure histories and exception types"


# ------------------------------------------------- wildcard repair
def v6_notations(groups):
    """notations of one IPv6 address"""
    full = ":".join("%x" % g for g in groups)
    yield full
    yield ":".join("%04x" % g for g in groups)
    yield ":".join("%04X" % g for g in groups)
    # one run of zeros compressed, every choice
    for i in range(8):
        for j in range(i + 1, 9):
            if any(groups[i:j]):
                break
            yield ":".join("%x" % g for g in groups[:i]) + "::" + ":".join("%x" % g for g in groups[j:])
    a, b = groups[6], groups[7]
    v4 = "%d.%d.%d.%d" % (a >> 8, a & 255, b >> 8, b & 255)
    yield ":".join("%x" % g for g in groups[:6]) + ":" + v4
    if not any(groups[:6]):
        yield "::" + v4


VALUES = (1, 0x10, 0x100, 0x1000, 0xFFFF)


def is_wild(host):
    return int(ipaddress.ip_address(host)) == 0


CONNECT = ["192.168.0.1", "127.0.0.1", "some-host", "fe80::1", "2001:db8:0:0:0:0:0:1", "::1", "0.0.0.0", "::", "0:0:0:0:0:0:0:0"]
SCHEMES = ["", "ucx://"]


def conn_wild(h):
    return h in ("0.0.0.0", "::", "0:0:0:0:0:0:0:0")


def check_fix(remote, rwild):
    n = 0
    for rs in SCHEMES:
        for rp in ("1234", "1", "65535", "0", "10000"):
            r = "%s%s:%s" % (rs, remote, rp)
            assert utils.is_zero_ip(r) == rwild, "%s is %staken for a wildcard" % (r, "not " if rwild else "")
            for c in CONNECT:
                for cs in SCHEMES:
                    for cp in (rp, "5678"):
                        got = utils.fix_all_zero_ip(r, "%s%s:%s" % (cs, c, cp))
                        want = "%s%s:%s" % (rs, c, rp) if rwild and not conn_wild(c) else r
                        assert got == want, "%s seen from %s%s:%s became %s instead of %s" % (r, cs, c, cp, got, want)
                        n += 1
    return n


def fn_v6(case):
    zeros, value = case
    groups = [value if (zeros >> i) & 1 else 0 for i in range(8)]
    n, notes = 0, sorted(set(v6_notations(groups)))
    for h in notes:
        n += check_fix(h, is_wild(h))
    return {"outcome": (zeros == 0, len(notes)), "transitions": n}


def fn_host(h):
    return {"outcome": h, "transitions": check_fix(h, h in ("0.0.0.0", "0:0:0:0:0", "000:0:0", "::0:0", "0::"))}


# ------------------------------------------------- sizes
def fn_size(case):
    num, unit, tail, gap, pad, up = case
    text = pad + num + gap + unit + tail + pad
    text = text.upper() if up else text
    got = utils.parse_readable_size(text)
    want = Fraction(num) * 1024 ** " kmgt".index(unit or " ")
    assert got[1] is False and type(got[0]) is float, got
    assert got[0] == float(want), "%r parsed as %r instead of %r" % (text, got[0], float(want))
    return {"outcome": unit, "transitions": 1}


def fn_percent(case):
    num, gap, pad = case
    got = utils.parse_readable_size(pad + num + gap + "%" + pad)
    assert got[1] is True and abs(Fraction(got[0]) - Fraction(num) / 100) <= abs(Fraction(num)) / 10**15, got
    return {"outcome": "%", "transitions": 1}


def fn_number(x):
    got = utils.parse_readable_size(x)
    assert got == (float(x), False) and type(got[0]) is float, got
    return {"outcome": "n", "transitions": 1}


def fn_nosize(text):
    try:
        got = utils.parse_readable_size(text)
    except ValueError:
        return {"outcome": "refused", "transitions": 1}
    raise AssertionError("%r parsed as %r" % (text, got))


# ------------------------------------------------- retry
class E1(Exception):
    pass


class E2(E1):
    pass


class E3(Exception):
    pass


KINDS = {"1": E1, "2": E2, "3": E3}


def expected(script, limit, ex):
    """(calls, ('ok', value) or ('raise', index))"""
    n = 0
    while limit < 0 or n < limit:
        k = script[n]
        n += 1
        if k == "v":
            return n, ("ok", n)
        if not issubclass(KINDS[k], ex):
            return n, ("raise", n)
    return n, ("raise", n)


def fn_retry(case):
    script, limit, ex, how = case
    calls = []

    def body(a, *, b):
        assert (a, b) == ("A", "B")
        calls.append(1)
        n = len(calls)
        k = script[n - 1]
        if k == "v":
            return ("value", n)
        raise KINDS[k](n)

    async def abody(a, *, b):
        await asyncio.sleep(0)
        return body(a, b=b)

    def lazy(a, *, b):
        return abody(a, b=b)

    kw = dict(wait_interval=0, max_retries=limit)
    if ex is not Exception:
        kw["ex_type"] = ex
    try:
        if how == "sync":
            got = ("ok", utils.retry_callable(body, **kw)("A", b="B"))
        elif how == "async":
            got = ("ok", asyncio.run(utils.retry_callable(abody, **kw)("A", b="B")))
        else:
            got = ("ok", asyncio.run(utils.retry_callable(lazy, sync=False, **kw)("A", b="B")))
    except (E1, E3) as e:
        got = ("raise", e.args[0])
        assert type(e) is KINDS[script[e.args[0] - 1]]
    n, want = expected(script, limit, ex)
    want = ("ok", ("value", want[1])) if want[0] == "ok" else want
    assert len(calls) == n, "%d calls instead of %d" % (len(calls), n)
    assert got == want, "%r instead of %r" % (got, want)
    return {"outcome": (got[0], n), "transitions": n}


def fn_retry_cancel(case):
    """a cancellation is not a failure to be retried"""
    at, waiting = case
    calls = []

    async def go():
        async def f():
            calls.append(1)
            if len(calls) == at + 1 and not waiting:
                await asyncio.sleep(1000)
            raise E1(len(calls))

        t = asyncio.ensure_future(utils.retry_callable(f, ex_type=Exception, wait_interval=1000 if waiting else 0, max_retries=at + 3)())
        for _ in range(4 * at + 8):
            await asyncio.sleep(0)
        t.cancel()
        return await outcome(t)

    o = asyncio.run(go())
    assert o == ("CancelledError", ""), o
    assert len(calls) == (1 if waiting else at + 1), calls
    return {"outcome": o, "transitions": len(calls)}


# ------------------------------------------------- wrapped exceptions
class Needs(Exception):
    def __init__(self, a, *, b):
        super().__init__("needs %s" % a)
        self.a, self.b = a, b


class Texty(ValueError):
    extra = "class level"

    def __str__(self):
        return "texty:" + repr(self.args)

    def method(self, x):
        return (self.args, x)


class Slotty(LookupError):
    __slots__ = ("p", "q")


class New(Exception):
    def __new__(cls, a, b):
        e = super().__new__(cls, a)
        e.pair = (a, b)
        return e

    def __init__(self, a, b):
        super().__init__(a + b)


class Multi(KeyError, ValueError):
    pass


def make(kind):
    e = {
        "value": lambda: ValueError("text", 2),
        "empty": lambda: RuntimeError(),
        "key": lambda: KeyError("k"),
        "os": lambda: OSError(2, "nothing there", "a/b"),
        "perm": lambda: PermissionError(13, "no", "x", None, "y"),
        "decode": lambda: UnicodeDecodeError("utf-8", b"ab\xff", 2, 3, "bad"),
        "encode": lambda: UnicodeEncodeError("ascii", "ab\xff", 2, 3, "bad"),
        "import": lambda: ImportError("no mod", name="m", path="p"),
        "attr": lambda: AttributeError("no attr", name="n", obj=7),
        "stop": lambda: StopIteration(5),
        "stopasync": lambda: StopAsyncIteration("z"),
        "syntax": lambda: SyntaxError("bad", ("f.py", 3, 4, "text", 3, 9)),
        "needs": lambda: Needs(1, b=[2]),
        "texty": lambda: Texty("t", 1),
        "slotty": lambda: Slotty("s"),
        "new": lambda: New("a", "b"),
        "multi": lambda: Multi("m"),
        "group": lambda: ExceptionGroup("g", [ValueError(1), KeyError(2)]),
        "timeout": lambda: asyncio.TimeoutError("late"),
        "cancelled": lambda: asyncio.CancelledError("c"),
    }[kind]()
    if kind == "slotty":
        e.p = 11
    if kind not in ("slotty",):
        e.own = {"x": 1}
    return e


KINDS_EXC = ["value", "empty", "key", "os", "perm", "decode", "encode", "import", "attr", "stop", "stopasync", "syntax", "needs", "texty", "slotty", "new", "multi", "group", "timeout", "cancelled"]
ATTRS = ["args", "own", "errno", "strerror", "filename", "filename2", "encoding", "object", "start", "end", "reason", "name", "path", "obj", "value", "lineno", "offset", "text", "msg", "print_file_and_line", "a", "b", "extra", "p", "q", "pair", "message", "exceptions", "no_such"]


class Mark:
    tag = "mark"

    def hello(self):
        return ("hello", self.args)


class MarkExc(Exception):
    code = 42


class MarkStr:
    def __str__(self):
        return "from the added type"


BASES = {"none": None, "mark": (Mark,), "two": (Mark, MarkStr)}


def raised(e, cause):
    def deeper():
        if cause:
            raise e from KeyError("cause")
        try:
            {}["context"]
        except KeyError:
            raise e

    try:
        deeper()
    except BaseException as x:
        return x


def attr(o, n):
    try:
        return ("ok", getattr(o, n))
    except AttributeError:
        return ("AttributeError",)


def fn_wrap(case):
    kind, base, msg, cause, again = case
    e = raised(make(kind), cause)
    bases = BASES[base]
    extra = {"added": [1], "tag2": "t"}
    w = e
    for _ in range(2 if again else 1):
        w = wrap_exception(w, bases=bases if w is e else None, wrap_name="W" if w is e else None, message=msg, attr_dict=dict(extra))
    assert w is not e and isinstance(w, type(e)) and isinstance(w, BaseException), type(w).__mro__
    for c in type(e).__mro__:
        assert isinstance(w, c)
    for b in bases or ():
        assert isinstance(w, b) and issubclass(type(w), b)
    assert not isinstance(make("value" if kind != "value" else "key"), type(w))
    for n in ATTRS:
        have, want = attr(w, n), attr(e, n)
        if want[0] == "ok" and callable(want[1]):
            continue
        assert have == want, "attribute %s is %r instead of %r" % (n, have, want)
    assert w.added == [1] and w.tag2 == "t"
    if not again:
        assert type(w).__wrapname__ == "W"
    assert w.__wrapped__ is e or again
    if base != "none":
        assert w.tag == "mark" and w.hello() == ("hello", e.args)
    if kind == "texty":
        assert w.method(3) == e.method(3)
    assert type(w).__name__ == type(e).__name__ and type(w).__module__ == type(e).__module__
    if msg:
        assert str(w) == msg
    elif base != "two":
        assert str(w) == str(e), (str(w), str(e))
    assert w.__cause__ is e.__cause__ and w.__context__ is e.__context__ and w.__suppress_context__ == e.__suppress_context__
    assert w.__traceback__ is not None and [f.name for f in traceback.extract_tb(w.__traceback__)] == [f.name for f in traceback.extract_tb(e.__traceback__)]
    # it can be raised and caught as either type
    for t in (type(e),) + tuple(b for b in bases or () if issubclass(b, BaseException)):
        try:
            raise w
        except t as x:
            assert x is w
    # setting what the original stores is seen on both
    if kind == "os":
        w.filename = "other"
        assert w.filename == "other"
    return {"outcome": (kind, base, bool(msg)), "transitions": len(ATTRS)}


# ------------------------------------------------- clusters on wildcard addresses
class Act(xo.Actor):
    def __init__(self, n=0):
        self.n = n

    async def sleep(self, t):
        await asyncio.sleep(t)

    def where(self):
        return self.address

    def add(self, k):
        self.n += k
        return self.n


async def far(w, wild, n_process):
    """a cluster listening on a wildcard address and a client on another host"""
    await w.start_pool("%s:10000" % wild, n_process=n_process)
    w.loop.can_connect = lambda name, key: not (name == "C" and is_wild(key[0]))
    return "192.168.0.7" if "." in wild else "fe80::7"


def case_far(case):
    wild, n_process, how = case

    async def main(w):
        host = await far(w, wild, n_process)
        top = "%s:10000" % host
        strat = {"plain": {}, "idle": {"allocate_strategy": st.RandomSubPool() if n_process else st.MainPool()}, "label": {"allocate_strategy": st.MainPool()}, "index": {"allocate_strategy": st.ProcessIndex(n_process)}}[how]
        refs = [await xo.create_actor(Act, 10, uid=b"a", address=top, **strat)]
        refs.append(await xo.actor_ref(refs[0].address, b"a"))
        refs.append(await xo.actor_ref(top, b"a"))
        refs.append(await xo.actor_ref(refs[0]))
        out = []
        for i, r in enumerate(refs):
            h, _, port = r.address.rpartition(":")
            assert h == host, "reference %d names %s" % (i, r.address)
            o = await outcome(r.add(1))
            assert o == ("ok", 11 + i), o
            o = await outcome(r.where())
            assert o[0] == "ok" and o[1].rpartition(":")[2] == port, (o, r.address)
            assert await xo.has_actor(r)
            out.append(r.address)
        assert refs[0] == refs[1] == refs[2] == refs[3] or how != "plain", refs
        # a reference handed back is the actor itself again
        b = await xo.create_actor(Act, 0, uid=b"b", address=refs[0].address)
        assert b.address == refs[0].address, b.address
        assert await b.add(5) == 5
        # a call can be cancelled
        t0 = w.loop.time()
        t = asyncio.create_task(outcome(refs[0].sleep(50)))
        await asyncio.sleep(1)
        t.cancel()
        assert await t == ("CancelledError", "")
        assert w.loop.time() - t0 < 45, "the call was not cancelled"
        await xo.destroy_actor(refs[1])
        assert not await xo.has_actor(refs[0])
        await xo.wait_actor_pool_recovered(refs[0].address)
        if refs[0].address == top:
            assert (await outcome(xo.kill_actor(b)))[0] == "ValueError"
        else:
            await xo.kill_actor(b)
            await xo.wait_actor_pool_recovered(refs[0].address, top)
            assert await b.add(5) == 5, "the sub pool was not restarted"
        conf = await xo.get_pool_config(top)
        assert len(conf.get_external_addresses()) == n_process + 1
        return out

    return run_world(main)


def case_near(case):
    """references of a cluster on a real address stay as they are; clients of a local wildcard cluster too"""
    addr, n_process, connect = case

    async def main(w):
        await w.start_pool("%s:10000" % addr, n_process=n_process)
        r = await xo.create_actor(Act, 1, uid=b"a", address="%s:10000" % connect)
        want = addr if addr == connect or not is_wild(addr) else connect
        assert r.address == "%s:10000" % want, r.address
        r2 = await xo.actor_ref("%s:10000" % connect, b"a")
        assert r2.address == r.address, r2.address
        assert await r2.add(1) == 2
        return r.address

    return run_world(main)


def far_fault(wild, what):
    async def main(w):
        host = await far(w, wild, 2)
        top = "%s:10000" % host
        w.begin()
        t = asyncio.create_task(xo.create_actor(Act, 1, uid=b"a", address=top, allocate_strategy=st.ProcessIndex(1)))
        u = asyncio.create_task(outcome(xo.create_actor(Act, 2, uid=b"b", address=top)))
        if what == "kill":
            fault(w, "kill", lambda: proc(w, "M1").kill(-9, reset=True))
        else:
            fault(w, "cancel", t.cancel)
        o, p = await outcome(t), await u
        if o[0] == "ok" and not w.hit:
            assert o[1].address.startswith(host + ":")
            assert (await outcome(o[1].add(1))) == ("ok", 2) or w.hit
        if o[0] != "ok":
            assert w.hit, o
        assert p[0] == "ok" and p[1].address == top and await p[1].add(1) == 3, p
        w.end()
        return o[0], p[0]

    return main


def run(ctx):
    th = ctx.thorough
    v6 = [(z, v) for z in range(256) for v in VALUES if z or v == 1]
    hosts = ["0.0.0.0", "127.0.0.1", "10.0.0.0", "0.0.0.0.example", "0.0.0.1", "1.0.0.0", "0.1.0.0", "100.0.0.0", "0.0.0.10", "some-host", "a0.0.0.0", "localhost", "0:0:0:0:0", "000:0:0", "::0:0", "0::", "fe80::1%eth0", "fe80::%lo", "0:0:0:0:0:1"]
    nums = ["0", "1", "2", "10", "1.5", "0.1", ".5", "5.", "123.456", "-1", "-0.25", "1023", "1024", "007", "99999999", "0.0009765625", "4503599627370497.5"]
    sizes = list(itertools.product(nums, ["", "k", "m", "g", "t"], [""], ["", " ", "  "], ["", " "], [False, True]))
    sizes += list(itertools.product(nums, ["k", "m", "g", "t"], ["b", "ib", "b "], ["", " "], [""], [False, True]))
    retry = []
    for n in range(1, 7 if th else 6):
        for s in itertools.product("123", repeat=n - 1):
            s = "".join(s) + "v"
            for limit in list(range(1, n + 2)) + [-1]:
                if limit > n:
                    continue
                for ex in (Exception, E1, E2, (E2, E3)):
                    if n < 5 or ex in (Exception, E1):
                        for how in ("sync", "async", "lazy") if n < 5 else ("sync", "async"):
                            retry.append((s, limit, ex, how))
    wraps = list(itertools.product(KINDS_EXC, BASES, (None, "other text"), (False, True), (False, True)))
    fars = [(x, n, how) for x in ("0.0.0.0", "::") for n in (0, 1, 2) for how in ("plain", "idle", "label", "index")]
    nears = [(a, n, c) for n in (0, 1) for a, c in (("127.0.0.1", "127.0.0.1"), ("0.0.0.0", "0.0.0.0"), ("::", "::"), ("::", "fe80::7"), ("0.0.0.0", "127.0.0.1"))]
    ctx.enumerate(
        {
            "v6": (v6, fn_v6),
            "hosts": (hosts, fn_host),
            "size": (sizes, fn_size),
            "percent": (list(itertools.product(nums, ["", " "], ["", " "])), fn_percent),
            "number": ([0, 1, -1, 0.5, 2**40, 1e20, True], fn_number),
            "no-size": (["", " ", "k", "x", "5x", "1.2.3", "1-2", "--1", "5 x", "12p", "-", ".", "1..", "x5", "k5", "%", "1.2.3%"], fn_nosize),
            "retry": (retry, fn_retry),
            "retry-cancel": ([(n, wt) for n in range(4) for wt in (False, True)], fn_retry_cancel),
            "wrap": (wraps, fn_wrap),
            "far": (fars, case_far),
            "near": (nears, case_near),
        }
    )
    ctx.explore([Scenario("far-%s-%s" % (what, "4" if "." in x else "6"), far_fault(x, what), bound=1, bound_thorough=3) for x in ("0.0.0.0", "::") for what in ("kill", "cancel")])
