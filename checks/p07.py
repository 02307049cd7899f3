"""P07: errors reach exactly the caller they belong to, with type, message and attributes."""
import abc
import asyncio
import json

import xoscar as xo
from vlib.explore import Scenario
from vlib.scen import CLOSED, LOG, fault, outcome, proc, run_world
from xoscar.core import ActorRef
from xoscar.serialization.core import Serializer

RULE = (
    "a case is (exception, place where it is raised, route of the call), or (unserialisable value, position, route); "
    "a schedule is one execution of a driver mixing such a call with good ones; distinct: distinct outcomes"
)
ASSUMPTIONS = [
    "StopIteration and StopAsyncIteration are not raised from coroutines: Python turns them into RuntimeError itself",
    "SystemExit and KeyboardInterrupt are not raised by actors: asyncio itself ends the process on them",
    "exceptions whose own pickling is impossible cannot arrive as their type; such a call must fail with an error that says so",
]
PI = xo.allocate_strategy.ProcessIndex


class Custom(Exception):
    def __init__(self, a, *, b=None):
        super().__init__(a)
        self.a = a
        self.b = b


class ManyArgs(Exception):
    def __init__(self, a, b, c):
        super().__init__(a, b, c)
        self.extra = [a, b]


class NoArgs(Exception):
    """keeps nothing in args"""

    def __init__(self, x=None):
        super().__init__()
        self.x = x

    def __str__(self):
        return "NoArgs(%s)" % self.x


class New(Exception):
    """customised __new__"""

    def __new__(cls, a, b):
        self = super().__new__(cls, a, b)
        self.z = b
        return self

    def __init__(self, a, b):
        super().__init__(a, b)


class Slots(Exception):
    __slots__ = ("q",)

    def __init__(self, q):
        super().__init__(q)
        self.q = q


class Prop(ValueError):
    def __init__(self, x):
        super().__init__(x)
        self._x = x

    @property
    def double(self):
        return self._x * 2

    def shout(self):
        return "%s!" % self._x


class Meta(type):
    pass


class WithMeta(Exception, metaclass=Meta):
    pass


class Abstract(Exception, abc.ABC):
    def __init__(self, m):
        super().__init__(m)
        self.m = m


class OSsub(OSError):
    def __init__(self, x):
        super().__init__(5, x)
        self.x = x

    def __reduce__(self):
        return OSsub, (self.x,)


class Mixed(KeyError, AttributeError):
    pass


class GetAttr(Exception):
    def __getattr__(self, item):
        if item.startswith("dyn_"):
            return item[4:]
        raise AttributeError(item)


class Eq(Exception):
    def __eq__(self, other):
        raise RuntimeError("compared")

    __hash__ = None

    def __bool__(self):
        return False


def caused():
    try:
        try:
            raise KeyError("inner")
        except KeyError as e:
            raise ValueError("outer") from e
    except ValueError as e:
        return e


def noted():
    e = ValueError("noted")
    e.add_note("a note")
    return e


EXC = {
    "ValueError": lambda: ValueError("v", 1),
    "KeyError": lambda: KeyError("k"),
    "Exception": lambda: Exception(),
    "FileNotFoundError": lambda: FileNotFoundError(2, "nf", "fn"),
    "OSError": lambda: OSError(28, "full"),
    "ConnectionResetError": lambda: ConnectionResetError(104, "reset"),
    "ConnectionError": lambda: ConnectionError("user's"),
    "BrokenPipeError": lambda: BrokenPipeError(32, "pipe"),
    "EOFError": lambda: EOFError("eof"),
    "TimeoutError": lambda: asyncio.TimeoutError("t"),
    "UnicodeDecodeError": lambda: UnicodeDecodeError("utf8", b"abc", 1, 2, "bad"),
    "ImportError": lambda: ImportError("im", name="n"),
    "SyntaxError": lambda: SyntaxError("syn", ("f", 1, 2, "t")),
    "AttributeError": lambda: AttributeError("at"),
    "NameError": lambda: NameError("n"),
    "JSONDecodeError": lambda: json.JSONDecodeError("msg", "doc", 1),
    "IncompleteReadError": lambda: asyncio.IncompleteReadError(b"ab", 4),
    "InvalidStateError": lambda: asyncio.InvalidStateError("s"),
    "ExceptionGroup": lambda: ExceptionGroup("g", [ValueError(1), KeyError(2)]),
    "GeneratorExit": lambda: GeneratorExit("g"),
    "NotImplementedError": lambda: NotImplementedError("ni"),
    "RecursionError": lambda: RecursionError("deep"),
    "AssertionError": lambda: AssertionError("as"),
    "Custom": lambda: Custom("c", b=[1, 2]),
    "ManyArgs": lambda: ManyArgs(1, "2", None),
    "NoArgs": lambda: NoArgs(4),
    "New": lambda: New("a", "b"),
    "Slots": lambda: Slots(3),
    "Prop": lambda: Prop("5"),
    "WithMeta": lambda: WithMeta("m"),
    "Abstract": lambda: Abstract("m"),
    "OSsub": lambda: OSsub("xx"),
    "Mixed": lambda: Mixed("mm"),
    "GetAttr": lambda: GetAttr("ga"),
    "Eq": lambda: Eq("eq"),
    "caused": caused,
    "noted": noted,
    "ServerClosed": lambda: xo.ServerClosed("user's"),
    "ActorNotExist": lambda: xo.ActorNotExist("user's"),
    "CancelledError": lambda: asyncio.CancelledError("c"),
}
PLACES = ("sync", "async", "late", "nolock", "ext", "batch", "batchsingle", "init", "post", "pre", "receive", "yield", "gen", "nested", "task")
ROUTES = ("main", "sub", "via-main", "internal", "sub-sub", "local", "relay", "relay-sub", "client-proxy")


def boom(which):
    raise EXC[which]()


class T(xo.Actor):
    def __init__(self, init=None, post=None, pre=None):
        super().__init__()
        self.post, self.pre = post, pre
        if init:
            boom(init)

    async def __post_create__(self):
        await super().__post_create__()
        if self.post:
            boom(self.post)

    async def __pre_destroy__(self):
        await super().__pre_destroy__()
        if self.pre:
            boom(self.pre)

    def sync(self, which):
        boom(which)

    async def nosuspend(self, which):
        boom(which)

    async def late(self, which):
        await asyncio.sleep(0.01)
        boom(which)

    @xo.no_lock
    async def nolock(self, which):
        await asyncio.sleep(0)
        boom(which)

    @xo.extensible
    async def ext(self, which):
        boom(which)

    @xo.extensible
    async def bat(self, which):
        boom("ValueError")

    @bat.batch
    async def bat(self, args, kws):
        boom(args[0][0])

    async def yielding(self, which):
        try:
            yield self.nosuspend_free(which)
        except BaseException as e:
            self.seen = type(e).__name__
            raise
        yield 1

    async def nosuspend_free(self, which):
        await asyncio.sleep(0)
        boom(which)

    async def gen(self, which):
        yield asyncio.sleep(0)
        boom(which)

    async def nest(self, which):
        try:
            raise IndexError("context")
        except IndexError:
            boom(which)

    async def task(self, which):
        await asyncio.create_task(self.nosuspend_free(which))

    def good(self, x):
        return x


class R(T):
    async def __on_receive__(self, message):
        if message[0] == "special":
            boom(message[2][0])
        return await super().__on_receive__(message)


class Relay(xo.StatelessActor):
    async def go(self, how, target, which, **kw):
        return await call(how, target, which, **kw)

    async def create(self, **kw):
        return await xo.create_actor(T, **kw)

    async def catch(self, how, target, which, **kw):
        """errors seen by an actor are returned, not raised"""
        try:
            await call(how, target, which, **kw)
        except BaseException as e:
            return ("raised", describe(e))


async def call(how, ref, which, addr=None, idx=0):
    if how == "sync":
        return await ref.sync(which)
    if how == "async":
        return await ref.nosuspend(which)
    if how in ("late", "nolock", "gen", "task", "ext"):
        return await getattr(ref, how)(which)
    if how == "batch":
        return await ref.bat.batch(ref.bat.delay(which), ref.bat.delay("KeyError"))
    if how == "batchsingle":
        return await ref.ext.batch(ref.ext.delay(which), ref.ext.delay(which))
    if how == "yield":
        return await ref.yielding(which)
    if how == "nested":
        return await ref.nest(which)
    if how == "receive":
        return await ref.special(which)
    if how == "init":
        return await xo.create_actor(T, which, address=addr, uid="n", allocate_strategy=PI(idx))
    if how == "post":
        return await xo.create_actor(T, None, which, address=addr, uid="n", allocate_strategy=PI(idx))
    if how == "pre":
        return await xo.destroy_actor(ref)
    raise KeyError(how)


def attr_names(e):
    return dir(type(e)) + list(getattr(e, "__dict__", ()))


def attrs(e, names=None):
    out = {}
    for k in names or attr_names(e):
        if k.startswith("_") or k in ("args", "with_traceback", "add_note", "address", "pid", "characters_written"):
            continue
        try:
            v = getattr(e, k)
        except AttributeError:
            continue
        if callable(v):
            v = v() if k == "shout" else None
        out[k] = repr(v)
    return out


def describe(e):
    return e


def matches(which, e, addr=None):
    o = EXC[which]()
    if which == "CancelledError":
        return None if isinstance(e, asyncio.CancelledError) else "a cancellation arrived as %r" % (e,)
    if not isinstance(e, type(o)):
        return "%s arrived as %s: %s" % (type(o).__name__, [c.__name__ for c in type(e).__mro__], e)
    if str(o) not in str(e):
        return "message %r arrived as %r" % (str(o), str(e))
    if repr(e.args) != repr(o.args):
        return "args %r arrived as %r" % (o.args, e.args)
    a, b = attrs(o), attrs(e, attr_names(o))
    for k in a:
        if a[k] != b.get(k):
            return "attribute %s of %s is %s, was %s" % (k, which, b.get(k), a[k])
    if which == "GetAttr" and e.dyn_x != "x":
        return "dynamic attribute lost"
    if which == "noted" and e.__notes__ != ["a note"]:
        return "note lost"
    if addr is not None:
        if getattr(e, "address", None) != addr or "address=%s" % addr not in str(e):
            return "the pool %s is not named: %r %s" % (addr, getattr(e, "address", None), e)
        if str(e).count("address=") != 1:
            return "pool named more than once: %s" % e
        if not isinstance(e.pid, int):
            return "no pid: %r" % (e.pid,)
    return None


async def cluster(w, n=2):
    pool = await w.start_pool(n_process=n)
    addr = pool.external_address
    subs = [pool._config.get_pool_config(i)["external_address"][0] for i in pool._config.get_process_indexes()]
    return pool, addr, subs


def type_case(case):
    which, place, route = case

    async def main(w):
        cls = R if place == "receive" else T
        kw = {"pre": which} if place == "pre" else {}
        pool, addr, subs = await cluster(w)
        idx = {"main": 0, "sub": 1, "via-main": 1, "internal": 1, "sub-sub": 2, "local": 0, "relay": 1, "relay-sub": 2, "client-proxy": 1}[route]
        want = subs[idx]
        t = await xo.create_actor(cls, address=addr, uid="t", allocate_strategy=PI(idx), **kw)
        extra = {"addr": addr, "idx": idx} if place in ("init", "post") else {}
        if route == "via-main":
            t = ActorRef(addr, b"t")
        elif route == "client-proxy":
            pool2 = await w.start_pool(n_process=0, name="P")
            t = ActorRef(t.address, t.uid, proxy_addresses=[pool2.external_address])
        err = None
        try:
            if route in ("main", "sub", "via-main", "client-proxy"):
                r = await xo.wait_for(call(place, t, which, **extra), 60)
            else:
                ridx = {"internal": 0, "sub-sub": 1, "local": 0, "relay": 0, "relay-sub": 1}[route]
                rel = await xo.create_actor(Relay, address=addr, uid="r", allocate_strategy=PI(ridx))
                if route.startswith("relay"):
                    r = await xo.wait_for(rel.go(place, t, which, **extra), 60)
                else:
                    r = await xo.wait_for(rel.go(place, t, which, **extra), 60)
        except BaseException as e:
            err = e
        assert err is not None, "no error, result %r" % (r,)
        # an exception raised within the pool of the caller names that pool as well
        bad = matches(which, err, want)
        assert bad is None, bad
        if place not in ("pre",):
            for ref in (t,):
                o = await outcome(xo.wait_for(ref.good("z"), 60))
                assert o == ("ok", "z"), "afterwards %r" % (o,)
        return type(err).__name__, str(err)

    return run_world(main)


async def batch_local(w):
    pass


# -- values that do not travel ----------------------------------------------------------------


class CannotDump:
    def __reduce__(self):
        raise TypeError("cannot dump this")


def explode(*a):
    raise ValueError("cannot load this")


class CannotLoad:
    def __reduce__(self):
        return explode, (1,)


class DumpExc(Exception):
    def __init__(self, x):
        super().__init__(x)

    def __reduce__(self):
        raise TypeError("cannot dump this")


class LoadExc(Exception):
    def __reduce__(self):
        return explode, (1,)


class WrongArity(Exception):
    """a very common mistake: args do not match the constructor"""

    def __init__(self, a, b):
        super().__init__("cannot load this %s %s" % (a, b))


class BadActor(xo.Actor):
    """the class itself cannot be restored"""


class V(xo.StatelessActor):
    async def ret(self, what):
        LOG.append("ret")
        return BAD[what]()

    async def arg(self, x, y=None):
        LOG.append("arg")
        return "arrived"

    async def exc(self, what):
        LOG.append("exc")
        raise {"dump": DumpExc, "load": LoadExc}.get(what, lambda a: WrongArity(1, 2))("x")

    async def fwd(self, how, ref, what):
        LOG.append("fwd")
        if how == "arg":
            return await ref.arg(BAD[what]())
        return await getattr(ref, how)(what)

    async def good(self, x, delay=0):
        await asyncio.sleep(delay)
        return x

    @xo.extensible
    async def e(self, x):
        return x

    def tell_me(self, x):
        LOG.append("told")


BAD = {
    "dump": CannotDump,
    "load": CannotLoad,
    "dump-nested": lambda: {"a": [1, (CannotDump(),)]},
    "load-nested": lambda: {"a": [1, (CannotLoad(),)]},
    "lock": lambda: __import__("threading").Lock(),
    "generator": lambda: [(i for i in range(3))],
    "load-cancel": lambda: LoadCancel(),
    "load-conn": lambda: LoadConn(),
    "load-eof": lambda: LoadEOF(),
    "own-dump": lambda: Own("dump"),
    "own-load": lambda: Own("load"),
    "own-buffer": lambda: [1, Own("buffer"), b"x"],
}


class Own:
    """has a serializer of its own"""

    def __init__(self, how):
        self.how = how


class OwnSerializer(Serializer):
    def serial(self, obj, context):
        if obj.how == "dump":
            raise ValueError("cannot serialize this")
        return (obj.how,), ["not a buffer"] if obj.how == "buffer" else [], True

    def deserial(self, serialized, context, subs):
        raise ValueError("cannot deserialize this")


OwnSerializer.register(Own)


def raise_conn(*a):
    raise ConnectionResetError("cannot load this")


def raise_eof(*a):
    raise EOFError("cannot load this")


def raise_type(*a):
    raise WrongArity(1, 2)


class LoadConn:
    def __reduce__(self):
        return raise_conn, ()


class LoadEOF:
    def __reduce__(self):
        return raise_eof, ()


class LoadCancel:
    def __reduce__(self):
        return raise_type, ()


def says(what, o):
    """the failure says what went wrong"""
    assert o[0] != "ok", "a value that does not travel arrived: %r" % (o,)
    assert o[0] != "TimeoutError", "the call never ended"
    return o


async def bad_call(ref, pos, what):
    if pos == "arg":
        return await ref.arg(BAD[what]())
    if pos == "kwarg":
        return await ref.arg(1, y=BAD[what]())
    if pos == "tell":
        return await ref.arg.tell(BAD[what]())
    if pos == "batch":
        return await ref.e.batch(ref.e.delay(1), ref.e.delay(BAD[what]()))
    if pos == "ret":
        return await ref.ret(what)
    if pos == "exc":
        return await ref.exc(what)
    if pos == "create":
        return await xo.create_actor(T, BAD[what](), address=ref.address, uid="new")
    raise KeyError(pos)


async def vmk(w):
    pool, addr, subs = await cluster(w)
    out = []
    for i in range(3):
        out.append(await xo.create_actor(V, address=addr, uid="v%d" % i, allocate_strategy=PI(i)))
    return pool, addr, out


def value_case(case):
    what, pos, route = case

    async def main(w):
        pool, addr, v = await vmk(w)
        if route == "sub":
            t = v[1]
        elif route == "main":
            t = v[0]
        elif route == "via-main":
            t = ActorRef(addr, b"v1")
        elif route == "proxy":
            pool2 = await w.start_pool(n_process=0, name="P")
            t = ActorRef(v[1].address, v[1].uid, proxy_addresses=[pool2.external_address])
        good = [outcome(t.good("g%d" % i, 0.2 * i)) for i in range(2)]
        bad = outcome(xo.wait_for(bad_call(t, pos, what), 60))
        r = await asyncio.gather(good[0], bad, good[1], outcome(v[2].good("other", 0.1)))
        assert r[0] == ("ok", "g0") and r[2] == ("ok", "g1") and r[3] == ("ok", "other"), "other calls disturbed: %r" % (r,)
        if pos == "tell":
            # nobody waits for the result; sending may fail at once
            assert r[1][0] != "TimeoutError", r
        elif route == "main-local":
            pass
        else:
            says(what, r[1])
            assert "cannot" in r[1][1] or "pickle" in r[1][1] or "erializ" in r[1][1] or "missing 1 required" in r[1][1] or "bytes-like" in r[1][1], "error does not say what failed: %r" % (r[1],)
            assert r[1][0] not in CLOSED or what in ("load-conn", "load-eof"), "only the call should fail, not the connection: %r" % (r[1],)
        # each connection keeps working
        n = w.loop.listeners
        for ref in (t, v[0], v[1], v[2]):
            o = await outcome(xo.wait_for(ref.good("z"), 60))
            assert o == ("ok", "z"), o
        return r

    return run_world(main)


def value_cases():
    for what in BAD:
        for pos in ("arg", "kwarg", "tell", "batch", "ret", "create"):
            for route in ("main", "sub", "via-main", "proxy"):
                if pos == "create" and route != "main":
                    continue
                yield what, pos, route
    for what in ("dump", "load", "arity"):
        for route in ("main", "sub", "via-main", "proxy"):
            yield what, "exc", route


# -- schedules ----------------------------------------------------------------------------------


def mixed(pos, what, route):
    """a failing call among good ones on the same connections"""

    async def main(w):
        pool, addr, v = await vmk(w)
        t = {"sub": v[1], "via-main": ActorRef(addr, b"v1")}[route]
        await v[1].good(0)
        w.begin()
        r = await asyncio.gather(
            outcome(t.good("1", 0.1)),
            outcome(bad_call(t, pos, what)),
            outcome(t.good("2")),
            outcome(v[0].fwd("good", v[1], "3")),
        )
        w.end()
        assert r[0] == ("ok", "1") and r[2] == ("ok", "2") and r[3] == ("ok", "3"), "other calls disturbed: %r" % (r,)
        if pos != "tell":
            says(what, r[1])
        for ref in (t, v[1]):
            assert await outcome(xo.wait_for(ref.good("z"), 60)) == ("ok", "z")
        return [o[0] for o in r]

    return main


def cancelled(pos, what, route):
    """the failing call is cancelled while its failure is on its way"""

    async def main(w):
        pool, addr, v = await vmk(w)
        t = {"sub": v[1], "via-main": ActorRef(addr, b"v1")}[route]
        await v[1].good(0)
        if route == "via-main":
            await t.good(0)
        task = asyncio.create_task(bad_call(t, pos, what))
        ev = fault(w, "cancel", task.cancel)
        ev2 = fault(w, "cancel-again", task.cancel)
        w.begin()
        r = await asyncio.gather(outcome(t.good("1", 0.1)), outcome(task), outcome(t.good("2", 0.2)))
        w.end()
        ev.cancel()
        ev2.cancel()
        assert r[0] == ("ok", "1") and r[2] == ("ok", "2"), "other calls disturbed: %r" % (r,)
        assert r[1][0] != "ok", r
        for ref in (t, v[1]):
            assert await outcome(xo.wait_for(ref.good("z"), 60)) == ("ok", "z")
        return [o[0] for o in r]

    return main


async def own_errors(w):
    """concurrent failing calls: each caller gets its own error"""
    pool, addr, subs = await cluster(w)
    a = await xo.create_actor(T, address=addr, uid="a", allocate_strategy=PI(1))
    rel = await xo.create_actor(Relay, address=addr, uid="r", allocate_strategy=PI(0))
    await a.good(0)
    kinds = ["ValueError", "Custom", "KeyError", "OSError"]

    async def one(which, via):
        try:
            await (rel.go("late", a, which) if via else a.late(which))
        except BaseException as e:
            return e

    w.begin()
    r = await asyncio.gather(one(kinds[0], False), one(kinds[1], True), one(kinds[2], False), one(kinds[3], True), outcome(a.good("g")))
    w.end()
    assert r[4] == ("ok", "g"), r
    for k, e in zip(kinds, r):
        bad = matches(k, e, subs[1])
        assert bad is None, bad
    return [str(e) for e in r]


async def closing(w):
    """a pool dies while failing calls are pending: ends for everyone"""
    pool, addr, v = await vmk(w)
    await v[1].good(0)
    ev = fault(w, "kill", lambda: proc(w, "M1").kill())
    w.begin()
    r = await asyncio.gather(
        outcome(v[1].good("1", 0.1)), outcome(bad_call(v[1], "ret", "load")), outcome(bad_call(v[1], "exc", "load")), outcome(v[1].good("2"))
    )
    w.end()
    ev.cancel()
    for o, want in ((r[0], "1"), (r[3], "2")):
        assert o == ("ok", want) or (w.hit and o[0] in CLOSED), r
    says("load", r[1])
    says("load", r[2])
    return [o[0] for o in r]


def scenarios():
    out = [
        Scenario("own-errors", own_errors, bound=2),
        Scenario("closing", closing, bound=2),
    ]
    for route in ("sub", "via-main"):
        for pos, what in (("arg", "load"), ("arg", "dump"), ("ret", "load"), ("ret", "dump"), ("exc", "load"), ("tell", "load"), ("batch", "load-nested")):
            out.append(Scenario("mixed-%s-%s-%s" % (pos, what, route), mixed(pos, what, route), bound=2, bound_thorough=3))
        for pos, what in (("arg", "load"), ("ret", "load"), ("ret", "dump"), ("exc", "load")):
            out.append(Scenario("cancelled-%s-%s-%s" % (pos, what, route), cancelled(pos, what, route), bound=2, bound_thorough=3))
    return out


# built-in exceptions that keep their content in C fields only
CFIELDS = ("UnicodeDecodeError", "SyntaxError")


def type_cases(kinds):
    return [
        (x, p, r)
        for x in kinds
        for p in PLACES
        for r in ROUTES
        if not (p in ("init", "post", "pre") and r in ("via-main", "client-proxy"))
        # the methods a local reference offers are those of the class
        and not (p == "receive" and r == "local")
    ]


def cfield_case(case):
    r = type_case(case)
    if r.get("violation"):
        r["tag"] = case[0]
    return r


def run(ctx):
    ctx.enumerate(
        {
            "type": (type_cases([x for x in EXC if x not in CFIELDS]), type_case),
            "cfields": ([(x, p, r) for x in CFIELDS for p in ("sync", "late", "init") for r in ("main", "sub")], cfield_case),
            "value": (list(value_cases()), value_case),
        }
    )
    ctx.explore(scenarios())
