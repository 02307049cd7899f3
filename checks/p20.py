"""P20: every protocol message survives the wire unchanged.

Every message kind with all combinations of small field domains (nested in forwarding messages up to
three deep) goes through the real framing (AioSerializer -> bytes -> AioDeserializer), the plain
serialiser under several hand-over thresholds, and is compared field by field.  Content that cannot
be restored, at every content position and nesting, is reported with the identity of its message."""
import asyncio
import copy
import itertools
import traceback

import cloudpickle
import numpy as np

import xoscar as xo
from xoscar.backends import allocate_strategy as st
from xoscar.backends.context import ProfilingContext
from xoscar.backends.message import (
    ActorRefMessage,
    CancelMessage,
    ControlMessage,
    ControlMessageType,
    CopyToBuffersMessage,
    CopyToFileObjectsMessage,
    CreateActorMessage,
    DeserializeMessageFailed,
    DestroyActorMessage,
    ErrorMessage,
    ForwardMessage,
    HasActorMessage,
    MessageType,
    ResultMessage,
    SendMessage,
    TellMessage,
    new_message_id,
)
from xoscar.core import ActorRef
from xoscar.debug import MessageTraceItem
from xoscar.serialization import AioDeserializer, AioSerializer, deserialize, serialize, serialize_with_spawn

TECHNIQUE = "bounded-exhaustive enumeration of all message kinds, field combinations and nestings on the real wire format"
NOTE = "Exhaustive over the stated field domains; values inside content are the subject of P17 and P18."


class Unreadable:
    """can be sent but not restored"""

    def __init__(self, what="boom"):
        self.what = what

    def __reduce__(self):
        return _fail, (self.what,)


def _fail(what):
    raise KeyError("unreadable " + what)


class UnreadableError(Exception):
    def __init__(self, a, b):
        super().__init__(a)


class Unwritable:
    def __reduce__(self):
        raise ValueError("unwritable")


class SomeActor(xo.Actor):
    pass


class Arg:
    def __init__(self, v):
        self.v = v


def tb():
    try:
        raise ValueError("inner")
    except ValueError as e:
        return e.__traceback__


TB = tb()
FIELDS = {
    ControlMessage: ("address", "control_message_type", "content"),
    ResultMessage: ("result",),
    ErrorMessage: ("address", "pid", "error_type", "error", "traceback"),
    CreateActorMessage: ("actor_cls", "actor_id", "args", "kwargs", "allocate_strategy", "from_main"),
    DestroyActorMessage: ("actor_ref", "from_main"),
    HasActorMessage: ("actor_ref",),
    ActorRefMessage: ("actor_ref",),
    SendMessage: ("actor_ref", "content"),
    TellMessage: ("actor_ref", "content"),
    CancelMessage: ("address", "cancel_message_id"),
    CopyToBuffersMessage: ("content",),
    CopyToFileObjectsMessage: ("content",),
    ForwardMessage: ("address", "raw_message"),
}
KIND = {
    ControlMessage: 0, ResultMessage: 1, ErrorMessage: 2, CreateActorMessage: 3, DestroyActorMessage: 4,
    HasActorMessage: 5, ActorRefMessage: 6, SendMessage: 7, TellMessage: 8, CancelMessage: 9,
    CopyToBuffersMessage: 10, CopyToFileObjectsMessage: 11, ForwardMessage: 12,
}
BASE = ("message_id", "protocol", "message_trace", "profiling_context")
WITH_PROFILE = (ResultMessage, SendMessage, TellMessage)
N = len(KIND)


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and (a == b).all()
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    if isinstance(a, ActorRef):
        return (a.address, a.uid, a.proxy_addresses) == (b.address, b.uid, b.proxy_addresses)
    if isinstance(a, BaseException):
        return same(a.args, b.args) and same(a.__cause__, b.__cause__)
    if isinstance(a, Arg):
        return same(a.v, b.v)
    if type(a) in FIELDS:
        return not differences(a, b)
    if isinstance(a, st.AllocateStrategy):
        names = [n for c in type(a).__mro__ for n in ([c.__dict__["__slots__"]] if isinstance(c.__dict__.get("__slots__"), str) else c.__dict__.get("__slots__", ()))]
        return all(same(getattr(a, n), getattr(b, n)) for n in names)
    if type(a).__name__ == "traceback":
        return [(f.name, f.lineno) for f in traceback.extract_tb(a)] == [(f.name, f.lineno) for f in traceback.extract_tb(b)]
    return a == b


def differences(a, b):
    if type(a) is not type(b):
        return ["%s instead of %s" % (type(b).__name__, type(a).__name__)]
    out = []
    if b.message_type.value != KIND[type(a)]:
        out.append("message_type %r" % (b.message_type,))
    for f in BASE + FIELDS[type(a)]:
        if not same(getattr(a, f), getattr(b, f)):
            out.append("%s.%s is %r instead of %r" % (type(a).__name__, f, getattr(b, f), getattr(a, f)))
    return out


REFS = [
    ActorRef("127.0.0.1:1", b"u"),
    ActorRef("h:2", b"", proxy_addresses=["p:1"]),
    ActorRef("unixsocket:///3", b"\0\xff", proxy_addresses=["p:1", "q:2"]),
    ActorRef("0.0.0.0:0", b"x" * 40, proxy_addresses=[]),
]
IDS = [b"", b"i" * 32]
TRACES = [None, [], [MessageTraceItem("u", "a:1", "m")], [MessageTraceItem(b"v", "a:1", "m"), MessageTraceItem(b"w", "b:2", "n")]]
PROFILES = [None, ProfilingContext(task_id="t")]
ADDRS = [None, "", "h:1"]
CONTENT = [
    None, 0, b"", "s", (), ("m", 1, (1, "x"), {}), ("__xoscar_next__", 4, [([1],), None], {"k": np.arange(3)}),
    [REFS[1], {"a": Arg([1])}], np.zeros((2, 0)), Arg(np.arange(2.0)), ValueError("v"), list(range(120)),
]


def contents(kind):
    """positional field combinations of a message kind"""
    if kind is ControlMessage:
        yield from itertools.product(ADDRS, [None, *ControlMessageType], CONTENT)
    elif kind is ResultMessage:
        yield from ((c,) for c in CONTENT)
    elif kind is ErrorMessage:
        cause = ValueError("a", 2)
        cause.__cause__ = KeyError("c")
        errs = [(None, None), (ValueError, ValueError("x", 1)), (KeyError, cause), (asyncio.CancelledError, asyncio.CancelledError())]
        yield from ((a, p, e[0], e[1], t) for a in ADDRS for p in (-1, 0, 1 << 40) for e in errs for t in (None, TB))
    elif kind is CreateActorMessage:
        strategies = [None, st.AddressSpecified("a:1"), st.MainPool(), st.Random(), st.RandomSubPool(), st.ProcessIndex(2), st.RandomLabel("l"), st.RandomLabel(None), st.IdleLabel("l", "m"), st.IdleLabel(None, 3)]
        yield from itertools.product(
            [SomeActor, xo.Actor], [None, b"", b"id"], [None, (), (1, Arg([2])), (np.arange(3), REFS[2])], [None, {}, {"a": 1, "b": b"x"}], strategies, [False, True, None]
        )
    elif kind is DestroyActorMessage:
        yield from itertools.product(REFS, [False, True, None])
    elif kind in (HasActorMessage, ActorRefMessage):
        yield from ((r,) for r in REFS)
    elif kind in (SendMessage, TellMessage):
        yield from itertools.product(REFS, CONTENT)
    elif kind is CancelMessage:
        yield from itertools.product(ADDRS, [None, b"", b"c" * 32])
    elif kind in (CopyToBuffersMessage, CopyToFileObjectsMessage):
        yield from ((c,) for c in CONTENT + [[("addr", b"uid", 0, 4, b"data"), ("addr", b"uid", 4, 0, b"")]])


def build(kind, fields, id=b"i" * 32, trace=None, profile=None):
    kw = {"message_trace": trace}
    if kind in WITH_PROFILE:
        kw["profiling_context"] = profile
    return kind(id, *fields, **kw)


class AioBytes:
    def __init__(self, data):
        self.data, self.pos = data, 0

    async def read(self, n):
        d = self.data[self.pos : self.pos + n]
        self.pos += len(d)
        return d


_LOOP = None


def run_async(coro):
    global _LOOP
    if _LOOP is None:
        _LOOP = asyncio.new_event_loop()
    return _LOOP.run_until_complete(coro)


async def wire(msg):
    return b"".join(bytes(memoryview(b).cast("B")) if memoryview(b).nbytes else b"" for b in await AioSerializer(msg).run())


def check_roundtrip(msg, hows=("wire", "plain")):
    n = 0
    for how in hows:
        if how == "wire":
            out = run_async(_rt(msg))
        elif how == "plain":
            h, b = serialize(msg)
            out = deserialize(cloudpickle.loads(cloudpickle.dumps(h)), b)
        else:
            h, b = run_async(serialize_with_spawn(msg, spawn_threshold=how))
            out = deserialize(cloudpickle.loads(cloudpickle.dumps(h)), b)
        d = differences(msg, out)
        assert not d, "%s: %s" % (how, "; ".join(d))
        n += 1
    return n


async def _rt(msg):
    data = await wire(msg)
    return await AioDeserializer(AioBytes(data + b"rest")).run()


def fn_kinds(case):
    kind, i, base = case
    fields = list(contents(kind))[i]
    n = 0
    for id, trace, profile in base:
        n += check_roundtrip(build(kind, fields, id, trace, profile), ("wire", "plain", 0, 1, 3) if (trace, profile) == (None, None) else ("wire",))
    return {"outcome": kind.__name__, "transitions": n}


def nest(msg, depth, other_id):
    for k in range(depth):
        msg = ForwardMessage(bytes([k]) * 32 if other_id else msg.message_id, ["h:1", None, ""][k], msg, message_trace=TRACES[k % 3])
    return msg


def fn_forward(case):
    kind, i, depth = case
    fields = list(contents(kind))[i]
    n = 0
    for other in (False, True):
        for trace, profile in ((None, None), (TRACES[2], PROFILES[1])):
            n += check_roundtrip(nest(build(kind, fields, b"q" * 32, trace, profile), depth, other), ("wire", 0))
    return {"outcome": (kind.__name__, depth), "transitions": n}


def bad_spots():
    """(kind, fields, what it is) with one unreadable piece of content each"""
    U = Unreadable
    deep = lambda v: {"a": [1, ("x", v)]}
    for w, v in (("plain", U()), ("deep", deep(U())), ("shared", [1, U(), np.arange(2)]), ("big", [list(range(150)), U()])):
        yield ControlMessage, ("h:1", ControlMessageType.sync_config, v), w
        yield ResultMessage, (v,), w
        for pos in range(2):
            args = [(1,), {"k": 2}]
            args[pos] = (v,) if pos == 0 else {"k": v}
            yield CreateActorMessage, (SomeActor, b"u", args[0], args[1], st.MainPool(), False), w + str(pos)
        yield CreateActorMessage, (SomeActor, b"u", (), {}, st.RandomLabel(v), False), w + "strategy"
        yield SendMessage, (REFS[1], ("m", 0, (v,), {})), w
        yield SendMessage, (REFS[1], ("m", 0, (), {"a": v})), w
        yield TellMessage, (REFS[1], ("m", 0, (1, v), {})), w
        yield CopyToBuffersMessage, ([v],), w
        yield CopyToFileObjectsMessage, ([v],), w
    yield ErrorMessage, ("h:1", 1, UnreadableError, UnreadableError(1, 2), TB), "error"
    e = ValueError("x")
    e.args = (U(),)
    yield ErrorMessage, ("h:1", 1, ValueError, e, TB), "error-args"
    yield CreateActorMessage, (U(), b"u", (), {}, None, False), "class"


def fn_bad(case):
    i, depth, other = case
    kind, fields, w = list(bad_spots())[i]
    msg = nest(build(kind, fields, b"m" * 32), depth, other)
    n = 0
    for how in ("wire", "plain"):
        try:
            if how == "wire":
                out = run_async(_rt(msg))
            else:
                h, b = serialize(msg)
                out = deserialize(cloudpickle.loads(cloudpickle.dumps(h)), b)
        except DeserializeMessageFailed as e:
            assert e.message_id == msg.message_id, "reported for %r instead of %r" % (e.message_id, msg.message_id)
            assert e.__cause__ is not None, "the reason is lost"
            if w != "error":
                assert isinstance(e.__cause__, KeyError), "the reason is %r" % (e.__cause__,)
        except Exception as e:  # noqa
            raise AssertionError("%s %s (%s): reported as %r without the identity of the message" % (kind.__name__, w, how, e))
        else:
            if kind is ErrorMessage:
                # an exception that cannot be restored may be replaced
                assert out.message_id == msg.message_id
            else:
                raise AssertionError("unreadable content arrived as %r" % (out,))
        n += 1
    return {"outcome": (kind.__name__, w), "transitions": n}


def fn_stream(case):
    """unreadable messages between others on one stream: the others are not touched"""
    kinds = case
    spots = list(bad_spots())
    msgs = []
    for n, k in enumerate(kinds):
        if k < 0:
            kind, fields, _ = spots[~k]
        else:
            kind = list(KIND)[k]
            fields = list(contents(kind))[n % 3]
        msgs.append((k < 0, build(kind, fields, bytes([n]) * 32)))

    async def go():
        data = b""
        for _, m in msgs:
            data += await wire(m)
        f = AioBytes(data)
        for bad, m in msgs:
            try:
                out = await AioDeserializer(f).run()
            except DeserializeMessageFailed as e:
                assert bad and e.message_id == m.message_id, (bad, e.message_id, m.message_id)
            else:
                assert not bad or isinstance(m, ErrorMessage)
                if not bad:
                    d = differences(m, out)
                    assert not d, d
        assert f.pos == len(data)

    run_async(go())
    return {"outcome": [b for b, _ in msgs], "transitions": len(msgs)}


def fn_share(case):
    """one object in two places of a message is still one object, messages do not influence each other"""
    kind = case
    shared = [1, Arg([2])]
    if kind == "create":
        m = CreateActorMessage(b"m", SomeActor, b"u", (shared, shared), {"k": shared}, None)
        get = lambda m: (m.args[0], m.args[1], m.kwargs["k"])
    elif kind == "send":
        m = SendMessage(b"m", REFS[0], ("f", 0, (shared,), {"k": shared}))
        get = lambda m: (m.content[2][0], m.content[3]["k"])
    else:
        m = ResultMessage(b"m", (shared, {"k": shared}))
        get = lambda m: (m.result[0], m.result[1]["k"])
    for depth in (0, 1, 2):
        x = nest(m, depth, True)
        first = None
        for _ in range(2):
            out = run_async(_rt(x))
            while isinstance(out, ForwardMessage):
                out = out.raw_message
            objs = get(out)
            assert all(o is objs[0] for o in objs), "sharing lost"
            assert objs[0] is not shared and objs[0] is not first and same(objs[0], shared)
            first = objs[0]
    return {"outcome": kind, "transitions": 6}


def fn_ids(case):
    """message identities do not repeat, in one process or in a forked one"""
    n = case
    import os

    seen = {new_message_id() for _ in range(n)}
    assert len(seen) == n and all(len(i) == 32 for i in seen)
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            from xoscar._utils import reset_id_random_seed

            reset_id_random_seed()  # what a starting sub pool does
            os.write(w, b"".join(new_message_id() for _ in range(64)))
        finally:
            os._exit(0)
    os.close(w)
    data = b""
    while chunk := os.read(r, 65536):
        data += chunk
    os.close(r)
    os.waitpid(pid, 0)
    other = {data[i : i + 32] for i in range(0, len(data), 32)}
    mine = {new_message_id() for _ in range(64)}
    assert len(other) == 64 and not other & (mine | seen), "two processes use the same identities"
    return {"outcome": n, "transitions": n + 128}


def run(ctx):
    base_full = list(itertools.product(IDS, TRACES, PROFILES))
    base_small = [(IDS[0], None, None), (IDS[1], TRACES[2], PROFILES[1]), (IDS[1], [], None)]
    kinds, fwd = [], []
    for k in FIELDS:
        if k is ForwardMessage:
            continue
        cs = list(contents(k))
        for i in range(len(cs)):
            kinds.append((k, i, base_full if len(cs) < 400 or ctx.thorough else base_small))
            for depth in (1, 2, 3):
                if depth == 1 or i % 5 == 0 or len(cs) < 60 or ctx.thorough:
                    fwd.append((k, i, depth))
    nb = len(list(bad_spots()))
    bad = [(i, d, o) for i in range(nb) for d in range(4) for o in ((False, True) if d else (False,))]
    plain = [0, 1, 7, 9]
    bads = [~i for i in range(0, nb, 4)]
    streams = [list(p) for n in (1, 2, 3) for p in itertools.product(plain + bads[: ctx.pick(5, 20)], repeat=n) if any(x < 0 for x in p)]
    ctx.enumerate(
        {
            "kinds": (kinds, fn_kinds),
            "forward": (fwd, fn_forward),
            "unreadable": (bad, fn_bad),
            "stream": (streams, fn_stream),
            "share": (["create", "send", "result"], fn_share),
            "ids": ([64, 1000, 4096], fn_ids),
        }
    )
