"""P17: serialization restores every object graph exactly."""
import asyncio
import collections
import datetime
import decimal
import enum
import fractions
import io
import itertools
import pathlib
import types
import uuid

import cloudpickle
import numpy as np
import pandas as pd

from vlib.scen import run_world
from xoscar.serialization import AioDeserializer, AioSerializer, deserialize, serialize, serialize_with_spawn
from xoscar.serialization.core import Serializer

TECHNIQUE = "bounded-exhaustive enumeration of object graphs, serialised and restored by the real code, compared by graph isomorphism"
RULE = (
    "a case is one object graph (all graphs of up to three containers of the listed kinds with up to two, resp. three, children each, in every "
    "arrangement of nesting, sharing and cycles; every listed scalar in every position; every size around the thresholds) taken through every mode "
    "(direct, each spawn threshold, pickled header, bytes / bytearray / memoryview buffers, stream reader and writer); distinct: distinct graph shapes"
)
ASSUMPTIONS = [
    "sharing is required between containers and of leaf objects as a whole; an object handled by generic pickling keeps its inner sharing, "
    "but parts of it are not shared with objects outside",
    "a restored memoryview only needs to hold equal bytes",
    "the type of buffers is varied among bytes, bytearray and memoryview",
]


# --- leaf and container types ----------------------------------------------
class Obj:
    def __init__(self, v):
        self.v = v

    def __eq__(self, o):
        return type(o) is Obj and o.v == self.v

    def __hash__(self):
        return hash(self.v)


class Slots:
    __slots__ = ("a", "b")

    def __init__(self, a, b):
        self.a, self.b = a, b

    def __eq__(self, o):
        return type(o) is Slots and (o.a, o.b) == (self.a, self.b)


class Reduced:
    def __init__(self, a, b):
        self.a, self.b = a, b

    def __reduce__(self):
        return Reduced, (self.a, self.b)

    def __eq__(self, o):
        return type(o) is Reduced and (o.a, o.b) == (self.a, self.b)


class State:
    def __init__(self):
        self.x = 1

    def __getstate__(self):
        return {"y": self.x}

    def __setstate__(self, s):
        self.x = s["y"]

    def __eq__(self, o):
        return type(o) is State and o.__dict__ == self.__dict__


class MyStr(str):
    pass


class MyBytes(bytes):
    pass


class MyInt(int):
    pass


class MyFloat(float):
    pass


class MyList(list):
    pass


class MyTuple(tuple):
    pass


class MyDict(dict):
    pass


class InitDict(dict):
    def __init__(self):
        super().__init__()


class KwDict(dict):
    def __init__(self, *a, **k):
        super().__init__(*a, **k)


class Color(enum.Enum):
    RED = 1
    BLUE = "b"


class SColor(str, enum.Enum):
    RED = "red"


class IColor(enum.IntEnum):
    RED = 3


class FColor(enum.Flag):
    A = 1
    B = 2


NT = collections.namedtuple("NT", "a b")
NT0 = collections.namedtuple("NT0", "")


class NTSub(NT):
    def total(self):
        return 1


def func(a):
    return a


def attr(o, **kw):
    for k, v in kw.items():
        setattr(o, k, v)
    return o


def scalars():
    big = 2**200
    out = [
        None, True, False, 0, 1, -1, 255, 256, 2**31 - 1, 2**31, -(2**31), 2**63 - 1, 2**63, -(2**63) - 1, big, -big,
        0.0, -0.0, 1.5, float("inf"), float("-inf"), 5e-324, 1.7976931348623157e308, 1j, complex(-0.0, 2), complex("inf"),
        "", "a", "ä", "\x00", "\U0001f600", "\ud800", "a\udcffb" * 600, b"", b"\x00", b"\xff" * 3,
        datetime.datetime(2020, 1, 2, 3, 4, 5, 6), datetime.datetime(2020, 1, 2, tzinfo=datetime.timezone.utc), datetime.date(1, 1, 1),
        datetime.timedelta(days=-1, microseconds=1), datetime.time(1, 2), datetime.timezone(datetime.timedelta(hours=3)),
        Color.RED, Color.BLUE, SColor.RED, IColor.RED, FColor.A | FColor.B,
        max, len, func, Obj, int, types.SimpleNamespace(a=1), Ellipsis, NotImplemented, range(3), slice(1, 2, 3),
        np.dtype("i4"), np.dtype([("a", "i4"), ("b", "f8")]), np.dtype("datetime64[ns]"), np.float64, np.int8,
        np.int8(-3), np.uint64(2**64 - 1), np.float32(1.5), np.float64(2.5), np.complex64(1j), np.bool_(True), np.float16(1), np.longdouble(1) / 3,
        np.str_("abc"), np.bytes_(b"abc"), np.datetime64("2020-01-01"), np.timedelta64(5, "s"), np.void(b"ab"),
        pd.Timestamp("2020-01-01"), pd.Timestamp("2020-01-01", tz="UTC"), pd.Timedelta("1s"), pd.NaT, pd.NA, pd.Interval(0, 1), pd.Period("2020-01", "M"), pd.Categorical(["a"]),
        decimal.Decimal("1.10"), fractions.Fraction(1, 3), uuid.UUID(int=5), pathlib.PurePosixPath("/a"),
        Obj(1), Obj("x"), Obj([1, [2]]), Slots(1, [2]), Reduced({}, ()), State(), MyStr("s"), MyStr(""), MyStr("s" * 2000), MyBytes(b"b"), MyBytes(b"b" * 2000), MyInt(3), MyFloat(0.5),
        [], (), {}, set(), frozenset(), {1, 2}, frozenset([1, "a"]), {(1, 2)}, bytearray(b""), bytearray(b"abc"), bytearray(b"x" * 3000),
        MyList([1, 2]), MyList(), MyTuple((1, 2)), MyTuple(), MyDict(a=1), MyDict(), KwDict(a=1, b=[2]), KwDict(),
        attr(MyList([1, [2]]), x=1), attr(MyTuple((1, [2])), x=1), attr(MyDict(a=[1]), x=1), attr(KwDict(a=[1]), x=[1]), attr(MyStr("s"), x=1),
        NT(1, 2), NT([1], {}), NT(None, "x" * 2000), NT0(), NTSub(1, [2]),
        collections.OrderedDict([("b", 1), ("a", [2])]), collections.OrderedDict(), collections.defaultdict(list, {"a": [1]}), collections.defaultdict(int),
        collections.defaultdict(None, {"a": 1}), collections.Counter("aab"), collections.Counter(), collections.deque([1, [2]], 5), collections.ChainMap({"a": 1}, {"b": 2}),
        ValueError("x", 1), KeyError("k"), array_(), types.MappingProxyType, memoryview(b"abc").tobytes(),
    ]
    d = InitDict()
    d["a"] = [1]
    out += [d, InitDict()]
    for n in (1, 2, 1022, 1023, 1024, 1025, 4096, 70000):
        out += ["s" * n, "ä" * n, b"b" * n, "\U0001f600" * (n // 4), list(range(n)) if n < 2000 else n, tuple("x" * n) if n < 2000 else n]
    return out


def array_():
    import array

    return array.array("d", [1.0, 2.0])


# --- comparison ------------------------------------------------------------
def same(a, b):
    """None, or how the graphs differ"""
    fwd, back, keep = {}, {}, []
    stack = [(a, b, "x")]
    while stack:
        x, y, path = stack.pop()
        if type(x) is not type(y):
            return "%s: type %s became %s" % (path, type(x).__name__, type(y).__name__)
        ident = not isinstance(x, (int, float, complex, str, bytes, type(None), enum.Enum, type)) and not (type(x) is tuple and not x) and not isinstance(x, NT0)
        ident = ident and not isinstance(x, (frozenset, np.generic, np.dtype, types.FunctionType, types.BuiltinFunctionType))
        if ident:
            if id(x) in fwd:
                if fwd[id(x)] != id(y):
                    return "%s: a shared %s is not shared any more" % (path, type(x).__name__)
                continue
            if id(y) in back:
                return "%s: two %s became one" % (path, type(x).__name__)
            fwd[id(x)] = id(y)
            back[id(y)] = id(x)
            keep.append((x, y))
        if isinstance(x, (list, tuple, collections.deque)):
            if len(x) != len(y):
                return "%s: length %d became %d" % (path, len(x), len(y))
            if isinstance(x, collections.deque) and x.maxlen != y.maxlen:
                return "%s: maxlen" % path
            stack.extend((p, q, "%s[%d]" % (path, i)) for i, (p, q) in enumerate(zip(x, y)))
        elif isinstance(x, dict):
            if len(x) != len(y):
                return "%s: length %d became %d" % (path, len(x), len(y))
            if isinstance(x, collections.defaultdict) and x.default_factory is not y.default_factory:
                return "%s: default factory" % path
            for i, ((k, v), (k2, v2)) in enumerate(zip(x.items(), y.items())):
                stack.append((k, k2, "%s.key%d" % (path, i)))
                stack.append((v, v2, "%s.value%d" % (path, i)))
                if k2 not in y or y[k2] is not v2:
                    return "%s: key %d cannot be looked up" % (path, i)
        elif isinstance(x, BaseException):
            stack.append((x.args, y.args, path + ".args"))
        elif isinstance(x, (Obj, Slots, Reduced, types.SimpleNamespace)):
            dx = {k: getattr(x, k) for k in getattr(x, "__slots__", ()) or x.__dict__}
            dy = {k: getattr(y, k) for k in getattr(y, "__slots__", ()) or y.__dict__}
            stack.append((dx, dy, path + ".state"))
            keep.append((dx, dy))
        elif isinstance(x, float) and x != x:
            if y == y:
                return "%s: nan became %r" % (path, y)
        elif isinstance(x, np.generic) or isinstance(x, (float, complex)):
            if repr(x) != repr(y) or getattr(x, "dtype", 0) != getattr(y, "dtype", 0):
                return "%s: %r became %r" % (path, x, y)
        elif x is pd.NaT or x is pd.NA:
            if x is not y:
                return "%s: %r became %r" % (path, x, y)
        elif isinstance(x, pd.Categorical):
            if list(x) != list(y):
                return "%s: %r became %r" % (path, x, y)
        elif not (x == y):
            return "%s: %.60r became %.60r" % (path, x, y)
        if isinstance(x, (list, tuple, dict, str)) and getattr(x, "__dict__", None) != getattr(y, "__dict__", None):
            if isinstance(x, enum.Enum):
                continue
            return "%s: attributes %.60r became %.60r" % (path, getattr(x, "__dict__", None), getattr(y, "__dict__", None))
    return None


# --- modes -----------------------------------------------------------------
def conv(bufs, kind):
    return [kind(b) for b in bufs]


def buf_bytes(b):
    return bytes(b)


def buf_array(b):
    return bytearray(b)


def buf_view(b):
    return memoryview(bytes(b))


class _Loop:
    """just enough of an event loop to drive serialize_with_spawn"""

    def __init__(self, between):
        self.between = between
        self.used = 0

    def run_in_executor(self, executor, fn, *args):
        self.used += 1
        if self.between:
            self.between()
        r = fn(*args)

        async def f():
            return r

        return f()


def drive(coro, loop):
    from asyncio import events

    old = events._get_running_loop()
    events._set_running_loop(loop)
    try:
        coro.send(None)
    except StopIteration as e:
        return e.value
    finally:
        events._set_running_loop(old)
    raise AssertionError("suspended")


OTHER = [[1, [2, {"a": (3, "x" * 2000)}]], {"k": [b"y" * 2000]}]


def other_work():
    h, b = serialize(OTHER)
    assert same(OTHER, deserialize(cloudpickle.loads(cloudpickle.dumps(h)), b)) is None


def wire(h, bufs, kind):
    h = cloudpickle.loads(cloudpickle.dumps(h))
    return deserialize(h, conv(bufs, kind))


def check(obj, n_nodes=4, modes=None, expect=None):
    x = obj if expect is None else expect
    h, bufs = serialize(obj)
    first = cloudpickle.dumps(h), conv(bufs, buf_bytes)
    for kind in (buf_bytes, buf_array, buf_view):
        d = same(x, wire(h, bufs, kind))
        if d:
            return "direct, %s: %s" % (kind.__name__, d)
    for th in range(1, n_nodes + 2):
        loop = _Loop(other_work)
        h, bufs = drive(serialize_with_spawn(obj, spawn_threshold=th), loop)
        d = same(x, wire(h, bufs, buf_bytes))
        if d:
            return "spawn after %d: %s" % (th, d)
        if th == 1 and isinstance(obj, (list, dict, tuple)) and "_N" in h[0] and h[0]["_N"] < 1:
            return "bad count"
    # still decodable after all the others
    d = same(x, deserialize(cloudpickle.loads(first[0]), first[1]))
    if d:
        return "late: %s" % d
    return None


# --- graphs ----------------------------------------------------------------
KINDS = {
    "L": list, "T": tuple, "D": dict, "M": MyList, "N": NT, "O": collections.OrderedDict, "F": lambda *a: collections.defaultdict(list, *a), "K": MyDict, "U": MyTuple,
}
TUPLES = "TNU"
DICTS = "DOFK"


def leaves():
    return [7, "z" * 1500, Obj(3)]


def build(kinds, edges):
    """kinds: string; edges[i]: children of container i, >= 0: container, < 0: leaf -1-k.  None if not constructible"""
    lv = leaves()
    nodes = [None] * len(kinds)
    for i, k in enumerate(kinds):
        if k not in TUPLES:
            nodes[i] = KINDS[k]()

    def val(c):
        return lv[-1 - c] if c < 0 else nodes[c]

    todo = [i for i, k in enumerate(kinds) if k in TUPLES]
    while todo:
        rest = []
        for i in todo:
            if all(c < 0 or nodes[c] is not None for c in edges[i]):
                v = [val(c) for c in edges[i]]
                if kinds[i] == "N":
                    if len(v) > 2:
                        return None
                    v += [None] * (2 - len(v))
                    nodes[i] = NT(*v)
                elif kinds[i] == "U":
                    nodes[i] = MyTuple(v)
                else:
                    nodes[i] = tuple(v) if v else ()
            else:
                rest.append(i)
        if len(rest) == len(todo):
            return None
        todo = rest
    for i, k in enumerate(kinds):
        if k in DICTS:
            for j, c in enumerate(edges[i]):
                nodes[i]["k%d" % j] = val(c)
        elif k not in TUPLES:
            nodes[i].extend(val(c) for c in edges[i])
    return nodes[0]


def reachable(edges):
    seen = {0}
    order = [0]
    for i in order:
        for c in edges[i]:
            if c >= 0 and c not in seen:
                seen.add(c)
                order.append(c)
    # discovered in this order: one representative per renaming
    return order == list(range(len(edges)))


def graphs(n, width, kinds, n_leaf):
    targets = list(range(n)) + [-1 - k for k in range(n_leaf)]
    kids = [c for w in range(width + 1) for c in itertools.product(targets, repeat=w)]
    for edges in itertools.product(kids, repeat=n):
        if not reachable(edges):
            continue
        for ks in itertools.product(kinds, repeat=n):
            yield "".join(ks), edges


def graph(case):
    ks, edges = case
    obj = build(ks, edges)
    if obj is None:
        return {"outcome": None, "transitions": 0}
    d = check(obj, min(7, 1 + sum(map(len, edges))))
    return {"outcome": case, "violation": d, "transitions": 5}


# --- graphs with containers as dictionary keys --------------------------------
def keyed(case):
    i, j = case
    t1 = (1, "z" * 1500)
    t2 = (t1, Obj(2))
    fs = frozenset([1])
    keys = [1, "a", "z" * 1500, t1, t2, NT(1, t1), Obj(4), fs, MyStr("q"), SColor.RED, b"b" * 2000, None, 2.5, Color.RED, MyTuple((1,)), (), np.int64(5), datetime.date(2000, 1, 1)]
    k1, k2 = keys[i], keys[j]
    res = None
    for obj in ({k1: k2}, {k1: [k1]}, {k1: 1, k2: k1}, [k1, {k2: k1}], ({k1: {k2: k2}}, k2), collections.OrderedDict([(k1, 1), (k2, 2)])):
        res = res or check(obj, 6)
    return {"outcome": case, "violation": res}


def positions(v):
    yield "top", v
    yield "list", [v]
    yield "list3", [v, 1, v]
    yield "tuple", (v, "t")
    yield "dict", {"a": v}
    yield "nested", {"a": [(v,), {"b": [v]}]}
    yield "namedtuple", NT(v, [v])
    yield "ordered", collections.OrderedDict(a=v, b=v)
    yield "object", Obj(v)
    yield "mylist", MyList([v])


def scalar(case):
    i, pos = case
    v = scalars()[i]
    obj = dict(positions(v))[pos]
    return {"outcome": case, "violation": check(obj, 5), "tag": "%s-%s" % (type(v).__name__, pos)}


# --- sizes and depth -----------------------------------------------------------
def sized(case):
    kind, n = case
    if kind == "flat":
        obj = [["v%d" % i] for i in range(n)]
    elif kind == "deep":
        obj = []
        for i in range(n):
            obj = [obj, i]
    elif kind == "deep-dict":
        obj = {}
        for i in range(n):
            obj = {"k": obj, i: (i,)}
    elif kind == "deep-tuple":
        obj = ()
        for i in range(n):
            obj = (obj, "x" * 1100)
    elif kind == "wide-dict":
        obj = {(i,): [b"x" * 1030] for i in range(n)}
    elif kind == "shared":
        s = [Obj(1)]
        obj = [s if i % 2 else [s, i] for i in range(n)]
    elif kind == "empties":
        e = {}
        obj = [e if i % 3 == 0 else {} if i % 3 == 1 else [] for i in range(n)]
        obj.append(obj)
    d = None
    for th in (None, 1, 2, n // 2, n - 1, n, n + 1, 2 * n, 100):
        if th is None:
            h, b = serialize(obj)
        elif th < 1:
            continue
        else:
            h, b = drive(serialize_with_spawn(obj, spawn_threshold=th), _Loop(other_work))
        d = d or same(obj, wire(h, b, buf_bytes))
    return {"outcome": case, "violation": d}


def stream(case):
    """the stream writer and reader used by connections"""
    kind, n = case

    async def main(w):
        loop = asyncio.get_running_loop()
        e = {}
        objs = {
            "small": [1, e, e, "z" * 2000],
            "spawned": [[i, [b"x" * 1100]] for i in range(n)],
            "buffers": [np.arange(5), b"x" * 3000, [bytearray(b"y" * 10)]],
            "dict": {i: {"a": [i, (i,)]} for i in range(n)},
        }
        obj = objs[kind]
        w.begin()
        tasks = [asyncio.create_task(AioSerializer(o).run()) for o in (obj, OTHER, obj)]
        await asyncio.sleep(0)
        bufs = await asyncio.gather(*tasks)
        outs = []
        for bs in bufs:
            data = b"".join(bytes(x) for x in bs)
            reader = asyncio.StreamReader(loop=loop)
            reader.feed_data(data)
            reader.feed_eof()
            outs.append(asyncio.create_task(AioDeserializer(reader).run()))
            r2 = asyncio.StreamReader(loop=loop)
            r2.feed_data(data)
            assert await AioDeserializer(r2).get_size() == len(data), "size of the message"
        outs = await asyncio.gather(*outs)
        for o, r in zip((obj, OTHER, obj), outs):
            if kind == "buffers" and o is obj:
                assert np.array_equal(r[0], o[0]) and r[1:] == o[1:], r
            else:
                d = same(o, r)
                assert d is None, d
        return n

    return run_world(main)


class NamedListSerializer(Serializer):
    serializer_id = 32001

    def serial(self, obj, context):
        return (len(obj),), [list(obj)[::-1]], False

    def deserial(self, serialized, context, subs):
        return list(subs[0])[::-1] if len(subs[0]) == serialized[0] else None


def named(i):
    """a serializer registered under a name is used for that name only"""
    obj = [[1, 2], (3, [4, 5]), [MyList([1])], [[]], [NT([1], [2])], {"a": [1, [2]]}][i]
    NamedListSerializer.register(MyTuple, "rev")
    try:
        h, b = serialize(obj, {"serializer": "rev"})
        v = same(obj, wire(h, b, buf_bytes)) or check(obj, 4)
        h, b = serialize([MyTuple((1, 2))], {"serializer": "rev"})
        r = wire(h, b, buf_bytes)
        if r != [[1, 2]]:
            v = v or "the serializer of that name was not used: %r" % (r,)
        v = v or check([MyTuple((1, 2))], 3)
    finally:
        NamedListSerializer.unregister(MyTuple, "rev")
    v = v or check([MyTuple((1, 2))], 3)
    return {"outcome": i, "violation": v}


def views(case):
    """memory views arrive with their bytes"""
    i, p = case
    import array

    m = [
        memoryview(b"abc"), memoryview(bytearray(b"x" * 5000)), memoryview(array.array("d", [1.5, 2])), memoryview(bytes(range(24))).cast("B", (4, 6)), memoryview(b"")[:0],
        memoryview(b"0123456789")[3:7],
    ][i]
    obj = [m, [m], {"a": (m, 1)}, [m, m]][p]
    v = None
    for kind in (buf_bytes, buf_array, buf_view):
        h, b = serialize(obj)
        r = wire(h, b, kind)
        r = r if p == 0 else r["a"][0] if p == 2 else r[-1]
        if bytes(r) != m.tobytes():
            v = "%r became %r" % (m.tobytes()[:30], bytes(r)[:30])
    return {"outcome": case, "violation": v}


def run(ctx):
    n_scal = len(scalars())
    deep = ctx.thorough
    fam = {
        "graphs-1": (graphs(1, 3, "LTDMNOFKU", 3), graph),
        "graphs-2": (graphs(2, 2, "LTDMNOFKU" if deep else "LTDMNF", 3 if deep else 2), graph),
        "graphs-2w": (graphs(2, 3, "LTD", 3 if deep else 1), graph),
        "graphs-3": (graphs(3, 2, "LTDMN" if deep else "LTDU", 2 if deep else 1), graph),
        "graphs-3s": (graphs(3, 2 if deep else 1, "LTDMNOF", 1), graph),
        "graphs-4": (graphs(4, 1, "LTDMNOF" if deep else "LTDMN", 1), graph),
        "graphs-4w": (graphs(4, 2, "LT", 0) if deep else [], graph),
        "named": (range(6), named),
        "views": ([(i, p) for i in range(6) for p in range(4)], views),
        "keys": (list(itertools.product(range(18), repeat=2)), keyed),
        "scalars": ([(i, p) for i in range(n_scal) for p, _ in positions(0)], scalar),
        "sizes": ([(k, n) for k in ("flat", "deep", "deep-dict", "deep-tuple", "wide-dict", "shared", "empties") for n in ((1, 2, 3, 30, 49, 50, 51, 98, 99, 100, 101, 102, 250) if not deep else range(1, 260))], sized),
        "stream": ([(k, n) for k in ("small", "spawned", "buffers", "dict") for n in (1, 20, 33, 34, 49, 50, 51, 99, 100, 101, 300)], stream),
    }
    ctx.enumerate(fam)
