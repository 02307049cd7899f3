"""P19: byte streams are reassembled into exactly the messages sent.

The real SocketChannel writes messages into a recording transport; the recorded bytes are then fed
to a second real SocketChannel cut at every byte, at every pair of bytes, one byte at a time, and
truncated or damaged at every byte.  Concurrent senders and receivers, flow control and the
in-process channel are explored in the simulated world."""
import asyncio
import itertools

import numpy as np
import pandas as pd

import xoscar as xo
from vlib.explore import Scenario
from vlib.scen import outcome, proc, run_world
from xoscar.backends.communication.base import ChannelType
from xoscar.backends.communication.dummy import DummyClient, DummyServer
from xoscar.backends.communication.socket import (
    SocketChannel,
    SocketClient,
    SocketServer,
    UnixSocketClient,
    UnixSocketServer,
)
from xoscar.serialization import AioDeserializer, AioSerializer

END = (EOFError, ConnectionError)  # what a reader may get at the end of a stream


class Obj:
    def __init__(self, x):
        self.x = x

    def __eq__(self, o):
        return type(o) is Obj and same(self.x, o.x)

    def __reduce__(self):
        return Obj, (self.x,)

    def __repr__(self):
        return "Obj(%r)" % (self.x,)


def same(a, b):
    if isinstance(b, memoryview):
        # only the bytes arrive
        return isinstance(a, (bytes, memoryview)) and bytes(a) == b.tobytes()
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.dtype == b.dtype and a.shape == b.shape and (a == b).all()
    if isinstance(a, pd.DataFrame):
        return a.equals(b)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k]) for k in a)
    return a == b


MESSAGES = {
    "int": 7,
    "none": None,
    "empty": b"",
    "bytes": b"abc",
    "str": "h\u00e9llo",
    "arr": np.arange(4, dtype="i2"),
    "arr0": np.zeros((0, 3)),
    "two": [np.zeros(0), b"xyz", np.arange(3, dtype="u1"), "s"],
    "nest": {"a": [1, (2, None)], "b": b""},
    "obj": Obj([1, b"q"]),
    "frame": pd.DataFrame({"a": [1, 2], "b": ["x", "y"]}),
    "many": list(range(130)),
    "eofs": b"\x01" + b"\0" * 12,
    "big": np.arange(70000, dtype="u1"),
    "huge": np.arange(3 << 16, dtype="u2"),
}


class Sink(asyncio.Transport):
    """records what is written"""

    def __init__(self):
        super().__init__()
        self.data = bytearray()
        self.accept = None  # the number of bytes the socket takes at once

    def write(self, data):
        # as asyncio's transports: the socket takes some of the bytes, the rest is sliced off
        if not isinstance(data, (bytes, bytearray, memoryview)):
            raise TypeError("data argument must be a bytes-like object")
        if not data:
            return
        n = max(0, self.accept - len(self.data)) if self.accept is not None else len(data) * 99
        if n:
            if isinstance(data, memoryview) and not data.c_contiguous:
                raise AssertionError("the socket refuses a buffer that is not contiguous")
            n = min(n, data.nbytes if isinstance(data, memoryview) else len(data))
            self.data += bytes(data)[:n]
            data = memoryview(data)[n:]
        if data:
            self.data += bytes(data)

    def writelines(self, parts):
        for d in parts:
            self.write(d)

    def is_closing(self):
        return False

    def close(self):
        pass

    def get_extra_info(self, name, default=None):
        return default


class Source(asyncio.Transport):
    """what a reader sees of its transport"""

    def __init__(self):
        super().__init__()
        self.paused = False

    def pause_reading(self):
        self.paused = True

    def resume_reading(self):
        self.paused = False

    def is_closing(self):
        return False

    def close(self):
        pass

    def get_extra_info(self, name, default=None):
        return default


def end(loop, transport):
    reader = asyncio.StreamReader(loop=loop)
    protocol = asyncio.StreamReaderProtocol(reader, loop=loop)
    protocol.connection_made(transport)
    writer = asyncio.StreamWriter(transport, protocol, reader, loop)
    return reader, protocol, SocketChannel(reader, writer, channel_type=ChannelType.remote)


# what is written piece by piece, too
VIEWS = {
    "mv": memoryview(b"abc"),
    "mv-d": memoryview(np.arange(5.0)),
    "mv-2d": memoryview(np.arange(6, dtype="i4").reshape(2, 3)),
    "mv-2d-u1": memoryview(np.arange(6, dtype="u1").reshape(2, 3)),
    "mv-step": memoryview(np.arange(6, dtype="i2"))[::2],
    "mv-step-u1": memoryview(b"abcdef")[::2],
    "mv-fortran": memoryview(np.asfortranarray(np.arange(6, dtype="i4").reshape(2, 3))),
    "mv-0d": memoryview(np.array(1.5)),
    "mv-none": memoryview(np.zeros((0, 3))),
    "mv-big-endian": memoryview(np.arange(3, dtype=">i4")),
    "mv-fields": memoryview(np.zeros(2, dtype=[("a", "i4"), ("b", "f8")])),
    "mv-in": [memoryview(np.arange(3.0)), 1, {"k": memoryview(np.arange(4, dtype="u2"))[::-1]}],
    "mv-big": memoryview(np.arange(30000.0)),
}
MESSAGES.update(VIEWS)

_BYTES = {}


def stream_bytes(names):
    """what a channel writes for these messages, and where each message ends"""
    names = tuple(names)
    if names not in _BYTES:

        async def go():
            sink = Sink()
            _, _, ch = end(asyncio.get_running_loop(), sink)
            ends = []
            for n in names:
                await ch.send(MESSAGES[n])
                ends.append(len(sink.data))
            return bytes(sink.data), ends

        _BYTES[names] = asyncio.run(go())
    return _BYTES[names]


_LOOP = None


def run_async(coro):
    global _LOOP
    if _LOOP is None:
        _LOOP = asyncio.new_event_loop()
        _LOOP.set_exception_handler(lambda loop, context: None)
    return _LOOP.run_until_complete(coro)


async def until(cond, loop, patience=2.0):
    n = 0
    limit = None
    while not cond():
        await asyncio.sleep(0 if n < 50 else 0.005)
        n += 1
        if n == 50:
            limit = loop.time() + patience
        if limit is not None and loop.time() > limit:
            return False
    return True


async def replay(names, data, chunks, last, complete):
    """Feeds the chunks; `complete` = messages whose bytes are all in data, `last` = eof | reset | None"""
    loop = asyncio.get_running_loop()
    src = Source()
    reader, protocol, ch = end(loop, src)
    got, errs = [], []
    _, ends = stream_bytes(names)

    async def receive():
        while True:
            try:
                got.append(await ch.recv())
            except Exception as e:  # noqa
                errs.append(e)
                if len(errs) == 2:
                    return

    task = loop.create_task(receive())
    pos = 0
    try:
        for c in chunks:
            if src.paused:
                ok = await until(lambda: not src.paused, loop)
                assert ok, "the reader stopped reading"
            protocol.data_received(c)
            pos += len(c)
            want = min(complete, sum(1 for e in ends if e <= pos))
            # (asyncio never reports data and the end of a connection in one go)
            await asyncio.sleep(0)
            ok = await until(lambda: len(got) >= want or errs, loop)
            assert ok, "%d messages arrived, %d were delivered" % (want, len(got))
        if last is None:
            await asyncio.sleep(0)
            assert not task.done() and not errs, "the reader failed: %r" % errs
            assert len(got) == complete, (len(got), complete)
        else:
            if last == "eof":
                protocol.eof_received()
            else:
                protocol.connection_lost(ConnectionResetError(104, "reset"))
            assert await until(task.done, loop), "the reader waits forever after %s" % last
            for e in errs:
                assert isinstance(e, END), "the reader got %r" % e
    finally:
        task.cancel()
        try:
            await task
        except asyncio.CancelledError:
            pass
    assert len(got) == complete, "%d messages delivered, %d arrived completely" % (len(got), complete)
    for n, g in zip(names, got):
        assert same(g, MESSAGES[n]), "%s arrived as %r" % (n, g)
    return [type(e).__name__ for e in errs]


def parts(data, cuts):
    pts = [0, *sorted(cuts), len(data)]
    return [data[a:b] for a, b in zip(pts, pts[1:]) if a < b]


def fn_cut(case):
    names, cuts, last = case
    data, ends = stream_bytes(names)
    o = run_async(replay(names, data, parts(data, cuts), last, len(names)))
    return {"outcome": o, "transitions": len(cuts) + 1}


def fn_steps(case):
    names, step = case
    data, ends = stream_bytes(names)
    chunks = [data[i : i + step] for i in range(0, len(data), step)]
    o = run_async(replay(names, data, chunks, "eof", len(names)))
    return {"outcome": o, "transitions": len(chunks)}


def fn_trunc(case):
    names, n, cuts, last = case
    data, ends = stream_bytes(names)
    o = run_async(replay(names, data[:n], parts(data[:n], [c for c in cuts if c < n]), last, sum(1 for e in ends if e <= n)))
    return {"outcome": (o, last), "transitions": len(cuts) + 1}


def fn_foreign(case):
    """the header of message k does not belong to the protocol: the reader refuses, without waiting for more"""
    names, k, version = case
    data, ends = stream_bytes(names)
    start = ([0] + ends)[k]
    data = bytearray(data)
    assert data[start] == 1 or version is None, data[start]
    if version is not None:
        data[start] = version

    async def go():
        loop = asyncio.get_running_loop()
        src = Source()
        reader, protocol, ch = end(loop, src)
        got, errs = [], []

        async def receive():
            while True:
                try:
                    got.append(await ch.recv())
                except Exception as e:  # noqa
                    errs.append(e)
                    return

        t = loop.create_task(receive())
        protocol.data_received(bytes(data))
        ok = await until(t.done, loop)
        t.cancel()
        assert ok, "bytes with a foreign header are not refused"
        assert len(got) == k, "%d messages delivered before the foreign header, expected %d" % (len(got), k)
        assert all(same(g, MESSAGES[n]) for n, g in zip(names, got))
        assert isinstance(errs[0], END), errs
        return type(errs[0]).__name__

    return {"outcome": run_async(go()), "transitions": 2}


class AioBytes:
    """an asynchronous file that holds the stream"""

    def __init__(self, data):
        self.data = data
        self.pos = 0

    async def read(self, n=-1):
        d = self.data[self.pos :] if n < 0 else self.data[self.pos : self.pos + n]
        self.pos += len(d)
        return d


def fn_file(case):
    names, how = case
    data, ends = stream_bytes(names)

    async def go():
        f = AioBytes(data)
        if how == "size":
            sizes = []
            for e in [0] + ends[:-1]:
                f.pos = e
                sizes.append(await AioDeserializer(f).get_size())
            assert sizes == [b - a for a, b in zip([0] + ends, ends)], sizes
        elif how == "run":
            for n in names:
                assert same(await AioDeserializer(f).run(), MESSAGES[n]), n
            o = await outcome(AioDeserializer(f).run())
            assert o[0] in ("EOFError", "IncompleteReadError"), o
        else:
            rd = asyncio.StreamReader()
            rd.feed_data(data)
            rd.feed_eof()
            for n in names:
                assert same(await AioDeserializer(rd).run(), MESSAGES[n]), n
            o = await outcome(AioDeserializer(rd).run())
            assert o[0] in ("EOFError", "IncompleteReadError"), o
        bufs = await AioSerializer(MESSAGES[names[0]]).run()
        assert b"".join(bytes(memoryview(b)) if not hasattr(b, "tobytes") else b.tobytes() for b in bufs) == data[: ends[0]]
        return how

    return {"outcome": run_async(go()), "transitions": len(names)}


def fn_partial(case):
    """the socket takes n bytes at first, what remains is kept by the transport"""
    names, n = case

    async def go():
        sink = Sink()
        sink.accept = n
        _, _, ch = end(asyncio.get_running_loop(), sink)
        for name in names:
            await ch.send(MESSAGES[name])
        reader = asyncio.StreamReader()
        reader.feed_data(bytes(sink.data))
        reader.feed_eof()
        for name in names:
            m = await asyncio.wait_for(AioDeserializer(reader).run(), 20)
            assert same(m, MESSAGES[name]), "%s arrived as %r" % (name, m)
        assert not await reader.read(), "more is written than the messages"
        return names

    return {"outcome": run_async(go()), "transitions": 2 * len(names)}


# -- the in-process channel ---------------------------------------------------
def fn_dummy(case):
    """history of operations on both ends of an in-process connection"""
    ops = case

    async def main(w):
        server_end = []
        hold = asyncio.Event()

        async def handle(ch):
            server_end.append(ch)
            await hold.wait()

        server = await DummyServer.create({"address": "dummy://77", "handle_channel": handle})
        await server.start()
        client = await DummyClient.connect("dummy://77")
        await asyncio.sleep(0)
        ends = {"c": client, "s": server_end[0]}
        sent = {"c": 0, "s": 0}
        pend = {"c": [], "s": []}  # pending receives of that end
        got = {"c": [], "s": []}
        closed = False
        tasks = []

        async def rx(e):
            r = await outcome(ends[e].recv())
            got[e].append(r)
            return r

        for k, op in enumerate(ops):
            e = op[-1]
            if op[0] == "s":
                msg = (e, sent[e], ["x" * 99] if sent[e] % 2 == 0 else [])
                o = await outcome(ends[e].send(msg))
                if closed:
                    assert o[0] != "ok", "sent into a closed channel"
                else:
                    assert o == ("ok", None), o
                    sent[e] += 1
            elif op[0] == "r":
                tasks.append(asyncio.ensure_future(rx(e)))
            elif op[0] == "x":
                await ends[e].close()
                closed = True
            elif op[0] == "S":
                await server.stop()
                closed = True
            if op[0] == "s" and ops[k + 1 : k + 2] == (op,):
                continue  # two in a row
            for _ in range(4):
                await asyncio.sleep(0)
            other = {"c": "s", "s": "c"}
            for e in "cs":
                for i, g in enumerate(got[e]):
                    if g[0] == "ok":
                        assert g[1][:2] == (other[e], i), "received %r as number %d" % (g[1], i)
            if closed:
                assert ends["c"].closed and ends["s"].closed, "not closed"
                assert all(t.done() for t in tasks), "a receiver waits forever on a closed channel"
            else:
                for e in "cs":
                    assert all(g[0] == "ok" for g in got[e]), got
        if not closed:
            for e in "cs":
                asked = sum(1 for o in ops if o == "r" + e)
                other = {"c": "s", "s": "c"}[e]
                assert len(got[e]) == min(asked, sent[other]), "received %d of %d messages with %d requests" % (len(got[e]), sent[other], asked)
        hold.set()
        for t in tasks:
            t.cancel()
        await server.stop()
        return {e: [g[0] for g in got[e]] for e in "cs"}

    return run_world(main)


def dummy_histories(depth):
    alphabet = ["sc", "ss", "rc", "rs", "xc", "xs", "S"]
    out = []
    for n in range(1, depth + 1):
        for h in itertools.product(alphabet, repeat=n):
            if "S" in h and h.index("S") != len(h) - 1 and n > 3:
                continue
            out.append(h)
    return out


# -- connections in the simulated world ----------------------------------------
class SlowBirth(xo.Actor):
    async def __post_create__(self):
        await asyncio.sleep(50)


def dummy_stop(what):
    """requests under way to a pool of the same process when the pool is stopped"""

    async def main(w):
        await w.start_pool(n_process=0)
        a = w.pools["M"].external_address
        p = proc(w, "M")

        async def go():
            if what == "create":
                return await xo.create_actor(SlowBirth, address=a, uid="b")
            raise AssertionError

        t = p.spawn(outcome(go()))
        await asyncio.sleep(1)
        await p.spawn(w.pools["M"].stop())
        o = await t
        return o[0]

    def judge(w, r, exc):
        assert r != "ok", r

    return main, judge


def talk(kind, senders, receivers=1, both=False, seg=None, slow_reader=False):
    """several tasks send through one connection at the same time"""

    async def main(w):
        a, b = w.new_proc("A"), w.new_proc("B")
        total = sum(len(s) for s in senders)
        got = {"A": [], "B": []}
        done = asyncio.Event()
        state = {}

        async def receive(ch, who, n):
            async def one():
                while len(got[who]) + state.get(who, 0) < n:
                    state[who] = state.get(who, 0) + 1
                    try:
                        m = await ch.recv()
                    finally:
                        state[who] -= 1
                    got[who].append(m)
                    if slow_reader:
                        await asyncio.sleep(0.01)

            await asyncio.gather(*(one() for _ in range(receivers)))

        async def send(ch, who):
            async def one(i, names):
                for k, n in enumerate(names):
                    await ch.send((who, i, k, MESSAGES[n]))

            await asyncio.gather(*(one(i, names) for i, names in enumerate(senders)))

        ended = []

        async def handle(ch):
            jobs = [receive(ch, "A", total)]
            if both:
                jobs.append(send(ch, "A"))
            await asyncio.gather(*jobs)
            ended.append(await outcome(ch.recv()))
            done.set()

        async def serve():
            if kind == "tcp":
                s = await SocketServer.create({"host": "10.0.0.1", "port": 20500, "handle_channel": handle})
            else:
                s = await UnixSocketServer.create({"process_index": 91, "path": "/sim/91", "handle_channel": handle})
            await s.start()
            return s

        server = await a.spawn(serve())

        async def client():
            if kind == "tcp":
                c = await SocketClient.connect("10.0.0.1:20500")
            else:
                c = await UnixSocketClient.connect("unixsocket:///91", path="/sim/91")
            jobs = [send(c, "B")]
            if both:
                jobs.append(receive(c, "B", total))
            await asyncio.gather(*jobs)
            await c.close()
            return c.closed

        assert await b.spawn(client())
        await done.wait()
        await a.spawn(server.stop())
        return got, ended

    def judge(w, r, exc):
        got, ended = r
        for who, frm in (("A", "B"), ("B", "A")):
            if who == "B" and not both:
                assert not got["B"]
                continue
            seen = [m[:3] for m in got[who]]
            assert sorted(seen) == sorted((frm, i, k) for i, s in enumerate(senders) for k in range(len(s))), seen
            for m in got[who]:
                assert same(m[3], MESSAGES[senders[m[1]][m[2]]]), m[:3]
            if receivers == 1:
                for i in range(len(senders)):
                    ks = [m[2] for m in got[who] if m[1] == i]
                    assert ks == sorted(ks), "messages of one sender arrive as %r" % ks
        assert ended[0][0] in ("EOFError", "IncompleteReadError", "ConnectionResetError"), ended

    return main, judge


def run(ctx):
    short = ["int", "bytes", "empty", "none", "arr0", "arr", "two", "obj", "nest"]
    streams1 = [(a,) for a in short] + [("bytes", "int"), ("empty", "arr"), ("eofs", "none"), ("two", "empty")]
    three = [("int", "empty", "arr"), ("two", "frame", "many"), ("str", "obj", "arr0", "nest", "eofs")]
    cuts1 = [(s, (c,), "eof") for s in streams1 + three for c in range(1, len(stream_bytes(s)[0]))]
    pairs = []
    for s in streams1 + ([("two", "arr0"), ("int", "empty", "arr")] if ctx.thorough else []):
        n = len(stream_bytes(s)[0])
        pairs += [(s, (c, d), None) for c in range(1, n) for d in range(c + 1, n)]
    # large messages: cuts around the ends of each part and the limits of the stream reader
    big = []
    for s in (("big", "int"), ("int", "huge", "bytes")):
        data, ends = stream_bytes(s)
        marks = {1 << 16, 1 << 17, 11, *(e + d for e in [0] + ends for d in (-1, 0, 1, 10, 11, 12))}
        marks = sorted(m for m in marks if 0 < m < len(data))
        big += [(s, c, "eof") for k in (0, 1, 2) for c in itertools.combinations(marks, k)]
    steps = [(s, k) for s in streams1 + three for k in (1, 2, 3, 7, 11, 12, 64)]
    steps += [(s, k) for s in (("big", "int"), ("int", "huge", "bytes")) for k in (1000, 4096, 65536, 65537, 131072)]
    trunc = []
    for s in streams1 + three:
        data, ends = stream_bytes(s)
        for n in range(len(data) + 1):
            for last in ("eof", "reset"):
                trunc.append((s, n, (), last))
                if len(s) > 1 or n < 12:
                    trunc.append((s, n, tuple(ends), last))
                    trunc.append((s, n, tuple(range(n)), last) if n < 120 else (s, n, (n - 1,), last))
    foreign = [(s, k, v) for s in (("int",), ("bytes", "empty"), ("arr", "none", "two")) for k in range(len(s)) for v in range(256) if v != 1]
    names = [n for n in MESSAGES if n not in VIEWS]
    partial = []
    for s in [(n, "int") for n in short + list(VIEWS)] + [("frame", "many"), ("big", "mv-d"), ("mv-big", "huge")]:
        try:
            total = stream_bytes(s)[1][-1]
        except Exception:  # reported by the cases
            total = 300
        marks = range(total + 1) if total < 5000 else sorted({m for m in (0, 1, 100, 500, 1000, 4095, 65536, 65537, 100001, total - 1, total)})
        partial += [(s, n) for n in marks]
    files = [(s, how) for s in [(n,) for n in names] + [(a, b) for a in names for b in names] for how in ("run", "size", "stream")]
    ctx.enumerate(
        {
            "cut": (cuts1, fn_cut),
            "cut-pairs": (pairs, fn_cut),
            "cut-large": (big, fn_cut),
            "steps": (steps, fn_steps),
            "partial": (partial, fn_partial),
            "truncated": (trunc, fn_trunc),
            "foreign": (foreign, fn_foreign),
            "file": (files, fn_file),
            "in-process": (dummy_histories(ctx.pick(4, 5)), fn_dummy),
        }
    )
    B, T = 1, 2
    scen = []

    def add(name, mj, bound=B, bound_thorough=T, **world):
        scen.append(Scenario(name, mj[0], mj[1], bound=bound, bound_thorough=bound_thorough, world=world))

    add("in-process-stop", dummy_stop("create"))
    for kind in ("tcp", "unix"):
        add(kind + "-two", talk(kind, [("int", "bytes"), ("two", "empty")]), 2, 3)
        add(kind + "-two-full", talk(kind, [("int", "bytes"), ("two", "empty")]), 2, 3, hiwat=0)
        add(kind + "-large-full", talk(kind, [("big", "int"), ("many", "huge"), ("arr",)]), 1, 2, hiwat=1 << 14)
    add("pieces", talk("tcp", [("two", "int"), ("arr", "obj")]), 1, 2, segment=1)
    add("pieces-slow", talk("tcp", [("two", "big"), ("arr", "obj")], slow_reader=True), 1, 2, segment=1)
    add("both-ways", talk("tcp", [("int", "two"), ("bytes",)], both=True), 1, 2, hiwat=0)
    add("receivers", talk("tcp", [("int", "two"), ("bytes", "arr")], receivers=2), 1, 2, segment=1)
    ctx.explore(scen)
