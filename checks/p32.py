"""P32: asynchronous file and event wrappers mirror the wrapped object.

histories: every history of operations on a wrapper, compared operation by operation with the same
history on a second object used directly.  delegation: operations on recording objects, with every
form of arguments and every kind of outcome: one call of the wrapped object with exactly these
arguments, off the loop's thread if it may block.  overlap: operations issued together on an
executor that runs its jobs in order.  events: histories and interleavings of set, clear and wait."""
import asyncio
import gzip
import io
import itertools
import multiprocessing
import os
import shutil
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

from xoscar.aio import AioEvent, AioFileObject

TECHNIQUE = "bounded-exhaustive enumeration of operation histories on the real wrappers, compared with the wrapped object used directly"
NOTE = "Exhaustive over all histories of the listed operations up to the length bound for every kind of file and wrapping; operations that overlap are explored on executors that run one job at a time."
RULE = "histories over the operation alphabet (forms of arguments included) times kinds of files times ways of wrapping; distinct: distinct results of whole histories"
ASSUMPTIONS = ["overlapping operations are ordered only as far as the executor runs its jobs in order"]

_LOOP = None


def arun(coro):
    global _LOOP
    if _LOOP is None:
        _LOOP = asyncio.new_event_loop()
    return _LOOP.run_until_complete(coro)


# --------------------------------------------------------------- kinds of files
TMP = None


def tmp():
    global TMP
    if TMP is None or not os.path.isdir(TMP):
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        TMP = tempfile.mkdtemp(prefix="p32-", dir=base)
    return TMP


CONTENT = b"ab\ncdef\n\ng"


def path(which, content=CONTENT):
    p = os.path.join(tmp(), which)
    with open(p, "wb") as f:
        f.write(content)
    return p


class Short(io.BytesIO):
    """gives less than asked for"""

    def read(self, n=-1):
        return super().read(min(n, 1) if n is not None and n > 0 else n)


class Odd(io.BytesIO):
    """with errors and results of its own"""

    def write(self, b):
        if b == b"":
            raise LookupError("odd")
        return super().write(b)

    def readline(self, *a):
        r = super().readline(*a)
        if r == b"\n":
            raise OSError(5, "odd")
        return r

    def isatty(self):
        return None

    def flush(self):
        raise EOFError("flush")


def kinds(which):
    return {
        "bytes": lambda: io.BytesIO(CONTENT),
        "str": lambda: io.StringIO(CONTENT.decode()),
        "short": lambda: Short(CONTENT),
        "odd": lambda: Odd(CONTENT),
        "rb": lambda: open(path(which), "rb"),
        "r+b": lambda: open(path(which), "r+b"),
        "raw": lambda: open(path(which), "r+b", buffering=0),
        "wb": lambda: open(path(which), "wb"),
        "ab": lambda: open(path(which), "ab+"),
        "r": lambda: open(path(which), "r", encoding="utf8"),
        "w+": lambda: open(path(which), "w+", encoding="utf8"),
        "gz": lambda: gzip.open(path(which, gzip.compress(CONTENT, mtime=0)), "rb"),
        "temp": lambda: tempfile.NamedTemporaryFile(dir=tmp(), prefix=which),
        "spool": lambda: tempfile.SpooledTemporaryFile(max_size=4, dir=tmp()),
    }


KINDS = list(kinds("a"))
TEXT = ("str", "r", "w+")


def buf(n=2):
    return bytearray(n)


# operation: (name, args, kwargs) | special
OPS = [
    ("read", (), {}),
    ("read", (2,), {}),
    ("read", (-1,), {}),
    ("read", (0,), {}),
    ("read1", (2,), {}),
    ("readinto", (buf,), {}),
    ("readline", (), {}),
    ("readline", (2,), {}),
    ("readlines", (), {}),
    ("readlines", (3,), {}),
    ("seek", (1,), {}),
    ("seek", (0, 2), {}),
    ("seek", (-1,), {}),
    ("seek", (0, os.SEEK_CUR), {}),
    ("tell", (), {}),
    ("truncate", (), {}),
    ("truncate", (1,), {}),
    ("write", ("XYZ",), {}),
    ("write", ("",), {}),
    ("write", (5,), {}),
    ("write", (), {}),
    ("writelines", (["p", "q\n"],), {}),
    ("flush", (), {}),
    ("close", (), {}),
    ("isatty", (), {}),
    ("seekable", (), {}),
    ("writable", (), {}),
    ("readable", (), {}),
    ("closed",),
    ("mode",),
    ("name",),
    ("fileno", (), {}),
    ("next",),
    ("all",),
    ("with",),
    ("withraise",),
]
FEW = [OPS[i] for i in (0, 1, 6, 10, 11, 14, 16, 17, 22, 23, 28, 32, 34)]
CORE = [OPS[i] for i in (1, 6, 10, 17, 23, 32)]
DIRECT = ("fileno", "readable")
PROPS = ("closed", "name", "mode")


class Boom(Exception):
    pass


def conv(a, text):
    if a is buf:
        return bytearray(2)
    if isinstance(a, str) and not text:
        return a.encode()
    if isinstance(a, list):
        return [conv(x, text) for x in a]
    return a


def norm(v):
    if isinstance(v, bytearray):
        return bytes(v)
    return v


def direct(f, op, args):
    name = op[0]
    try:
        if name in PROPS:
            r = getattr(f, name)
        elif name == "next":
            line = f.readline()
            r = line if line else "END"
        elif name == "all":
            r = []
            while True:
                line = f.readline()
                if not line:
                    break
                r.append(line)
        elif name in ("with", "withraise"):
            f.close()
            r = "closed" if name == "with" else "Boom"
        else:
            r = getattr(f, name)(*args, **op[2])
        return ("ok", type(r).__name__, r)
    except Exception as e:
        return ("error", type(e).__name__, str(e))


async def wrapped(f, op, args):
    name = op[0]
    try:
        if name in PROPS:
            r = getattr(f, name)
        elif name == "next":
            try:
                r = await f.__anext__()
            except StopAsyncIteration:
                r = "END"
        elif name == "all":
            r = [line async for line in f]
        elif name in ("with", "withraise"):
            r = "closed"
            try:
                async with f as g:
                    assert g is f, "the context manager gives another object"
                    if name == "withraise":
                        raise Boom
            except Boom:
                r = "Boom"
        elif name in DIRECT:
            r = getattr(f, name)(*args, **op[2])
        else:
            r = await getattr(f, name)(*args, **op[2])
        return ("ok", type(r).__name__, r)
    except Exception as e:
        return ("error", type(e).__name__, str(e))


def clean(r, which):
    """paths, descriptors and addresses differ between the two objects"""
    kind, t, v = r
    if isinstance(v, str):
        v = v.replace(os.path.join(tmp(), which), "PATH")
        if v.startswith("PATH"):
            v = "PATH"
    return kind, t, v


def wrap(f, how):
    if how == "plain":
        return AioFileObject(f)
    if how == "nested":
        return AioFileObject(AioFileObject(f))
    if how == "nested3":
        return AioFileObject(AioFileObject(AioFileObject(f)))
    if how == "executor":
        return AioFileObject(f, executor=POOL())
    if how == "loop":
        return AioFileObject(f, loop=asyncio.get_running_loop())
    raise ValueError(how)


WRAPS = ["plain", "nested", "nested3", "executor", "loop"]
_POOL = {}


def POOL(n=1):
    if (os.getpid(), n) not in _POOL:
        _POOL[os.getpid(), n] = ThreadPoolExecutor(n, thread_name_prefix="own")
    return _POOL[os.getpid(), n]


def contents(f, which, kind):
    try:
        if kind in ("bytes", "str", "short", "odd"):
            return "closed" if f.closed else f.getvalue()
        if not f.closed and kind not in ("rb", "r", "gz"):
            f.flush()
        if kind in ("temp", "spool"):
            if f.closed:
                return "closed"
            f.seek(0)
            return f.read()
        with open(os.path.join(tmp(), which), "rb") as g:
            return g.read()
    finally:
        try:
            f.close()
        except Exception:
            pass


def fn_history(case):
    kind, how, ops = case
    a = "%d-a" % os.getpid()
    b = "%d-b" % os.getpid()
    fa, fb = kinds(a)[kind](), kinds(b)[kind]()
    text = kind in TEXT
    out = []

    async def go():
        w = wrap(fb, how)
        for i, op in enumerate(ops):
            args_a = [conv(x, text) for x in (op[1] if len(op) > 1 else ())]
            args_b = [conv(x, text) for x in (op[1] if len(op) > 1 else ())]
            ra = clean(direct(fa, op, args_a), a)
            rb = clean(await wrapped(w, op, args_b), b)
            if op[0] == "fileno" and ra[0] == rb[0] == "ok":
                assert rb[2] == fb.fileno(), "fileno() gives %r instead of %r" % (rb[2], fb.fileno())
            elif op[0] == "name" and kind in ("temp", "spool") and ra[:2] == rb[:2]:
                assert w.name == fb.name
            elif ra[0] == "error" and ra[:2] == rb[:2] and "0x" in str(ra[2]):
                pass
            else:
                assert ra == rb, "operation %d of %r: %r, directly %r" % (i, ops, rb, ra)
            assert args_a == args_b, (args_a, args_b)
            out.append(ra[:2] if op[0] in ("fileno", "name") or "0x" in str(ra[2]) else ra)
        return None

    try:
        arun(go())
        ca, cb = contents(fa, a, kind), contents(fb, b, kind)
        assert ca == cb, "after %r the file holds %r, used directly %r" % (ops, cb, ca)
    finally:
        for f in (fa, fb):
            try:
                f.close()
            except Exception:
                pass
    return {"outcome": (kind, repr(out), repr(ca)), "transitions": len(ops)}


# --------------------------------------------------------------- delegation
class Rec:
    """records calls and gives the outcome asked for"""

    closed = "the closed attribute"
    name = ("n",)
    mode = 7

    def __init__(self, how):
        self.how = how
        self.calls = []
        self.value = object()
        self.threads = []
        self.entered = threading.Event()
        self.gate = threading.Event()

    def __getattr__(self, attr):
        if attr.startswith("_"):
            raise AttributeError(attr)

        def method(*a, **k):
            self.calls.append((attr, a, k))
            self.threads.append(threading.get_ident())
            self.entered.set()
            if self.how == "wait" and attr not in DIRECT + ("set", "is_set", "clear"):
                if not self.gate.wait(20):
                    raise TimeoutError("the event loop does not go on")
            if self.how == "error":
                raise Boom("own")
            if self.how == "base":
                raise KeyboardInterruptLike("own")
            if self.how == "none":
                return None
            return self.value

        return method


class KeyboardInterruptLike(BaseException):
    pass


METHODS = ["close", "flush", "isatty", "read", "read1", "readinto", "readline", "readlines", "seek", "seekable", "tell", "truncate", "writable", "write", "writelines", "fileno", "readable"]
FORMS = [((), {}), ((1,), {}), ((1, "x"), {}), ((), {"k": 3}), ((None, [1]), {"size": 2, "self_": 4})]


def fn_delegate(case):
    cls, meth, form, how, ways = case
    rec = Rec(how)
    args, kwargs = FORMS[form]

    async def go():
        me = threading.get_ident()
        ex = POOL() if ways == "executor" else None
        w = cls_of(cls)(rec, executor=ex) if ways != "nested" else cls_of(cls)(cls_of(cls)(rec))
        nonblocking = meth in DIRECT + ("set", "is_set", "clear")
        progressed = []

        async def other():
            # as long as the loop is not blocked, others go on
            while not rec.entered.is_set():
                await asyncio.sleep(0)
            progressed.append(1)
            rec.gate.set()

        t = asyncio.ensure_future(other())
        try:
            try:
                r = getattr(w, meth)(*args, **kwargs)
                if not nonblocking:
                    r = await r
                res = ("ok", r)
            except Boom as e:
                res = ("boom", str(e))
            except KeyboardInterruptLike as e:
                res = ("base", str(e))
        finally:
            rec.entered.set()
            await t
        assert rec.calls == [(meth, args, kwargs)], "%s%r%r became %r" % (meth, args, kwargs, rec.calls)
        want = {"ok": ("ok", rec.value), "wait": ("ok", rec.value), "none": ("ok", None), "error": ("boom", "own"), "base": ("base", "own")}[how]
        assert res[0] == want[0] and (res[1] is want[1] or res[1] == want[1]), (res, want)
        if not nonblocking:
            assert rec.threads[0] != me, "%s() runs in the event loop's thread" % meth
            if ways == "executor":
                names = {t.ident: t.name for t in threading.enumerate()}
                assert names.get(rec.threads[0], "").startswith("own"), "%s() does not run in the given executor" % meth
        for p in PROPS if cls == "file" else ():
            assert getattr(w, p) == getattr(rec, p), p
        return res[0], how

    return {"outcome": (cls, meth) + arun(go()), "transitions": 1}


def cls_of(cls):
    return AioFileObject if cls == "file" else AioEvent


def fn_readiter(case):
    """iteration over lines of every kind"""
    lines, how, stop = case
    text = isinstance(lines, str)

    async def go():
        f = io.StringIO(lines) if text else io.BytesIO(lines)
        w = wrap(f, how)
        got = []
        async for line in w:
            got.append(line)
            if len(got) == stop:
                break
        rest = await w.read()
        g = io.StringIO(lines) if text else io.BytesIO(lines)
        want = []
        for line in g:
            want.append(line)
            if len(want) == stop:
                break
        assert got == want, "%r: lines %r instead of %r" % (lines, got, want)
        assert rest == g.read()
        again = [line async for line in w]
        assert again == []
        await w.close()
        assert f.closed
        return tuple(got)

    return {"outcome": arun(go()), "transitions": len(lines)}


# --------------------------------------------------------------- overlapping operations
def fn_overlap(case):
    """operations issued together: the first task's ones in order, the second's in order"""
    kind, groups = case
    which = "%d-a" % os.getpid()
    text = kind in TEXT

    async def go():
        f = kinds(which)[kind]()
        w = AioFileObject(f, executor=POOL())
        ops = [op for g in groups for op in g]
        futs = [asyncio.ensure_future(wrapped(w, op, [conv(x, text) for x in op[1]])) for op in ops]
        res = [clean(r, which) for r in await asyncio.gather(*futs)]
        d = kinds(which + "2")[kind]()
        want = [clean(direct(d, op, [conv(x, text) for x in op[1]]), which + "2") for op in ops]
        assert res == want, "%r issued together give %r instead of %r" % (ops, res, want)
        a, b = contents(f, which, kind), contents(d, which + "2", kind)
        assert a == b, (a, b)
        return repr(res), repr(a)

    return {"outcome": arun(go()), "transitions": sum(map(len, groups))}


# --------------------------------------------------------------- events
def ev(kind):
    if kind == "thread":
        return threading.Event()
    if kind == "process":
        return multiprocessing.get_context("spawn").Event()
    return None


EOPS = ["set", "clear", "is_set", "wait0", "wait.001", "waitkw", "start", "collect"]


def fn_event(case):
    kind, how, ops = case

    async def go():
        inner = ev(kind)
        w = AioEvent(inner, executor=POOL(3)) if how != "default" else AioEvent(inner)
        if how == "nested":
            w = AioEvent(w, executor=POOL(3))
        state = False  # reference
        waiting = []
        out = []
        for i, op in enumerate(ops):
            if op == "set":
                assert w.set() is None
                state = True
                # a waiter is woken up
                for t in waiting:
                    r = await asyncio.wait_for(t, 20)
                    assert r is True, r
                    out.append("woken")
                waiting = []
            elif op == "clear":
                assert w.clear() is None
                state = False
            elif op == "is_set":
                assert w.is_set() is state, "is_set() gives %r instead of %r" % (w.is_set(), state)
            elif op.startswith("wait"):
                r = await (w.wait(timeout=0.001) if op == "waitkw" else w.wait(float("0" + op[4:])))
                assert r is state, "wait() gives %r instead of %r" % (r, state)
            elif op == "start":
                t = asyncio.ensure_future(w.wait())
                await asyncio.sleep(0.002)
                if state:
                    assert await asyncio.wait_for(t, 20) is True
                else:
                    assert not t.done(), "wait() returns although the event is not set"
                    waiting.append(t)
            if inner is not None:
                assert inner.is_set() is state
            out.append((op, state))
        w.set()
        for t in waiting:
            assert await asyncio.wait_for(t, 20) is True
        return tuple(out)

    return {"outcome": (kind, arun(go())), "transitions": len(ops)}


def run(ctx):
    th = ctx.thorough
    cases = []
    for kind in KINDS:
        for op in OPS:
            for how in WRAPS:
                cases.append((kind, how, (op,)))
        for ops in itertools.product(OPS, FEW):
            cases.append((kind, "plain", ops))
        for ops in itertools.product(FEW, OPS):
            cases.append((kind, "nested", ops))
        for ops in itertools.product(CORE, repeat=4):
            cases.append((kind, "executor", ops))
        if th:
            for ops in itertools.product(OPS, repeat=2):
                cases.append((kind, "nested3", ops))
            for ops in itertools.product(FEW, repeat=3):
                cases.append((kind, "plain", ops))
            for ops in itertools.product(FEW[:9], repeat=4):
                cases.append((kind, "plain", ops))
    deleg = []
    for meth in METHODS:
        for form in range(len(FORMS)):
            for how in ("ok", "none", "error", "base", "wait"):
                for ways in ("plain", "nested", "executor"):
                    if how == "base" and meth not in DIRECT:
                        continue  # executors treat those specially
                    deleg.append(("file", meth, form, how, ways))
    for meth in ("wait", "set", "is_set", "clear"):
        for form in range(len(FORMS)):
            for how in ("ok", "none", "error", "wait"):
                for ways in ("plain", "nested", "executor"):
                    deleg.append(("event", meth, form, how, ways))
    it = []
    for n in range(0, 5 if th else 4):
        for t in itertools.product("a\n", repeat=n):
            s = "".join(t)
            for how in ("plain", "nested"):
                for stop in (0, 1, 2):
                    it.append((s, how, stop))
                    it.append((s.encode(), how, stop))
    over = []
    small = [OPS[i] for i in (1, 6, 10, 14, 17, 16)]
    for kind in ("bytes", "r+b", "raw", "w+"):
        for ops in itertools.product(small, repeat=3):
            over.append((kind, (ops,)))
        if th:
            for ops in itertools.product(small, repeat=4):
                over.append((kind, (ops,)))
    evs = []
    for kind in ("thread", None, "process"):
        for how in ("plain", "nested", "default"):
            for n in (1, 2, 3) + ((4,) if th else ()):
                alpha = EOPS[:-1] if n < 3 else ["set", "clear", "is_set", "wait.001", "start"]
                for ops in itertools.product(alpha, repeat=n):
                    if ops.count("start") <= 2:
                        evs.append((kind, how, ops))
    try:
        ctx.enumerate({"histories": (cases, fn_history), "delegation": (deleg, fn_delegate), "iteration": (it, fn_readiter), "overlap": (over, fn_overlap), "events": (evs, fn_event)})
    finally:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        for d in os.listdir(base):
            if d.startswith("p32-") and os.path.isdir(os.path.join(base, d)):
                shutil.rmtree(os.path.join(base, d), ignore_errors=True)
