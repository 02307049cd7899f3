"""P29: actor calls from several threads stay separate and correct.

Real threads with event loops of their own call actors of another process over real connections.
ops: every interleaving of the operations of two threads (calls that stay pending, end, fail or are cancelled, the
end of the thread) and of a third one that starts and stops a pool in the same process.  preempt: one thread is
stopped at every line of the calling, routing and context code while the other runs (thorough: two stops)."""
import asyncio
import gc
import itertools
import os
import queue
import socket
import subprocess
import sys
import threading
import time

TECHNIQUE = "exhaustive enumeration of interleavings of operations of real threads, and stateless exploration of thread schedules at line granularity up to a preemption bound, on the real implementation over loopback"
RULE = "a case is one interleaving of the operations of two or three threads, or one placement of preemptions between lines of one thread; distinct: distinct outcomes"
NOTE = "All interleavings of scripts of up to four operations of two threads with a third starting and stopping a pool; all placements of one preemption (thorough: two, at the first visits of lines) at the lines of caller, router and context."
ASSUMPTIONS = [
    "the actors called live in other processes than the threads",
    "a switch of threads inside a line (between byte codes) has the effect of one at its beginning or end",
    "connections of a thread that ends in the middle of calls are closed at the latest when garbage is collected",
]

SERVER = """
import asyncio, os, sys
sys.path[:0] = %r
import logging
logging.disable(logging.CRITICAL)
import xoscar as xo

EV = {}

def say(*a):
    sys.stdout.write(" ".join(a) + "\\n")
    sys.stdout.flush()

class Gate(xo.StatelessActor):
    async def wait(self, tag):
        e = EV[tag] = asyncio.Event()
        say("started", tag)
        try:
            await e.wait()
        except asyncio.CancelledError:
            say("cancelled", tag)
            raise
        return ("done", tag)

    async def echo(self, x):
        return ("echo", x)

    async def fail(self, x):
        raise KeyError(x)

async def main():
    loop = asyncio.get_running_loop()
    p = await xo.create_actor_pool("127.0.0.1", n_process=0)
    await xo.create_actor(Gate, address=p.external_address, uid="g")
    say(p.external_address)
    while True:
        line = await loop.run_in_executor(None, sys.stdin.readline)
        if not line:
            os._exit(0)
        EV[line.strip()].set()

asyncio.run(main())
"""

WAIT = 15.0
sys.unraisablehook = lambda *a: None


class Server:
    def __init__(self):
        self.p = subprocess.Popen([sys.executable, "-c", SERVER % ([x for x in sys.path if x],)], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
        self.address = self.p.stdout.readline().strip()
        assert self.address, "the server does not start"
        self.said = queue.Queue()
        threading.Thread(target=self.read, daemon=True).start()
        self.got = set()

    def read(self):
        for line in self.p.stdout:
            self.said.put(line.strip())

    def expect(self, text):
        end = time.time() + WAIT
        while text not in self.got:
            try:
                self.got.add(self.said.get(timeout=max(0.01, end - time.time())))
            except queue.Empty:
                raise AssertionError("the server does not report %r" % text)

    def release(self, tag):
        self.p.stdin.write(tag + "\n")
        self.p.stdin.flush()

    def connections(self):
        """descriptors of this process that lead to the server"""
        port = int(self.address.rsplit(":", 1)[1])
        n = 0
        for fd in os.listdir("/proc/self/fd"):
            try:
                if not os.readlink("/proc/self/fd/" + fd).startswith("socket:"):
                    continue
                c = socket.fromfd(int(fd), socket.AF_INET, socket.SOCK_STREAM)
            except OSError:
                continue
            try:
                peer = c.getpeername()
                peer = peer if isinstance(peer, tuple) else None
            except OSError:
                continue
            finally:
                c.close()
            n += peer is not None and peer[1] == port
        return n


_SERVER = {}
SEQ = itertools.count()


def server():
    pid = os.getpid()
    s = _SERVER.get(pid)
    if s is None or s.p.poll() is not None:
        import logging

        import xoscar  # noqa: F401

        logging.disable(logging.CRITICAL)
        s = _SERVER[pid] = Server()
        gc.collect()
        gc.freeze()
    return s


class Thread(threading.Thread):
    """runs its operations one at a time, each when told to"""

    def __init__(self, name, srv, ref=None):
        super().__init__(daemon=True)
        self.tname = name
        self.srv = srv
        self.ref = ref
        self.todo = queue.Queue()
        self.done = queue.Queue()
        self.loop = None
        self.tasks = {}
        self.results = []
        self.start()
        self.ack()

    def run(self):
        try:
            how = "?"

            async def body():
                import xoscar as xo

                self.loop = asyncio.get_running_loop()
                self.cmds = asyncio.Queue()
                self.done.put(None)
                while True:
                    op, args = await self.cmds.get()
                    if op == "end":
                        return args
                    try:
                        r = await getattr(self, "op_" + op)(xo, *args)
                    except BaseException as e:  # noqa: B902
                        r = ("raised", type(e).__name__, str(e)[:200])
                    self.done.put(r)

            loop = asyncio.new_event_loop()
            runner = asyncio.Runner(loop_factory=lambda: loop)
            how = runner.run(body())
            if how == "close":
                runner.close()
        except BaseException as e:  # noqa: B902
            self.done.put(("raised", type(e).__name__, str(e)))
        else:
            self.done.put(("ended",))

    def ack(self):
        try:
            return self.done.get(timeout=WAIT)
        except queue.Empty:
            return ("hang",)

    def do(self, op, *args):
        self.loop.call_soon_threadsafe(self.cmds.put_nowait, (op, args))
        return self.ack()

    async def get(self, xo):
        if self.ref is None:
            self.ref = await xo.actor_ref("g", address=self.srv.address)
        return self.ref

    async def op_call(self, xo, tag):
        g = await self.get(xo)
        self.tasks[tag] = asyncio.ensure_future(g.wait(tag))
        # until it is sent
        while not self.tasks[tag].done():
            await asyncio.sleep(0.0005)
            if ("started " + tag) in self.srv.got:
                break
            try:
                self.srv.got.add(self.srv.said.get_nowait())
            except queue.Empty:
                pass
        return ("begun",)

    async def op_result(self, xo, tag):
        t = self.tasks.pop(tag)
        assert asyncio.get_running_loop() is self.loop
        return await asyncio.wait_for(t, WAIT)

    async def op_cancel(self, xo, tag):
        t = self.tasks.pop(tag)
        t.cancel()
        try:
            await asyncio.wait_for(asyncio.wait([t]), WAIT)
            return ("cancelled" if t.cancelled() else repr(t.exception()),)
        except asyncio.TimeoutError:
            return ("hang",)

    async def op_echo(self, xo, tag):
        return await asyncio.wait_for((await self.get(xo)).echo(tag), WAIT)

    async def op_fail(self, xo, tag):
        return await asyncio.wait_for((await self.get(xo)).fail(tag), WAIT)

    async def op_pool(self, xo):
        self.pool = await xo.create_actor_pool("127.0.0.1", n_process=0)
        return ("pool",)

    async def op_stop(self, xo):
        await self.pool.stop()
        return ("stopped",)


def perform(thread, op, tag, srv):
    """one operation with its check"""
    if op == "c":
        r = thread.do("call", tag)
        assert r == ("begun",), "starting a call: %s" % (r,)
        srv.expect("started " + tag)
    elif op == "w":
        srv.release(tag)
        r = thread.do("result", tag)
        assert r == ("done", tag), "call %s of thread %s answered %s" % (tag.split("-")[1], thread.tname, r)
    elif op == "x":
        r = thread.do("cancel", tag)
        assert r == ("cancelled",), "cancelling: %s" % (r,)
        srv.expect("cancelled " + tag)
    elif op == "e":
        r = thread.do("echo", tag)
        assert r == ("echo", tag), "call of thread %s answered %s" % (thread.tname, r)
    elif op == "f":
        r = thread.do("fail", tag)
        assert r[:2] == ("raised", "KeyError") and tag in r[2], "failing call of thread %s answered %s" % (thread.tname, r)
    elif op == "P":
        r = thread.do("pool")
        assert r == ("pool",), r
    elif op == "S":
        r = thread.do("stop")
        assert r == ("stopped",), r
    elif op in "qk":
        thread.loop.call_soon_threadsafe(thread.cmds.put_nowait, ("end", "close" if op == "q" else "leave"))
        r = thread.ack()
        assert r == ("ended",), "thread %s does not end: %s" % (thread.tname, r)
        thread.join(WAIT)
        assert not thread.is_alive(), "thread %s does not end" % thread.tname


def no_connections(srv):
    end = time.time() + WAIT
    for i in itertools.count():
        if not srv.connections():
            return
        if i % 4 == 3:
            gc.collect()
        if time.time() > end:
            raise AssertionError("%d connections are left after all threads have ended" % srv.connections())
        time.sleep(0.002)


def reset_router():
    """pools of earlier cases are gone"""
    from xoscar.backends.router import Router

    Router.set_instance(None)


def fn_ops(case):
    setup, scripts, order = case
    srv = server()
    reset_router()
    host = None
    try:
        if setup != "bare":
            host = Thread("host", srv)
            perform(host, "P", "", srv)
        shared = None
        if setup == "shared":
            import xoscar as xo

            async def look():
                return await xo.actor_ref("g", address=srv.address)

            shared = asyncio.run(look())
        threads = [Thread(str(i), srv, shared) for i in range(len(scripts))]
        pos = [0] * len(scripts)
        pend = [[] for _ in scripts]
        for i in order:
            op = scripts[i][pos[i]]
            pos[i] += 1
            if op in "wx":
                tag = pend[i].pop(0)
            else:
                tag = "t%d-%s%d-%d" % (i, op, pos[i], next(SEQ))
                if op == "c":
                    pend[i].append(tag)
            perform(threads[i], op, tag, srv)
        if host is not None:
            perform(host, "S", "", srv)
            perform(host, "q", "", srv)
        threads = None
        no_connections(srv)
    finally:
        reset_router()
        srv.got.clear()
    return {"outcome": (setup, scripts), "transitions": len(order)}


def interleavings(scripts):
    def go(left):
        if not any(left):
            yield ()
            return
        for i, n in enumerate(left):
            if n:
                for rest in go(left[:i] + (n - 1,) + left[i + 1 :]):
                    yield (i,) + rest

    return go(tuple(len(s) for s in scripts))


# --------------------------------------------------------------------- preempt
FILES = ("backends/core.py", "backends/router.py", "backends/context.py")


class Stopper:
    """stops the traced thread at its k-th point until told to go on"""

    def __init__(self, at, first_only):
        self.at = at
        self.n = 0
        self.first_only = first_only
        self.seen = set()
        self.reached = threading.Event()
        self.go = threading.Event()
        self.where = None
        self.off = False

    def trace(self, frame, event, arg):
        f = frame.f_code.co_filename
        if not f.endswith(FILES) or "xoscar" not in f:
            return None
        if event == "line" and not self.off:
            key = (f, frame.f_lineno)
            if not self.first_only or key not in self.seen:
                self.seen.add(key)
                if self.n == self.at:
                    self.where = "%s:%d" % (os.path.basename(f), frame.f_lineno)
                    self.reached.set()
                    self.go.wait(WAIT)
                self.n += 1
        return self.trace


class Traced(Thread):
    def __init__(self, name, srv, ref, stopper):
        self.stopper = stopper
        super().__init__(name, srv, ref)

    def run(self):
        if self.stopper is not None:
            sys.settrace(self.stopper.trace)
        super().run()


def step(thread, prog, srv, out):
    """run a whole program, without a driver in between"""
    try:
        for i, op in enumerate(prog):
            perform(thread, op, "%s-%s%d-%d" % (thread.tname, op, i, next(SEQ)), srv)
    except AssertionError as e:
        out.append("%s" % e)


def run_pair(setup, progs, stops, first_only):
    """progs run by two threads; stops: for each the point where it is stopped to let the other run, or None"""
    srv = server()
    reset_router()
    host = None
    info = []
    try:
        if setup == "hosted":
            host = Thread("host", srv)
            perform(host, "P", "", srv)
        import xoscar as xo

        async def look():
            return await xo.actor_ref("g", address=srv.address)

        shared = asyncio.run(look())
        st = [Stopper(k if k is not None else -1, first_only) for k in stops]
        threads = [Traced(str(i), srv, shared, s) for i, s in enumerate(st)]
        out = []
        drv = [threading.Thread(target=step, args=(t, p, srv, out), daemon=True) for t, p in zip(threads, progs)]
        drv[0].start()

        def until(i, timeout):
            """thread i has finished or stopped"""
            end = time.time() + timeout
            while drv[i].is_alive() and time.time() < end:
                if st[i].reached.is_set() and not st[i].go.is_set():
                    return "stopped"
                drv[i].join(0.0005)
            return "late" if drv[i].is_alive() else "done"

        until(0, WAIT)
        drv[1].start()
        until(1, 2.0)  # may have to wait for the other
        st[0].go.set()
        until(0, 2.0)
        st[1].go.set()
        for i in (0, 1):
            drv[i].join(2 * WAIT)
            if drv[i].is_alive():
                out.append("thread %d hangs" % i)
        where = [s.where for s in st]
        assert not out, "with switches at %s: %s" % (where, "; ".join(out))
        for i, p in enumerate(progs):
            if "q" not in p:
                perform(threads[i], "q", "", srv)
        counts = [s.n for s in st]
        if host is not None:
            perform(host, "S", "", srv)
            perform(host, "q", "", srv)
        threads = None
        no_connections(srv)
    finally:
        reset_router()
        srv.got.clear()
    return counts, where


def fn_preempt(case):
    setup, progs, stops, first_only = case
    counts, where = run_pair(setup, progs, stops, first_only)
    return {"outcome": (setup, progs, where[0]), "transitions": sum(counts)}


def points(queries):
    """how many points there are, by two runs without stops in a process of its own"""
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        try:
            out = {}
            for q in queries:
                m = [0, 0]
                for _ in range(2):
                    try:
                        c, _w = run_pair(q[0], q[1], (None, None), q[2])
                    except AssertionError:
                        c = [100, 100]  # to be found by the cases
                    m = [max(a, b) for a, b in zip(m, c)]
                out[q] = m
            os.write(w, repr(out).encode())
        finally:
            os._exit(0)
    os.close(w)
    with os.fdopen(r) as f:
        data = f.read()
    os.waitpid(pid, 0)
    return eval(data)


def run(ctx):
    th = ctx.thorough
    ops = []
    one = ["cwq", "cxeq", "cq", "feq", "ccwq", "cwk"] + (["eq", "ccwwq", "cek", "cxk"] if th else [])
    for setup in ("bare", "hosting", "shared"):
        for a, b in itertools.combinations_with_replacement(one, 2):
            if setup == "shared" and not th and "f" in a + b:
                continue
            for order in interleavings((a, b)):
                if a == b and order[0] == 1:
                    continue
                ops.append((setup, (a, b), order))
    for a in ["cweq", "cxeq", "cq"] + (["ccwwq", "fcwq"] if th else []):
        for m in ("Pq", "PSq") + (("PSPSq",) if th else ()):
            for order in interleavings((a, m)):
                ops.append(("bare", (a, m), order))
    pre = []
    progs = [("ee", "ee"), ("eq", "ee"), ("ee", "PSe"), ("fe", "eq")]
    queries = [(setup, q, not th) for setup in ("bare", "hosted") for p in progs for q in sorted({p, p[::-1]}) if "P" not in p[1] or setup == "bare"]
    double = [(setup, q, True) for setup in ("bare", "hosted") for q in (("ee", "ee"), ("eq", "ee"))] if th else []
    n = points(queries + double)
    for setup, q, first in queries:
        for k in range(n[setup, q, first][0] + 2):
            pre.append((setup, q, (k, None), first))
    for setup, q, first in double:
        a, b = n[setup, q, first]
        for k in range(a):
            for j in range(b):
                pre.append((setup, q, (k, j), first))
    ctx.enumerate({"ops": (ops, fn_ops), "preempt": (pre, fn_preempt)})
