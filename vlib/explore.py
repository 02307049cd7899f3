"""Deviation-bounded exhaustive exploration of scenarios, and bounded-exhaustive enumeration of cases."""
import gc
import hashlib
import itertools
import json
import multiprocessing
import os
import signal
import sys
import time
import traceback

NPROC = int(os.environ.get("VERIF_JOBS", "0")) or min(8, os.cpu_count() or 1)
WALL = 90  # seconds of real time one execution may take before it counts as not terminating


class WallTimeout(BaseException):
    pass


def _alarm(signum, frame):
    raise WallTimeout()


class Scenario:
    """A closed driver. `main(w)` is a coroutine function run as the client process;
    it calls `w.begin()` where exploration starts.  `judge(w, result, exc)` returns a
    list of (kind, text) violations."""

    def __init__(self, name, main, judge=None, bound=1, world=None, horizon=300.0, ok_hang=False, points=None, bound_thorough=None):
        self.name = name
        self.main = main
        self.judge = judge
        self.bound = bound
        self.bound_thorough = bound_thorough if bound_thorough is not None else bound + 1
        self.world = world or {}
        self.horizon = horizon
        self.ok_hang = ok_hang
        self.points = points

    def variant(self, suffix, world, bound=None, bound_thorough=None):
        b = bound if bound is not None else self.bound
        return Scenario(
            self.name + suffix, self.main, self.judge, b, dict(self.world, **world), self.horizon, self.ok_hang, self.points,
            bound_thorough if bound_thorough is not None else max(b, self.bound_thorough if bound is None else b + 1),
        )


def fingerprint(x):
    return hashlib.blake2b(repr(x).encode(), digest_size=8).digest()


class Run:
    __slots__ = ("points", "violations", "outcome", "steps", "nodes", "capped", "divergence", "fire_log")


def execute(sc, prefix, expect=None):
    from . import scen, sim

    del scen.LOG[:]
    ex = sim.Execution(prefix, expect, max_points=sc.points or 100000)
    w = sim.World(ex, horizon=sc.horizon)
    for k, v in sc.world.items():
        setattr(w.loop, k, v)
    w.result = {}
    w.begin = lambda: setattr(ex, "explore", True)
    w.end = lambda: setattr(ex, "explore", False)
    w.note = ex.obs.append
    r = Run()
    r.divergence = None
    exc = None
    result = None
    violations = []
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(WALL)
    try:
        try:
            result = w.run(sc.main(w))
        except sim.ReplayDivergence as e:
            r.divergence = str(e)
        except sim.SimHang as e:
            exc = e
            if not sc.ok_hang:
                violations.append(("hang", "%s; waiting: %s" % (e, _waiting(w))))
        except WallTimeout:
            violations.append(("no-termination", "one execution ran for %d s" % WALL))
        except Violation as e:
            violations.append(("oracle", str(e)))
        except AssertionError as e:
            tb = traceback.extract_tb(e.__traceback__)
            violations.append(("oracle", "%s (%s:%d)" % (e, os.path.basename(tb[-1].filename), tb[-1].lineno)))
        except Exception as e:  # noqa
            exc = e
            violations.append(
                ("exception", "%s: %s @ %s" % (type(e).__name__, str(e)[:300], _where(e)))
            )
        if not violations and r.divergence is None and sc.judge is not None:
            try:
                for v in sc.judge(w, result, exc) or ():
                    violations.append(v if isinstance(v, tuple) else ("oracle", v))
            except AssertionError as e:
                tb = traceback.extract_tb(e.__traceback__)
                violations.append(("oracle", "%s (%s:%d)" % (e, os.path.basename(tb[-1].filename), tb[-1].lineno)))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
        r.points = ex.points
        r.steps = w.loop.steps
        r.outcome = repr((result, ex.obs))
        r.capped = ex.capped
        r.fire_log = w.loop.fire_log
        w.close()
    r.violations = violations
    return r


class Violation(Exception):
    pass


def _where(e):
    tb = traceback.extract_tb(e.__traceback__)
    return " < ".join("%s:%s:%d" % (os.path.basename(f.filename), f.name, f.lineno) for f in reversed(tb[-4:]))


def _waiting(w):
    out = []
    for p in w.loop.procs:
        for t in list(p.tasks):
            if not t.done():
                try:
                    st = t.get_stack(limit=1)
                    c = t.get_coro()
                    out.append("%s:%s" % (p.name, getattr(c, "__qualname__", c)))
                except Exception:  # noqa
                    pass
    return ", ".join(sorted(out))[:600]


_SC = []
KNOWN = [lambda sig, text: False]  # is this violation listed in the file of known findings


def _all_known(sc, kinds):
    return all(KNOWN[0]("%s/%s" % (sc.name, k), t) for k, t in kinds)


_DEADLINE = [None]
_exec_count = [0]


def _tick():
    _exec_count[0] += 1
    if _exec_count[0] % 150 == 0:
        gc.collect()


def _last(points):
    k = -1
    for i, p in enumerate(points):
        if p[1]:
            k = i
    return k


class _Stop(Exception):
    pass


# ---------------------------------------------------------------------------
# workers

class Crash:
    def __init__(self, how):
        self.how = how


def _worker(fn, conn, others):
    for c in others:
        c.close()
    while True:
        try:
            t = conn.recv()
        except (EOFError, OSError):
            os._exit(0)
        if t is None:
            os._exit(0)
        conn.send(fn(t))


def run_tasks(fn, tasks):
    """Runs fn over tasks in forked workers; yields (task, result or Crash), in completion order."""
    from multiprocessing import connection

    ctx = multiprocessing.get_context("fork")
    tasks = iter(tasks)
    live = {}  # conn -> [process, task]
    sys.stdout.flush()
    sys.stderr.flush()

    def start():
        a, b = ctx.Pipe()
        p = ctx.Process(target=_worker, args=(fn, b, [a] + list(live)), daemon=True)
        p.start()
        b.close()
        live[a] = [p, None]
        return a

    def feed(c):
        try:
            t = next(tasks)
        except StopIteration:
            live[c][1] = None
            return False
        live[c][1] = t
        c.send(t)
        return True

    try:
        for _ in range(NPROC):
            if not feed(start()):
                break
        while True:
            busy = [c for c in live if live[c][1] is not None]
            if not busy:
                return
            limit = _DEADLINE[0] + WALL + 30 - time.time()
            ready = connection.wait(busy, timeout=max(1, limit))
            if not ready:
                for c in busy:
                    t = live[c][1]
                    live[c][0].kill()
                    del live[c]
                    yield t, Crash("no answer: stuck in native code or a loop that never yields")
                continue
            for c in ready:
                t = live[c][1]
                try:
                    r = c.recv()
                except (EOFError, OSError):
                    p = live[c][0]
                    p.join(5)
                    del live[c]
                    c.close()
                    yield t, Crash("the process died, exit code %s" % p.exitcode)
                    feed(start())
                    continue
                feed(c)
                yield t, r
    finally:
        for c, (p, t) in live.items():
            p.kill()
        for c, (p, t) in live.items():
            p.join(5)
            c.close()


def explore(scenarios, bound_of, budget, log=print):
    """Explores all scenarios. Returns aggregated statistics and violations."""
    global _SC
    from . import sim

    sim.install()
    _SC = list(scenarios)
    t0 = time.time()
    _DEADLINE[0] = t0 + budget
    stats = {
        s.name: {
            "executions": 0,
            "choice_points": 0,
            "steps": 0,
            "nodes": 0,
            "outcomes": 0,
            "bound": bound_of(s),
            "completed_bound": -1,
            "capped": False,
            "max_points": 0,
        }
        for s in _SC
    }
    outcomes = {s.name: {} for s in _SC}
    violations = []
    divergences = []
    gc.collect()
    gc.freeze()

    def absorb(task, res):
        if isinstance(res, Crash):
            i = task if isinstance(task, int) else task[0]
            violations.append(
                {"scenario": _SC[i].name, "prefix": [] if isinstance(task, int) else task[1], "labels": None, "kinds": [("crash", res.how)]}
            )
            return False
        s = stats[_SC[res["idx"]].name]
        s["executions"] += res["execs"]
        s["choice_points"] += res["points"]
        s["steps"] += res["steps"]
        s["nodes"] += res["nodes"]
        s["capped"] |= res["capped"]
        s["max_points"] = max(s["max_points"], res["maxpoints"])
        outcomes[_SC[res["idx"]].name].update(res["outcomes"])
        for v in res["violations"]:
            v["scenario"] = _SC[res["idx"]].name
            violations.append(v)
        for d in res["diverged"]:
            divergences.append((_SC[res["idx"]].name,) + d)
        return res["timeout"]

    # bound 0: the default schedule, run twice (determinism)
    base = {}
    for task, rec in run_tasks(_base_task, range(len(_SC))):
        absorb(task, rec)
        if not isinstance(rec, Crash):
            base[task] = rec
            stats[_SC[task].name]["completed_bound"] = 0
    maxb = max([bound_of(s) for s in _SC], default=0) if not violations else 0
    for level in range(1, maxb + 1):
        # iterative bounding: all executions with exactly `level` deviations
        tasks = []
        for i, s in enumerate(_SC):
            if bound_of(s) < level:
                continue
            rec = base[i]
            for pt in range(len(rec["base_points"])):
                n, c, labels = rec["base_points"][pt]
                for alt in range(1, n):
                    tasks.append((i, [0] * pt + [alt], pt + 1, level - 1))
        # interleave scenarios so that the budget is shared fairly
        tasks.sort(key=lambda t: t[2])
        to = set()
        for task, res in run_tasks(_level_task, tasks):
            if absorb(task, res):
                to.add(task[0])
            if violations:
                break
        if violations:
            break
        for i, s in enumerate(_SC):
            if bound_of(s) >= level and i not in to:
                stats[s.name]["completed_bound"] = level
        if time.time() > _DEADLINE[0]:
            break
    for s in _SC:
        stats[s.name]["outcomes"] = len(outcomes[s.name])
    return {
        "stats": stats,
        "violations": violations,
        "divergences": divergences,
        "outcomes": outcomes,
        "wall": time.time() - t0,
    }


def _base_task(i):
    sc = _SC[i]
    r1 = execute(sc, [])
    labels = [p[2] for p in r1.points]
    r2 = execute(sc, [0] * len(r1.points), labels)
    res = {
        "idx": i,
        "execs": 1,
        "points": len(r1.points),
        "steps": r1.steps,
        "nodes": len(r1.points) + 1,
        "outcomes": {fingerprint(r1.outcome): r1.outcome[:400]},
        "violations": [],
        "diverged": [],
        "capped": r1.capped,
        "timeout": False,
        "maxpoints": len(r1.points),
        "base_points": r1.points,
    }
    if r1.violations and not _all_known(sc, r1.violations):
        res["violations"].append({"prefix": [], "kinds": r1.violations, "labels": []})
    if r2.divergence or [p[2] for p in r2.points] != labels or r1.outcome != r2.outcome:
        res["diverged"].append(
            ([], r2.divergence or "the default schedule run twice differs: %s / %s" % (r1.outcome[:300], r2.outcome[:300]))
        )
    return res


def _level_task(task):
    """All executions with exactly level deviations whose first deviation is given."""
    idx, prefix, start, remaining = task
    sc = _SC[idx]
    res = {
        "idx": idx,
        "execs": 0,
        "points": 0,
        "steps": 0,
        "nodes": 0,
        "outcomes": {},
        "violations": [],
        "diverged": [],
        "capped": False,
        "timeout": False,
        "maxpoints": 0,
    }

    def go(prefix, start, remaining, expect):
        if time.time() > _DEADLINE[0]:
            res["timeout"] = True
            return
        r = execute(sc, prefix, expect)
        _tick()
        res["execs"] += 1
        res["points"] += len(r.points)
        res["maxpoints"] = max(res["maxpoints"], len(r.points))
        res["steps"] += r.steps
        res["capped"] |= r.capped
        if r.divergence:
            res["diverged"].append((list(prefix), r.divergence))
            return
        # nodes of the execution tree that no other execution visits: those after the last deviation
        res["nodes"] += len(r.points) - len(prefix) + 1
        res["outcomes"].setdefault(fingerprint(r.outcome), r.outcome[:400])
        if r.violations and not _all_known(sc, r.violations):
            k = _last(r.points) + 1
            res["violations"].append(
                {
                    "prefix": [p[1] for p in r.points][:k],
                    "kinds": r.violations,
                    "labels": [list(p[2]) for p in r.points][:k],
                }
            )
            raise _Stop()
        if remaining <= 0:
            return
        labels = [p[2] for p in r.points]
        choices = [p[1] for p in r.points]
        for i in range(start, len(r.points)):
            for alt in range(1, r.points[i][0]):
                go(choices[:i] + [alt], i + 1, remaining - 1, labels[: i + 1])

    try:
        go(prefix, start, remaining, None)
    except _Stop:
        pass
    return res


# ---------------------------------------------------------------------------
# enumeration of cases

_ENUM = {}


def _enum_task(task):
    name, lo, hi = task
    cases, fn = _ENUM[name]
    out = {"n": 0, "outcomes": {}, "violations": [], "transitions": 0, "timeout": False, "samples": []}
    old = signal.signal(signal.SIGALRM, _alarm)
    for i in range(lo, hi):
        if time.time() > _DEADLINE[0]:
            out["timeout"] = True
            break
        case = cases[i]
        signal.alarm(WALL)
        try:
            r = fn(case)
        except WallTimeout:
            r = {"violation": "no termination within %d s" % WALL}
        except AssertionError as e:
            tb = traceback.extract_tb(e.__traceback__)
            r = {"violation": "%s (%s:%d)" % (e, os.path.basename(tb[-1].filename), tb[-1].lineno)}
        except Violation as e:
            r = {"violation": str(e)}
        except Exception as e:  # noqa
            r = {"violation": "%s: %s @ %s" % (type(e).__name__, str(e)[:300], _where(e))}
        finally:
            signal.alarm(0)
        out["n"] += 1
        r = r or {}
        out["transitions"] += r.get("transitions", 1)
        oc = fingerprint(r.get("outcome", None))
        out["outcomes"].setdefault(oc, 0)
        out["outcomes"][oc] += 1
        if r.get("violation"):
            out["violations"].append({"family": name, "index": i, "case": repr(case)[:2000], "text": r["violation"], "tag": r.get("tag")})
            if len(out["violations"]) >= 20:
                break
    signal.signal(signal.SIGALRM, old)
    gc.collect()
    return out


def enumerate_cases(families, budget, parallel=True):
    """families: {name: (list of cases, fn)}.  fn(case) -> dict(outcome=, transitions=, violation=) or None."""
    global _ENUM
    _ENUM = families
    t0 = time.time()
    _DEADLINE[0] = t0 + budget
    tasks = []
    for name, (cases, fn) in families.items():
        n = len(cases)
        step = max(1, min(2000, n // (NPROC * 6) or 1))
        for lo in range(0, n, step):
            tasks.append((name, lo, min(n, lo + step)))
    tot = {
        name: {"cases": 0, "of": len(c[0]), "outcomes": set(), "transitions": 0, "timeout": False}
        for name, c in families.items()
    }
    violations = []

    def absorb(t, out):
        s = tot[t[0]]
        s["cases"] += out["n"]
        s["transitions"] += out["transitions"]
        s["outcomes"].update(out["outcomes"])
        s["timeout"] |= out["timeout"]
        violations.extend(out["violations"])

    gc.collect()
    gc.freeze()
    for t, out in run_tasks(_enum_task, tasks) if parallel else ((t, _enum_task(t)) for t in tasks):
        if isinstance(out, Crash):
            violations.append({"family": t[0], "index": t[1], "case": "one of cases %d..%d" % (t[1], t[2] - 1), "text": out.how, "tag": "crash"})
        else:
            absorb(t, out)
        if len(violations) >= 40:
            break
    return {"families": tot, "violations": violations, "wall": time.time() - t0}
