"""Helpers shared by scenario-based checks."""
import asyncio

LOG = []  # what actor bodies record; emptied before every execution


def lib():
    import xoscar as xo

    return xo


async def settle(w, n=6):
    for _ in range(n):
        await asyncio.sleep(0)


async def outcome(coro):
    """('ok', value) or (exception type name, text)."""
    try:
        return ("ok", await coro)
    except asyncio.CancelledError:
        return ("CancelledError", "")
    except Exception as e:  # noqa
        return (type(e).__name__, str(e))


def is_closed_error(o):
    return o[0] in ("ServerClosed", "ConnectionRefusedError", "ConnectionResetError", "ChannelClosed", "BrokenPipeError", "ConnectionError", "ConnectionAbortedError")


CLOSED = ("ServerClosed", "ConnectionRefusedError", "ConnectionResetError", "ChannelClosed", "BrokenPipeError", "ConnectionError", "ConnectionAbortedError", "IncompleteReadError", "EOFError")


def closed_error(o):
    return o[0] in CLOSED or (o[0] != "ok" and "ServerClosed" in o[0])


def fault(w, label, fn):
    """arm an optional event; w.hit tells whether it happened"""
    w.hit = getattr(w, "hit", None)
    w.hits = getattr(w, "hits", [])

    def fire():
        w.hit = label
        w.hits.append(label)
        w.hit_at = w.loop.time()
        fn()

    return w.loop.add_event(label, fire, opt=True)


def proc(w, name):
    for p in w.loop.procs:
        if p.name == name:
            return p
    raise KeyError(name)


def run_world(main, **world):
    """One execution of a driver in a fresh world, as one case of an enumeration."""
    from . import explore, sim

    sim.install()
    sc = explore.Scenario("case", main, world=world)
    r = explore.execute(sc, [])
    v = "; ".join("%s: %s" % k for k in r.violations) or None
    return {"outcome": r.outcome, "transitions": r.steps, "violation": v}
