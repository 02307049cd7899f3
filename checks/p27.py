"""P27: type-based dispatch picks the most specific registered handler.

All histories of registering, unregistering and looking up handlers over a small class hierarchy
(with a diamond), named variants, tuples of types and lazily named types of modules that are
imported, importable or not yet importable, against the definition of the look-up."""
import itertools
import sys
import types

from xoscar._utils import NamedType, TypeDispatcher

TECHNIQUE = "bounded-exhaustive enumeration of register/unregister/look-up histories on the real dispatcher against the definition of the look-up"
NOTE = "Exhaustive over all histories up to the stated length; single inheritance, a diamond, a metaclass-free hierarchy; one thread."
RULE = "every history of the listed operations up to the length bound; after it every type is looked up in two orders"

HOME, LATE = "p27_home", "p27_late"


class Finder:
    """makes p27_late importable while it is `on`"""

    on = False

    @classmethod
    def find_spec(cls, name, path=None, target=None):
        if name == LATE and cls.on:
            import importlib.machinery

            return importlib.machinery.ModuleSpec(name, cls)
        return None

    @staticmethod
    def create_module(spec):
        m = types.ModuleType(LATE)
        m.E = type("E", (WORLD["A"],), {"__module__": LATE})
        m.F = type("F", (m.E,), {"__module__": LATE})
        return m

    @staticmethod
    def exec_module(m):
        pass


WORLD = {}


def fresh():
    for m in (HOME, LATE):
        sys.modules.pop(m, None)
    Finder.on = False
    if Finder not in sys.meta_path:
        sys.meta_path.insert(0, Finder)
    m = types.ModuleType(HOME)
    WORLD.clear()
    WORLD["object"] = object
    for n, bases in (("A", ()), ("B", ("A",)), ("C", ("A",)), ("D", ("B", "C")), ("X", ())):
        WORLD[n] = type(n, tuple(WORLD[b] for b in bases), {"__module__": HOME})
        setattr(m, n, WORLD[n])
    sys.modules[HOME] = m


TYPES = ("object", "A", "B", "C", "D", "X", "n:A", "n:B", "n:D", "k:B", "n:X")
LATE_TYPES = ("E", "F", "n:E", "n:F")


def real(name):
    if ":" in name:
        a, b = name.split(":")
        return NamedType(a, real(b))
    if name in ("E", "F"):
        return getattr(sys.modules[LATE], name)
    return WORLD[name]


def late():
    return LATE in sys.modules


def reg_key(k):
    if isinstance(k, tuple):
        return tuple(reg_key(x) for x in k)
    return k if "." in k else real(k)


class Model:
    """name -> handler, for names of types; lazily named types count from when they exist"""

    def __init__(self):
        self.h, self.lazy = {}, {}

    def flat(self, k):
        return [y for x in k for y in self.flat(x)] if isinstance(k, tuple) else [k]

    def arrive(self):
        if late():
            for k in list(self.lazy):
                self.h[k.split(".")[1]] = self.lazy.pop(k)

    def register(self, k, v):
        self.arrive()
        for x in self.flat(k):
            if x.startswith(LATE + "."):
                self.lazy[x] = v
                self.arrive()
            else:
                self.h[x.split(".")[-1]] = v

    def unregister(self, k):
        self.arrive()
        for x in self.flat(k):
            if self.lazy.pop(x, None) is None:
                self.h.pop(x.split(".")[-1], None)

    def get(self, name):
        """the definition"""
        self.arrive()
        nm, base = name.split(":") if ":" in name else (None, name)
        for c in real(base).__mro__:
            if nm and nm + ":" + c.__name__ in self.h:
                return self.h[nm + ":" + c.__name__]
            if c.__name__ in self.h:
                return self.h[c.__name__]
        return None


def look(d, name):
    try:
        return d.get_handler(real(name))
    except KeyError:
        return None


REGS = ["object", "A", "B", "D", "n:A", "n:B", ("A", "n:C"), HOME + ".A", HOME + ".B", LATE + ".E"]
GETS = ["D", "n:D", "X", "B"]


def enabled(state):
    """state: (late importable, late imported) as far as the history decides"""
    yield from (("reg", k) for k in REGS)
    yield from (("unreg", k) for k in REGS)
    yield from (("get", k) for k in GETS)
    yield ("late",)
    yield ("import",)
    yield ("reload",)
    for k in ("E", "n:E"):
        yield ("reg", k)
        yield ("unreg", k)
    yield ("get", "F")
    yield ("get", "n:F")


SMALL = [("reg", k) for k in ("A", "B", "n:A", HOME + ".A", LATE + ".E")] + [("unreg", k) for k in ("A", "B", HOME + ".A", LATE + ".E")]
SMALL += [("get", "D"), ("get", "n:D"), ("late",), ("import",), ("get", "F"), ("reg", "E")]
ALPHABETS = {"full": list(enabled(None)), "small": SMALL}


def run_ops(ops):
    fresh()
    d, m = TypeDispatcher(), Model()
    n = 0
    for i, op in enumerate(ops):
        what = op[0]
        needs = [x for x in m.flat(op[1])] if len(op) > 1 else []
        if any(x in ("E", "F", "n:E", "n:F") for x in needs) and not late():
            return None, i  # such a type does not exist yet
        if what == "reg":
            h = "h%d" % i
            d.register(reg_key(op[1]), h)
            m.register(op[1], h)
        elif what == "unreg":
            d.unregister(reg_key(op[1]))
            m.unregister(op[1])
        elif what == "get":
            check(d, m, op[1], ops[: i + 1])
        elif what == "late":
            if Finder.on:
                return None, i
            Finder.on = True
        elif what == "import":
            if not Finder.on or late():
                return None, i
            __import__(LATE)
        elif what == "reload":
            TypeDispatcher.reload_all_lazy_handlers()
        n += 1
    names = TYPES + (LATE_TYPES if late() else ())
    for t in names:
        check(d, m, t, ops)
    for t in reversed(names + (LATE_TYPES if late() and names[-1] != "n:F" else ())):
        check(d, m, t, ops)
    return tuple(m.get(t) for t in names), n


def check(d, m, t, ops):
    have, want = look(d, t), m.get(t)
    assert have == want, "%r: look-up of %s gave %r instead of %r" % (ops, t, have, want)


def fn_hist(case):
    prefix, depth, alphabet = case
    alphabet = ALPHABETS[alphabet]
    n, out = 0, set()

    def rec(p):
        nonlocal n
        o, k = run_ops(p)
        n += k
        if o is None:
            return
        out.add(o)
        if len(p) < depth:
            for op in alphabet:
                # two registrations in a row that commute are tried in one order only
                if p and op[0] == p[-1][0] and op[0] in ("get",) and op <= p[-1]:
                    continue
                rec(p + (op,))

    rec(tuple(prefix))
    return {"outcome": len(out), "transitions": n}


# ------------------------------------------------- calling, objects, refusals
class Boom(Exception):
    pass


def fn_call(case):
    reg, t = case
    fresh()
    d, m = TypeDispatcher(), Model()
    for i, k in enumerate(reg):
        d.register(reg_key(k), lambda o, *a, _i=i, **kw: (_i, type(o).__name__, a, kw))
        m.register(k, i)
    want = m.get(t)
    o = real(t)()
    try:
        got = d(o, 1, 2, x=3)
    except KeyError:
        got = None
    assert got == (None if want is None else (want, t, (1, 2), {"x": 3})), (got, want)

    def bad(o):
        raise Boom(t)

    d.register(real(t), bad)
    try:
        d(o)
    except Boom as e:
        assert str(e) == t
    else:
        raise AssertionError("the handler's error was lost")
    return {"outcome": want, "transitions": len(reg) + 2}


def fn_two(case):
    """dispatchers do not influence each other"""
    a, b = case
    fresh()
    d1, d2, m1, m2 = TypeDispatcher(), TypeDispatcher(), Model(), Model()
    for i, (k, l) in enumerate(zip(a, b)):
        d1.register(reg_key(k), "a%d" % i), m1.register(k, "a%d" % i)
        d2.register(reg_key(l), "b%d" % i), m2.register(l, "b%d" % i)
        for t in TYPES:
            check(d1, m1, t, ("first", a, b))
            check(d2, m2, t, ("second", a, b))
    d1.unregister(reg_key(a[0])), m1.unregister(a[0])
    for t in TYPES:
        check(d1, m1, t, ("first", a, b))
        check(d2, m2, t, ("second", a, b))
    return {"outcome": repr([m1.get(t) for t in TYPES]), "transitions": 4 + 6 * len(TYPES)}


def run(ctx):
    hist = [((a, b), ctx.pick(3, 4), "full") for a in ALPHABETS["full"] for b in ALPHABETS["full"]]
    deep = [((a, b), ctx.pick(5, 6), "small") for a in ALPHABETS["small"] for b in ALPHABETS["small"]]
    regs = list(itertools.permutations(["object", "A", "B", "C", HOME + ".B", ("A", "X")], 3))
    ctx.enumerate(
        {
            "histories": (hist, fn_hist),
            "deep": (deep, fn_hist),
            "call": ([(r[:n], t) for n in (0, 1, 2, 3) for r in regs for t in ("A", "B", "C", "D", "X")], fn_call),
            "two": ([(a, b) for a in itertools.product(("object", "A", "n:B", HOME + ".B"), repeat=2) for b in itertools.product(("A", "C", HOME + ".A", ("B", "X")), repeat=2)], fn_two),
        }
    )
