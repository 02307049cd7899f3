"""P26: virtual-environment requests resolve to exactly the right packages.

markers: every marker tree of bounded depth over the supported variables, operators and literals, built from a
structure that is evaluated independently of the text handed to the code, in every environment.  forms: every
combination of requirement form and marker in lists.  placeholders: values of dynamic variables.  hostile:
expressions that are no markers.  platform: what is detected through (stand-ins of) torch.  system: placeholders
of installed packages.  install: what reaches the installer (a stand-in of the uv process that resolves over a
small index) for requested x installed packages, and every combination of options; failing and cancelled runs;
environment creation."""
import contextlib
import importlib.metadata
import io
import itertools
import os
import shutil
import subprocess
import sys
import tempfile
import types
from pathlib import Path
from unittest import mock

from packaging.requirements import Requirement
from packaging.specifiers import SpecifierSet
from packaging.utils import canonicalize_name

TECHNIQUE = "bounded-exhaustive enumeration of requirement lists, marker trees, environments and installer histories on the real code, compared with a reference evaluator"
NOTE = "Exhaustive over marker trees up to two (thorough: three) connectives over the listed atoms and environments, all combinations of requirement forms, and all small sets of requested and installed packages. The uv process is replaced by a stand-in at subprocess.Popen."
RULE = "one case per marker tree / requirement list / request; distinct: distinct selections or command lines"
ASSUMPTIONS = [
    "the uv executable is represented by a stand-in that resolves over a small index and answers in uv's format",
    "each distribution is requested once per list when installed packages are skipped",
]

core = None


def load():
    global core
    if core is None:
        from xoscar.virtualenv import core as c

        core = c
    return core


# ------------------------------------------------------------ marker reference
BOOLS = ("has_cuda", "has_npu")
VERSIONS = ("cuda_version", "python_version")


def vtuple(s):
    t = [int(x) for x in str(s).split(".")]
    while t and t[-1] == 0:
        t.pop()
    return tuple(t)


def is_version(s):
    return isinstance(s, str) and all(p.isdigit() for p in s.split("."))


OPS = {
    "==": lambda a, b: a == b,
    "!=": lambda a, b: a != b,
    "<": lambda a, b: a < b,
    "<=": lambda a, b: a <= b,
    ">": lambda a, b: a > b,
    ">=": lambda a, b: a >= b,
}
FLIP = {"==": "==", "!=": "!=", "<": ">", "<=": ">=", ">": "<", ">=": "<="}


def cmp(op, a, b):
    """two values of the environment or literals"""
    if op in ("in", "not in"):
        return (a in b) == (op == "in")
    if a is None or b is None:
        return op == "!=" if (a is None) != (b is None) else op == "=="
    if isinstance(a, str) and a.startswith("sm_"):
        a, b = int(a[3:]), int(b[3:])
    elif is_version(a) and is_version(b):
        a, b = vtuple(a), vtuple(b)
    else:
        a, b = [{"true": True, "false": False}.get(x.lower(), x) if isinstance(x, str) else x for x in (a, b)]
    return OPS[op](a, b)


def value(x, env, dyn):
    kind, v = x
    return env[v] if kind == "var" else dyn[v] if kind == "dyn" else v


def truth(v):
    return v if isinstance(v, bool) else v.lower() == "true"


def ev(t, env, dyn):
    k = t[0]
    if k == "bare":
        return truth(value(t[1], env, dyn))
    if k == "cmp":
        return cmp(t[1], value(t[2], env, dyn), value(t[3], env, dyn))
    if k == "chain":
        vs = [value(x, env, dyn) for x in t[1]]
        return all(cmp(o, a, b) for o, a, b in zip(t[2], vs, vs[1:]))
    if k == "not":
        return not ev(t[1], env, dyn)
    if k == "and":
        return ev(t[1], env, dyn) and ev(t[2], env, dyn)
    if k == "or":
        return ev(t[1], env, dyn) or ev(t[2], env, dyn)
    raise AssertionError(t)


def operand(x):
    kind, v = x
    return v if kind == "var" else "#%s#" % v if kind == "dyn" else repr(v)


PREC = {"or": 1, "and": 2, "not": 3, "cmp": 4, "chain": 4, "bare": 5}


def text(t, full=False):
    k = t[0]

    def sub(u, right=False):
        s = text(u, full)
        if full and u[0] != "bare":
            return "(%s)" % s
        if PREC[u[0]] < PREC[k] or (right and PREC[u[0]] == PREC[k]):
            return "(%s)" % s
        return s

    if k == "bare":
        return operand(t[1])
    if k == "cmp":
        return "%s %s %s" % (operand(t[2]), t[1], operand(t[3]))
    if k == "chain":
        return operand(t[1][0]) + "".join(" %s %s" % (o, operand(x)) for o, x in zip(t[2], t[1][1:]))
    if k == "not":
        return "not " + sub(t[1])
    return "%s %s %s" % (sub(t[1]), k, sub(t[2], True))


def std_only(t):
    """whether it is a marker of the packaging standard"""
    if t[0] == "cmp":
        return all(x[0] == "lit" and isinstance(x[1], str) or x[0] == "var" and x[1] in ("sys_platform", "python_version") for x in t[2:])
    return t[0] in ("and", "or") and all(std_only(u) for u in t[1:])


var = lambda n: ("var", n)  # noqa
lit = lambda v: ("lit", v)  # noqa
dyn = lambda n: ("dyn", n)  # noqa

ATOMS = [("bare", var("has_cuda")), ("bare", var("has_npu"))]
for o in OPS:
    for v in ("12", "12.0", "12.1", "12.10", "11.8", "9"):
        ATOMS.append(("cmp", o, var("cuda_version"), lit(v)))
    ATOMS.append(("cmp", FLIP[o], lit("12.1"), var("cuda_version")))
    for v in ("sm_80", "sm_100", "sm_9"):
        ATOMS.append(("cmp", o, var("cuda_arch"), lit(v)))
    for v in ("3.9", "3.12", "3.10", "3", "3.12.0"):
        ATOMS.append(("cmp", o, var("python_version"), lit(v)))
    ATOMS.append(("cmp", FLIP[o], lit("3.9"), var("python_version")))
    ATOMS.append(("cmp", o, dyn("count"), lit(5)))
    ATOMS.append(("cmp", o, dyn("ver"), lit("0.10")))
for o in ("==", "!="):
    ATOMS += [("cmp", o, var("sys_platform"), lit(v)) for v in ("linux", "win32", "Linux")]
    ATOMS += [("cmp", o, lit("linux"), var("sys_platform"))]
    ATOMS += [("cmp", o, dyn("engine"), lit(v)) for v in ("vllm", "sglang", "")]
    ATOMS += [("cmp", o, lit("vllm"), dyn("engine"))]
    ATOMS += [("cmp", o, dyn("enabled"), lit(v)) for v in (True, False)]
    ATOMS += [("cmp", o, var("has_cuda"), lit(v)) for v in (True, False)]
    ATOMS += [("cmp", o, dyn("nothing"), lit(None)), ("cmp", o, dyn("engine"), lit(None)), ("cmp", o, var("cuda_version"), lit(None))]
    ATOMS += [("cmp", o, dyn("engine"), dyn("other"))]
for o in ("in", "not in"):
    ATOMS += [("cmp", o, lit("linux"), var("sys_platform")), ("cmp", o, lit("win"), var("sys_platform")), ("cmp", o, lit("ll"), dyn("engine"))]
for a, b in (("<=", "<"), ("<", "<=")):
    ATOMS.append(("chain", (lit("11.8"), var("cuda_version"), lit("12.10")), (a, b)))
    ATOMS.append(("chain", (lit("3.9"), var("python_version"), lit("3.12")), (a, b)))
ATOMS.append(("bare", dyn("enabled")))

FEW = [
    ("bare", var("has_cuda")),
    ("cmp", "==", var("sys_platform"), lit("linux")),
    ("cmp", ">=", var("cuda_version"), lit("12.1")),
    ("cmp", ">=", var("python_version"), lit("3.10")),
    ("cmp", "==", dyn("engine"), lit("vllm")),
]
MORE = FEW + [
    ("bare", var("has_npu")),
    ("cmp", "<", var("cuda_version"), lit("12")),
    ("cmp", ">=", var("cuda_arch"), lit("sm_90")),
    ("cmp", "!=", var("sys_platform"), lit("win32")),
    ("cmp", ">", dyn("count"), lit(5)),
    ("bare", dyn("enabled")),
    ("cmp", "not in", lit("win"), var("sys_platform")),
]


def env_of(cuda, cver, arch, npu, plat, py):
    from packaging.markers import default_environment

    e = dict(default_environment())
    e.update(has_cuda=cuda, cuda_version=cver, cuda_arch=arch, has_npu=npu, sys_platform=plat, python_version=py)
    return e


ENVS = [
    env_of(True, "12.1", "sm_80", False, "linux", "3.12"),
    env_of(True, "12.10", "sm_100", True, "linux", "3.9"),
    env_of(True, "11.8", "sm_90", False, "win32", "3.10"),
    env_of(True, "12.0", "sm_120", False, "win32", "3.9"),
    env_of(False, None, None, True, "linux", "3.12"),
    env_of(False, None, None, False, "darwin", "3.10"),
    env_of("true", "12.0", "sm_90", "false", "linux", "3.12"),
]
DYNS = [
    dict(engine="vllm", count=10, ver="0.9", enabled=True, nothing=None, other="vllm"),
    dict(engine="sglang", count=5, ver="0.10", enabled=False, nothing=None, other="vllm"),
    dict(engine="", count=0.5, ver="1.2", enabled=True, nothing=None, other="x"),
]


def expect(t, env, d):
    # a version that is not there compares unequal to everything and is not ordered
    return ev(t, env, d)


def uses(t, name):
    if t[0] in ("not", "and", "or"):
        return any(uses(u, name) for u in t[1:])
    xs = t[1] if t[0] == "chain" else [x for x in t[1:] if isinstance(x, tuple)]
    return any(x[0] in ("var", "dyn") and x[1] == name for x in xs)


def fn_marker(t):
    c = load()
    forms = {text(t), text(t, True)}
    out = []
    n = 0
    for i, e in enumerate(ENVS):
        for j, d in enumerate(DYNS):
            if j and not any(uses(t, v) for v in d):
                continue
            want = ev(t, e, d)
            with mock.patch.object(c, "get_env", lambda e=e: dict(e)):
                for s in sorted(forms):
                    n += 1
                    got = c.filter_requirements(["pkg>=1 ; " + s], **d)
                    assert got == (["pkg>=1"] if want else []), "marker %r in environment %d, variables %d: selected %r, the marker is %s" % (s, i, j, got, want)
            out.append(want)
    return {"outcome": tuple(out), "transitions": n}


# ---------------------------------------------------------- requirement forms
NAMES = ["foo", "Foo_Bar.baz", "a"]
EXTRAS = [(), ("x",), ("b", "a")]
SPECS = ["", ">=1.0", ">=1,<2", "~=1.4", "==1.*", "!=1.5", "===1.0", "==1.0+cpu", ">=1,!=1.3,<2,>0.5"]
URLS = [None, "https://h/p/foo-1.0-py3-none-any.whl", "git+https://h/p@v1#egg=foo"]
STYLE = [0, 1, 2]
MARKS = {
    "none": ("", True),
    "std": ("sys_platform == 'linux'", True),
    "std-": ("sys_platform == 'win32'", False),
    "ext": ("has_cuda and python_version >= '3.9'", True),
    "ext-": ("not has_cuda", False),
    "dyn": ('#engine# == "vllm"', True),
    "dyn-": ('#engine# != "vllm"', False),
}


def build(name, extras, spec, url, style, mark):
    s = name
    if extras:
        s += ("[%s]" if style != 1 else " [ %s ] ") % (", " if style == 1 else ",").join(extras)
    if url:
        s += " @ " + url
    elif spec:
        s += {0: spec, 1: " " + spec.replace(",", " , "), 2: " (%s)" % spec}[style]
    m = MARKS[mark][0]
    if m:
        s += {0: " ; ", 1: "  ;", 2: " ;  "}[style] + m
    elif style == 1:
        s = "  " + s + " "
    return s


def same(got, name, extras, spec, url):
    r = Requirement(got)
    return r.name == name and r.extras == set(extras) and r.url == url and r.marker is None and r.specifier == SpecifierSet(spec if not url else "")


def fn_form(case):
    c = load()
    reqs, api = case
    strs = [build(*r) for r in reqs]
    given = list(strs)
    with mock.patch.object(c, "get_env", lambda: dict(ENVS[0])):
        if api == "filter":
            got = c.filter_requirements(strs, engine="vllm")
        else:
            got = c.VirtualEnvManager.process_packages(strs, engine="vllm")
    assert strs == given, "the caller's list was changed"
    want = [r for r in reqs if MARKS[r[5]][1]]
    assert len(got) == len(want), "%r selected %r, expected %d packages" % (strs, got, len(want))
    for g, r in zip(got, want):
        assert same(g, *r[:4]), "%r became %r" % (build(*r), g)
    return {"outcome": tuple(got), "transitions": len(reqs)}


VCS = ["git+https://h/p.git@v1", "https://h/p/foo-1.0.tar.gz", "http://h/a.whl", "svn+https://h/p", "hg+https://h/p", "bzr+https://h/p", "git+ssh://git@h/p.git#egg=x;y"]


def fn_vcs(case):
    c = load()
    mix = list(case)
    with mock.patch.object(c, "get_env", lambda: dict(ENVS[0])):
        got = c.VirtualEnvManager.process_packages(list(mix))
    want = [m for m in mix if not m.endswith("not has_cuda")]
    assert got == want, "%r became %r" % (mix, got)
    return {"outcome": tuple(got), "transitions": len(mix)}


# ------------------------------------------------------------- dynamic values
VALUES = ["vllm", "", " ", 'a"b', "a'b", "a\\b", "a\nb", "\t", "#", "#b#", "#a#", "##", "x#b#y", "é", "😀", "\x00", "\x7f", "None", "True", "1", "1.10", "1.1", "sm_80", "sm_9", "a;b", "a # b", '" or True or "', "') or ('", "{b}", "\\1", "\\g<0>", "%s", 0, 1, -1, 10, 2.5, -0.5, True, False, None]


def plain(v):
    """values compared as they are"""
    return not (isinstance(v, str) and (v.lower() in ("true", "false") or v.startswith("sm_") or ("." in v and is_version(v))))


def fn_values(case):
    c = load()
    a, b, kind = case
    variables = {"a": a, "b": b}
    if kind == "swap":
        variables = {"b": b, "a": a}
    litb = repr(b)
    same = type(a) is type(b) and a == b or (isinstance(a, (int, float)) and isinstance(b, (int, float)) and a == b)
    if not plain(a) or not plain(b):
        same = value_eq(a, b)
    with mock.patch.object(c, "get_env", lambda: dict(ENVS[0])):
        reqs = ["x1 ; #a# == #b#", "x2 ; #a# == #a#", "x3 ; #b# == #b# and has_cuda", "x4 ; #a# != #b#"]
        if not (isinstance(b, str) and (";" in b or "#" in b)):
            reqs.append("x5 ; #a# == " + litb)
        got = c.filter_requirements(reqs, **variables)
    want = ["x1"] * same + ["x2", "x3"] + ["x4"] * (not same) + (["x5"] if same and len(reqs) == 5 else [])
    assert got == want, "variables %r: selected %r, expected %r" % (variables, got, want)
    return {"outcome": tuple(got), "transitions": len(reqs)}


def value_eq(a, b):
    if isinstance(a, str) and isinstance(b, str):
        if a.startswith("sm_") and b.startswith("sm_"):
            return int(a[3:]) == int(b[3:])
        if a.lower() in ("true", "false") and b.lower() in ("true", "false"):
            return a.lower() == b.lower()
        if "." in a and "." in b and is_version(a) and is_version(b):
            return vtuple(a) == vtuple(b)
        return a == b
    if isinstance(a, bool) or isinstance(b, bool):
        n = lambda x: {"true": True, "false": False}.get(x.lower(), x) if isinstance(x, str) else x  # noqa
        return n(a) == n(b)
    if isinstance(a, str) != isinstance(b, str):
        return None
    return a == b


# ------------------------------------------------------------- hostile markers
HIT = []
HOSTILE = [
    "__import__('builtins').p26_hit()",
    "(lambda: __import__('builtins').p26_hit())()",
    "[__import__('builtins').p26_hit() for _ in (1,)]",
    "{__import__('builtins').p26_hit()}",
    "f'{__import__(\"builtins\").p26_hit()}'",
    "p26_hit() == 1",
    "p26_hit()",
    "1 == p26_hit()",
    "not p26_hit()",
    "has_cuda.__class__",
    "has_cuda[0]",
    "(x := True)",
    "True if has_cuda else False",
    "-1 == -p26_hit()",
    "'a' + 'b' == 'ab'",
    "has_cuda & has_npu",
    "exec('p26_hit()')",
    "eval('p26_hit()')",
    "open('/nonexistent/p26')",
    "await p26_hit()",
    "*has_cuda",
    "lambda: 1",
]
BROKEN = ["", "and", "has_cuda and", "has_cuda has_npu", "(has_cuda", "has_cuda)", "== 'x'", "has_cuda ==", "import os", "x = 1", "has_cuda; has_npu", "cuda_version >= >= '1'", "#missing# == 'x'", "has_cuda and #missing# == 'x'", "not", "'a", "sys_platform = 'linux'", "sys_platform == linux'"]
WRAP = ["%s", "has_cuda and (%s)", "not has_cuda or (%s)", "(%s) or has_cuda", "(%s) and has_cuda", "not (%s)", "has_cuda == (%s)", "(%s) == has_cuda", "sys_platform == 'linux' and (%s)", "#engine# == 'vllm' and (%s)"]


def fn_hostile(case):
    c = load()
    expr, wrap, via = case
    import builtins

    hits = []
    builtins.p26_hit = lambda *a: hits.append(1) or True
    req = ["pkg ; " + wrap % expr if via != "value" else "pkg ; #e# == 'x'"]
    try:
        with mock.patch.object(c, "get_env", lambda: dict(ENVS[0])):
            if via == "value":
                got = c.filter_requirements(req, e=expr, engine="vllm")
                assert got == [], "a value is taken for an expression"
                return {"outcome": "value", "transitions": 1}
            try:
                got = c.filter_requirements(req, engine="vllm")
            except (Exception, RecursionError):
                got = "refused"
    finally:
        del builtins.p26_hit
    assert not hits, "%r was executed" % req
    assert got == "refused", "%r gave %r" % (req, got)
    return {"outcome": "refused", "transitions": 1}


# -------------------------------------------------------------------- platform
def fake_torch(kind, cap):
    t = types.ModuleType("torch")
    if kind == "none":
        return None
    t.version = types.SimpleNamespace(cuda={"cpu": None, "cuda": "12.10", "old": "11.8"}.get(kind))
    on = kind in ("cuda", "old")
    t.cuda = types.SimpleNamespace(is_available=lambda: on)

    def capability(*a):
        if isinstance(cap, type):
            raise cap("no device")
        return cap

    t.cuda.get_device_capability = capability
    if kind == "bare":
        del t.cuda, t.version
    return t


def fn_platform(case):
    c = load()
    kind, cap, npu = case
    saved = {k: sys.modules.get(k) for k in ("torch", "torch_npu")}
    t = fake_torch(kind, cap)
    try:
        sys.modules["torch"] = t  # None: not installed
        sys.modules["torch_npu"] = types.ModuleType("torch_npu") if npu else None
        if t is not None:
            t.npu = types.SimpleNamespace(is_available=lambda: npu == "on")
        reqs = ["a ; has_cuda", "b ; not has_cuda", "c ; has_npu", "d ; not has_npu", "e ; cuda_version >= '12.9'", "f ; cuda_version < '12.9'", "g ; cuda_arch >= 'sm_90'", "h ; cuda_arch < 'sm_90'", "i ; sys_platform == '%s'" % sys.platform, "j ; cuda_arch == 'sm_86'"]
        got = c.filter_requirements(reqs)
    finally:
        for k, v in saved.items():
            if v is None:
                sys.modules.pop(k, None)
            else:
                sys.modules[k] = v
    cuda = kind in ("cuda", "old")
    ver = {"cuda": "12.10", "old": "11.8"}.get(kind)
    arch = cap if isinstance(cap, tuple) and kind not in ("none", "bare") else None
    arch = arch and int("%d%d" % arch)
    n = npu == "on" and kind != "none"
    want = ["a" if cuda else "b", "c" if n else "d"]
    want += [] if ver is None else ["e" if vtuple(ver) >= (12, 9) else "f"]
    want += [] if arch is None else ["g" if arch >= 90 else "h"]
    want += ["i"] + ["j"] * (arch == 86)
    assert got == want, "torch %s, capability %s, npu %s: selected %r, expected %r" % (kind, cap, npu, got, want)
    return {"outcome": tuple(got), "transitions": len(reqs)}


# ------------------------------------------------------------ installed packages
@contextlib.contextmanager
def site(packages, alone=False):
    path = list(sys.path)
    d = tempfile.mkdtemp(prefix="p26-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        for name, ver in packages:
            p = os.path.join(d, "%s-%s.dist-info" % (name.replace("-", "_"), ver))
            os.makedirs(p)
            with open(os.path.join(p, "METADATA"), "w") as f:
                f.write("Metadata-Version: 2.1\nName: %s\nVersion: %s\n" % (name, ver))
        # without the packages of this environment reading all metadata takes no time
        sys.path[:] = [d] + [p for p in path if not (alone and "site-packages" in p)]
        importlib.invalidate_caches()
        yield d
    finally:
        sys.path[:] = path
        shutil.rmtree(d, ignore_errors=True)
        importlib.invalidate_caches()


def fn_system(case):
    c = load()
    reqs, vers = case
    with site([(n, v) for n, v in vers]):
        have = dict(vers)
        try:
            got = c.VirtualEnvManager.process_packages(list(reqs))
        except RuntimeError as e:
            missing = [r for r in reqs if r.startswith("#system_") and r[8:-1] not in have]
            assert missing and missing[0][8:-1] in str(e), "%r with %r refused: %s" % (reqs, vers, e)
            return {"outcome": "missing", "transitions": 1}
    want = ["%s==%s" % (r[8:-1], have[r[8:-1]].split("+")[0]) if r.startswith("#system_") else r for r in reqs]
    assert got == want, "%r with %r became %r" % (reqs, vers, got)
    return {"outcome": tuple(got), "transitions": len(reqs)}


# --------------------------------------------------------------- the installer
INDEX = {  # name: {version: [requirements]}
    "alpha": {"1.0": [], "1.2": [], "2.0": ["beta-pkg>=1"]},
    "beta-pkg": {"1.0": [], "1.5": []},
    "gamma": {"0.9": ["alpha>=1.1"], "1.0": ["alpha", "beta-pkg==1.5"]},
}
ALIAS = {"-i": "index", "--index-url": "index", "--default-index": "index", "-f": "links", "--find-links": "links", "--extra-index-url": "extra", "--trusted-host": "host", "--allow-insecure-host": "host", "-p": "python", "--python": "python", "-c": "constraint", "--constraint": "constraint", "--constraints": "constraint", "--color": "color"}
FLAGS = {"--no-deps": "nodeps", "--no-build-isolation": "noiso", "--dry-run": "dry", "--system-site-packages": "ssp"}


def parse(cmd):
    words, opts = [], []
    it = iter(cmd[1:])
    for w in it:
        assert isinstance(w, str), "argument %r" % (w,)
        if w in FLAGS:
            opts.append((FLAGS[w], True))
        elif w in ALIAS:
            opts.append((ALIAS[w], next(it)))
        elif w.startswith("-") and "=" in w and w.split("=", 1)[0] in ALIAS:
            k, v = w.split("=", 1)
            opts.append((ALIAS[k], v))
        else:
            assert not w.startswith("-"), "unknown option %r" % w
            words.append(w)
    return words, opts


def solve(specs, pins, nodeps=False):
    reqs = [Requirement(s) for s in specs if not s.startswith(("git+", "http"))]
    for n, v in pins:
        reqs.append(None) if False else None
    want = {}

    def add(r):
        n = canonicalize_name(r.name)
        want.setdefault(n, []).append(r.specifier)

    names = []
    for r in reqs:
        if r.url:
            continue
        add(r)
        names.append(canonicalize_name(r.name))
    pin = {canonicalize_name(n): v for n, v in pins}
    result = {}
    for _ in range(6):
        result = {}
        for n in list(names):
            cands = [v for v in INDEX.get(n, {}) if all(v in s for s in want[n]) and (n not in pin or v == pin[n].split("+")[0])]
            if not cands:
                raise LookupError(n)
            result[n] = max(cands, key=vtuple)
        new = False
        if not nodeps:
            for n, v in list(result.items()):
                for dep in INDEX[n][v]:
                    d = Requirement(dep)
                    k = canonicalize_name(d.name)
                    if k not in names:
                        names.append(k)
                        new = True
                    if d.specifier not in want.setdefault(k, []):
                        want[k].append(d.specifier)
                        new = True
        if not new:
            break
    return result


class FakeProcess:
    def __init__(self, world, cmd, text, kw):
        self.world, self.cmd, self.args = world, cmd, cmd
        self.returncode = None
        self.text = text
        self.terminated = 0
        self.pid = 4242
        self.out, self.err, self.code = world.run(self, cmd, kw)
        mk = io.StringIO if text else lambda s: io.BytesIO(s.encode())
        self.stdout, self.stderr, self.stdin = mk(self.out), mk(self.err), None

    def _end(self):
        if self.returncode is None:
            self.world.during(self)
            self.returncode = -15 if self.terminated else self.code

    def wait(self, timeout=None):
        self._end()
        return self.returncode

    def poll(self):
        return self.returncode

    def communicate(self, input=None, timeout=None):
        self._end()
        return self.stdout.read(), self.stderr.read()

    def terminate(self):
        self.terminated += 1
        self.returncode = -15

    kill = terminate

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.wait()


class FakeUV:
    """stand-in of the uv executable"""

    def __init__(self, index=True, code=0, on_run=None):
        self.calls = []
        self.code, self.on_run = code, on_run
        self.index = index
        self.procs = []

    def Popen(self, cmd, *a, **kw):
        text = bool(kw.get("text") or kw.get("universal_newlines") or kw.get("encoding"))
        p = FakeProcess(self, cmd, text, kw)
        self.procs.append(p)
        return p

    def during(self, p):
        if self.on_run and not p.dry:
            self.on_run(p)

    def run(self, p, cmd, kw):
        words, opts = parse(cmd)
        o = dict(opts)
        p.dry = bool(o.get("dry"))
        pins = []
        for k, v in opts:
            if k == "constraint":
                with open(v) as f:
                    pins += [tuple(x.strip().split("==")) for x in f if x.strip()]
        self.calls.append((tuple(words), tuple(opts), tuple(pins)))
        if words[:1] == ["venv"]:
            os.makedirs(words[1], exist_ok=True)
            Path(words[1], "pyvenv.cfg").write_text("home = x\n")
            return "", "", self.code
        assert words[:2] == ["pip", "install"], words
        if p.dry and self.index:
            try:
                plan = solve(words[2:], pins)
            except LookupError as e:
                return "", "no solution for %s" % e, 1
            lines = ["Resolved %d packages in 1ms" % len(plan), "Would install %d packages" % len(plan)]
            lines += [" + %s==%s" % kv for kv in sorted(plan.items())]
            return "", "\n".join(lines) + "\n", 0
        return "done\n", "warning\n", self.code


@contextlib.contextmanager
def manager(uv):
    from xoscar.virtualenv import get_virtual_env_manager
    from xoscar.virtualenv.uv import UVVirtualEnvManager

    d = tempfile.mkdtemp(prefix="p26-", dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
    try:
        m = get_virtual_env_manager("uv", os.path.join(d, "env"))
        c = load()
        with mock.patch.object(c, "get_env", lambda: dict(ENVS[0])), mock.patch("subprocess.Popen", uv.Popen), mock.patch.object(UVVirtualEnvManager, "_get_uv_path", return_value="uv"):
            with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
                yield m
    finally:
        shutil.rmtree(d, ignore_errors=True)


def fn_skip(case):
    """what is installed when installed packages are skipped"""
    reqs, inst = case
    uv = FakeUV()
    given = list(reqs)
    with site(inst, True), manager(uv) as m:
        try:
            m.install_packages(given, skip_installed=True)
            err = None
        except subprocess.CalledProcessError as e:
            err = e
    have = {canonicalize_name(n): v for n, v in inst}
    assert given == list(reqs), "the caller's list was changed"
    keep = [r for r in reqs if r.startswith(("git+", "http")) or " @ " in r]
    todo, pins = [], {}
    for r in reqs:
        if r in keep:
            continue
        q = Requirement(r)
        n = canonicalize_name(q.name)
        if n in have and have[n] in q.specifier:
            pins[n] = have[n]
        else:
            todo.append(r)
    try:
        plan = solve(todo, pins.items())
    except LookupError:
        plan = None
    final = [c for c in uv.calls if "dry" not in dict(c[1])]
    if plan is None:
        assert err is not None and not final, "requests that cannot be met were accepted: %r" % (uv.calls,)
        return {"outcome": "conflict", "transitions": 1}
    assert err is None, "refused: %r" % err
    want = {n: v for n, v in plan.items() if have.get(n) != v}
    got, gk = {}, []
    assert len(final) <= 1, "several installations %r" % (final,)
    for words, opts, _ in final:
        assert dict(opts).get("python") and "env" in dict(opts)["python"], "installed into %r" % (opts,)
        for w in words[2:]:
            if w.startswith(("git+", "http")) or " @ " in w:
                gk.append(w)
                continue
            q = Requirement(w)
            n = canonicalize_name(q.name)
            assert n not in got
            got[n] = list(q.specifier)[0].version if str(q.specifier).startswith("==") else None
        if "nodeps" not in dict(opts):  # then dependencies of the listed ones follow
            got = {n: v for n, v in solve(words[2:], ()).items()}
    assert gk == keep, "direct references %r, expected %r" % (gk, keep)
    assert got == want, "requested %r with %r installed: installs %r, expected %r" % (reqs, inst, got, want)
    if not want and not keep:
        assert not final, "nothing to install, but ran %r" % (final,)
    return {"outcome": (tuple(sorted(got.items())), tuple(gk)), "transitions": len(uv.calls)}


OPTS = [
    ("index_url", [None, "", "https://i/simple"]),
    ("extra_index_url", [None, "https://e", ["https://e1", "https://e2"], []]),
    ("find_links", [None, "/wheels", ("l1", "l2")]),
    ("trusted_host", [None, "h", ["h1", "h2"]]),
    ("no_build_isolation", [None, False, True]),
]
KEY = {"index_url": "index", "extra_index_url": "extra", "find_links": "links", "trusted_host": "host"}


def fn_options(case):
    vals, skip, log = case
    kw = {k: v for (k, _), v in zip(OPTS, vals) if v is not None}
    keepkw = {k: (list(v) if isinstance(v, list) else v) for k, v in kw.items()}
    uv = FakeUV()
    with site((), True), manager(uv) as m:
        m.install_packages(["alpha[x]==1.2", "gamma ; not has_cuda", "beta-pkg<1.2 ; #engine# == 'v'"], skip_installed=skip, log=log, engine="v", **kw)
    assert kw == keepkw
    assert uv.calls and len(uv.calls) == 1 + bool(skip), "%d commands" % len(uv.calls)
    for words, opts, _ in uv.calls:
        for k, v in kw.items():
            if k == "no_build_isolation":
                continue
            want = [] if not v else [v] if isinstance(v, str) else list(v)
            got = [x for n, x in opts if n == KEY[k]]
            assert got == want, "%s=%r passed on as %r in %r" % (k, v, got, words)
        for k in KEY:
            if k not in kw:
                assert not [1 for n, x in opts if n == KEY[k]], "%s appeared" % k
        assert dict(opts).get("noiso", False) == bool(kw.get("no_build_isolation")), "no_build_isolation=%r: %r" % (kw.get("no_build_isolation"), opts)
        assert dict(opts)["python"].endswith("env")
    words, opts, _ = uv.calls[-1]
    if skip:
        assert sorted(words[2:]) == ["alpha==1.2", "beta-pkg==1.0"], words
        assert "nodeps" in dict(opts)
        assert sorted(uv.calls[0][0][2:]) == ["alpha[x]==1.2", "beta-pkg<1.2"], uv.calls[0]
    else:
        assert list(words[2:]) == ["alpha[x]==1.2", "beta-pkg<1.2"], words
        assert "nodeps" not in dict(opts)
    return {"outcome": (words, opts[1:]), "transitions": len(uv.calls)}


def fn_runs(case):
    """histories of installations, failing, cancelled or successful"""
    steps, log = case
    out = []
    state = {"m": None, "mode": None}

    def during(p):
        if state["mode"] == "cancel":
            assert p.terminated == 0
            state["m"].cancel_install()
            assert p.terminated == 1, "the running installation was not stopped"
        elif state["mode"] == "cancel2":
            state["m"].cancel_install()
            state["m"].cancel_install()
            assert p.terminated == 1, "stopped %d times" % p.terminated

    uv = FakeUV(on_run=during)
    with manager(uv) as m:
        state["m"] = m
        for s in steps:
            n = len(uv.procs)
            if s == "idle-cancel":
                m.cancel_install()
                assert len(uv.procs) == n and not any(p.terminated and p.returncode != -15 for p in uv.procs)
                out.append(s)
                continue
            state["mode"] = s
            uv.code = 3 if s == "fail" else 0
            try:
                if s == "nothing":
                    m.install_packages([], log=log)
                elif s == "filtered":
                    m.install_packages(["alpha ; not has_cuda"], log=log)
                else:
                    m.install_packages(["alpha"], log=log)
                r = "ok"
            except subprocess.CalledProcessError as e:
                r = e.returncode
            want = {"ok": "ok", "fail": 3, "cancel": -15, "cancel2": -15, "nothing": "ok", "filtered": "ok"}[s]
            assert r == want, "%s ended with %r" % (s, r)
            if s in ("nothing", "filtered"):
                assert len(uv.procs) == n, "ran %r" % (uv.calls[-1],)
            if s in ("ok", "fail"):
                assert uv.procs[-1].terminated == 0
            state["mode"] = None
            before = [p.terminated for p in uv.procs]
            m.cancel_install()
            assert [p.terminated for p in uv.procs] == before, "a finished installation was stopped"
            out.append((s, r))
    return {"outcome": tuple(out), "transitions": len(steps)}


def fn_envs(case):
    """histories of environment creation and removal"""
    steps = case
    uv = FakeUV()
    out = []
    exists = False
    mark = None
    with manager(uv) as m:
        for s, arg in steps:
            n = len(uv.calls)
            if s == "remove":
                m.remove_env()
                exists = False
            else:
                try:
                    kw = {} if arg == "default" else {"exists": arg}
                    m.create_env(python_path=Path("/x/python") if s == "create-py" else None, **kw)
                    r = "ok"
                except FileExistsError:
                    r = "exists"
                except ValueError:
                    r = "invalid"
                want = "ok" if not exists or arg in ("default", "ignore", "clear") else "exists" if arg == "error" else "invalid"
                if arg == "bogus" and not exists:
                    want = r
                assert r == want, "create_env(exists=%r) with environment %s: %r" % (arg, "present" if exists else "absent", r)
                made = r == "ok" and (not exists or arg == "clear")
                assert len(uv.calls) == n + made, "%d environments created" % (len(uv.calls) - n)
                if made:
                    words, opts, _ = uv.calls[-1]
                    assert list(words) == ["venv", str(m.env_path)], words
                    assert dict(opts).get("ssp"), "system packages are not visible"
                    assert dict(opts).get("python") == ("/x/python" if s == "create-py" else None), opts
                    assert not Path(m.env_path, "mark").exists(), "the old environment was not removed"
                    Path(m.env_path, "mark").write_text("x")
                elif exists:
                    assert Path(m.env_path, "mark").exists(), "the environment was removed"
                exists = exists or made
                out.append(r)
            assert m.exists_env() == exists and Path(m.env_path).exists() == exists
            assert (m.get_python_path() is not None) == exists
            if exists:
                assert m.get_python_path() == str(Path(m.env_path, "bin", "python"))
            assert str(m.get_lib_path()).startswith(str(m.env_path))
    return {"outcome": tuple(out), "transitions": len(steps)}


# ------------------------------------------------------------------------- run
def trees(th):
    for t in ATOMS:
        yield t
        yield ("not", t)
    for a in FEW[:3]:
        for t in ATOMS:
            for k in ("and", "or"):
                yield (k, a, t)
                yield (k, t, a)
                yield (k, ("not", t), a)
    L = [("not", x) for x in FEW] + FEW if not th else [("not", x) for x in MORE] + MORE
    for k1, k2 in itertools.product(("and", "or"), repeat=2):
        for a, b, c in itertools.product(L if th else L[3:], repeat=3):
            yield (k1, (k2, a, b), c)
            yield (k1, a, (k2, b, c))
        for a, b, c in itertools.product(FEW, repeat=3):
            yield ("not", (k1, (k2, a, b), c))
            yield (k1, ("not", (k2, a, b)), c)
            yield (k1, a, ("not", (k2, b, ("not", c))))
    if th:
        for ks in itertools.product(("and", "or"), repeat=3):
            for a, b, c, d in itertools.product(FEW, repeat=4):
                yield (ks[0], (ks[1], a, b), (ks[2], c, d))
                yield (ks[0], (ks[1], (ks[2], a, b), c), d)
                yield (ks[0], a, (ks[1], b, (ks[2], c, d)))


def run(ctx):
    th = ctx.thorough
    forms = []
    every = [(n, e, s, u, st, m) for n in NAMES for e in EXTRAS for u in URLS for s in (SPECS if not u else [""]) for st in STYLE for m in MARKS]
    for r in every:
        forms.append(((r,), "filter"))
        forms.append(((r,), "process"))
    some = [(n, e, s, u, 0, m) for n, e, s, u in (("foo", (), "", None), ("foo", ("x",), ">=1,<2", None), ("a", (), "", URLS[1]), ("Foo_Bar.baz", ("b", "a"), "==1.*", None)) for m in MARKS]
    for a, b in itertools.product(some, repeat=2):
        forms.append(((a, b), "process"))
    few = [r for r in some if r[0] in ("foo", "a") and r[5] in ("none", "std-", "ext", "ext-", "dyn")]
    for t in itertools.product(few, repeat=3):
        forms.append((t, "filter"))
    if th:
        for t in itertools.product([r for r in some if r[5] in ("none", "std", "ext-", "dyn")], repeat=3):
            forms.append((t, "process"))
    vcs = [(v,) for v in VCS] + [p for p in itertools.product(VCS[:3] + ["alpha", "alpha ; not has_cuda"], repeat=3)]
    vals = [(a, b, k) for a in VALUES for b in VALUES for k in ("order", "swap") if (plain(a) and plain(b)) or value_eq(a, b) is not None]
    host = [(e, w, "marker") for e in HOSTILE + [b for b in BROKEN if b not in ("",)] for w in WRAP if not (e in ("not",) and w != "%s") and not (e in BROKEN and w != "%s")]
    host += [("", "%s", "marker")] + [(e, "%s", "value") for e in HOSTILE]
    plat = [(k, cp, n) for k in ("none", "cpu", "cuda", "old", "bare") for cp in ((8, 0), (8, 6), (9, 0), (10, 0), (12, 0), AssertionError, RuntimeError) for n in (None, "off", "on")]
    sysr = []
    P = [("p26a", "1.0"), ("p26a", "2.1.2+cpu"), ("P26-b", "1.26.4"), ("p26_c", "3.0rc1+cu121.x")]
    for k in range(4):
        for inst in itertools.combinations(P, k):
            if len({n for n, _ in inst}) < k:
                continue
            for n in (1, 2):
                for reqs in itertools.product(["#system_p26a#", "#system_P26-b#", "#system_p26_c#", "other>=2"], repeat=n):
                    sysr.append((reqs, inst))
    inst1 = [None, "0.5", "1.0", "1.2", "2.0", "1.2+cpu"]
    a_specs = [None, "alpha", "Alpha>=1.1", "alpha==1.0", "alpha~=1.0", "alpha>=2", "alpha[x]!=1.2", "alpha @ https://h/a.whl"]
    b_specs = [None, "beta_pkg", "Beta.Pkg>=1.2", "beta-pkg<1.2"]
    g_specs = [None, "gamma", "gamma<1"]
    skips = []
    for a, b, g in itertools.product(a_specs, b_specs, g_specs):
        base = [x for x in (a, b, g) if x]
        if not base:
            continue
        for ia, ib, ig in itertools.product(inst1 if th else inst1[:1] + inst1[2:5:1] + inst1[5:], [None, ("beta_pkg", "1.0"), ("Beta-Pkg", "1.5"), ("beta.pkg", "1.0")], [None, "1.0"]):
            inst = tuple(x for x in (ia and ("alpha", ia), ib, ig and ("gamma", ig)) if x)
            skips.append((tuple(base), inst))
    for inst in ((), (("alpha", "1.2"),), (("beta_pkg", "1.0"),)):
        for p in itertools.permutations(["git+https://h/p.git", "alpha>=1.1", "beta-pkg", "https://h/x.whl"], 3):
            skips.append((p, inst))
    opts = [(v, s, l) for v in itertools.product(*[x for _, x in OPTS]) for s in (False, True) for l in (False, True) if not (l and (v[0] or v[2] or v[3]))]
    runs = [(t, l) for n in range(1, 4 if not th else 5) for t in itertools.product(("ok", "fail", "cancel", "cancel2", "idle-cancel", "nothing", "filtered"), repeat=n) for l in (False, True)]
    steps = [("create", x) for x in ("default", "ignore", "error", "clear", "bogus")] + [("create-py", "default"), ("create-py", "clear"), ("remove", None)]
    envs = [t for n in range(1, 4 if not th else 5) for t in itertools.product(steps, repeat=n)]
    try:
        ctx.enumerate(
            {
                "markers": (trees(th), fn_marker),
                "forms": (forms, fn_form),
                "direct": (vcs, fn_vcs),
                "values": (vals, fn_values),
                "hostile": (host, fn_hostile),
                "platform": (plat, fn_platform),
                "system": (sysr, fn_system),
                "skip": (skips, fn_skip),
                "options": (opts, fn_options),
                "runs": (runs, fn_runs),
                "environments": (envs, fn_envs),
            }
        )
    finally:
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else tempfile.gettempdir()
        for d in os.listdir(base):
            if d.startswith("p26-") and os.path.isdir(os.path.join(base, d)):
                shutil.rmtree(os.path.join(base, d), ignore_errors=True)
