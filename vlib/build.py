"""Builds a shadow copy of /repo/python/xoscar from the current working tree.

The shadow lives in /verif/.build/tree (git-ignored).  Python sources are copied,
Cython sources are compiled only if no binary for exactly this content is known
(in-place binaries of /repo are reused when the content stamp written by the
repository's build matches; otherwise the extension is compiled here).
/repo itself is never written to.
"""
import fcntl
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "python")
BUILD = os.environ.get("VERIF_BUILD", "/verif/.build")
TREE = os.path.join(BUILD, "tree")
CACHE = os.path.join(BUILD, "so")
PY = "/opt/venv/bin/python"
SUFFIX = ".cpython-312-x86_64-linux-gnu.so"


def _sha(path):
    with open(path, "rb") as f:
        return hashlib.sha256(f.read()).hexdigest()


def _walk(ext):
    return sorted(
        os.path.relpath(p, SRC)
        for p in glob.glob(os.path.join(SRC, "xoscar/**/*" + ext), recursive=True)
    )


COMPILE = r"""
import os, sys
from setuptools import setup, Extension
from Cython.Build import cythonize
import numpy as np
os.chdir(sys.argv[1])
mods = sys.argv[2:]
exts = [Extension(m[:-4].replace('/', '.'), [m], include_dirs=[np.get_include()],
        define_macros=[('CYTHON_FAST_THREAD_STATE', '0')],
        extra_compile_args=['-O1', '-std=c++0x', '-w']) for m in mods]
exts = cythonize(exts, language_level=3, nthreads=0, quiet=True)
sys.argv = ['setup.py', '-q', 'build_ext', '--inplace', '-j', '5']
setup(name='xoscar', ext_modules=exts, packages=['xoscar'])
"""


def build(verbose=False):
    """Returns the directory to put on sys.path."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, "lock"), "w")
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(verbose)
    finally:
        lock.close()


def _build(verbose):
    os.makedirs(CACHE, exist_ok=True)
    # 1. mirror sources
    keep = set()
    for root, dirs, files in os.walk(os.path.join(SRC, "xoscar")):
        dirs[:] = [d for d in dirs if d != "__pycache__"]
        rel = os.path.relpath(root, SRC)
        dst = os.path.join(TREE, rel)
        os.makedirs(dst, exist_ok=True)
        for f in files:
            if not f.endswith((".py", ".pyx", ".pxd", ".pyi")):
                continue
            s, d = os.path.join(root, f), os.path.join(dst, f)
            keep.add(d)
            with open(s, "rb") as fh:
                data = fh.read()
            try:
                with open(d, "rb") as fh:
                    same = fh.read() == data
            except OSError:
                same = False
            if not same:
                with open(d, "wb") as fh:
                    fh.write(data)
    for root, dirs, files in os.walk(TREE):
        for f in files:
            p = os.path.join(root, f)
            if f.endswith((".py", ".pyx", ".pxd", ".pyi")) and p not in keep:
                os.remove(p)
    # 2. extensions
    shared = {p: _sha(os.path.join(SRC, p)) for p in _walk(".pxd")}
    if os.path.exists(os.path.join(SRC, "setup.py")):
        shared["setup.py"] = _sha(os.path.join(SRC, "setup.py"))
    pyx = {p: _sha(os.path.join(SRC, p)) for p in _walk(".pyx")}
    try:
        with open(os.path.join(SRC, "build", "vp-cython.json")) as f:
            stamp = json.load(f)
    except (OSError, ValueError):
        stamp = {"pyx": {}, "shared": None}
    keys = {
        p: hashlib.sha256(json.dumps([h, shared, p], sort_keys=True).encode()).hexdigest()
        for p, h in pyx.items()
    }
    todo = []
    for p, h in pyx.items():
        so = p[:-4] + SUFFIX
        cached = os.path.join(CACHE, keys[p] + ".so")
        if not os.path.exists(cached):
            inplace = os.path.join(SRC, so)
            if (
                stamp.get("shared") == shared
                and stamp["pyx"].get(p) == h
                and os.path.exists(inplace)
            ):
                shutil.copy2(inplace, cached)
            else:
                todo.append(p)
                continue
        _place(cached, os.path.join(TREE, so))
    if todo:
        work = os.path.join(BUILD, "work.%d" % os.getpid())
        shutil.rmtree(work, ignore_errors=True)
        os.makedirs(work)
        for p in list(pyx) + _walk(".pxd") + _walk("__init__.py"):
            d = os.path.join(work, p)
            os.makedirs(os.path.dirname(d), exist_ok=True)
            shutil.copy2(os.path.join(SRC, p), d)
        r = subprocess.run(
            [PY, "-c", COMPILE, work] + todo,
            stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT,
            cwd=work,
            env=dict(os.environ, HOME="/root", PYTHONPATH=""),
        )
        if r.returncode != 0:
            sys.stderr.write(r.stdout.decode(errors="replace")[-4000:])
            shutil.rmtree(work, ignore_errors=True)
            raise SystemExit("verif: cannot build the extensions of the current tree")
        for p in todo:
            so = os.path.join(work, p[:-4] + SUFFIX)
            cached = os.path.join(CACHE, keys[p] + ".so")
            shutil.move(so, cached)
            _place(cached, os.path.join(TREE, p[:-4] + SUFFIX))
        shutil.rmtree(work, ignore_errors=True)
    if verbose:
        print("verif build: compiled %d of %d extensions" % (len(todo), len(pyx)))
    return TREE


def _place(src, dst):
    if os.path.exists(dst):
        if os.path.getsize(dst) == os.path.getsize(src) and _sha(dst) == _sha(src):
            return
        os.remove(dst)
    shutil.copy2(src, dst)


if __name__ == "__main__":
    print(build(verbose=True))
