#!/usr/bin/env python3
"""mut.py PNN file old new: does the check report this change? (scratch copy in /tmp/seed/repo)"""
import os, subprocess, sys
S = "/tmp/seed/repo"
B = os.environ.get("MUT_BASE", "/repo")
pid, f, old, new = sys.argv[1:5]
if not os.path.isdir(S):
    subprocess.run("mkdir -p /tmp/seed; cp -a /repo /tmp/seed/", shell=True)
subprocess.run("git -C %s fetch -q %s HEAD; git -C %s checkout -qf FETCH_HEAD" % (S, B, S), shell=True)
subprocess.run("git -C %s diff > /tmp/seed/wd.diff; test -s /tmp/seed/wd.diff && git -C %s apply /tmp/seed/wd.diff" % (B, S), shell=True)
p = S + "/python/xoscar/" + f
s = open(p).read()
assert s.count(old) == 1, (f, s.count(old))
open(p, "w").write(s.replace(old, new))
r = subprocess.run(["./run.sh", pid], cwd="/verif", env=dict(os.environ, VERIF_REPO=S, VERIF_BUILD="/tmp/seed/build"), capture_output=True, text=True)
print("CAUGHT" if r.returncode == 1 else "MISSED rc=%d" % r.returncode, (r.stdout + r.stderr)[-1500:] if r.returncode != 0 else r.stdout[-200:])
subprocess.run("git -C %s checkout -qf ." % S, shell=True)
