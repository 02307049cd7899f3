#!/usr/bin/env python3
"""pick.py SRC DST file regex: apply those hunks of SRC's uncommitted diff of a file that match to DST"""
import re, subprocess, sys
src, dst, f, rx = sys.argv[1:5]
d = subprocess.run(["git", "-C", src, "diff", "-U1", f], capture_output=True, text=True).stdout
head, *hunks = re.split(r"(?m)^(?=@@ )", d)
sel = [h for h in hunks if re.search(rx, h)]
r = subprocess.run(["git", "-C", dst, "apply", "--recount", "-"], input=head + "".join(sel), text=True, capture_output=True)
print(len(sel), "of", len(hunks), "hunks", r.stderr)
