#!/bin/bash
# fixc.sh PNN "message without fix:" "what failed" file...   -- commits a repair in /repo and records it
pid=$1; msg=$2; what=$3; shift 3
cd /repo && git add "$@" && git commit -qm "fix: $msg" && h=$(git rev-parse --short HEAD) &&
python3 - "$pid" "$h" "$what" <<'P'
import json,sys
open('/verif/known_findings.jsonl','a').write(json.dumps({"status":"fixed","property":sys.argv[1],"commit":sys.argv[2],"what":"fixed: property=%s %s %s"%(sys.argv[1],sys.argv[2],sys.argv[3])})+"\n")
P
