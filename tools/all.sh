#!/bin/bash
# runs all (or the named) quick checks one after another, with times
cd "$(dirname "$0")/.."
L=${*:-$(ls checks/p*.py | sed 's/.*p\([0-9]*\).py/P\1/')}
for p in $L; do s=$(date +%s); ./run.sh $p >/tmp/all.$p.log 2>&1; rc=$?; e=$(date +%s); echo "$p rc=$rc $((e-s))s $(tail -1 /tmp/all.$p.log | cut -c1-200)"; done
