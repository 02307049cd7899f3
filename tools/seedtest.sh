#!/bin/bash
# seedtest.sh ID...: do the checks of the seeded changes' properties report them? (scratch copy in /tmp/seed/repo)
S=/tmp/seed/repo
[ -d $S ] || { mkdir -p /tmp/seed; cp -a /repo /tmp/seed/; }
cd $S && git fetch -q /repo master 2>/dev/null || git fetch -q /repo HEAD; git -C $S checkout -qf FETCH_HEAD
for id in "$@"; do
  d=/verif/seeded/$id
  p=$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")
  git -C $S apply $d/patch.diff || { echo "$id: does not apply"; continue; }
  out=$(cd /verif && VERIF_REPO=$S VERIF_BUILD=/tmp/seed/build VERIF_EVIDENCE=/tmp/seed ./run.sh $p 2>&1); rc=$?
  echo "$id $p rc=$rc $(echo "$out" | grep -c ^VIOLATION) $(echo "$out" | grep -v ^VIOLATION | head -2 | cut -c1-150 | tr '\n' '|')"
  git -C $S checkout -qf .
done
