#!/bin/bash
# seedbt.sh ID...: do the repository's own tests pass with the seeded change? (in scratch copies, four at a time)
one() { id=$1; T=$(mktemp -d /tmp/seed/bt.XXXX); cp -a /repo $T/; R=$T/repo; git -C $R checkout -qf .; git -C $R apply /verif/seeded/$id/patch.diff || { echo "$id: does not apply"; return; }
  sed "s#/repo#$R#g" /opt/vp/build_cython.py > $T/bc.py; /opt/venv/bin/python $T/bc.py >$T/b.log 2>&1 || { echo "$id: build fails"; tail -3 $T/b.log; }
  cd $R/python; PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1 timeout 780 tini -s -- /opt/venv/bin/python -m pytest -q -p no:cacheprovider --timeout=100 -o log_cli=false xoscar --ignore=xoscar/collective >$T/log 2>&1
  echo "$id: $(grep -E '^FAILED'  $T/log | grep -v test_uv | cut -c1-120 | tr '\n' '|') $(tail -1 $T/log)"; cd /tmp; [ -n "$T" ] && rm -rf "$T"; }
export -f one
printf '%s\n' "$@" | xargs -P 4 -I{} bash -c 'one {}'
