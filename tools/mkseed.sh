#!/bin/bash
# mkseed.sh ID: turns the uncommitted diff of /tmp/seed/repo into seeded/ID/patch.diff (demo.py and meta.json written by hand),
# then runs demo on both trees (building them where extension modules are concerned)
id=$1; S=/tmp/seed/repo; d=/verif/seeded/$id; mkdir -p $d
[ -n "$(git -C $S diff)" ] && git -C $S diff > $d/patch.diff || git -C $S apply $d/patch.diff || exit 1
cat > $d/demo.sh <<'D'
#!/bin/bash
d=$(dirname "$(realpath "$0")"); cd /repo/python && PYTHONDONTWRITEBYTECODE=1 timeout 120 /opt/venv/bin/python "$d/demo.py"
D
chmod +x $d/demo.sh
[ -f $d/demo.py ] || exit
build() { grep -q '^+++.*\.p[yx][xd]' $d/patch.diff && { sed "s#/repo#$S#g" /opt/vp/build_cython.py >/tmp/seed/bc.py; /opt/venv/bin/python /tmp/seed/bc.py >/tmp/seed/b.log 2>&1 || tail -3 /tmp/seed/b.log; }; }
build
(cd $S/python && PYTHONPATH=$S/python PYTHONDONTWRITEBYTECODE=1 timeout 120 /opt/venv/bin/python $d/demo.py >/tmp/seed/o1 2>&1; echo "patched rc=$?"; tail -2 /tmp/seed/o1)
git -C $S checkout -q .; build
(cd $S/python && PYTHONPATH=$S/python PYTHONDONTWRITEBYTECODE=1 timeout 120 /opt/venv/bin/python $d/demo.py >/tmp/seed/o2 2>&1; echo "clean rc=$?"; tail -2 /tmp/seed/o2)
