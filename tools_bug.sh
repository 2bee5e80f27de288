#!/bin/bash
# Try a planted bug on a scratch copy of /repo: tools_bug.sh ID [PROPERTY...]   (experiments only; no check reads this)
id=$1; shift
B=/tmp/bug/$id; S=/verif/seeded/$id
rm -rf "/tmp/bug/$id"; mkdir -p /tmp/bug; cp -a /repo "$B"
run() { ( cd "$B" && timeout 300 bash "$S/demo.sh" >"/tmp/bug/$id.demo$1" 2>&1; echo $?; ); }
a=$(run 0)
git -C "$B" apply "$S/patch.diff" || { echo "$id: patch does not apply"; exit 2; }
b=$(run 1)
t=$(cd "$B" && PETSC_DIR=/usr/lib/petscdir/petsc3.19/x86_64-linux-gnu-real PYTHONPATH=$B/src PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -p no:cacheprovider tests/test_gmres.py tests/test_dxss.py 2>&1 | tail -1)
echo "$id: demo unchanged=$a changed=$b tests: $t"
[ $# = 0 ] && set -- $(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
for p in "$@"; do
  s=$(date +%s)
  out=$(cd /verif && VERIF_REPO=$B timeout 900 ./check $p quick 2>&1); rc=$?
  echo "$id: check $p rc=$rc $(($(date +%s)-s))s $(echo "$out" | grep -E '^(VIOLATION|OK)' | head -1)"
  echo "$out" > "/tmp/bug/$id.check.$p"
done
rm -rf "/tmp/bug/$id"
