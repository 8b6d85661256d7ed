#!/bin/bash
# try_seed.sh ID [notest]: confirm one planted bug (scratch worktree for tests/demo, /repo for the check)
set -u
ID=$1; D=/verif/seeded/$ID
PROP=$(python3 -c "import json;print(json.load(open('$D/meta.json'))['property'])")
cd /repo
git diff --quiet || { echo "repo dirty"; exit 2; }
bash $D/demo.sh >/tmp/demo0.log 2>&1; a=$?
git apply $D/patch.diff || { echo "$ID: patch does not apply"; exit 2; }
trap 'git -C /repo checkout -- .' EXIT
bash $D/demo.sh >/tmp/demo1.log 2>&1; b=$?
t=skipped
if [ "${2:-}" != notest ]; then bash /opt/vp/test.sh /tmp/seed.json >/tmp/seedtest.log 2>&1; t=$(tail -1 /tmp/seedtest.log); fi
cd /verif; out=$(/opt/venv/bin/python check.py $PROP 2>&1); c=$?
echo "$ID prop=$PROP demo clean=$a patched=$b tests=[$t] check=$c $(echo "$out" | grep -m1 VIOLATION)"
