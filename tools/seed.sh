#!/bin/bash
# tools/seed.sh <seed id> [--nocheck]: confirm a planted change in a scratch copy and run its property's check on it.
set -u
id=$1; V=${SVERIF:-/verif}; S=$V/seeded/$id; T=/tmp/seed.$id
rm -rf "$T"; cp -a ${SREPO:-/repo} "$T"; cd "$T" || exit 9
export MPLBACKEND=Agg MPLCONFIGDIR=/opt/vp/mplconfig PYTHONHASHSEED=0 PYTHONDONTWRITEBYTECODE=1
export PYTHONPATH=$T
ok=1
(bash "$S/demo.sh") >/tmp/seed.$id.log 2>&1 || { echo "$id: demo fails on unchanged tree"; tail -5 /tmp/seed.$id.log; ok=0; }
git apply "$S/patch.diff" || { echo "$id: patch does not apply"; ok=0; }
(bash "$S/demo.sh") >/tmp/seed.$id.log 2>&1 && { echo "$id: demo passes with the patch"; ok=0; }
if [ "${3:-}" != notest ]; then
/opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --no-cov --timeout=300 >/tmp/seed.$id.test 2>&1 || { echo "$id: tests fail"; tail -5 /tmp/seed.$id.test; ok=0; }
fi
pid=$(python3 -c "import json;print(json.load(open('$S/meta.json'))['property'])")
if [ "${2:-}" != --nocheck ]; then
  cd $V; VREPO=$T python3 check.py $pid quick > /tmp/seed.$id.check 2>&1; rc=$?
  echo "$id ($pid): valid=$ok check rc=$rc $(grep -m1 'failing clauses' /tmp/seed.$id.check | cut -c1-160)"
else echo "$id ($pid): valid=$ok"; fi
rm -rf "$T"
