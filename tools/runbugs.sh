#!/bin/bash
# runbugs.sh [ids]: applies each planted change to a scratch copy (bind-mounted over /repo, with a copy of /verif over
# /verif, in a mount namespace of its own) and runs the check of its property
cd "$(dirname "$0")/.."
mkdir -p /tmp/rb
for d in ${@:-$(ls seeded)}; do
  rm -rf /tmp/rb/repo /tmp/rb/verif
  cp -a /repo /tmp/rb/repo; cp -a /verif /tmp/rb/verif
  p=$(python3 -c "import json;print(json.load(open('seeded/$d/meta.json'))['property'])")
  git -C /tmp/rb/repo apply "$PWD/seeded/$d/patch.diff" || { echo "$d does not apply"; continue; }
  unshare -m bash -c "mount --bind /tmp/rb/repo /repo && mount --bind /tmp/rb/verif /verif && cd /verif && exec timeout 900 ./check.py ${CHECK:-$p}" > /tmp/run.$d.log 2>&1; rc=$?
  echo "$d $p rc=$rc $(grep -m2 -E '^VIOLATION|^ERROR' /tmp/run.$d.log | tr '\n' ' ') $(grep -c 'BEYOND' /tmp/run.$d.log) $(tail -1 /tmp/run.$d.log | cut -c1-90)"
done
rm -rf /tmp/rb/repo /tmp/rb/verif
