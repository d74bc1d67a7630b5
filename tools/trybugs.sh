#!/bin/bash
# trybugs.sh [-a] [ID...]: apply each planted bug to /repo, run its property's check, undo. -a: every claimed check
cd /verif
all=; [ "$1" = -a ] && { all=1; shift; }
[ $# -eq 0 ] && set -- $(ls seeded)
for b in "$@"; do
  git -C /repo apply "$PWD/seeded/$b/patch.diff" || { echo "$b: does not apply"; continue; }
  p=$(python3 -c "import json;print(json.load(open('seeded/$b/meta.json'))['property'])")
  s=$SECONDS
  python3 check.py $p > /tmp/w/try.log 2>&1; rc=$?
  echo "$b: $p rc=$rc $((SECONDS-s))s $(grep -c ^VIOLATION /tmp/w/try.log) :: $(grep -v KNOWN /tmp/w/try.log | head -3 | cut -c1-300)"
  git -C /repo checkout -q -- .
done
