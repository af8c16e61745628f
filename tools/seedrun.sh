#!/bin/bash
# seedrun.sh [ID...]: applies each planted change to /repo, runs the quick check of its property, undoes it.
V="$(cd "$(dirname "$0")/.." && pwd)"
[ -z "$(git -C /repo status --porcelain)" ] || { echo "/repo is not clean"; exit 2; }
trap 'git -C /repo checkout -q -- .' EXIT
[ $# = 0 ] && set -- $(ls "$V/seeded")
for s in "$@"; do
  p=$(python3 -c "import json,sys;print(json.load(open('$V/seeded/$s/meta.json'))['property'])")
  git -C /repo apply "$V/seeded/$s/patch.diff" || { echo "$s: does not apply"; continue; }
  t0=$SECONDS
  VERIF_TIER=quick bash "$V/run.sh" "${CHECK:-$p}" >/tmp/seedrun.out 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$s property=$p check=${CHECK:-$p} exit=$rc $((SECONDS-t0))s $(grep -m1 VIOLATION /tmp/seedrun.out)"
  grep -A3 -m1 VIOLATION /tmp/seedrun.out | tail -3 | cut -c1-300
done
