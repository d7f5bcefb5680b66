#!/bin/bash
# Applies planted bugs one after another, runs the check of their property, and undoes them.
# usage: seedrun.sh [id ...]
cd "$(dirname "$0")/.." || exit 2
ids=("$@"); [ $# = 0 ] && ids=($(ls seeded))
for id in "${ids[@]}"; do
  p=$(python3 -c "import json,sys;print(json.load(open('seeded/$id/meta.json'))['property'])")
  [ -n "$(git -C /repo status --porcelain)" ] && { echo "/repo not clean"; exit 2; }
  git -C /repo apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; continue; }
  s=$SECONDS
  VERIF_SEED=${VERIF_SEED:-1} VERIF_TIER=quick python3 check.py "$p" > /tmp/seedrun.log 2>&1; rc=$?
  git -C /repo checkout -q -- .
  echo "$id $p rc=$rc $((SECONDS-s))s $(grep -m1 '^VIOLATION' /tmp/seedrun.log)"
done
