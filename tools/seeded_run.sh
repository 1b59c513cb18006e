#!/usr/bin/env bash
# Development aid, no check uses it: applies every planted bug (or those named) to
# /repo in turn, runs the check of its property (or those in $CHECKS), undoes it.
here=$(cd "$(dirname "$0")/.." && pwd)
for d in "$here"/seeded/*/; do
  id=$(basename "$d")
  if [ $# -gt 0 ] && ! printf '%s\n' "$@" | grep -qx -- "$id"; then continue; fi
  git -C /repo diff --quiet || { echo "/repo is not clean"; exit 1; }
  git -C /repo apply "$d/patch.diff" || { echo "$id: does not apply"; continue; }
  for c in ${CHECKS:-$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$d/meta.json")}; do
    s=$(date +%s)
    out=$(bash "$here/check.sh" "$c" quick 2>&1); st=$?
    echo "$id $c exit=$st $(( $(date +%s) - s ))s $(echo "$out" | grep -m1 VIOLATION)"
  done
  git -C /repo checkout -q -- .
done
