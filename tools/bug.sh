#!/bin/bash
# bug.sh ID...   runs the check (or the one named with P=) of planted bugs on /repo, then undoes them
V=$(cd "$(dirname "$0")/.." && pwd)
for ID in "$@"; do
  S=$V/seeded/$ID
  P=${P:-}; PR=${P:-$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' "$S/meta.json")}
  git -C /repo apply "$S/patch.diff" || continue
  (cd "$V" && timeout 900 ./run.sh "$PR" quick > /tmp/bug.out; echo "$ID $PR exit $?"; grep -m1 -E "^case" /tmp/bug.out | cut -c1-200)
  git -C /repo checkout -q -- .
done
