#!/bin/bash
# try.sh <patch> <check>... : applies a patch to /repo, runs the checks (quick), undoes it. For development only.
p=$(readlink -f "$1"); shift
cd "$(dirname "$0")/.." || exit 3
git -C /repo diff --quiet || { echo "/repo is not clean"; exit 3; }
git -C /repo apply "$p" || exit 3
for c in "$@"; do
  timeout 900 ./check.sh "$c" quick > /tmp/try.out 2>&1; r=$?
  echo "$c exit=$r $(grep -c ^VIOLATION /tmp/try.out) $(grep -m1 -A4 "^$c\$" /tmp/try.out | tr '\n' ' ' | cut -c1-300)"
  tail -1 /tmp/try.out | cut -c1-200
done
git -C /repo checkout -- .
