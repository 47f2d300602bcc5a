#!/bin/bash
# mut.sh PATCH PROPERTY...: applies a patch to /repo, runs the checks, undoes it.
P=$1; shift
git -C /repo apply "$P" || exit 3
for p in "$@"; do
  echo "== $p with $(basename $(dirname $P))/$(basename $P)"
  (cd /verif && timeout 900 python3 check.py $p 2>&1 | grep -v "coverage" | cut -c1-300 | head -6; echo "exit ${PIPESTATUS[0]}")
done
git -C /repo checkout -- .
