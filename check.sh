#!/bin/bash
# check.sh <property> <quick|thorough>: build what the property needs from /repo's current tree, search, judge.
# Exit 0: held on everything explored; 1: VIOLATION line printed; 2: the check itself failed.
set -u
cd "$(dirname "$0")" || exit 2
prop=$1; tier=${2:-quick}; seed=${VERIF_SEED:-1}
line=$(grep "^$prop " checks.tab) || { echo "unknown property $prop" >&2; exit 2; }
read -r _ group qruns qbudget truns tbudget only <<< "$line"
if [ "$tier" = thorough ]; then runs=$truns; budget=$tbudget; else runs=$qruns; budget=$qbudget; fi
mkdir -p build replays evidence
exec 9> build/.lock; flock 9
if ! make -j"$(nproc)" GROUP="$group" > build/make.log 2>&1; then
  # the tree under test does not compile into the simulator: no verdict
  tail -30 build/make.log >&2; echo "error: build failed" >&2; exit 2
fi
flock -u 9
# distinct replays folder per property, old ones are removed
rm -f "$PWD/replays/$prop"-*.replay
timeout -k 5 840 build/simhost --property "$prop" --so "build/$group.so" --runs "$runs" --budget "$budget" --seed "$seed" --tier "$tier" \
  --workers "$(nproc)" --out "$PWD/replays" --known "$PWD/known_findings.txt" --meta "$PWD/meta/$prop.json"
rc=$?
case $rc in 0|1) exit $rc;; *) echo "error: simulator exit $rc" >&2; exit 2;; esac
