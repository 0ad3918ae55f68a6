#!/bin/bash
# replay.sh <replay file>: rebuild from /repo's current tree and re-execute exactly the recorded run.
# The readable trace is written next to the file as <file>.log. Exit 1: reproduced, 0: the property held.
cd "$(dirname "$0")" || exit 2
f=$(readlink -f "$1"); prop=$(sed -n 's/^property //p' "$f"); group=$(awk -v p="$prop" '$1==p{print $2}' checks.tab)
make -j"$(nproc)" GROUP="$group" > build/make.log 2>&1 || { tail -30 build/make.log; exit 2; }
SIM_TRACE="$f.log" build/simhost --so "build/$group.so" --replay "$f"
