#!/bin/bash
# runs every check in turn: tools/all.sh [budget seconds] [start offset] [ids...]
cd "$(dirname "$0")/.."
b=${1:-40}; o=${2:-0}; shift 2
ids=${*:-$(seq -f 'C%02g' 1 23)}
for p in $ids; do
  python3 check.py $p --budget $b --start $o > /tmp/all_$p.txt 2>&1; echo "$p rc=$? $(tail -1 /tmp/all_$p.txt | cut -c1-220)"
done
