#!/bin/bash
# For the planted bugs named (default: all): applies each in a scratch worktree, runs the repository's tests
# there (skip with NOTESTS=1), its demo, and the check of its property (or CHECKS="C01 C02"). Not used by any check.
cd "$(dirname "$0")/.."
W=${W:-/tmp/seedw}
git -C /repo worktree add -f --detach $W HEAD >/dev/null 2>&1
mkdir -p /tmp/seedout
for id in ${*:-$(ls seeded)}; do
  git -C $W checkout -q --detach "$(git -C /repo rev-parse HEAD)"; git -C $W checkout -q -- .
  git -C $W apply "$PWD/seeded/$id/patch.diff" || { echo "$id: patch does not apply"; continue; }
  t=skipped
  if [ -z "$NOTESTS" ]; then
    sed "s#/repo#$W#g; s#/opt/vp/reports#/tmp/seedout/rep#" /opt/vp/test.sh > /tmp/seedout/test.sh
    PYTHONPATH=$W bash /tmp/seedout/test.sh /tmp/seedout/$id.json > /tmp/seedout/$id.test.txt 2>&1
    t=$(python3 -c "
import json;t=json.load(open('/tmp/seedout/$id.json'));b=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
print('ok' if b<=set(t['passed']) else 'FAIL '+str(sorted(b-set(t['passed']))[:3]))")
  fi
  (cd $W && bash /verif/seeded/$id/demo.sh > /tmp/seedout/$id.demo.txt 2>&1); d=$?
  p=$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")
  for c in ${CHECKS:-$p}; do
    s=$(date +%s); NEPS_SIM_REPO=$W python3 check.py $c --budget ${BUDGET:-40} > /tmp/seedout/$id.$c.txt 2>&1; r=$?
    echo "$id tests=$t demo=$d $c rc=$r $(( $(date +%s)-s ))s $(grep -m1 -E 'VIOLATION|held' /tmp/seedout/$id.$c.txt | cut -c1-150)"
  done
done
git -C $W checkout -q -- .; git -C /repo worktree remove --force $W
