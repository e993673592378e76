#!/bin/bash
# seeded.sh [ID...]: run the check of each planted bug against it, in a scratch clone
cd /verif/seeded; ids=${@:-$(ls)}
rm -rf /tmp/sdb; git clone -q /repo /tmp/sdb || exit 1
for id in $ids; do
  p=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
  git -C /tmp/sdb checkout -q -- . ; git -C /tmp/sdb clean -fdq
  git -C /tmp/sdb apply /verif/seeded/$id/patch.diff || { echo "$id does not apply"; continue; }
  race=; case $p in C12|C13) race=-race;; esac
  REPO=/tmp/sdb /verif/tools/dev.sh /tmp/sdbin $race > /dev/null 2>&1 || { echo "$id does not build"; continue; }
  (cd /tmp; timeout 900 /tmp/sdbin -prop $p -data /verif/harness/data -out /tmp/sdout > /dev/null 2>&1); rc=$?
  echo "$id $p rc $rc"
done
rm -rf /tmp/sdb /tmp/sdbin /tmp/sdout
