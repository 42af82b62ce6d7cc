#!/bin/bash
# plant.sh ID CHECK...: /repo carries an uncommitted change and /verif/seeded/ID a demo. Verifies the
# change (builds, stable tests pass, demo fails with / passes without), runs the named checks, restores /repo.
id=$1; shift
S=/verif/seeded/$id
[ -s $S/patch.diff ] && git -C /repo diff --quiet && git -C /repo apply $S/patch.diff
git -C /repo diff --quiet && { echo "no change in /repo"; exit 1; }
git -C /repo diff > $S/patch.diff
bash /opt/vp/build.sh > /tmp/plant.build 2>&1 && echo "builds" || { echo "BUILD FAILS"; tail -5 /tmp/plant.build; }
if [ -z "$NOTEST" ]; then
bash /opt/vp/test.sh /tmp/plant.json >/dev/null 2>&1
python3 -c "
import json
t=json.load(open('/tmp/plant.json')); b=json.load(open('/opt/vp/BASELINE.json'))
m=sorted(set(b['stable'])-set(t['passed'])); print('stable tests failing:', len(m), m[:4])"
fi
(cd /repo && timeout 300 bash $S/demo.sh > /tmp/plant.demo 2>&1); echo "demo with the change: $?"; tail -3 /tmp/plant.demo | cut -c1-300
for c in "$@"; do (cd /verif && VERIF_SEED=1 VERIF_TIER=quick timeout 900 python3 checks/$( [ ${c:0:1} = L ] && echo "lib.py $c" || echo $c.py ) 2>&1 | tail -4 | cut -c1-400; echo "$c exit ${PIPESTATUS[0]}"); done
git -C /repo checkout -- .
bash /opt/vp/build.sh > /tmp/plant.build 2>&1
(cd /repo && timeout 300 bash $S/demo.sh > /tmp/plant.demo0 2>&1); echo "demo without: $?"; tail -2 /tmp/plant.demo0 | cut -c1-300
