#!/bin/bash
# plant.sh ID PROPERTY : takes the uncommitted change in /repo as patch of seeded/ID, checks its demo both ways and (unless NOCHECK) the check, then undoes it.
id=$1; prop=$2; d=/verif/seeded/$id; cd /repo
if [ -n "$(git diff --stat)" ]; then git diff > $d/patch.diff; else git apply $d/patch.diff || exit 1; fi
bash /opt/vp/build.sh >/tmp/plant.build 2>&1 || { tail -5 /tmp/plant.build; echo BUILD-FAILED; }
timeout 300 bash $d/demo.sh >/tmp/plant.out1 2>&1; r1=$?
[ -n "$NOCHECK" ] || { timeout 900 python3 /verif/run.py $prop >/tmp/plant.chk 2>/dev/null; echo "check rc $?: $(grep -m1 -A1 '^violation' /tmp/plant.chk | cut -c1-200)"; }
git checkout -q -- .
bash /opt/vp/build.sh >/tmp/plant.build 2>&1
timeout 300 bash $d/demo.sh >/tmp/plant.out0 2>&1; r0=$?
echo "demo with patch: $r1 ($(tail -1 /tmp/plant.out1)); without: $r0 ($(tail -1 /tmp/plant.out0))"
