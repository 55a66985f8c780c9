#!/bin/bash
# plant2.sh ID PROPERTY : like plant.sh, but with the change made in the clone /tmp/wr (built in /tmp/wb), leaving /repo alone.
id=$1; prop=$2; d=/verif/seeded/$id; cd /tmp/wr
if [ -n "$(git diff --stat)" ]; then git diff > $d/patch.diff; else git apply $d/patch.diff || exit 1; fi
demo() { ninja -C /tmp/wb >/tmp/plant.build 2>&1 || { grep -m5 error /tmp/plant.build; echo BUILD-FAILED; }; mkdir -p /tmp/plantd; cp $d/* /tmp/plantd/; sed -i 's#/repo/include#/tmp/wr/include#g; s#/repo/_build#/tmp/wb#g' /tmp/plantd/demo.sh; timeout 300 bash /tmp/plantd/demo.sh >$1 2>&1; }
demo /tmp/plant.out1; r1=$?
for t in $TESTS; do gcc -w -I/tmp/cfg -I/tmp/wr/include -I/tmp/wb/include -I/tmp/wr/base $t -o /tmp/plantd/t -L/tmp/wb/lib -Wl,-rpath,/tmp/wb/lib -lmstdlib_formats -lmstdlib_text -lmstdlib_net -lmstdlib_tls -lmstdlib_io -lmstdlib_log -lmstdlib_sql -lmstdlib_thread -lmstdlib -lcheck -lsubunit -lm -lrt -lpthread 2>/tmp/plant.tb && (cd /tmp/plantd; timeout 100 ./t 2>&1 | grep -a '%' | head -2) || tail -2 /tmp/plant.tb; done
[ -n "$NOCHECK" ] || { MC_REPO=/tmp/wr timeout 900 python3 /verif/run.py $prop >/tmp/plant.chk 2>/dev/null; echo "check rc $?: $(grep -m1 -A1 '^violation' /tmp/plant.chk | cut -c1-200)"; }
git checkout -q -- .
demo /tmp/plant.out0; r0=$?
echo "demo with patch: $r1 ($(tail -1 /tmp/plant.out1)); without: $r0 ($(tail -1 /tmp/plant.out0))"
