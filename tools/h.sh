#!/bin/bash
# build and run one harness directly: h.sh NAME [args]
n=$1; shift
cd /verif; timeout 600 python3 mc/build.py $n >/tmp/build.$n 2>&1; b=$(tail -1 /tmp/build.$n)
[ -x "$b" ] || { grep -m12 -E "error:|undefined" /tmp/build.$n; tail -5 /tmp/build.$n; exit 9; }
mkdir -p /tmp/rp; timeout ${T:-200} $b --replaydir /tmp/rp --prop X "$@" 2>&1 | cut -c1-600 | tail -${N:-25}
