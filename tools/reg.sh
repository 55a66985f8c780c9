#!/bin/bash
# reg.sh PID HARNESS-LIST-PY "note" "bounds" : add a sequential check line, list fix commits since BASE under PID
python3 - "$@" <<'P'
import sys
pid,h,note,b=sys.argv[1:5]
p='/verif/tools/checks.py'; s=open(p).read()
s=s.replace('NOT_APPLICABLE = {}','check("%s", SEQ, %r, %s,\n      %r)\nNOT_APPLICABLE = {}'%(pid,note,h,b)); open(p,'w').write(s)
P
cd /verif; python3 tools/gen_props.py >/dev/null; python3 tools/gen_manifest.py
