#!/bin/bash
# usage: try.sh unit [extra vx args]   (development helper)
U=$1; shift
mkdir -p /verif/.build/units
/verif/.build/extract/debug/vx ${REPO:-/repo} /verif/spec/$U.vt /verif/.build/units/$U.rs /verif/.build/units/$U.json "$@" || exit 2
python3 - <<P
import json;d=json.load(open('/verif/.build/units/$U.json'))
print(d['errors']); 
for f in d['functions']:
  if f['mode']!='extern' and (f['errs'] or f['nloops']!=f['want_loops'] or f['mode']!='verified'): print(f)
P
cd /verif/.build/units && time verus $U.rs --triggers-mode silent --multiple-errors 5 2>&1 | tail -${L:-80}
