#!/bin/sh
# show the units of the last run
python3 - "$1" <<'P'
import json,sys
c=json.load(open('/verif/evidence/%s.json'%sys.argv[1]))['coverage']
for k,v in c['units'].items(): print(k,v['status'],v['wall_s'],v['paths'],v['restarts'] or '',v['notes'] or '')
P
