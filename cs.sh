#!/bin/bash
# concrete search over all units of a property
cd /verif; export VERIF_REPO=${VERIF_REPO:-/tmp/wrepo} PYTHONDONTWRITEBYTECODE=1
U=$(python3 - <<P
import sys; sys.path.insert(0,'/verif'); sys.dont_write_bytecode=True
from engine import specapi; import importlib; importlib.import_module('specs.$1'.lower())
print(','.join(u.name for u in specapi.UNITS.values() if u.prop=='$1' and u.conc))
P
)
PYTHONDONTWRITEBYTECODE=1 /opt/venv-pypy/bin/python -W ignore engine/runner.py search $U --seed ${2:-1} --budget ${3:-5} --cases ${4:-1} > /tmp/cs.out 2>/tmp/cs.err; tail -3 /tmp/cs.err
python3 - <<P
import json
for l in open('/tmp/cs.out'):
    r=json.loads(l)
    print('%-28s cases %d ok %d rej %d checks %d fails %d err %d %.1fs'%(r['unit'],r['cases'],r['ok'],r['rejected'],r['checks'],len(r['fails']),len(r['errors']),r['wall']))
    for f in r['fails'][:3]: print('    FAIL',f['check'],f['detail'][-500:].replace(chr(10),'\n         '),json.dumps(f['values'])[:600])
    for e in r['errors'][:1]: print('    ERR',e[-600:])
P
