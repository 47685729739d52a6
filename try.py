import sys, json, time, importlib, pprint
sys.path.insert(0,'/verif')
from engine import load
load.install()
from engine import explore, specapi
import glob, os
for f in sorted(glob.glob('/verif/specs/*.py')):
    m=os.path.basename(f)[:-3]
    if m!='__init__': importlib.import_module('specs.'+m)
import os
importlib.import_module('specs.invariants')
fix=dict(x.split('=') for x in os.environ.get('FIX','').split(',') if x)
if fix:
    from engine import vsym, rt
    old=vsym.V.choice
    def choice(self,name,options):
        if name in fix:
            rt.S.draws.append(('choice',name,int(fix[name]))); return list(options)[int(fix[name])]
        return old(self,name,options)
    vsym.V.choice=choice
for n,u in specapi.UNITS.items():
    if not u.sym: continue
    if any(a in n for a in sys.argv[1:]):
        r=explore.verify(u, int(os.environ.get("BUDGET","120")))
        o=r.pop('obls')
        print(n, r['status'], 'obl %d/%d paths %d ended %d %.1fs solver %.1f calls %d'%(r['discharged'],r['obligations'],r['paths'],r['ended'],r['wall'],r['solver_time'],r['solver_calls']))
        for k in ('refutations','unsupported','crashes','bounded','loops','restarts','missing','feas_time','slowest'):
            if r[k]: print('   ',k, json.dumps(r[k],default=str)[:1500])
        for k,v in o.items():
            if v['discharged']!=v['n']: print('    obl',k,v)
