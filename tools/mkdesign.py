import glob,re,runpy
rows=['| bug | property | file | breaks | needs |','|---|---|---|---|---|']
for f in sorted(glob.glob('/verif/tools/seeds/b*.py')):
    d=runpy.run_path(f); n=f.split('/')[-1][:-3]
    files=', '.join(sorted({e[0].replace('src/infi/instruct/','') for e in d['EDITS']}))
    rows.append('| %s | %s | %s | %s | %s |'%(n,d['PROPERTY'],files,d['BREAKS'].replace('|','/').replace('\n',' '),d['NEEDS'].replace('|','/').replace('\n',' ')))
t=open('/verif/DESIGN.md').read()
tab='Every bug below is caught by the quick check of its own property (confirmed with `tools/seeds.py --check`).\n\n'+'\n'.join(rows)
t=re.sub(r'(builds `seeded/NAME`.*?runs the check\.\n\n).*?(?=\n\n## 7)|@@SEEDS@@', lambda m: (m.group(1) or '')+tab if m.group(1) else tab, t, flags=re.S)
open('/verif/DESIGN.md','w').write(t)
