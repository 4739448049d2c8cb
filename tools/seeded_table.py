import json,glob,os,re
p='/verif/DESIGN.md';s=open(p).read()
# table
rows=[]
for d in sorted(glob.glob('/verif/seeded/*')):
    m=json.load(open(d+'/meta.json'));rows.append((m['property'],os.path.basename(d),' '.join(m['needs'].split())))
t='| bug | caught by | needs |\n|---|---|---|\n'+''.join(f'| {b} | {q} | {n} |\n' for q,b,n in rows)
if 'SEEDED_TABLE' in s: s=s.replace('SEEDED_TABLE','<!-- table -->\n'+t)
else: s=s[:s.index('<!-- table -->')]+'<!-- table -->\n'+t
open(p,'w').write(s)
