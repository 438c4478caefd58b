# Writes DESIGN.md: tools/DESIGN.in.md with the table of planted bugs.
import json,glob,os,re
V='/verif'
t={}
for m in sorted(glob.glob(V+'/seeded/*/meta.json')):
    t.setdefault(json.load(open(m))['property'],[]).append(os.path.basename(os.path.dirname(m)))
rows='\n'.join(f'| {p} | {", ".join(x)} |' for p,x in sorted(t.items()))
s=open(V+'/tools/DESIGN.in.md').read()
open(V+'/DESIGN.md','w').write(s.replace('<!-- seeded -->','| check | planted bugs it reports |\n|---|---|\n'+rows))
print(len(t),sum(map(len,t.values())))
