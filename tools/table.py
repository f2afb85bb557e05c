# fills section 7.1 of DESIGN.md from seeded/*/meta.json
import json,glob,os,re
rows=[]
for f in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m=json.load(open(f)); i=f.split('/')[-2]
    rows.append(f"| {i} | {m['property']} | {m['what_it_breaks']} | {m['needs']} | {m.get('caught','yes')} |")
t="### 7.1 Table\n\n| bug | property | what it breaks | needs | caught by the property's quick check |\n|---|---|---|---|---|\n"+"\n".join(rows)+"\n\n"
d=open('/verif/DESIGN.md').read()
if '@@TABLE@@' in d: d=d.replace('@@TABLE@@\n',t)
else: d=re.sub(r'### 7\.1 Table\n.*?(?=## 8)',lambda _:t,d,flags=re.S)
open('/verif/DESIGN.md','w').write(d)
