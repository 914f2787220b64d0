import json,glob,os
rows=[]
for d in sorted(glob.glob('/verif/seeded/*/')):
    m=json.load(open(d+'meta.json'))
    rows.append('| %s | %s | %s | %s |'%(os.path.basename(d[:-1]),m['property'],m['needs'],m['what_it_breaks']))
t='| bug | caught by | needs | breaks |\n|---|---|---|---|\n'+'\n'.join(rows)
s=open('/verif/DESIGN.md').read()
import re
if 'SEEDED_TABLE' in s and '<!-- seeded -->' not in s:
    s=s.replace('SEEDED_TABLE','<!-- seeded -->\n'+t+'\n<!-- /seeded -->')
else:
    s=re.sub(r'<!-- seeded -->.*<!-- /seeded -->',lambda _:'<!-- seeded -->\n'+t+'\n<!-- /seeded -->',s,flags=re.S)
open('/verif/DESIGN.md','w').write(s)
