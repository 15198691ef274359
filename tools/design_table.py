#!/usr/bin/env python3
"""Rewrites the table of planted bugs at the end of DESIGN.md (section 6) from seeded/*/meta.json."""
import json,glob,os,re
rows=[]
for m in sorted(glob.glob('/verif/seeded/*/meta.json')):
    d=json.load(open(m)); i=os.path.basename(os.path.dirname(m))
    c=lambda s:re.sub(r'\s+',' ',str(s)).replace('|','\\|')
    rows.append((d['property'],i,c(d['what_it_breaks']),c(d['needs'])))
rows.sort()
t='| check | planted bug | what it breaks | needs |\n|---|---|---|---|\n'+''.join('| %s | %s | %s | %s |\n'%r for r in rows)
p='/verif/DESIGN.md'; s=open(p).read()
a,b='<!-- seeded table -->\n','<!-- end -->\n'
i=s.index(a)+len(a); j=s.index(b)
open(p,'w').write(s[:i]+t+s[j:])
print(len(rows),'rows')
