"""Refresh the tables of scenarios and planted bugs in DESIGN.md (run in /verif; development only)."""
import re,json,glob,os,sys
sys.path.insert(0,'/verif')
from scen import registry
d={}
for s in registry.load():
    for p in s.props: d.setdefault(p,[]).append(('*' if s.unbound else '')+s.name+('' if s.sym else ' (b)'))
t=open('DESIGN.md').read()
out=[]
for line in t.split('\n'):
    m=re.match(r'\| (C\d\d) \| (.*?) \| (.*?) \| (.*?) ?\|$',line)
    if m:
        p=m.group(1); names=sorted(d[p],key=lambda x:(x.startswith('*'),x))
        line='| %s | %s | %s | %s |'%(p,m.group(2),', '.join(names),m.group(4))
    out.append(line)
t='\n'.join(out)
rows=['| planted bug | property, caught by its check | needs |','|---|---|---|']
for f in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(f)); rows.append('| %s | %s | %s |'%(os.path.basename(os.path.dirname(f)),m['property'],m['needs'].replace('|','/')))
cat='## 5. Planted bugs and what catches them\n\nEvery bug in `/verif/seeded` is caught by the quick check of the property it is planted for (several by others, too); each\nwas written from the text of a property and the code. Besides these, about 2800 single-place mutants of the package (operators,\nconstants, conditions, dropped statements, arguments and operands, loops that skip an element) were generated and those\nthat pass the repository\'s tests were given to the checks; what the checks did not report was read one by one and either\nchanges nothing a property speaks about (warnings, defaults, caches, redundant checks) or led to a new scenario.\n\n'+'\n'.join(rows)+'\n'
t=t.split('\n## 5. ')[0].rstrip('\n')+'\n\n'+cat
t=t.replace('`*` marks scenarios of unknown size.','`*` marks scenarios of unknown size, `(b)` scenarios that are only bounded.')
open('DESIGN.md','w').write(t)
