import json,os,re
p='/verif/DESIGN.md'; s=open(p).read()
i=s.index('| id | property | what it breaks |')
j=i
lines=s[i:].split('\n')
k=0
while k<len(lines) and lines[k].startswith('|'): k+=1
rest='\n'.join(lines[k:])
rows=lines[:2]
for d in sorted(os.listdir('/verif/seeded')):
    m=json.load(open('/verif/seeded/%s/meta.json'%d))
    rows.append('| %s | %s | %s |'%(d,m['property'],m['what_it_breaks'].replace('|','/')))
s=s[:i]+'\n'.join(rows)+('\n'+rest if rest else '\n')
open(p,'w').write(s)
