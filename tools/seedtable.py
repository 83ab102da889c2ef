# Rewrite the table of seeded changes in DESIGN.md.
import json,glob,os,re
os.chdir(os.path.dirname(os.path.abspath(__file__))+'/..')
rows=''
for f in sorted(glob.glob('seeded/*/meta.json')):
    m=json.load(open(f)); n=f.split('/')[1]
    needs=m['needs'].replace('|','\\|').replace('\n',' ')
    by=m.get('reported_by',m['property'])
    rows+='| %s | %s | %s | %s |\n'%(n,m['property'],needs,by)
s=open('DESIGN.md').read()
head='| change | property | what it needs | reported by |\n|---|---|---|---|\n'
i=s.index(head)+len(head); j=i
while s[j]=='|': j=s.index('\n',j)+1
if s[i:].startswith('@@ROWS@@'): j=i+len('@@ROWS@@\n')
s=s[:i]+rows+s[j:]
open('DESIGN.md','w').write(s)
