#!/usr/bin/env python3
"""newseed.py <spec.py>: spec defines ID, PROPERTY, NEEDS, BREAKS, EDITS, DEMO.
EDITS: list of (file, old, new); DEMO: Go main package source which exits
nonzero when the bug is present. Writes seeded/<ID> and validates it."""
import re,json,os,shutil,subprocess,sys,tempfile
spec={}
exec(open(sys.argv[1]).read(),spec)
d='/verif/seeded/'+spec['ID']
os.makedirs(d,exist_ok=True)
open(d+'/main.go.txt','w').write(spec['DEMO'])
if spec.get('PUBLISHER'):
    shutil.copy('/verif/tools/publisher.go.txt',d+'/publisher.go.txt')
open(d+'/demo.sh','w').write('''#!/bin/bash
# Run in the repository after a build: exit 0 when behaviour is right.
here="$(cd "$(dirname "$0")" && pwd)"
repo="$PWD"
[ -f /opt/vp/env.sh ] && . /opt/vp/env.sh
w="$(mktemp -d)"
trap 'rm -rf "$w"' EXIT
for f in "$here"/*.go.txt; do b="$(basename "$f")"; cp "$f" "$w/${b%%.txt}"; done
{ echo "module demo"; echo; echo "go 1.22"; echo; sed -n '/^require/,/^)/p' "$repo/go.mod"; echo; echo "require github.com/sttp/goapi v0.0.0"; echo; echo "replace github.com/sttp/goapi => $repo"; } > "$w/go.mod"
cp "$repo/go.sum" "$w/go.sum"
cd "$w" || exit 3
GOFLAGS=-mod=mod GOPROXY=off GONOSUMDB='*' GONOSUMCHECK=1 go build -o demo . || exit 3
exec timeout %d ./demo
''' % spec.get('TIMEOUT',120))
json.dump({'property':spec['PROPERTY'],'needs':spec['NEEDS'],'what_it_breaks':spec['BREAKS']},open(d+'/meta.json','w'),indent=1)
with tempfile.NamedTemporaryFile('w',suffix='.py',delete=False) as f:
    f.write('E=%r\n'%(spec['EDITS'],))
    f.write('''for p,o,n in E:
    s=open(p).read()
    assert s.count(o)==1,(p,o,s.count(o))
    open(p,'w').write(s.replace(o,n))
''')
r=subprocess.run(['bash','/verif/tools/mkseed.sh',spec['ID'],f.name])
os.unlink(f.name)
# only lines of the original repository may be changed
cur=None
if r.returncode==0:
    for l in open(d+'/patch.diff'):
        if l.startswith('--- a/'): cur=l[6:].strip()
        m=re.match(r'@@ -(\d+)',l)
        if m: ln=int(m.group(1)); continue
        if cur and l[:1]=='-' and not l.startswith('---'):
            b=subprocess.check_output(['git','-C','/repo','blame','-s','-L%d,%d'%(ln,ln),'--',cur],text=True)
            if not b.startswith('^'): print('NOT AN ORIGINAL LINE:',b)
        if l[:1] in '- ' and not l.startswith('---'): ln+=1
sys.exit(r.returncode)

