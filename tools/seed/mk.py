#!/usr/bin/env python3-vt
import os,sys,json,subprocess,shutil,textwrap
sys.path.insert(0,os.path.dirname(os.path.abspath(__file__)))
import os
R=os.environ.get('R','/repo'); OUT=os.environ.get('OUT','/verif/seeded')
DEMO='''#!/bin/bash
# Exit 0 when the behaviour holds, nonzero when it is broken. Everything happens in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
work=$(mktemp -d) || exit 2
trap 'rm -rf "$work"' EXIT
chmod 755 "$work"
export SARDIR=$work/sar
mkdir "$SARDIR" || exit 2
cd /repo || exit 2
cp "$here/demo.go" "$work/demo.go"
cp "$here/zz_reuseport.go.txt" "$work/zz_reuseport.go"
cat > "$work/overlay.json" <<J
{"Replace": {
  "$(go env GOROOT)/src/syscall/zz_demo_reuseport_linux_amd64.go": "$work/zz_reuseport.go",
  "/repo/go.mod": "/opt/vp/gomod/root.go.mod",
  "/repo/sarflags/go.mod": "/opt/vp/gomod/sarflags.go.mod"
}}
J
export GOFLAGS="-overlay=$work/overlay.json"
go build %(race)s -o "$work/demo" "$work/demo.go" || exit 2
%(run)s
'''
DEMOT=DEMO[:DEMO.index('cp "$here/demo.go"')]+'''cp "$here/demo.go.txt" "$work/zz_demo_test.go"
cp "$here/zz_reuseport.go.txt" "$work/zz_reuseport.go"
cat > "$work/overlay.json" <<J
{"Replace": {
  "$(go env GOROOT)/src/syscall/zz_demo_reuseport_linux_amd64.go": "$work/zz_reuseport.go",
  "/repo/go.mod": "/opt/vp/gomod/root.go.mod",
  "/repo/sarflags/go.mod": "/opt/vp/gomod/sarflags.go.mod",
  "/repo/%(pkg)s/zz_demo_test.go": "$work/zz_demo_test.go"
}}
J
export GOFLAGS="-overlay=$work/overlay.json"
timeout 200 go test %(race)s -vet=off -count=1 -run TestZZDemo ./%(pkg)s
'''
# The program itself, driven by look.py
DEMON=DEMO[:DEMO.index('cp "$here/demo.go"')]+DEMO[DEMO.index('cp "$here/zz'):DEMO.index('go build')]+'''go build %(race)s -o "$work/node" ./saratoga || exit 2
export PYTHONDONTWRITEBYTECODE=1
cd "$work" && timeout 120 python3 "$here/look.py" "$work/node" /repo/saratoga/saratoga.json "$work"
'''
RUN='timeout 120 "$work/demo" /repo/saratoga/saratoga.json "$SARDIR"'
def mk(b):
    d=f"{OUT}/{b['id']}"
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    assert subprocess.run(['git','-C',R,'status','--porcelain'],capture_output=True,text=True).stdout=='' , 'repo dirty'
    try:
        for f,old,new in b['edits']:
            p=f'{R}/{f}'; s=open(p).read()
            assert s.count(old)==1,(b['id'],f,s.count(old),old)
            open(p,'w').write(s.replace(old,new))
        subprocess.run(['gofmt','-l']+[f"{R}/{e[0]}" for e in b['edits']],check=True)
        diff=subprocess.run(['git','-C',R,'diff'],capture_output=True,text=True,check=True).stdout
        open(d+'/patch.diff','w').write(diff)
        # blame: is some removed line original?
    finally:
        subprocess.run(['git','-C',R,'checkout','--','.'],check=True)
    t=DEMOT if b.get('pkg') else DEMON if b.get('node') else DEMO
    open(d+'/demo.sh','w').write(t%dict(race='-race' if b.get('race') else '',run=b.get('run',RUN),pkg=b.get('pkg')))
    os.chmod(d+'/demo.sh',0o755)
    if not b.get('node'):
        open(d+'/demo.go','w').write(b['demo'].lstrip('\n'))
        subprocess.run(['gofmt','-w',d+'/demo.go'],check=True)
    for n,t in b.get('files',{}).items(): open(d+'/'+n,'w').write(t)
    if b.get('pkg'): os.rename(d+'/demo.go',d+'/demo.go.txt')
    shutil.copy('/verif/gomod/zz_reuseport.go.txt',d)
    json.dump({'property':b['property'],'needs':b['needs'],'what_it_breaks':b['breaks']},open(d+'/meta.json','w'),indent=1)
    open(d+'/meta.json','a').write('\n')
import importlib
mod=importlib.import_module(sys.argv[1])
want=set(sys.argv[2:])
for b in mod.BUGS:
    if not want or b['id'] in want: mk(b); print('made',b['id'])
