#!/usr/bin/env python3
"""mkbug.py SPEC.py : SPEC defines id, property, edits=[(file,old,new)], demo (C++ source), needs, breaks [, flags]. Writes /verif/seeded/<id>/ after confirming it."""
import sys,os,subprocess,json,shutil,tempfile
def sh(c,**k): return subprocess.run(c,shell=True,capture_output=True,text=True,**k)
def make(S):
    d=tempfile.mkdtemp(prefix='bug_'); repo=d+'/repo'
    try:
        sh('cp -a /repo %s'%repo)
        for f,old,new in S['edits']:
            p='%s/include/boost/signals2/%s'%(repo,f); s=open(p).read()
            if s.count(old)!=1: print(S['id'],'EDIT MATCHES',s.count(old),f,old[:60]); return False
            open(p,'w').write(s.replace(old,new))
        patch=sh('git -C %s diff'%repo).stdout
        out='/verif/seeded/%s'%S['id']; os.makedirs(out+'/shim/boost/core',exist_ok=True)
        open(out+'/patch.diff','w').write(patch)
        shutil.copy('/verif/shim/boost/core/invoke_swap.hpp',out+'/shim/boost/core/')
        open(out+'/demo.cpp','w').write(S['demo'])
        open(out+'/demo.sh','w').write('''#!/bin/bash
# run with cwd = the repository: exit 0 if the property holds in this scenario
H="$(cd "$(dirname "$0")" && pwd)"; D="$(mktemp -d)"; trap 'rm -rf "$D"' EXIT
g++ -std=c++17 -g -O0 %s -I"$PWD/include" -I"$H/shim" "$H/demo.cpp" -o "$D/demo" -lboost_thread -lboost_system -lpthread || exit 3
timeout 120 "$D/demo"
'''%S.get('flags',''))
        os.chmod(out+'/demo.sh',0o755)
        json.dump(dict(property=S['property'],needs=S['needs'],what_it_breaks=S['breaks']),open(out+'/meta.json','w'),indent=1)
        a=sh('bash %s/demo.sh'%out,cwd='/repo'); b=sh('bash %s/demo.sh'%out,cwd=repo)
        print(S['id'],'unchanged:',a.returncode,a.stdout[-200:].strip(),a.stderr[-300:].strip(),'| patched:',b.returncode,b.stdout[-150:].strip(),b.stderr[-200:].strip())
        ok=a.returncode==0 and b.returncode!=0 and b.returncode!=3
        if not ok: shutil.rmtree(out)
        return ok
    finally: shutil.rmtree(d)
if __name__=='__main__':
    for f in sys.argv[1:]:
        g={}; exec(open(f).read(),g)
        for S in g['BUGS']: make(S)
