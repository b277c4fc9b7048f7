#!/usr/bin/env python3
"""plant.py spec.py...: makes /verif/seeded/<id> from specs, verifies them in a scratch copy."""
import json, os, subprocess, sys, shutil, tempfile, importlib.util
ENV=dict(os.environ, HOME="/root", GOTOOLCHAIN="local", GOFLAGS="", GOPROXY="off")
DEMO='''#!/bin/bash
# Runs the test beside this file inside %(pkg)s of the repository in the current directory.
D="$(cd "$(dirname "$0")" && pwd)"
export HOME="${HOME:-/root}" GOTOOLCHAIN=local GOFLAGS= GOPROXY=off GOWORK=off
exec go test -count=1 -vet=off -timeout 120s -run '^TestDemo$' \\
  -overlay <(printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/demo.go.txt"}}' "$PWD" "$D") ./%(pkg)s
'''
def sh(cmd, cwd=None, t=300):
    r=subprocess.run(cmd,shell=True,cwd=cwd,env=ENV,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t,executable="/bin/bash")
    return r.returncode, r.stdout
base=json.load(open('/opt/vp/BASELINE.json'))
def main(files):
    for f in files:
        ns={}
        exec(compile(open(f).read(),f,'exec'),ns)
        for b in ns['BUGS']:
            one(b)
def one(b):
    d="/verif/seeded/"+b['id']
    w=tempfile.mkdtemp(prefix="plant-",dir="/tmp")
    try:
        sh("cp -a /repo %s/repo"%w)
        r=w+"/repo"
        for (f,old,new) in b['edits']:
            p=os.path.join(r,f); s=open(p).read()
            n=s.count(old)
            if n!=1: print(b['id'],"EDIT MATCHES",n,f,old[:60]); return
            open(p,'w').write(s.replace(old,new))
        sh("goimports -h")
        rc,o=sh("gofmt -l $(git diff --name-only | grep -v peg.go)",r)
        if o.strip(): print(b['id'],"gofmt:",o)
        rc,diff=sh("git diff",r)
        os.makedirs(d,exist_ok=True)
        open(d+"/patch.diff","w").write(diff)
        open(d+"/meta.json","w").write(json.dumps(dict(property=b['property'],needs=b['needs'],what_it_breaks=b['breaks']),indent=1)+"\n")
        if 'demo_sh' in b:
            open(d+"/demo.sh","w").write(b['demo_sh'])
            for n,c in b.get('files',{}).items(): open(d+"/"+n,"w").write(c)
        else:
            open(d+"/demo.sh","w").write(DEMO%dict(pkg=b['pkg']))
            open(d+"/demo.go.txt","w").write(b['demo'])
        os.chmod(d+"/demo.sh",0o755)
        rc,o=sh("go build ./... && GOOS=js GOARCH=wasm go build -o /dev/null ./cmd/wasm",r)
        if rc: print(b['id'],"BUILD FAILS",o[-500:]); return
        rc,o=sh("go test -vet=off -count=1 ./...",r)
        if rc: print(b['id'],"TESTS FAIL",o[-800:]); return
        demo=tempfile.mkdtemp(prefix="demo-",dir="/tmp")
        sh("cp %s/* %s/; rm -f %s/patch.diff %s/meta.json"%(d,demo,demo,demo))
        rc1,o1=sh("bash %s/demo.sh"%demo,r)
        rc0,o0=sh("bash %s/demo.sh"%demo,"/repo")
        shutil.rmtree(demo)
        ok = rc1!=0 and rc0==0
        if ok and ("build failed" in o1 or "setup failed" in o1): ok=False
        print(b['id'],"OK" if ok else "DEMO WRONG bug rc=%d clean rc=%d\n%s\n---\n%s"%(rc1,rc0,o1[-700:],o0[-700:]))
    finally:
        shutil.rmtree(w)
main(sys.argv[1:])
