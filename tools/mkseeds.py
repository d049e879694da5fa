#!/usr/bin/env python3
# Builds /verif/seeded/<id>/ from the definitions in tools/seeds/*.py and confirms
# each one in a scratch copy of /repo: mkseeds.py [id...]
import sys,os,json,subprocess,shutil,glob,tempfile
here=os.path.dirname(os.path.abspath(__file__)); root=os.path.dirname(here)
S=[]
def seed(id,prop,needs,breaks,edits,test,imports=""):
    S.append(dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,test=test,imports=imports))
for f in sorted(glob.glob(here+"/seeds/*.py")): exec(open(f).read())
DEMO='''#!/bin/bash
# run with cwd /repo: runs demo_test.go.txt inside the package through an overlay
here=$(cd "$(dirname "$0")" && pwd)
[ -e /opt/vp/env.sh ] && . /opt/vp/env.sh
export GOTOOLCHAIN=local GOPROXY=off GOWORK=off
tmp=$(mktemp -d)
pkg=$(cat "$here/pkg.txt")
printf '{"Replace":{"%s/%s/zz_seed_demo_test.go":"%s/demo_test.go.txt"}}' "$PWD" "$pkg" "$here" > "$tmp/o.json"
go test -overlay "$tmp/o.json" -vet=off -count=1 -timeout 120s -run '^TestSeedDemo$' "./$pkg"
rc=$?
rm -rf "$tmp"
exit $rc
'''
want=sys.argv[1:]
def sh(c,cwd,t=600):
    p=subprocess.run(c,shell=True,cwd=cwd,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,timeout=t); return p.returncode,p.stdout
base=json.load(open('/opt/vp/BASELINE.json'))
env="export GOTOOLCHAIN=local GOFLAGS=-mod=mod GOPROXY=off GOWORK=off; "
def stable(): 
    b=base
    for k in ('stable','passed','tests','pass'):
        if isinstance(b,dict) and k in b: return set(b[k]) if not isinstance(b[k],dict) else set(b[k].keys())
    return set()
for s in S:
    if want and s['id'] not in want: continue
    if not want and os.path.exists(f"{root}/seeded/{s['id']}/patch.diff"): continue
    d=tempfile.mkdtemp(prefix="seed_",dir="/tmp"); w=d+"/repo"
    try:
        sh(f"git clone -q /repo {w}; mkdir -p {w}/test/out",d)
        sh(f"cp -a /repo/test/. {w}/test/",d)
        out=f"{root}/seeded/{s['id']}"; os.makedirs(out,exist_ok=True)
        pk=s.get('pkg') or ("fontmaker/core" if all(e[0].startswith("fontmaker/core/") for e in s['edits']) else ".")
        open(out+"/pkg.txt","w").write(pk+"\n")
        name={".":"gopdf","fontmaker/core":"core"}[pk]
        t=s['test']
        if not t.lstrip().startswith("package"): t="package "+name+"\n\nimport (\n\t\"testing\"\n"+"".join('\t"%s"\n'%i for i in s['imports'].split())+")\n\n"+t
        open(out+"/demo_test.go.txt","w").write(t.strip()+"\n")
        open(out+"/demo.sh","w").write(DEMO); os.chmod(out+"/demo.sh",0o755)
        json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(out+"/meta.json","w"),indent=1)
        rc,o=sh(env+f"bash {out}/demo.sh",w)
        if rc: print(s['id'],"DEMO FAILS ON CLEAN TREE",o[-1500:]); continue
        for f,a,b in s['edits']:
            x=open(w+"/"+f).read()
            if x.count(a)!=1: print(s['id'],"edit matches",x.count(a),"times:",a); break
            open(w+"/"+f,"w").write(x.replace(a,b))
        else:
            rc,o=sh("git diff",w); open(out+"/patch.diff","w").write(o)
            rc,o=sh(env+"go build ./...",w)
            if rc: print(s['id'],"DOES NOT BUILD",o); os.remove(out+"/patch.diff"); continue
            rc,o=sh(env+f"bash {out}/demo.sh",w)
            if rc==0: print(s['id'],"DEMO PASSES WITH THE PATCH"); os.remove(out+"/patch.diff"); continue
            msg=[l for l in o.splitlines() if 'demo' in l or 'panic' in l][:2]
            rc,o=sh(env+"go test -vet=off -count=1 ./... 2>&1 | grep -E '^(--- FAIL|FAIL|panic)'",w)
            print(s['id'],"OK" if not o.strip() else "TESTS: "+o, msg)
            if o.strip(): os.rename(out+"/patch.diff",out+"/patch.bad")
    finally:
        shutil.rmtree(d)
