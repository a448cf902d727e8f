#!/usr/bin/env python3
"""mk.py SPEC.py [id...]: builds and confirms planted bugs in a scratch copy, writes /verif/seeded/<id>/, runs the check."""
import sys,os,subprocess,json,shutil,importlib.util
SEEDS=[]
VERIF=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO=os.environ.get("GV_REPO","/repo")
def seed(id,prop,pkg,edits,test,needs,breaks,imports="",demo=None,files={}):
    SEEDS.append(dict(id=id,prop=prop,pkg=pkg,edits=edits,test=test,needs=needs,breaks=breaks,demo=demo,files=files))
DEMO='''#!/bin/bash
# runs demo_test.txt inside %(pkg)s through a build overlay
d=$(cd "$(dirname "$0")" && pwd)
. /opt/vp/env.sh
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
cp "$d/demo_test.txt" "$t/zz_demo_test.go"
printf '{"Replace":{"%%s/%(pkg)s/zz_demo_test.go":"%%s/zz_demo_test.go"}}' "$PWD" "$t" > "$t/o.json"
go test -overlay "$t/o.json" -vet=off -count=1 -timeout 120s -run '^TestZZDemo$' ./%(pkg)s
'''
def sh(c,cwd,**k): return subprocess.run(c,shell=True,cwd=cwd,capture_output=True,text=True,**k)
def main():
    spec=importlib.util.spec_from_file_location("s",sys.argv[1]); m=importlib.util.module_from_spec(spec); m.seed=seed; spec.loader.exec_module(m)
    only=sys.argv[2:]
    for s in SEEDS:
        if only and s["id"] not in only and not (only[0]=="-new"): continue
        out=VERIF+"/seeded/"+s["id"]
        if only[:1]==["-new"] and os.path.exists(out+"/patch.diff"): continue
        w="/tmp/seedwork.%d"%os.getpid(); shutil.rmtree(w,ignore_errors=True); sh(f"cp -a {REPO} {w}","/tmp")
        os.makedirs(out,exist_ok=True)
        open(out+"/demo_test.txt","w").write(s["test"]); open(out+"/demo.sh","w").write(s["demo"] or DEMO%s); [open(out+"/"+k,"w").write(v) for k,v in s["files"].items()]; os.chmod(out+"/demo.sh",0o755)
        json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(out+"/meta.json","w"),indent=1)
        r=sh(f"bash {out}/demo.sh",w)
        ok0=r.returncode==0
        if not ok0: print(s["id"],"DEMO FAILS ON CLEAN TREE\n",r.stdout[-2000:],r.stderr[-1000:]); continue
        bad=False
        for f,a,b in s["edits"]:
            t=open(w+"/"+f).read()
            if t.count(a)!=1: print(s["id"],"EDIT MATCHES",t.count(a),f,a); bad=True; break
            open(w+"/"+f,"w").write(t.replace(a,b))
        if bad: continue
        d=sh("git diff",w).stdout
        open(out+"/patch.diff","w").write(d)
        r=sh(". /opt/vp/env.sh; go build ./...",w)
        if r.returncode: print(s["id"],"BUILD",r.stderr[-1500:]); continue
        r=sh(f"bash {out}/demo.sh",w)
        if r.returncode==0: print(s["id"],"DEMO PASSES WITH PATCH"); continue
        r=sh(". /opt/vp/env.sh; go test -timeout 90s ./... 2>&1 | grep -E '^(FAIL|--- FAIL|panic)'",w)
        if r.stdout.strip(): print(s["id"],"TESTS",r.stdout[:600]); continue
        sh("git checkout go.sum",w)
        r=sh(f"./check.sh {s['prop']} -repo {w} -verif {VERIF}",VERIF,timeout=880)
        shutil.rmtree(w,ignore_errors=True)
        v=[l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
        print(s["id"],"rc",r.returncode,"CAUGHT" if r.returncode==1 and v else "MISSED",len(v),"concrete" if any("no-failing" not in l for l in v) else "", [l for l in r.stdout.splitlines() if ' / ' in l][:3])
        sys.stdout.flush()
main()
