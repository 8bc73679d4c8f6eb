#!/usr/bin/env python3
"""seed.py make ID...|all   write seeded/ID from tools/seeds/*.py
seed.py test ID...|all      confirm a seed in a scratch copy: builds, tests pass, demo fails only with it,
                            and run the check of its property against the copy (tier from VERIF_TIER)"""
import sys,os,json,subprocess,shutil,glob,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S={}
def seed(id,prop,needs,breaks,edits,demo,sh=None):
    assert id not in S,id
    S[id]=dict(id=id,prop=prop,needs=needs,breaks=breaks,edits=edits,demo=demo,sh=sh)
for f in sorted(glob.glob(V+"/tools/seeds/*.py")): exec(open(f).read())
DEMO='''#!/bin/bash
# runs a small program against the module in the current directory
D="$(cd "$(dirname "$0")" && pwd)"
export GOPROXY=off GOTOOLCHAIN=local GOWORK=off
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
printf '{"Replace":{"%s/zz_demo/main.go":"%s/main.go"}}' "$PWD" "$D" > "$T/overlay.json"
go build -overlay "$T/overlay.json" -o "$T/demo" ./zz_demo || exit 2
timeout 120 "$T/demo"
'''
def sh(cmd,cwd,env=None,timeout=1500):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.run(cmd,cwd=cwd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=e,timeout=timeout)
    return p.returncode,p.stdout
def make(s):
    d="/tmp/seedmake.%d"%os.getpid()
    shutil.rmtree(d,ignore_errors=True)
    sh("git clone -q /repo "+d,"/tmp")
    try:
        for f,old,new in s["edits"]:
            t=open(d+"/"+f).read()
            if t.count(old)!=1: print("!!",s["id"],f,"count",t.count(old),repr(old)); return False
            open(d+"/"+f,"w").write(t.replace(old,new))
        out=V+"/seeded/"+s["id"]
        os.makedirs(out,exist_ok=True)
        _,diff=sh("git diff",d)
        open(out+"/patch.diff","w").write(diff)
        # changed lines must be from the base commit
        base=sh("git rev-list --max-parents=0 HEAD",d)[1].strip()
        for f,old,new in s["edits"]:
            bl=sh("git show %s:%s"%(base,f),d)[1].split("\n")
            rem=[l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
            for l in rem:
                if l.strip() and l not in bl and not any(l in sh("git show %s:%s"%(base,g),d)[1].split("\n") for g,_,_ in s["edits"]): print("  note",s["id"],"removes a line not in base:",l)
        open(out+"/main.go","w").write(s["demo"].lstrip())
        open(out+"/demo.sh","w").write(s["sh"] or DEMO); os.chmod(out+"/demo.sh",0o755)
        json.dump({"property":s["prop"],"needs":s["needs"],"what_it_breaks":s["breaks"]},open(out+"/meta.json","w"),indent=1,ensure_ascii=False)
        sh("gofmt -w main.go",out)
        return True
    finally: shutil.rmtree(d,ignore_errors=True)
def test(id,props=None):
    meta=json.load(open(V+"/seeded/%s/meta.json"%id))
    d="/tmp/seedtest.%d"%os.getpid()
    shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    try:
        sh("git clone -q /repo r",d)
        shutil.copytree(V+"/seeded/"+id,d+"/s")
        r=d+"/r"; res=[]
        c,o=sh("bash ../s/demo.sh",r)
        if c!=0: return "DEMO FAILS UNPATCHED "+o[-400:]
        c,o=sh("git apply ../s/patch.diff",r)
        if c!=0: return "PATCH DOES NOT APPLY "+o
        c,o=sh("export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off; go test -vet=off -count=1 -timeout 3m $(go list -e ./... | grep -vx github.com/npillmayer/uax/uax14) 2>&1",r)
        stable=json.load(open("/opt/vp/BASELINE.json"))
        fails=re.findall(r"--- FAIL: (\S+)",o)
        fails=[f for f in fails if any(str(x).endswith(f) or f in json.dumps(x) for x in (stable.get("stable") or stable.get("tests") or stable.get("passed") or [stable]))]
        if fails or "panic:" in o or "build failed" in o: return "TESTS FAIL %s %s"%(fails,o[-300:] if not fails else "")
        c,o=sh("bash ../s/demo.sh",r)
        if c==0: return "DEMO PASSES PATCHED"
        if c not in(1,): res.append("demo exit %d: %s"%(c,o[-200:]))
        shutil.copytree(V,d+"/v",ignore=shutil.ignore_patterns(".git","seeded","evidence"))
        m=d+"/v/mc/go.mod"; t=open(m).read(); open(m,"w").write(t.replace("=> /repo","=> "+r))
        out=[]
        for p in (props or [meta["property"]]):
            c,o=sh("./check.sh run "+p,d+"/v",{"REPO":r})
            v=[l for l in o.split("\n") if l.startswith("VIOLATION property=%s "%p)]
            out.append("%s %s"%(p,"caught" if c==1 and v else "MISSED exit=%d %s"%(c,o[-300:])))
            out.append(o.strip().split("\n")[-1][:160])
        return "; ".join(res+out)
    finally: shutil.rmtree(d,ignore_errors=True)
if __name__=="__main__":
    cmd=sys.argv[1]; ids=sys.argv[2:]
    if ids==["all"]: ids=sorted(S) if cmd=="make" else sorted(os.listdir(V+"/seeded"))
    if cmd=="make":
        for i in ids: make(S[i])
    elif cmd=="test":
        for i in ids: print(i,test(i),flush=True)
    elif cmd=="cross": # seed.py cross ID PROP...
        print(ids[0],test(ids[0],ids[1:]))
