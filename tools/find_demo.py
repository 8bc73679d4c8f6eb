#!/usr/bin/env python3
"""find_demo.py: find the input on which a change to package bidi shows: BUGS is a list of
(id, prop, needs, breaks, edits), with edits = [(file, old, new)]. Writes tools/seeds/c_found.json, from which
tools/seeds/c_found.py makes seeds."""
import sys,os,json,subprocess,shutil
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
exec(open(V+"/tools/bugs_bidi.py").read())
PROG=open(V+"/tools/dump_bidi.go.txt").read()
ENV=dict(os.environ,GOPROXY="off",GOTOOLCHAIN="local",GOWORK="off",GOFLAGS="-mod=mod")
def dump(d,mode):
    os.makedirs(d+"/zz_dump",exist_ok=True)
    open(d+"/zz_dump/main.go","w").write(PROG)
    p=subprocess.run("go build -o zz_dump/d ./zz_dump && timeout 100 ./zz_dump/d "+mode,cwd=d,shell=True,stdout=subprocess.PIPE,stderr=subprocess.PIPE,text=True,env=ENV)
    return p.stdout.split("\n"), p.stderr
F=V+"/tools/seeds/c_found.json"
found=json.load(open(F)) if os.path.exists(F) else {}
ids=sys.argv[1:]
base={}
for b in BUGS:
    id,prop,needs,breaks,edits=b
    if ids and id not in ids: continue
    if not ids and id in found: continue
    mode={"B06":"split","B07":"split","B04":"order","B08":"markup"}.get(prop,"levels")
    d="/tmp/finddemo"; shutil.rmtree(d,ignore_errors=True)
    subprocess.run("git clone -q /repo "+d,shell=True)
    if mode not in base: base[mode]=dump(d,mode)[0]
    ok=True
    for f,old,new in edits:
        t=open(d+"/"+f).read()
        if t.count(old)!=1: print("!!",id,"count",t.count(old),repr(old)); ok=False; continue
        open(d+"/"+f,"w").write(t.replace(old,new))
    if not ok: continue
    got,err=dump(d,mode)
    subprocess.run("rm -rf "+d+"/zz_dump",shell=True)
    p=subprocess.run("go test -vet=off -count=1 -timeout 60s ./bidi/...",cwd=d,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=dict(ENV,GOFLAGS="-mod=readonly"))
    if p.returncode: print(id,"REPO TESTS FAIL",[l for l in p.stdout.split("\n") if l.startswith("---")][:5]); continue
    if "cannot" in err or "undefined" in err or "declared and not used" in err: print(id,err[:300]); continue
    n=0; first=None
    for a,c in zip(base[mode],got+["<died>"]*(len(base[mode])-len(got))):
        if a!=c:
            n+=1
            if first is None: first=a
    if n==0: print(id,"NO DIFFERENCE"); continue
    args,want=first.split("\t",1)
    found[id]=dict(mode=mode,args=args,want=want,base=b)
    print(id,"differs on %d of %d, first: %s"%(n,len(base[mode]),first))
    json.dump(found,open(F,"w"),indent=1,ensure_ascii=False)
shutil.rmtree("/tmp/finddemo",ignore_errors=True)
