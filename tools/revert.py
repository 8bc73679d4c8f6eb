#!/usr/bin/env python3
"""revert.py: for each fixed entry of known-findings.txt (or those of given properties) revert the fix in a
scratch copy and see if the check reports the violation again"""
import sys,os,subprocess,shutil,re
V=os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def sh(cmd,cwd,env=None):
    e=dict(os.environ); e.update(env or {})
    p=subprocess.run(cmd,cwd=cwd,shell=True,stdout=subprocess.PIPE,stderr=subprocess.STDOUT,text=True,env=e,timeout=1800)
    return p.returncode,p.stdout
done=set()
for l in open(V+"/known-findings.txt"):
    m=re.match(r"fixed: property=(\S+) (\S+)",l)
    if not m or len(sys.argv)>1 and m[1] not in sys.argv[1:] or (m[1],m[2]) in done: continue
    done.add((m[1],m[2]))
    d="/tmp/revert.%d"%os.getpid(); shutil.rmtree(d,ignore_errors=True); os.makedirs(d)
    try:
        sh("git clone -q /repo r",d)
        c,o=sh("git -c user.name=x -c user.email=x@x revert --no-commit "+m[2],d+"/r")
        if c: print(m[1],m[2],"cannot be reverted:",o.strip().split("\n")[0]); continue
        shutil.copytree(V,d+"/v",ignore=shutil.ignore_patterns(".git","seeded","evidence"))
        f=d+"/v/mc/go.mod"; t=open(f).read(); open(f,"w").write(t.replace("=> /repo","=> "+d+"/r"))
        c,o=sh("./check.sh run "+m[1],d+"/v",{"REPO":d+"/r"})
        print(m[1],m[2],"reported" if c==1 and "VIOLATION property="+m[1] in o else "NOT REPORTED exit=%d %s"%(c,o[-200:]),flush=True)
    finally: shutil.rmtree(d,ignore_errors=True)
