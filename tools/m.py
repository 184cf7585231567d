#!/usr/bin/env python3
"""m.py NAME FILE 'old' 'new' [count] -- checks...  : mutate a copy, run tests + checks"""
import subprocess,sys,shutil,os
def mutate(name, edits, checks, tests=True, tier="quick"):
    d="/tmp/mut/"+name
    shutil.rmtree(d,ignore_errors=True)
    subprocess.run(["true"])
    shutil.copytree(os.environ.get("MBASE","/repo"),d,ignore=shutil.ignore_patterns(".git"))
    for f,a,b in edits:
        p=os.path.join(d,f); s=open(p).read()
        if a not in s: print(name,"PATTERN NOT FOUND",a); return
        open(p,"w").write(s.replace(a,b,1))
    env=dict(os.environ,PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"],GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod")
    if tests:
        r=subprocess.run(["go","test","-timeout","60s","./..."],cwd=d,env=env,capture_output=True,text=True)
        fails=[l for l in r.stdout.splitlines() if l.startswith("--- FAIL")]
        if "build failed" in r.stdout: print(name,"BUILD FAILED",r.stdout[-500:],r.stderr[-500:]); return
        print(name,"tests:",fails or "pass")
    for c in checks:
        r=subprocess.run(["python3","/verif/bin/check.py",c],env=dict(env,VERIF_REPO=d,VERIF_TIER=tier),capture_output=True,text=True)
        o=r.stdout.strip().splitlines()
        print("  ",c,r.returncode,(o[-2] if len(o)>1 else o[-1] if o else r.stderr)[:260])
    shutil.rmtree(d,ignore_errors=True)
