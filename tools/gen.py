import sys,os,subprocess,shutil,json
sys.path.insert(0,'/tmp/mut'); sys.path.insert(0,'/tmp/seed')
import bulk
S={}
def seed(id, prop, edits, body, needs, breaks, imports="", pkg=".", files=(), raw=None, flags=""):
    S[id]=dict(prop=prop,edits=edits if isinstance(edits,list) or isinstance(edits,tuple) else bulk.M[edits][0],body=body,needs=needs,breaks=breaks,imports=imports,pkg=pkg,files=files,raw=raw,flags=flags)
ENV=dict(os.environ,PATH="/opt/veriftools/go1.27.3/bin:"+os.environ["PATH"],GOTOOLCHAIN="local",GOPROXY="off",GOFLAGS="-mod=mod")
def build(id):
    s=S[id]; d="/tmp/seed/w-"+id
    shutil.rmtree(d,ignore_errors=True); shutil.copytree("/repo",d)
    for f,a,b in s['edits']:
        p=os.path.join(d,f); t=open(p).read()
        if t.count(a)<1: return id+": PATTERN NOT FOUND "+a[:60]
        open(p,"w").write(t.replace(a,b,1))
    subprocess.run(["gofmt","-w"]+[os.path.join(d,e[0]) for e in s['edits']],env=ENV)
    out="/verif/seeded/"+id
    shutil.rmtree(out,ignore_errors=True); os.makedirs(out)
    diff=subprocess.run(["git","diff"],cwd=d,capture_output=True,text=True).stdout
    open(out+"/patch.diff","w").write(diff)
    if s['raw']: src=s['raw']
    else:
        imps=["testing"]+s['imports'].split()
        src="package leaves_test\n\nimport (\n"+"".join('\t"%s"\n'%i for i in sorted(imps))+")\n\nfunc TestDemo(t *testing.T) {\n"+s['body'].strip("\n")+"\n}\n"
    open(out+"/demo_test.go","w").write(src)
    reps=["demo_test.go"]
    if not s['raw']:
        shutil.copy("/tmp/seed/help.go",out+"/help_test.go"); reps.append("help_test.go")
    for f in s['files']: shutil.copy(f,out)
    subprocess.run(["gofmt","-w",out+"/demo_test.go"],env=ENV)
    pk=s['pkg']
    base="$PWD" if pk=="." else "$PWD/"+pk
    rep=",".join('\\"%s/zz_%s\\":\\"$d/%s\\"'%(base,r,r) for r in reps)
    open(out+"/demo.sh","w").write('''#!/bin/bash
# Runs demo_test.go inside the package, through an overlay; exit 0: as it should be.
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d)
trap 'rm -rf "$t"' EXIT
export GOPROXY=off GOTOOLCHAIN=local GOFLAGS=-mod=mod DEMO_DIR=$d
echo "{\\"Replace\\":{%s}}" > "$t/o.json"
go test -vet=off -count=1 -timeout 120s %s-overlay "$t/o.json" -run '^TestDemo$' ./%s
'''%(rep,s['flags'],"" if pk=="." else pk))
    os.chmod(out+"/demo.sh",0o755)
    json.dump({"property":s['prop'],"needs":s['needs'],"what_it_breaks":s['breaks']},open(out+"/meta.json","w"),indent=1)
    r=subprocess.run(["go","test","-vet=off","-timeout","60s","./..."],cwd=d,env=ENV,capture_output=True,text=True)
    fails=[l for l in r.stdout.splitlines() if l.startswith("--- FAIL")]
    b="build failed" in r.stdout
    c=subprocess.run(["bash",out+"/demo.sh"],cwd="/repo",capture_output=True,text=True)
    p=subprocess.run(["bash",out+"/demo.sh"],cwd=d,capture_output=True,text=True)
    chk=subprocess.run(["python3","/verif/bin/check.py",s['prop']],env=dict(ENV,VERIF_REPO=d),capture_output=True,text=True)
    shutil.rmtree(d,ignore_errors=True)
    ok = not b and (not fails) and c.returncode==0 and p.returncode!=0
    msg=id+": "+("OK" if ok else "BAD tests=%s build=%s clean=%d patched=%d\n%s\n%s"%(fails,b,c.returncode,p.returncode,c.stdout[-1500:],p.stdout[-800:] if p.returncode==0 else ""))
    o=chk.stdout.strip().splitlines()
    return msg+"  check %d %s"%(chk.returncode,(o[-2] if len(o)>1 else "")[:160])
if __name__=="__main__":
    import concurrent.futures as cf
    import seeds, seeds2, seeds3
    names=sys.argv[1:] or list(gen.S) if False else sys.argv[1:]
    import gen
    names=names or list(gen.S)
    with cf.ThreadPoolExecutor(3) as ex:
        for m in ex.map(gen.build,names): print(m,flush=True)
