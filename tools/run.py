import sys; sys.path.insert(0,'/tmp/mut')
from m import mutate
import bulk, io, contextlib, concurrent.futures as cf
names=sys.argv[1:] or list(bulk.M)
def go(n):
    e,c=bulk.M[n]
    import subprocess
    r=subprocess.run([sys.executable,'-c',f"import sys;sys.path.insert(0,'/tmp/mut')\nfrom m import mutate\nimport bulk\ne,c=bulk.M[{n!r}]\nmutate({n!r},e,c)"],capture_output=True,text=True)
    return r.stdout+r.stderr[-500:]
with cf.ThreadPoolExecutor(2) as ex:
    for o in ex.map(go,names): print(o,flush=True,end='')
