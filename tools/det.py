import sys, json, hashlib
sys.path[:0]=['/verif','/repo']
from dst import runner
pid=sys.argv[1]; a,b=int(sys.argv[2]),int(sys.argv[3]); seed=int(sys.argv[4]); order=sys.argv[5]
c=runner.load_check(pid)
r=list(range(a,b))
if order=='rev': r=r[::-1]
for i in r:
    p=runner.make_plan(c,pid,seed,i,'quick')
    w,h,v=runner.execute(c,p)
    d=hashlib.md5("\n".join(json.dumps(e,default=str) for e in w.k.events).encode()).hexdigest()
    print(i,d,len(w.k.events),w.k.abort,flush=True)
import os; os._exit(0)
