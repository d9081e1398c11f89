import sys, json
import os; sys.path[:0]=[os.path.dirname(os.path.dirname(os.path.abspath(__file__))),os.environ.get('DST_REPO','/repo')]
from dst import runner
pid=sys.argv[1]; i=int(sys.argv[2]); seed=int(sys.argv[3]) if len(sys.argv)>3 else 1
c=runner.load_check(pid)
p=runner.make_plan(c,pid,seed,i,'quick')
print(json.dumps(p))
w,h,v=runner.execute(c,p)
for e in w.k.events:
    if e['k']!='cycle': print(json.dumps(e,default=str)[:300])
for x in v: print(x)
print(w.k.abort)
import os; sys.stdout.flush(); os._exit(0)
