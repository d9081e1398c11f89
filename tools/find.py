import sys, json, collections, time
R=time.monotonic
import os; sys.path[:0]=[os.path.dirname(os.path.dirname(os.path.abspath(__file__))),os.environ.get('DST_REPO','/repo')]
from dst import runner
pid=sys.argv[1]; a,b=int(sys.argv[2]),int(sys.argv[3]); seed=int(sys.argv[4]) if len(sys.argv)>4 else 1
c=runner.load_check(pid)
cnt=collections.Counter(); ex={}; st=collections.Counter(); slow=(0,0)
for i in range(a,b):
    p=runner.make_plan(c,pid,seed,i,'quick')
    t=R()
    try:
        w,h,v=runner.execute(c,p)
    except Exception as e:
        import traceback; traceback.print_exc(); print("EXC",i); continue
    slow=max(slow,(round(R()-t,2),i))
    for k2,x in c.stats(h).items(): st[k2]+=x
    st['invs']+=len(h.invs)
    if w.k.abort: cnt['ABORT-'+w.k.abort]+=1; ex.setdefault('ABORT-'+w.k.abort,[]).append(i)
    for k2 in ('thread_error','child_error','loop_exception','build_error'):
        for _,e in h.kind(k2):
            key='EV-'+k2+' '+str(e.get('err'))[:80]; cnt[key]+=1; ex.setdefault(key,[]).append(i)
    for x in v:
        key=x['rule']+' '+str({k:y for k,y in x.items() if k not in('rule','msg','task')})
        cnt[key]+=1; ex.setdefault(key,[]).append((i,x['msg']))
for k,n in cnt.most_common(): print(n,k,ex[k][:3])
print("STAT",dict(st),"slowest",slow)
sys.stdout.flush()
import os; os._exit(0)
