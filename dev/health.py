import sys,os,time; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','analysis'))
from engine import *
import rt,os; F=load(rt.build_facts(os.environ.get('VP_REPO','/repo')))
pat=sys.argv[1]
for p in sorted(F.fns):
    if not p.startswith(pat) or '{closure' in p or 'tests::' in p: continue
    if F.fns[p].derived: continue
    t=time.time()
    E=Engine(F, opaque={q for q in F.fns if q.endswith(('::eval_calculation','::evaluate'))}-{p}, maxstates=20000)
    try:
        o=entry(E,p); print(f'{p[:70]:70}',len(o),'paths',len(E.panics),'pan',E.count,'br',round(time.time()-t,1),'s',E.unmodelled or '')
    except Exception as e:
        import traceback
        print(f'{p[:70]:70} EXC',type(e).__name__,str(e)[:150], traceback.extract_tb(e.__traceback__)[-1][:3])
