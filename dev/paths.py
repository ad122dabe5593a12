import sys,os; sys.path.insert(0,os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','analysis'))
from engine import *
import rt,os; F=load(rt.build_facts(os.environ.get('VP_REPO','/repo')))
for f in sys.argv[1:]:
    E=Engine(F)
    outs=entry(E,f)
    print('#####',f,len(outs))
    for s,r in outs[:6]:
        print('PATH facts',[('' if t else '!')+pp(x,5) for x,t in s.facts],'RET',pp(r))
        for e in s.events: print('     ',e, '' if e.data is None or isinstance(e.data,LoopRec) else [pp(x,5) if isinstance(x,T) else x for x in e.data] )
        print('   mem',{ppplace((k,())):pp(v,6) for k,v in s.mem.items() if isinstance(k,T)})
    for L in E.looprecs:
        print('LOOP',L.lid,{pp(k):(ppplace(p),pp(i)) for k,(p,i) in L.phis.items()}, 'ind',{pp(k):(pp(a),b) for k,(a,b) in L.induction().items()})
        for fa,ev,vals in L.iterations():
            print('   ITER',[('' if t else '!')+pp(x,5) for x,t in fa]); 
            for e in ev: print('        ',e)
            print('       ',{pp(k):pp(v,5) for k,v in vals.items()})
        for x in L.exits: print('   EXIT',[('' if t else '!')+pp(q,5) for q,t in x.facts[L.nf:]])
