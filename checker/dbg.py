import sys
from analysis import *
def run(q):
    C=Ctx(__import__('os').environ.get('R','/repo')); E=C.engine(C.std_stops(),20); f=next(f for f in C.prog.funcs if f.qual==q)
    orig=E.join
    def j(states):
        n = E.cur_node
        print('JOIN', len(states), f'{E.stack[-1].qual}', getattr(n,'lineno',None))
        a=states[0]
        ks={}
        for s in states[1:]:
            for k in s.env.keys()|a.env.keys():
                if s.env.get(k) is not a.env.get(k): ks['env '+k]=ks.get('env '+k,0)+1
            for k in s.heap.keys()|a.heap.keys():
                if s.heap.get(k) is not a.heap.get(k): ks['heap '+k[1]]=ks.get('heap '+k[1],0)+1
            for k in s.colls.keys()|a.colls.keys():
                if s.colls.get(k)!=a.colls.get(k): ks['coll '+show(k)]=ks.get('coll '+show(k),0)+1
            if [e.uid for e in s.eff]!=[e.uid for e in a.eff]: ks['eff']=ks.get('eff',0)+1
        print(sorted(ks.items(), key=lambda x:-x[1])[:12])
        for e in states[0].eff[-5:]: print('   e', e.kind, show(e.tgt)[:60], show(e.key)[:60])
        for s in states[:4]: print('   f', [('' if b else '!')+show(a)[:70] for a,b in s.facts.items()])
        if '-x' in sys.argv: sys.exit()
        return orig(states)
    E.join=j
    try: S=E.summarize(f,{n:sym(n) for n in C.params(f)}); print('exits',len(S.exits))
    except Limit: print('limit')
sys.setrecursionlimit(20000); run(sys.argv[1])
