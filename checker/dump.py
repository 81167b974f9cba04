"""debug aid: print the summary of one function: dump.py Class.name | module:name"""
import sys, time
from analysis import *
def main():
    C=Ctx(__import__('os').environ.get('R','/repo')); P=C.prog; E=C.engine(C.std_stops(),60)
    for q in sys.argv[1:]:
        f = next(f for f in P.funcs if f.qual == q)
        E.bads=[]
        t=time.time()
        names=[a.arg for a in f.node.args.args]
        args={n: sym(n) for n in names[(1 if f.cls and f.kind!='static' else 0):]}
        S = E.summarize(f, args)
        print('=====', q, len(S.exits), 'exits', round(time.time()-t,2),'s', E.steps)
        for s,o in S.exits[int(__import__("os").environ.get("A","0")):][:30]:
            print('  *', o.kind, show(s and E.freeze(o.val,s)) if isinstance(o.val,T) else o.val, '(implicit)' if o.implicit else '')
            for a,b in s.facts.items(): print('       ', '' if b else 'not', show(a))
            for e in s.eff: print('      >', e.kind, show(e.tgt), show(e.key), ':=', show(E.freeze(e.val,s)), 'for' if e.frames else '', [(show(i),show(x)) for i,x in e.frames], [('' if b else '!')+show(a) for a,b in e.guards], set(e.flags))
        for b in E.bads: print('  BAD', b[0], b[1], b[2].lineno if b[2] is not None else '', b[3])
        for n in E.notes: print('  NOTE', n)
if __name__=='__main__':
    sys.setrecursionlimit(20000); main()
