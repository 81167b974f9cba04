import sys, cProfile, pstats, signal
from analysis import *
def main():
    P = Program('/repo'); q=sys.argv[1]; lim=int(sys.argv[2])
    f = next(f for f in P.funcs if f.qual == q)
    C=Ctx(__import__('os').environ.get('R','/repo')); E=C.engine(C.std_stops(),60)
    names=[a.arg for a in f.node.args.args]
    args={n: sym(n) for n in names[(1 if f.cls and f.kind!='static' else 0):]}
    def h(*a): raise KeyboardInterrupt
    signal.signal(signal.SIGALRM,h); signal.alarm(lim)
    pr=cProfile.Profile(); pr.enable()
    try: E.summarize(f,args)
    except KeyboardInterrupt: print('timeout')
    pr.disable()
    print(E.steps)
    pstats.Stats(pr).sort_stats('cumtime').print_stats(35)
sys.setrecursionlimit(20000); main()
