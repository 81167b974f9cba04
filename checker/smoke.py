"""debug aid: summarise every function, report crashes, time and diagnostics"""
import sys, time, traceback, signal
from analysis import *
class TO(BaseException): pass
def h(*a): raise TO()
def main():
    P = Program('/repo')
    only = sys.argv[1:]
    signal.signal(signal.SIGALRM, h)
    for f in P.funcs:
        if only and not any(o in f.qual for o in only): continue
        C=Ctx(__import__('os').environ.get('R','/repo')); E = C.engine(C.std_stops(), 60)
        t=time.time()
        names=[a.arg for a in f.node.args.args]
        args={n: sym(n) for n in names[(1 if f.cls and f.kind!='static' else 0):]}
        signal.alarm(20)
        try:
            S = E.summarize(f, args)
            print(f'{f.qual:50} exits={len(S.exits)} {time.time()-t:.2f}s bads={len(E.bads)} notes={len(E.notes)}', {b[0] for b in E.bads} or '')
        except TO: print(f'{f.qual:50} TIMEOUT')
        except Exception as e:
            tb=traceback.extract_tb(e.__traceback__)
            print(f'{f.qual:50} CRASH {type(e).__name__} {str(e)[:100]}', [(x.filename[-12:],x.lineno) for x in tb[-4:]])
        finally: signal.alarm(0)
        sys.stdout.flush()
sys.setrecursionlimit(20000); main()
