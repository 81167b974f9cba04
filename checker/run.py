"""run.py --property C08: decide one property on /repo's current source"""
import argparse
import importlib
import json
import os
import sys
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.setrecursionlimit(30000)
VERIF = os.path.dirname(HERE)


def main():
    if os.environ.get('PYTHONHASHSEED') is None:
        # the same verdict and messages in every run
        os.execve(sys.executable, [sys.executable] + sys.argv, dict(os.environ, PYTHONHASHSEED=os.environ.get('CHECKER_HASHSEED', '0')))
    ap = argparse.ArgumentParser()
    ap.add_argument('--property', required=True)
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--repo', default='/repo')
    ap.add_argument('--evidence', default=os.path.join(VERIF, 'evidence'))
    a = ap.parse_args()
    from analysis import Ctx, AnalysisBroken
    from report import Report, OutOfTime, limit
    import known
    t0 = time.time()
    prop = a.property
    rule = importlib.import_module('rules.' + prop.lower())
    broken = None
    rep = None
    try:
        ctx = Ctx(a.repo, budget=600 if a.tier == 'thorough' else 240)
        rep = Report(ctx, prop)
        with limit(780 if a.tier == 'thorough' else 420):
            rule.run(ctx, rep)
            if a.tier == 'thorough' and hasattr(rule, 'thorough'):
                rule.thorough(ctx, rep)
    except AnalysisBroken as e:
        broken = str(e)
    except OutOfTime:
        rep.done('the rest of the rule', None, 'out of time')
    except Exception as e:
        # the analysis, not the package, is at fault: nothing is claimed for what was left
        traceback.print_exc()
        if rep is None:
            sys.exit(3)
        rep.done('the rest of the rule', None, f'{type(e).__name__}: {e}')
    os.makedirs(a.evidence, exist_ok=True)
    listed = known.load(os.path.join(VERIF, 'KNOWN_FINDINGS.txt'), prop)
    viol, found = [], []
    for w, r, m in (rep.violations if rep else []):
        k = known.match(listed, w, r, m)
        (found if k else viol).append((w, r, m))
    if broken:
        viol.append(('package', 'public interface', broken))
    obl = rep.obligations if rep else []
    held = [o for o in obl if o[1] == 'holds']
    und = [o for o in obl if o[1] == 'undecided']
    ev = {
        'property': prop, 'tier': a.tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
        'coverage': {
            'explanation': (rule.__doc__ or '').strip() + ' Decided from the syntax trees of the package by guarded effect summaries; nothing is executed.',
            'counts': {'obligations': len(obl), 'holds': len(held), 'undecided': len(und), 'violated': len([o for o in obl if o[1] == 'violated']),
                       'units_compared': rep.units if rep else 0, 'functions_analysed': len(ctx.functions) if rep else 0},
            'samples': [{'obligation': o[0], 'outcome': o[1], 'detail': o[2]} for o in obl][:60],
            'violations': [{'where': w, 'rule': r, 'message': m[:1000]} for w, r, m in viol],
            'functions': sorted(ctx.functions)[:200] if rep else [],
        },
        'wall_s': round(time.time() - t0, 2),
        'violations': len(viol),
    }
    with open(os.path.join(a.evidence, prop + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    for w, r, m in found:
        print(f'KNOWN-FINDING: property={prop} {w}: {r}: {m}'[:600])
    for o in obl:
        print(f'  {o[1]:10} {o[0]} {("(" + o[2][:150] + ")") if o[2] else ""}')
    for w, r, m in viol:
        print(f'{w}: {r}: {m}')
    if viol:
        rp = os.path.join(a.evidence, f'{prop}.violations.txt')
        with open(rp, 'w') as f:
            for w, r, m in viol:
                f.write(f'{w}: {r}: {m}\n')
        print(f'VIOLATION property={prop} replay={rp}')
        sys.exit(1)
    print(f'{prop}: {len(held)} of {len(obl)} obligations hold, {len(und)} undecided ({ev["wall_s"]} s)')
    sys.exit(0)


if __name__ == '__main__':
    main()
