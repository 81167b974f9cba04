"""Order and chance: for every public function, what its result and what it stores owe to the order of a set, to addresses, hashes, the clock, the environment or unseeded chance."""
from report import *
from order import Analysis, deep
from prog import Func, Prop


def public(ctx):
    for f in ctx.prog.funcs:
        if f.name == '__hash__' or f.name.startswith('_') and not f.name.startswith('__'):
            continue
        yield f


def shown(v, d=0):
    """flags of what is visible in a result: the order of a set is not"""
    if v is None or d > 6:
        return frozenset()
    out = frozenset(x if x[0] != 'id' else x[1] for x in v.V if x[0] not in ('p', 'hash'))
    if v.kind != 'set':
        out = out | v.O
    for x in [v.elem, v.keys] + [b for _, b in v.fields]:
        out = out | shown(x, d + 1)
    return out


def run(ctx, rep):
    A = Analysis(ctx.prog)
    fs = list(public(ctx))
    for _ in range(8):
        A.changed = False
        A.before, A.memo = A.memo, {}
        results = {}
        for f in fs:
            results[f] = A.entry(f)
            ctx.functions.add(f.qual)
        if not A.changed:
            break
    blame = {}
    for f in fs:
        for o in shown(results[f]):
            blame.setdefault(o, []).append(f)
    for name in sorted(A.attrs):
        for o in shown(A.attrs[name]):
            blame.setdefault(o, [])
    for f in fs:
        bad = sorted(shown(results[f]), key=lambda o: (o[0].path, o[1], o[2]))
        rep.done(f.qual, False if bad else True, bad[0][2] if bad else '')
    for o in sorted(blame, key=lambda o: (o[0].path, o[1], o[2])):
        g, line, what = o
        rest = [f for f in blame[o] if f is not g]
        seen = ', '.join(f.qual for f in (rest or blame[o])[:3])
        if blame[o]:
            rep.violate('left to chance', g, at(line), f'{what}, and this shows in the result of {seen}')
    if A.sites < 200:
        rep.done('calls analysed', None, f'only {A.sites}')


class at:
    def __init__(self, line):
        self.lineno = line
