"""Graph.random: from its summary, the nodes added, the pairs considered, the condition under which a pair is
connected (evaluated over every order of the two numbers, every outcome of the draw and of cycle), the bounds
of the draw, the clipping of the probability and the seeding before the first draw."""
import itertools
from builders import *


def run(ctx, rep):
    try:
        with limit(120):
            random_graph(ctx, rep)
    except OutOfTime:
        rep.done('random', None, 'out of time')


def lin(t):
    """linear form of a number: {term or 1: coefficient}; None when it is not one"""
    if is_const(t):
        v = cval(t)
        return {1: v} if isinstance(v, (int, float)) and not isinstance(v, bool) else None
    if t.op == 'idx':
        b = lin(t.args[1])
        return plus({t.args[0]: 1}, b) if b is not None else None
    if t.op == 'bin' and t.args[0] in ('Add', 'Sub'):
        a, b = lin(t.args[1]), lin(t.args[2])
        return plus(a, b, 1 if t.args[0] == 'Add' else -1) if a is not None and b is not None else None
    if t.op in ('sym', 'bv', 'it'):
        return {t: 1}
    return None


def plus(a, b, k=1):
    out = dict(a)
    for x, c in b.items():
        out[x] = out.get(x, 0) + k * c
    return {x: c for x, c in out.items() if c}


def number_of(name):
    """the number in a node's name"""
    if name.op == 'str' or name.op == 'call' and name.args[0] == 'str':
        return lin(name.args[-1])
    return None


def count(coll):
    if coll.op == 'listof':
        return count(coll.args[0])
    if coll.op == 'range' and len(coll.args) == 3 and is_const(coll.args[2]) and cval(coll.args[2]) == 1:
        lo, hi = lin(coll.args[0]), lin(coll.args[1])
        return plus(hi, lo, -1) if lo is not None and hi is not None else None
    return None


N, K = {sym('num_nodes'): 1}, {sym('start_index'): 1}


def random_graph(ctx, rep):
    f = ctx.fn('Graph', 'random')
    S = built(ctx, f)
    if S is None:
        return rep.done('random', None, 'budget')
    tell = Findings(rep, f, 'random')
    seen = 0
    for s, o in S.rets():
        adds, conns, g = mine(ctx, S, s, o, tell)
        if g is None:
            continue
        facts = {untyped(a): b for a, b in s.facts.items()}
        seen += 1
        options(g, tell, strict=sym('strict'), ordering=sym('ordering'))
        nodes(adds, tell)
        pairs(conns, facts, tell, len(adds))
        seeded(S, s, facts, tell)
    tell.check('returns the graph', bool(seen) or None, None, '')
    tell.close()


def nodes(adds, tell):
    rows = grouped(adds, ('name',))
    tell.check('nodes', len(rows) == 1 or (None if rows else False), None, 'adds no nodes')
    for (fr, a), (cubes, node, flags) in rows.items():
        about = (a[0],) + tuple(x for p in fr for x in p)
        if len(fr) != 1:
            tell.check('one node per number', None, node, '')
            continue
        n = count(fr[0][1])
        tell.check('number of nodes', None if n is None else n == N, node, f'nodes are added for {show(fr[0][1])[:80]}, not num_nodes times', about)
        k = number_of(a[0])
        tell.check('names from start_index', None if k is None else k == plus(K, {fr[0][0]: 1}), node, f'a node is named {show(a[0])[:80]}', about)
        tell.check('every node', always(cubes, membership) and not flags & CUT, node, 'a node is not always added')


def pairs(conns, facts, tell, nodes):
    rows = grouped(conns, ('start', 'end'))
    tell.check('pairs', bool(rows) or None, None, '')
    for (fr, a), (cubes, node, flags) in rows.items():
        if len(fr) != 2 or len(rows) > 2:
            tell.check('every ordered pair once', None, node, '')
            continue
        about = tuple(a) + tuple(x for p in fr for x in p)
        for c in (fr[0][1], fr[1][1]):
            n = count(c)
            tell.check('every ordered pair once', (None if c.op not in ('range', 'slice') else False) if n is None else n == N, node, f'pairs are formed over {show(c)[:80]}', about)
        tell.check('every pair is considered', not flags & CUT, node, 'not every pair is considered')
        i, j = number_of(a[0]), number_of(a[1])
        ps = []
        for v, w in ((fr[0][0], fr[1][0]), (fr[1][0], fr[0][0])):
            if i == plus(K, {v: 1}) and j == plus(K, {w: 1}):
                ps = [v, w]
        tell.check('names of the pair', None if i is None or j is None else bool(ps), node, f'connects {show(a[0])[:60]} to {show(a[1])[:60]}', about)
        if ps:
            condition(cubes, ps[0], ps[1], facts, tell, node, len(rows) == 1)


def condition(cubes, v, w, facts, tell, node, alone):
    """connected exactly if drawn, and cycle is set or the first number is smaller"""
    atoms = {a for c in cubes for a, b in c}
    kinds = {}
    for a in atoms:
        d = None
        if a.op in ('lt', 'le', 'eq') and len(a.args) == 2:
            x, y = lin(a.args[0]), lin(a.args[1])
            d = plus(x, y, -1) if x is not None and y is not None else None
        if d in ({v: 1, w: -1}, {v: -1, w: 1}):
            sign = 1 if d == {v: 1, w: -1} else -1
            kinds[a] = ('order', a.op, sign)
        elif a in (mk('truth', sym('cycle')), sym('cycle')):
            kinds[a] = ('cycle',)
        elif drawn(a) is not None:
            kinds[a] = ('draw', draw_ok(a, facts, tell, node), any(x.op == 'draw' or x.op == 'call' and str(x.args[0]).lstrip('.') in ('uniform', 'random') for x in subterms(a.args[0])))
            if not all(any(x is y for x in subterms(a)) for y in (v, w)) and any(x.op == 'draw' for x in subterms(a)):
                tell.check('one draw per pair', False, node, 'the draw is not made anew for each pair')
        else:
            kinds[a] = ('free',) if any(x in (v, w) for x in subterms(a)) and opaque(a) is None else ('unknown',)
    if any(k == ('unknown',) for k in kinds.values()):
        return tell.check('condition', None, node, '')
    draws = [a for a in atoms if kinds[a][0] == 'draw']
    if len(draws) != 1:
        return tell.check('condition', False if not draws and not any(k[0] == 'free' for k in kinds.values()) else None, node, 'pairs are connected without a draw')
    free = [a for a in atoms if kinds[a][0] == 'free']
    if len(free) > 6:
        return tell.check('condition', None, node, '')
    known = {a: b for a, b in facts.items()}
    for cyc, dr, order in itertools.product((True, False), (True, False), (-1, 0, 1)):
        if any(known.get(a, cyc) != cyc for a in (mk('truth', sym('cycle')), sym('cycle'))):
            continue
        for vals in itertools.product((True, False), repeat=len(free)):
            val = dict(zip(free, vals))
            for a, k in kinds.items():
                if k[0] == 'cycle':
                    val[a] = cyc
                elif k[0] == 'draw':
                    val[a] = dr == k[2]
                elif k[0] == 'order':
                    o = order * k[2]
                    val[a] = o < 0 if k[1] == 'lt' else o <= 0 if k[1] == 'le' else o == 0
            got = any(all(val[a] == b for a, b in c) for c in cubes)
            want = dr and (cyc or order < 0)
            if got != want and (got or alone):
                how = ('smaller', 'equal', 'larger')[order + 1]
                return tell.check('condition', False, node, f'a pair whose first number is {how} is {"" if got else "not "}connected when the draw {"succeeds" if dr else "fails"} and cycle is {cyc}' + ''.join(f', {"" if x else "not "}{show(a)[:60]}' for a, x in zip(free, vals)))
    tell.check('condition', True if alone else None, node, '')


def drawn(a):
    if a.op in ('lt', 'le') and any(x.op == 'draw' or x.op == 'call' and str(x.args[0]).lstrip('.') in ('uniform', 'random') for x in subterms(a)):
        return a
    return None


def draw_ok(a, facts, tell, node):
    x, p = a.args if not any(y is sym('connection_probability') for y in subterms(a.args[0])) else a.args[::-1]
    if x.op != 'call':
        tell.check('draw', None, node, '')
        return False
    n = str(x.args[0])
    gen = n.startswith('.')
    args = [y for y in x.args[1 + gen:] if y.op != 'draw']
    if n.rsplit('.', 1)[-1] == 'random' and not args:
        tell.check('draw', True, node, '')
    elif n.rsplit('.', 1)[-1] == 'uniform' and len(args) == 2 and all(is_const(y) for y in args):
        tell.check('draw', (cval(args[0]), cval(args[1])) == (0, 1), node, f'the draw is between {show(args[0])} and {show(args[1])}')
    else:
        tell.check('draw', None, node, '')
    tell.check('probability clipped to 0..1', clipped(p, facts), node, f'the draw is compared with {show(p)[:100]}', (p,))


def evaluate(t, x):
    if is_const(t):
        return cval(t)
    if t is sym('connection_probability'):
        return x
    if t.op == 'call' and t.args[0] in ('min', 'max', 'float'):
        vs = [evaluate(y, x) for y in t.args[1:]]
        return min(vs) if t.args[0] == 'min' else max(vs) if t.args[0] == 'max' else float(vs[0])
    if t.op in ('min', 'max'):
        vs = [evaluate(y, x) for y in t.args]
        return (min if t.op == 'min' else max)(vs)
    if t.op == 'ite':
        return evaluate(t.args[1] if evaluate(t.args[0], x) else t.args[2], x)
    if t.op in ('lt', 'le', 'eq'):
        p, q = evaluate(t.args[0], x), evaluate(t.args[1], x)
        return p < q if t.op == 'lt' else p <= q if t.op == 'le' else p == q
    if t.op == 'not':
        return not evaluate(t.args[0], x)
    if t.op in ('and', 'or'):
        vs = [evaluate(l.args[0], x) == l.args[1] for l in t.args]
        return all(vs) if t.op == 'and' else any(vs)
    if t.op == 'truth':
        return bool(evaluate(t.args[0], x))
    if t.op == 'isnone':
        return False
    raise ValueError(t.op)


def clipped(p, facts):
    """piecewise linear terms agree with the clipped value if they do in every region between their constants"""
    cp = sym('connection_probability')
    marks = {0.0, 1.0}
    about = [(a, b) for a, b in facts.items() if any(x is cp for x in subterms(a))]
    for t in [p] + [a for a, b in about]:
        for x in subterms(t):
            if is_const(x) and isinstance(cval(x), (int, float)):
                marks.add(float(cval(x)))
    ms = sorted(marks)
    points = [ms[0] - 2, ms[0] - 1] + [q for m, n in zip(ms, ms[1:]) for q in (m, m + (n - m) / 3, m + (n - m) * 2 / 3)] + [ms[-1], ms[-1] + 1, ms[-1] + 2]
    try:
        for x in points:
            if all(evaluate(a, x) == b for a, b in about) and evaluate(p, x) != min(1.0, max(0.0, x)):
                return False
    except (ValueError, TypeError, IndexError, AttributeError):
        return None
    return True


def seeded(S, s, facts, tell):
    seed = sym('seed')
    none = facts.get(mk('isnone', seed))
    if none is None and facts.get(mk('truth', seed)) is True:
        none = False
    draws = [e for e in s.eff if e.kind == 'rng' and cval(e.tgt if isinstance(e.tgt, T) else const(e.tgt)) not in ('random.Random',)]
    if none is True:
        return tell.check('seeded', True, None, '')
    own = [x for e in s.eff if e.kind == 'api' for x in [y for a, b in e.guards for y in subterms(a)] if x.op == 'made' and x.args[0] == 'random.Random']
    if own and not draws:
        return tell.check('seeded', True if all(any(y is seed for y in subterms(x)) for x in own) else False, None, 'the draws do not come from the seed')
    first = next((n for n, e in enumerate(s.eff) if e in draws), None)
    seeds = [(n, e) for n, e in enumerate(s.eff) if e.kind == 'rngseed']
    if not draws:
        return tell.check('seeded', None, None, '')
    good = [e for n, e in seeds if n < first and not e.frames and not e.guards and any(y is seed for y in subterms(S.eng.freeze(e.val, s)))]
    tell.check('seeded', bool(good), draws[0].node, 'a draw is made before, or without, seeding with the seed given')
    for n, e in seeds:
        v = S.eng.freeze(e.val, s)
        odd = next((x for x in subterms(v) if x.op == 'call' and str(x.args[0]) in ('hash', 'id', 'time.time', 'os.getpid')), None)
        tell.check('seeded with the seed', odd is None and n < first + 1, e.node, f'the seed becomes {show(v)[:80]}' if odd is not None else 'seeded again after draws')
