"""Graphs built from lists or an object: from the summaries of from_lists and from_object, the nodes added and
the edges connected are collected with their iteration and conditions, and must be the given ones."""
from builders import *


def run(ctx, rep):
    for part in (lists, from_object):
        try:
            with limit(120):
                part(ctx, rep)
        except OutOfTime:
            rep.done(part.__name__, None, 'out of time')


def lists(ctx, rep):
    f = ctx.fn('Graph', 'from_lists')
    names = ctx.params(f)
    S = built(ctx, f)
    if S is None:
        return rep.done('from_lists', None, 'budget')
    tell = Findings(rep, f, 'from_lists')
    seen = 0
    for s, o in S.rets():
        adds, conns, g = mine(ctx, S, s, o, tell)
        if g is None:
            continue
        seen += 1
        options(g, tell, strict=sym('strict'))
        # every row is connected, start to end, row number as id, its label
        rows = grouped(conns, ('start', 'end', 'id', 'label'))
        tell.check('rows', bool(conns), None, 'connects no row')
        for (fr, a), (cubes, node, flags) in rows.items():
            v = fr[0][0] if len(fr) == 1 else None
            if v is None:
                tell.check('rows', None if len(fr) != 1 and fr else False, node, 'connects something other than once per row')
                continue
            want = [mk('el', sym('start'), v), mk('el', sym('end'), v), mk('idx', v, const(0)), mk('el', sym('edge'), v)]
            for n, x, w in zip(('start', 'end', 'id', 'label'), a, want):
                tell.check(f'row {n}', same(x, w, v), node, f'a row is connected with {n} {show(x)[:80]}, not the {dict(start="start of the row", end="end of the row", id="number of the row", label="edge label of the row")[n]}', (x,))
            tell.check('all rows', whole(fr[0][1], names), node, f'the rows connected are {show(fr[0][1])[:80]}', (fr[0][1],))
            tell.check('every row', always(cubes) and not flags & CUT, node, 'not every row is connected', [x for c in cubes for x, _ in c])
        # the nodes
        got = {}
        for (fr, a), (cubes, node, flags) in grouped(adds, ('name',)).items():
            v = fr[0][0] if len(fr) == 1 else None
            col = next((c for c in ('start', 'end') if v is not None and a[0].op == 'el' and same(a[0], mk('el', sym(c), v), v)), None)
            if col is None:
                tell.check('no other nodes', False, node, f'adds a node named {show(a[0])[:80]}', (a[0],) + tuple(x for p in fr for x in p))
                continue
            ok = always(cubes, membership) and not flags & CUT and whole(fr[0][1], names)
            got[col] = (ok, node, cubes)
        unread = any(opaque(i.args.get('name', NONE)) is not None for i in adds) or any(len(i.frames) != 1 for i in adds)
        for col in ('start', 'end'):
            if col not in got:
                tell.check(f'{col} nodes', None if unread else False, None, f'the {col} of a row is not added as a node')
            else:
                tell.check(f'{col} nodes', got[col][0], got[col][1], f'the {col} of a row is not always added as a node', [x for c in got[col][2] for x, _ in c])
        existing(adds, tell)
    tell.check('returns the graph', bool(seen) or None, None, '')
    tell.close()


def whole(coll, names):
    """an iteration over all rows"""
    if coll.op == 'sym':
        return coll.args[0] in ('start', 'end', 'edge')
    if coll.op == 'zip':
        return all(whole(x, names) is True for x in coll.args)
    if coll.op == 'listof':
        return whole(coll.args[0], names)
    if coll.op == 'range' and len(coll.args) == 3:
        lo, hi, st = coll.args
        return cval(lo) == 0 and cval(st) == 1 and hi.op == 'len' and hi.args[0].op == 'sym' and hi.args[0].args[0] in ('start', 'end', 'edge') if is_const(lo) and is_const(st) else None
    return False


D, A = mk('sym', 'descendants of the object'), mk('sym', 'ancestors of the object')


def kin(ctx):
    def h(name):
        def call(eng, st, recv, args, node):
            kw = [mk('kw', k, eng.freeze(v, st)) for k, v in sorted(args.items()) if isinstance(v, T)]
            return [(st, mk('typed', mk('pcall', name, NONE, mk('tup', *kw)), 'list'))]
        return call
    return {('', 'get_descendants'): h('get_descendants'), ('', 'get_ancestors'): h('get_ancestors')}


def relatives(t, tell=None):
    """the relatives within the limits get a name of their own; an object's hash is its __hash__()"""
    m = {}
    for x in subterms(t):
        if x.op == 'pcall' and x.args[0] in ('get_descendants', 'get_ancestors'):
            kw = kwargs(x.args[2])
            lim = 'max_depth' if x.args[0] == 'get_descendants' else 'max_height'
            if kw.get('distance') is FALSE and kw.get('obj') is sym('obj') and kw.get(lim) is sym(lim):
                m[x] = D if x.args[0] == 'get_descendants' else A
    t = sub(t, m) if m else t
    m = {x: mk('call', '.__hash__', x.args[1]) for x in subterms(t) if x.op == 'call' and x.args[0] == 'hash' and len(x.args) == 2}
    return sub(t, m) if m else t


def from_object(ctx, rep):
    f = ctx.fn('Graph', 'from_object')
    S = built(ctx, f, extra=kin(ctx))
    if S is None:
        return rep.done('from_object', None, 'budget')
    tell = Findings(rep, f, 'from_object')
    obj = sym('obj')
    seen = 0
    for s, o in S.rets():
        adds, conns, g = mine(ctx, S, s, o, tell, relatives)
        if g is None:
            continue
        seen += 1
        options(g, tell, strict=sym('strict'))
        facts = {relatives(untyped(a)): b for a, b in s.facts.items()}
        none = {c for c in (D, A) for a, b in facts.items() if a is mk('nonempty', c) and not b}
        for i in adds + conns:
            for t in [x for p in i.frames for x in p] + list(i.args.values()):
                bad = next((x for x in subterms(t) if x.op == 'pcall' and x.args[0] in ('get_descendants', 'get_ancestors')), None)
                if bad is not None:
                    kw = kwargs(bad.args[2])
                    lim = 'max_depth' if bad.args[0] == 'get_descendants' else 'max_height'
                    tell.check(f'{bad.args[0]} within the limit', None if kw.get('distance') is not FALSE else False, i.node, f'the relatives are {show(bad)[:160]}', (bad,))
        want = {('obj',): 'the object', ('D',): 'each descendant', ('A',): 'each ancestor'}
        got = {}
        for (fr, a), (cubes, node, flags) in grouped(adds, ('name',)).items():
            k = of(a[0], fr, obj)
            ok = always(cubes, lambda x, b: membership(x, b) or x.op == 'eq' and obj in x.args and not b) and not flags & CUT
            if k is None or len(k) != 1:
                tell.check('no other nodes', None if any(opaque(x) is not None for x in (a[0],)) or len(fr) > 1 or fr and fr[0][1] not in (D, A) else False, node, f'adds a node named {show(a[0])[:80]}', (a[0],))
                continue
            got[k] = (ok, node, cubes)
        for k, w in want.items():
            if k == ('D',) and D in none or k == ('A',) and A in none:
                continue
            if k not in got:
                tell.check(f'node for {w}', None if any(of(i.args.get('name', NONE), i.frames, obj) is None for i in adds) else False, None, f'no node is added for {w}')
            else:
                tell.check(f'node for {w}', got[k][0], got[k][1], f'a node is not always added for {w}', [x for c in got[k][2] for x, _ in c])
        # edges
        edges = {}
        for (fr, a), (cubes, node, flags) in grouped(conns, ('start', 'end')).items():
            p, c = of(a[0], fr, obj), of(a[1], fr, obj)
            edges.setdefault((p, c), []).append((fr, a, cubes, node, flags))
        strange = [k for k in edges if k not in PAIRS and tuple(k[::-1]) not in PAIRS]
        for side, (outer, name) in {'descendants': (D, 'the object and its descendants'), 'ancestors': (A, 'the object and its ancestors')}.items():
            if outer in none:
                continue
            mine_ = [k for k in PAIRS if PAIRS[k] == side and k in edges]
            wrong = [k for k in PAIRS if PAIRS[k] == side and tuple(k[::-1]) in edges and k[0] != k[1]]
            for k in wrong:
                for fr, a, cubes, node, flags in edges[tuple(k[::-1])]:
                    tell.check(f'edges among {name}', False, node, f'a child is connected to its parent in the wrong direction')
            if not mine_:
                if not wrong:
                    tell.check(f'edges among {name}', None if strange else False, None, f'parents and children among {name} are not connected')
                continue
            for k in mine_:
                for fr, a, cubes, node, flags in edges[k]:
                    v = fr[-1][0]
                    x = mk('el', fr[-1][1], v)
                    ok = within(cubes, x, obj, outer)
                    tell.check(f'edges among {name}', ok if not flags & CUT else False, node, f'connects those with {" or ".join(" and ".join(("" if b else "not ") + show(y)[:80] for y, b in c) or "anything" for c in cubes)[:200]}, not every parent with every child among {name}')
        for k in strange:
            tell.check('other edges', None, None, '')
        existing(adds, tell, first=obj)
        existing(conns, tell, 'if_edge_exists')
    tell.check('returns the graph', bool(seen) or None, None, '')
    tell.close()


PAIRS = {(('D', 'parents'), ('D',)): 'descendants', (('A',), ('A', 'children')): 'ancestors'}


def of(name, fr, obj):
    """whose name it is: the object, an element of D or A, or a parent or child of one"""
    if name.op == 'call' and name.args[0] == '.__hash__' and len(name.args) == 2:
        t = name.args[1]
        if t is obj:
            return ('obj',)
        if t.op == 'el':
            c = t.args[0]
            if c is D or c is A:
                return ('D' if c is D else 'A',)
            if c.op == 'call' and c.args[0] in ('.__parents__', '.__children__') and c.args[1].op == 'el' and c.args[1].args[0] in (D, A):
                return ('D' if c.args[1].args[0] is D else 'A', c.args[0].strip('._'))
    return None


def within(cubes, x, obj, coll):
    """the condition says: x is the object or in the collection"""
    me = mk('eq', *sorted((obj, x), key=lambda t: t.order))
    isin = mk('in', x, coll)
    got = canon_dnf(cubes)
    if got is None:
        return None
    want = {frozenset([(me, True)]), frozenset([(isin, True)])}
    if got == want:
        return True
    atoms = {a for c in got for a, b in c}
    plain = {me, isin} | {mk('in', x, c) for c in (D, A)} | {mk('eq', *sorted((a, b), key=lambda t: t.order)) for a in subterms_of(x) for b in subterms_of(x) if a is not b}
    plain |= {mk('same', *p) for a in plain if a.op == 'eq' for p in (a.args, a.args[::-1])}
    return False if atoms <= plain else None


def subterms_of(x):
    return [y for y in subterms(x) if y.op == 'el']
