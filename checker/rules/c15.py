"""Sums: add is summarised over graphs abstracted to one node and one edge for every way of belonging to the operands (first only,
second only, both; parallel edges, ends exchanged), names known, attributes symbolic; what the resulting graph is given is read off."""
from builders import *
from compare import Joint, spec_func, eff_term, WRITES
from rules.c14 import calls, returned, plain
from state import St

NODES = {'self': ('b', 'a'), 'other': ('c', 'b')}
EDGES = {'self': (('b', 'a', 0), ('b', 'a', 1), ('a', 'b', 0), ('b', 'b', 0)), 'other': (('b', 'c', 0), ('b', 'a', 0), ('b', 'a', 2), ('c', 'a', 1), ('b', 'b', 0))}
KEYS = ('label', 'value', 'style')

# what the first and the second operand have, and what the sum must have
CASES = {
    'both have everything': ((True, True, True), (True, True, True)),
    'the first has nothing': ((False, False, False), (True, True, True)),
    'the second has nothing': ((True, True, True), (False, False, False)),
    'only labels and values in the first': ((True, True, False), (True, True, True)),
    'only styles in the first': ((False, False, True), (True, True, True)),
    'no values': ((True, False, True), (True, False, True)),
}


def run(ctx, rep):
    for name, (one, two) in CASES.items():
        for expr, args in (('self.add(other)', ()), ('self.add(other, combine)', ('combine',)), ('self.add(other=other, add_values_function=combine)', ('combine',)), ('self.__add__(other)', ())):
            if expr.startswith('self.add(other=') and name != 'both have everything':
                continue
            try:
                with limit(60):
                    summed(ctx, rep, name, one, two, expr, args)
            except OutOfTime:
                rep.done(f'{expr}: {name}', None, 'out of time')
    for who, bare in ((('self',), ()), (('other',), ()), (('self', 'other'), ()), ((), ('self',)), ((), ('other',)), ((), ('self', 'other'))):
        try:
            with limit(60):
                name = f"{' and '.join(who)} empty" if who else f"{' and '.join(bare)} without edges"
                for expr, args in (('self.add(other)', ()), ('self.add(other, combine)', ('combine',))):
                    summed(ctx, rep, name, (True,) * 3, (True,) * 3, expr, args, who, who + bare)
        except OutOfTime:
            rep.done('empty', None, 'out of time')


def attr(key, what, who, has):
    return sym(f'{key} of {what} in {who}') if has else NONE


def form(has, empty, bare):
    """the dictionary form of a representative graph"""
    def lit(eng, st, recv, args, v):
        who = recv.args[0] if recv.op == 'sym' else None
        if who not in has:
            return v

        def dic(d):
            c = eng.mkcoll(st, 'dict')
            for k, x in d.items():
                eng.coll_add(st, c, x, const(k), 'kv')
            return c
        h = dict(zip(KEYS, has[who]))
        nodes = dic({n: dic({k: attr(k, n, who, h[k]) for k in KEYS}) for n in NODES[who] if who not in empty})
        es = eng.mkcoll(st, 'list')
        for a, b, i in EDGES[who]:
            if who in bare:
                continue
            one = eng.mkcoll(st, 'list')
            for x in (const(a), const(b), dic({'id': const(i), **{k: attr(k, f'{a}{b}{i}', who, h[k]) for k in KEYS}})):
                eng.coll_add(st, one, x)
            eng.coll_add(st, es, one)
        d = {k: sym(f'{k} in {who}') for k in ('strict', 'ordering', 'colour_scheme', 'label_url', 'tooltip', 'global_node_style', 'global_edge_style')}
        d['label'] = NONE
        for k in ('node_styles', 'edge_styles', 'node_colours', 'edge_colours'):
            d[k] = dic({n: sym(f'{k} of {n} in {who}') for n in NODES[who]} if k.startswith('node') and who not in empty else {})
        return dic({**d, 'nodes': nodes, 'edges': es})
    return lit


def summed(ctx, rep, name, one, two, expr, args, empty=(), bare=()):
    name = f'{expr}: {name}'
    has = {'self': one, 'other': two}
    f = ctx.fn('Graph', '__add__' if '__add__' in expr else 'add')
    g = spec_func(ctx, 'Graph', f'''
def f(self, other{''.join(', ' + a for a in args)}):
    return {expr}
''')
    me, other, combine = sym('self', 'Graph'), sym('other', 'Graph'), sym('combine')
    st = ctx.std_stops(but=[('*', 'append')])
    st[('*', 'get_node')] = ctx.call_stop('get_node', 'Node', pure=True)
    st[('Edge', 'id')] = ctx.call_stop('id', pure=True)
    for c in GRAPHS:
        st.pop((c, '__new__'), None)
    st[('*', '__graph__')] = ctx.call_stop('__graph__', 'dict', pure=True, val=form(has, empty, bare))
    start = St()
    for who in has:
        for n in NODES[who] + tuple(f'{a}{b}{i}' for a, b, i in EDGES[who]):
            for k, h in zip(KEYS, has[who]):
                if h:
                    x = attr(k, n, who, True)
                    start.facts[mk('isnone', x)] = False
                    if k != 'value':
                        start.facts[mk('truth', x)] = True
    if args:
        start.facts[mk('isnone', combine)] = False
        start.facts[mk('truth', combine)] = True
    S = ctx.summary(g, args={'self': me, 'other': other, **({'combine': combine} if args else {})}, stops=st, seconds=50, st=start)
    if S is None:
        return rep.done(name, None, 'budget')
    tell = Findings(rep, f, name)
    n = 0
    for s, o in S.exits:
        tell.lossy = s.lossy
        if o.kind == 'raise':
            tell.check('no exception', True if returned(s) else None if o.implicit or any(opaque(a) is not None for a in s.facts) else False, o.node, f'the sum fails with {o.val}')
            continue
        n += 1
        result(ctx, S, s, o, tell, has, empty, bare, combine if args else None)
    tell.check('some way through', True if n else None, None, '')
    tell.close()


def result(ctx, S, s, o, tell, has, empty, bare, combine):
    new = plain(S.eng.freeze(o.val, s))
    tell.check('a new graph', False if new in (sym('self', 'Graph'), sym('other', 'Graph')) else True if new.op == 'new' else None, o.node, 'the sum is one of the operands')
    for e in s.eff:
        x = e.tgt
        while isinstance(x, T) and x.op in ('fld', 'typed', 'item', 'el') and x.args:
            x = x.args[0]
        if e.kind in WRITES and isinstance(x, T) and x.op == 'sym':
            key = cval(e.key) if isinstance(e.key, T) and is_const(e.key) else e.key
            if x in (sym('self', 'Graph'), sym('other', 'Graph')) and e.kind != 'api' and not cached(S, s, e):
                tell.check('operands unchanged', False, e.node, f'{x.args[0]} is changed ({e.kind} {key if isinstance(key, str) else ""})')
            elif x in (sym('self', 'Graph'), sym('other', 'Graph')) and key in ('add_node', 'connect', 'append', 'disconnect', 'remove_node', 'remove_edge'):
                tell.check('operands unchanged', False, e.node, f'{x.args[0]} is changed by {key}')
    adds, conns, odd = calls(ctx, S, s, new)
    if odd:
        tell.check('read', None, odd[0].node, 'the sum is built in another way')
        return
    nodes = [n for w in NODES if w not in empty for n in NODES[w]]
    edges = [x for w in EDGES if w not in bare for x in EDGES[w]]
    if not adds and not conns and nodes:
        tell.check('read', None, o.node, 'the sum is built in another way')
        return
    got = {}
    for i in adds:
        k = i.args.get('name')
        if k is None or not is_const(k) or i.frames or i.guards:
            tell.check('nodes', None, i.node, '')
            return
        got.setdefault(cval(k), []).append(i)
    want = list(dict.fromkeys(nodes))
    for n in want:
        where = [w for w in ('self', 'other') if w not in empty and n in NODES[w]]
        tell.check('every node', n in got, o.node, f'nodes of {about(where)} are not in the sum')
        if n in got:
            attributes(S, s, tell, 'node', n, got[n], where, has, combine)
    extra = [n for n in got if n not in want]
    tell.check('no other node', not extra, got[extra[0]][0].node if extra else None, 'the sum has a node of neither operand')
    order = [n for n in got if n in want]
    tell.check('order of nodes', order == [n for n in want if n in got], adds[0].node if adds else None, 'nodes are not in the order of the first, then the second operand')
    flags = [f for i in adds + conns for f in i.flags & (CUT | {'unord', 'sorted', 'rev'})]
    tell.check('order known', not flags, (adds + conns)[0].node if flags else None, f'the order of the sum is not that of the operands ({flags[:1]})')
    got, order = {}, []
    for i in conns:
        k = tuple(untyped(i.args.get(x, NONE)) for x in ('start', 'end', 'id'))
        if i.frames or i.guards or not all(is_const(x) for x in k):
            tell.check('edges', None, i.node, '')
            return
        k = tuple(cval(x) for x in k)
        got.setdefault(k, []).append(i)
        order.append(k)
    want = list(dict.fromkeys(edges))
    for k in want:
        where = [w for w in ('self', 'other') if w not in bare and k in EDGES[w]]
        tell.check('every edge', k in got, o.node, f'edges of {about(where)} are not in the sum')
        if k in got:
            attributes(S, s, tell, 'edge', '{}{}{}'.format(*k), got[k], where, has, combine)
    extra = [k for k in got if k not in want]
    tell.check('no other edge', not extra, got[extra[0]][0].node if extra else None, 'the sum has an edge of neither operand')
    for a in 'abc':
        have = [k for k in dict.fromkeys(order) if k[0] == a and k in want]
        tell.check('order of edges', have == [k for k in want if k[0] == a and k in got], conns[0].node if conns else None, 'edges are not in the order of the first, then the second operand')


def cached(S, s, e):
    """a remembered result, not a change of the graph"""
    return e.kind == 'set' and str(cval(e.key) if isinstance(e.key, T) and is_const(e.key) else e.key) in ('_nodes_have_graph',)


def about(where):
    return {('self',): 'the first operand only', ('other',): 'the second operand only'}.get(tuple(where), 'both operands')


def attributes(S, s, tell, what, n, its, where, has, combine):
    tell.check(f'{what}s once', len(its) == 1, its[-1].node, f'{what}s of {about(where)} are given to the sum more than once')
    i = its[-1]
    for k in KEYS:
        x = i.args.get(k, NONE)
        x = x if k == 'style' else untyped(x)
        for y in alternatives(x):
            ok = right(S, s, k, y, n, where, has, combine)
            tell.check(f'{k} of {what}s', ok, i.node, f'{what}s of {about(where)} get the {k} {show(y)[:80]}', (y,))


def alternatives(x):
    if x.op == 'ite':
        return alternatives(x.args[1]) + alternatives(x.args[2])
    return [x]


def right(S, s, k, x, n, where, has, combine):
    h = {w: dict(zip(KEYS, has[w]))[k] for w in where}
    vals = [attr(k, n, w, h[w]) for w in where]
    if len(where) == 1 or k != 'value':
        want = next((v for v in vals if v is not NONE), NONE)
        made = {e.tgt: e.val.args[0] for e in s.eff if e.kind == 'make' and e.val is not None and e.val.op in ('copyof', 'deepcopy')}
        y = made.get(x, x)
        if y.op in ('copyof', 'deepcopy'):
            y = y.args[0]
        if len(where) == 2 and y.op in ('or', 'bo'):
            return True if [v for v in y.args if isinstance(v, T) and v is not NONE] == [v for v in vals if v is not NONE] else None
        return y is want
    if combine is not None:
        if x.op in ('call', 'apply', 'xret', 'callret', 'unk') or combine in subterms(x):
            a = [y for y in subterms(x) if y in vals and y is not NONE]
            if combine not in subterms(x):
                return None
            flat = [y for y in args_of(x, combine)]
            return flat == vals if len(flat) == 2 else None
        return False
    if NONE in vals:
        return x is next((v for v in vals if v is not NONE), NONE)
    if x.op == 'bin' and x.args[0] == 'Add':
        return list(x.args[1:]) == vals
    if any(a.op == 'truth' and a.args[0] in vals for a in s.facts):
        if x in vals and len(vals) == 2 and s.facts.get(mk('truth', vals[1 - vals.index(x)])) is not False:
            # one value alone, though nothing says that the other is empty
            return False
        return None
    return False


def args_of(x, f):
    for y in subterms(x):
        if f in y.args:
            r = [z for z in y.args if isinstance(z, T) and z is not f]
            if len(r) == 1 and r[0].op == 'tup':
                r = list(r[0].args)
            return [z for z in r if z.op != 'kw']
    return []
