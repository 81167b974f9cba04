"""Dictionary and list input: append is composed with literal dictionaries, one for each option and each way of giving nodes, edges
and overwrites; what is set, added, connected and filed is read off the effects and compared with what the dictionary says."""
from builders import *
from compare import Joint, spec_func, eff_term
from rules.c14 import calls, returned, leaves, plain

OPTIONS = {'strict': '_is_strict', 'ordering': '_ordering', 'label': '_label', 'tooltip': '_tooltip', 'label_url': '_label_url',
           'global_node_style': '_global_node_style_overwrite', 'global_edge_style': '_global_edge_style_overwrite',
           'graph_node_style': '_global_node_style_overwrite', 'graph_edge_style': '_global_edge_style_overwrite', 'direction': '_direction'}
NODES = {'node_styles': '_node_style_overwrites', 'node_colours': '_node_colour_overwrites'}
EDGES = {'edge_styles': '_edge_style_overwrites', 'edge_colours': '_edge_colour_overwrites'}
FIELDS = set(OPTIONS.values()) | set(NODES.values()) | set(EDGES.values())


def run(ctx, rep):
    for part in (options_, nodes, edges, overwrites, lists, refused, constructor, from_dict):
        try:
            with limit(100):
                part(ctx, rep)
        except OutOfTime:
            rep.done(part.__name__, None, 'out of time')


def compose(ctx, body, args, but=True, stops=None):
    g = spec_func(ctx, 'Graph', f'''
def f(self{''.join(', ' + a for a in args)}):
    {body}
    return self
''')
    st = ctx.std_stops(but=[('*', 'append')] if but else [])
    st[('*', 'get_node')] = ctx.call_stop('get_node', 'Node', pure=True)
    st[('Edge', 'id')] = ctx.call_stop('id', pure=True)
    st.update(stops or {})
    given = {k: sym(k, *([v] if v else [])) for k, v in args.items()}
    eng = ctx.engine(st, 60)
    eng.nonnull_syms |= {given[k] for k, v in args.items() if v in ('dict', 'list', 'tuple')}
    return ctx.summary(g, args={'self': sym('self', 'Graph'), **given}, stops=st, seconds=60, eng=eng)


def feasible(S, args):
    """the ways through where the arguments have the types they were given"""
    for s, o in S.exits:
        if any(a.op == 'isinst' and not b and a.args[0].op == 'sym' and args.get(a.args[0].args[0]) and args[a.args[0].args[0]] in (a.args[1] if isinstance(a.args[1], (tuple, list)) else str(a.args[1])) for a, b in s.facts.items()):
            continue
        if not Joint(S.eng, s.facts).ok:
            continue
        yield s, o


def ways(ctx, rep, name, body, args, each, but=True, stops=None):
    f = ctx.fn('Graph', 'append')
    S = compose(ctx, body, args, but, stops)
    if S is None:
        return rep.done(name, None, 'budget')
    tell = Findings(rep, f, name)
    n = 0
    for s, o in feasible(S, args):
        tell.lossy = s.lossy
        if o.kind == 'raise':
            if returned(s):
                continue
            each(S, s, o, tell)
            continue
        n += 1
        each(S, s, o, tell)
    tell.check('some way through', True if S.exits else None, None, '')
    tell.close()
    return S


def fails(S, s, o, tell):
    """input that is fine is refused"""
    if o.kind == 'raise':
        tell.check('not refused', None if o.implicit or any(opaque(a) is not None for a in s.facts) else False, o.node, f'refused with {o.val}')
        return True
    return False


def options_(ctx, rep):
    me, v = sym('self', 'Graph'), sym('v')
    for key, attr in OPTIONS.items():
        def each(S, s, o, tell, key=key, attr=attr):
            if fails(S, s, o, tell):
                return
            J = Joint(S.eng, s.facts)
            got = s.heap.get((me, attr))
            if got is None:
                tell.check('taken over', None if any(e.kind == 'setdyn' for e in s.eff) else False, None, f'{key} in a dictionary has no effect')
            else:
                g = untyped(S.eng.freeze(got, s))
                ok = all(settled(J, x, v, attr) for x in leaves(g))
                tell.check('taken over', ok, last(s, attr), f'{key} in a dictionary becomes {show(g)[:80]}', (g,))
            for other in FIELDS - {attr}:
                h = s.heap.get((me, other))
                if h is not None and untyped(S.eng.freeze(h, s)) is not fld(me, other):
                    tell.check('nothing else', False, last(s, other), f'{key} in a dictionary sets {other} to {show(S.eng.freeze(h, s))[:60]}', (S.eng.freeze(h, s),))
        ways(ctx, rep, f'option {key}', f"self.append({{'{key}': v, 'nodes': {{}}, 'edges': []}})", {'v': ''}, each)
    keys = [k for k in OPTIONS if not k.startswith('graph_') and k != 'label']

    def each(S, s, o, tell):
        if fails(S, s, o, tell):
            return
        for k in keys:
            got = s.heap.get((me, OPTIONS[k]))
            g = untyped(S.eng.freeze(got, s)) if got is not None else NONE
            tell.check(k, g is sym(k), last(s, OPTIONS[k]), f'{k} is not taken over from a dictionary with every option', (g,))
    ways(ctx, rep, 'all options', 'self.append({' + ', '.join(f"'{k}': {k}" for k in keys) + ", 'nodes': {}, 'edges': []})", {k: '' for k in keys}, each)


def last(s, attr):
    return next((e.node for e in reversed(s.eff) if e.kind == 'set' and e.key == attr), None)


def settled(J, x, want, attr):
    x = untyped(J.simp(x))
    if x is want or x.op in ('copyof', 'deepcopy') and x.args[0] is want:
        return True
    if x is NONE:
        return J.lit_val(mk('lit', mk('isnone', want), True)) is TRUE
    return attr == '_label' and x.op in ('cat', 'add') and (x.args[-1] is want or x.args[-1].op == 'str' and x.args[-1].args[0] is want) and x.args[0] is const('\n')


def around(it, base):
    it = untyped(it)
    return it in (base, mk('dv', base), mk('di', base), mk('dk', base))


def extra(i, known, tell, what, src):
    """attributes are passed on as they are: ** or one by one"""
    for k, v in i.args.items():
        if k in known or v is NONE:
            continue
        if k == '**':
            ok = v is src or v.op == 'coll' and len(v.args) == 2 and v.args[1].op == 'gen' and len(v.args[1].args[3].args) == 1 and around(v.args[1].args[3].args[0].args[1], src)
            tell.check(f'{what}: attributes', True if ok else None, i.node, f'{what}s get the attributes {show(v)[:80]}', (v,))
            if ok and v.op == 'coll' and v.args[1].args[4].args:
                # attributes left out
                tell.check(f'{what}: attributes', None, i.node, '')
        elif v.op == 'kwopt':
            tell.check(f'{what}: attributes', v.args[0] is src and kwname(v.args[1]) == k, i.node, f'{what}s get {k} from {show(v)[:60]}', (v,))
        else:
            ok = any(x is src for x in subterms(v)) and any(x is const(k) or isinstance(x, str) and x == k for y in subterms(v) for x in y.args)
            tell.check(f'{what}: attributes', True if ok else None if k.startswith('if_') else False, i.node, f'{what}s get {k} {show(v)[:60]}', (v,))


def kwname(x):
    return cval(x) if isinstance(x, T) and is_const(x) else x


def refusing(i, key):
    w = i.args.get(key)
    return w is not None and is_const(w) and cval(w) not in ('ignore', 'warn')


def nodes(ctx, rep):
    me, src = sym('self', 'Graph'), {'list': sym('nodes', 'list'), 'dict': sym('nodes', 'dict')}
    for kind in ('list', 'dict'):
        base = src[kind]

        def each(S, s, o, tell):
            if fails(S, s, o, tell):
                return
            adds, conns, odd = calls(ctx, S, s, me)
            good = []
            for i in adds:
                if len(i.frames) != 1 or not around(i.frames[0][1], base):
                    about = [it for v, it in i.frames]
                    tell.check('nodes', None if not about or any(opaque(x) is not None or base in subterms(x) for x in about) else False, i.node, f'nodes are added for {[show(x)[:60] for x in about]}', about)
                    continue
                v = i.frames[0][0]
                el = mk('el', base, v)
                name = i.args.get('name', NONE)
                want = el if kind == 'list' else mk('ek', base, v)
                tell.check('name', name is want, i.node, f'nodes are named {show(name)[:60]}', (name,))
                if kind == 'dict':
                    extra(i, ('name', 'if_node_exists'), tell, 'node', el)
                    if not {'**'} & set(i.args) and not {'label', 'value'} <= set(i.args):
                        tell.check('node: attributes', False, i.node, 'attributes of nodes are lost')
                else:
                    for k, x in i.args.items():
                        if k not in ('name', 'if_node_exists') and x is not NONE and not (x.op == 'coll' and len(x.args) == 1):
                            tell.check('nothing else', None, i.node, '')
                if refusing(i, 'if_node_exists'):
                    tell.check('taken over', False, i.node, 'a node that exists already is refused')
                good.append(i)
            if conns or odd:
                tell.check('nothing else', False if conns and not odd else None, (conns + odd)[0].node, 'edges appear from nowhere')
            every(good, tell, 'node', o)
        ways(ctx, rep, f'nodes as {kind}', "self.append({'nodes': nodes, 'edges': []})", {'nodes': kind}, each)


def every(good, tell, what, o):
    if not good:
        tell.check(f'every {what}', None if tell.out.get(f'{what}s', [0, 0, 0])[1] else False, o.node, f'{what}s are not taken over')
        return
    a = always([frozenset(i.guards) for i in good])
    if a is False and len(good) > 1:
        a = None
    tell.check(f'every {what}', a, good[0].node, f'{what}s are taken over only if {[(b, show(x)[:60]) for x, b in good[0].guards][:3]}', [x for i in good for x, b in i.guards])
    for i in good:
        bad = i.flags & (CUT | {'unord', 'sorted', 'rev'})
        tell.check(f'every {what} in order', not bad, i.node, f'{what}s are left out or out of order ({", ".join(sorted(bad))})')


def parts(guards, el):
    """how many parts the edge has, from the conditions"""
    known = {}
    for a, b in guards:
        if a.op == 'eq':
            p, q = a.args
            if is_const(q):
                p, q = q, p
            if is_const(p) and q.op == 'len' and q.args[0] is el:
                known[cval(p)] = b
    for n in (2, 3):
        if known.get(n):
            return n
    could = [n for n in range(8) if all(size(a, el, n) in (None, b) for a, b in guards)]
    return could[0] if len(could) == 1 and could[0] in (2, 3) else None


def edges(ctx, rep):
    me, base = sym('self', 'Graph'), sym('edges', 'list')

    def each(S, s, o, tell):
        if o.kind == 'raise':
            if o.implicit or any(opaque(a) is not None for a in s.facts):
                return
            tell.check('refused with ValueError', None if o.val == '?' else 'ValueError' in str(o.val), o.node, f'an edge is refused with {o.val}')
            # only what is malformed is refused
            el = next((x for a in s.facts for x in subterms(a) if x.op == 'el' and x.args[0] is base), None)
            if el is not None and parts(list(s.facts.items()), el):
                tell.check('not refused', False, o.node, f'an edge of {parts(list(s.facts.items()), el)} parts is refused with {o.val}')
            return
        adds, conns, odd = calls(ctx, S, s, me)
        good, cubes = [], []
        for i in conns:
            if len(i.frames) != 1 or not around(i.frames[0][1], base):
                about = [it for v, it in i.frames]
                tell.check('edges', None if not about or any(opaque(x) is not None or base in subterms(x) for x in about) else False, i.node, f'edges are connected for {[show(x)[:60] for x in about]}', about)
                continue
            el = mk('el', base, i.frames[0][0])
            for k, n in (('start', 0), ('end', 1)):
                x = i.args.get(k, NONE)
                w = {mk(op, el, const(n)) for op in ('idx', 'item')}
                tell.check(k, x in w, i.node, f'edges get the {k} {show(x)[:60]}', (x,))
            n = parts(i.guards, el)
            third = [mk(op, el, const(2)) for op in ('idx', 'item')]
            if n == 3 or n is None and any(x in third for v in i.args.values() for x in subterms(v)):
                src = next((x for v in i.args.values() for x in subterms(v) if x in third), third[0])
                extra(i, ('start', 'end', 'if_edge_exists'), tell, 'edge', src)
                if not {'**'} & set(i.args) and not {'label', 'value', 'id'} <= set(i.args):
                    tell.check('edge: attributes', False, i.node, 'attributes of edges are lost')
            elif n == 2:
                for k, x in i.args.items():
                    if k not in ('start', 'end', 'if_edge_exists') and x is not NONE and not (x.op == 'coll' and len(x.args) == 1):
                        tell.check('nothing else', None, i.node, '')
            if refusing(i, 'if_edge_exists'):
                tell.check('taken over', False, i.node, 'an edge that exists already is refused')
            good.append(i)
        if adds or odd:
            tell.check('nothing else', None, (adds + odd)[0].node, '')
        if not good:
            tell.check('every edge', None if tell.out.get('edges') else False, o.node, 'edges are not taken over')
            return
        # with two parts, and with three
        for n in (2, 3):
            got = False
            for i in good:
                el = mk('el', base, i.frames[0][0])
                rest = [(a, b) for a, b in i.guards if not counts(a, b, el, n)]
                if any(counts(a, not b, el, n) for a, b in i.guards):
                    continue
                if not rest:
                    got = True
                elif got is False:
                    got = None
            tell.check(f'every edge of {n} parts', got, good[0].node, f'edges of {n} parts are left out')
        for i in good:
            bad = i.flags & (CUT | {'unord', 'sorted', 'rev'})
            tell.check('every edge in order', not bad, i.node, f'edges are left out or out of order ({", ".join(sorted(bad))})')
        for what, ns in (('too few parts', (0, 1)), ('too many parts', (4, 5))):
            for n in ns:
                tell.check(f'edges with {what} refused', excluded(s, base, n) or (None if excluded(s, base, n) is None or aside(s, good, base) else False), good[0].node, f'edges with {what} are passed over')
    ways(ctx, rep, 'edges', "self.append({'nodes': [], 'edges': edges})", {'edges': 'list'}, each)


def excluded(s, base, n):
    """on this way through no edge has n parts; None: this cannot be read from the conditions"""
    unclear = False
    for a, b in s.facts.items():
        if a.op == 'ex' and not b and len(a.args[0].args) == 1 and around(a.args[0].args[0].args[1], base):
            el = mk('el', base, a.args[0].args[0].args[0])
            lits = [(size(untyped(l.args[0]), el, n), l.args[1], l.args[0]) for l in a.args[1].args]
            if lits and all(x is y for x, y, z in lits):
                return True
            if any(x is None and any(y.op == 'len' and y.args[0] is el for y in subterms(z)) for x, y, z in lits) and not any(x is not None and x is not y for x, y, z in lits):
                unclear = True
    return None if unclear else False


def aside(s, good, base):
    """edges are looked at in a way that is not followed"""
    return any(base in subterms(a) and opaque(a) is not None for a in s.facts) or any(base in subterms(e.val) for e in s.eff if e.kind in ('xcall', 'rec') and isinstance(e.val, T))


def size(a, el, n):
    """the truth of a condition on the number of parts when there are n of them; None: it says something else"""
    def of(x):
        if x.op == 'len' and x.args[0] is el:
            return n
        return cval(x) if is_const(x) else None
    if a.op == 'nonempty' and a.args[0] is el:
        return n > 0
    if a.op == 'in':
        p, q = of(a.args[0]), a.args[1]
        qs = cval(q) if is_const(q) else [of(x) for x in q.args] if q.op == 'tup' else None
        return None if p is None or not isinstance(qs, (tuple, list, set, frozenset)) or None in qs else p in qs
    if a.op in ('eq', 'lt', 'le'):
        p, q = map(of, a.args)
        if isinstance(p, int) and isinstance(q, int):
            return {'eq': p == q, 'lt': p < q, 'le': p <= q}[a.op]
    return None


def counts(a, b, el, n):
    """a condition on the number of parts that holds for n parts"""
    return size(a, el, n) is b


def overwrites(ctx, rep):
    me = sym('self', 'Graph')
    for key, attr in {**NODES, **EDGES}.items():
        src, tgt = sym('table', 'dict'), fld(me, attr)

        def each(S, s, o, tell, key=key, attr=attr):
            if o.kind == 'raise' and any(x.op == 'len' for a in s.facts for x in subterms(a)) or fails(S, s, o, tell):
                return
            h = s.heap.get((me, attr))
            cubes, node = [], None
            if h is not None and plain(h) is not tgt:
                v = untyped(S.eng.freeze(h, s))
                tell.check('filed', None if any(x is src for x in subterms(v)) else False, last(s, attr), f'{attr} becomes {show(v)[:80]}', (v,))
                return
            for e in s.eff:
                if e.kind in ('dset', 'dupdate', 'dclear', 'ddel', 'mutate') and isinstance(e.tgt, T) and e.tgt.op == 'fld' and e.tgt.args[0] is me and e.tgt is not tgt and e.tgt.args[1] in FIELDS:
                    tell.check('nothing else', False, e.node, f'{key} end up in {e.tgt.args[1]}')
                if e.tgt is not tgt:
                    continue
                t = eff_term(S.eng, e, s)
                k, v = untyped(t.args[0].args[2]), untyped(t.args[0].args[3])
                guards = [(l.args[0], l.args[1]) for l in t.args[4].args]
                if e.kind in ('dupdate', 'mutate') and key in NODES:
                    ok = any(x is src for x in subterms(v))
                    tell.check('filed', True if ok and not t.args[3].args else None, e.node, '')
                    cubes.append(frozenset(guards))
                    continue
                fr = [x.args for x in t.args[3].args]
                if e.kind != 'dset' or len(fr) != 1 or not around(fr[0][1], src):
                    tell.check('filed', None, e.node, 'filed in another way')
                    continue
                b = fr[0][0]
                own = mk('ek', src, b)
                tell.check('filed', v is mk('el', src, b) or v.op in ('copyof', 'deepcopy') and v.args[0] is mk('el', src, b), e.node, f'{key} are filed as {show(v)[:80]}', (v,))
                if key in NODES:
                    tell.check('key', k is own, e.node, f'{key} are filed under {show(k)[:80]}', (k,))
                else:
                    filed(ctx, S, s, tell, e, k, own, guards, key)
                if {'partial', 'once'} & set(t.args[2].split(',')):
                    tell.check('every one', False, e.node, f'{key} are taken over in part')
                cubes.append(frozenset(guards))
                node = e.node
            if not cubes:
                tell.check('every one', None if tell.out.get('filed') else False, o.node, f'{key} in a dictionary have no effect')
            else:
                a = always(cubes)
                tell.check('every one', None if a is False and len(cubes) > 1 and not gap(cubes) else a, node, f'{key} are taken over only if {[(b, show(x)[:60]) for x, b in cubes[0]][:3] if cubes[0] else ""}', [x for c in cubes for x, b in c])
        if key in NODES:
            ways(ctx, rep, key, f"self.append({{'nodes': [], 'edges': [], '{key}': table}})", {'table': 'dict'}, each)
        else:
            ways(ctx, rep, key, f"self.append({{'nodes': [], 'edges': edges, '{key}': table}})", {'table': 'dict', 'edges': 'list'}, each)


def filed(ctx, S, s, tell, e, k, own, guards, key):
    """the key of an edge style or colour: that of the edge just connected for (start, end), any other as it is"""
    F = ctx.proto.F
    edges = sym('edges', 'list')
    if k is own:
        # left as it is: never when an edge was given with these ends
        if not any(own in subterms(a) for a, b in guards):
            tell.check('edge found by its ends', False if not any(own in subterms(untyped(a)) for a, b in guards) else None, e.node, f'{key} given for (start, end) are not filed under the edge')
        return
    tables = [x for x in k.args if isinstance(x, T) and x.op == 'coll']
    if k.op not in ('item', 'call') or not tables:
        tell.check('key', None if opaque(k) is not None or any(x is own for x in subterms(k)) else False, e.node, f'{key} are filed under {show(k)[:80]}', (k,))
        return
    pairs = {}
    for g in tables[0].args[1:]:
        if g.op != 'gen' or g.args[2] not in ('', 'kv') or len(g.args[3].args) != 1 or not around(g.args[3].args[0].args[1], edges):
            return tell.check('edge found by its ends', None, e.node, '')
        el = mk('el', edges, g.args[3].args[0].args[0])
        cond = [(l.args[0], l.args[1]) for l in g.args[4].args if not has_ends(l)]
        n = parts(cond, el)
        x, v = untyped(g.args[1]), untyped(g.args[0])
        ends = [mk('tup', mk(op, el, const(0)), mk(op, el, const(1))) for op in ('idx', 'item')]
        first = mk('slice', el, NONE, const(2), NONE)
        what = 'ends' if x in ends or any(x in (y, mk('tupleof', y)) for y in (first, copy_of(x, first))) else 'id' if identity(x, F) else None
        if what is None and x.op == 'tup' and len(x.args) == 2 and all(any(y.op == 'apiret' and y.args[0] == 'connect' for y in subterms(z)) for z in x.args):
            # what the edge says of its own ends
            what = 'other'
        if what is None:
            tell.check('edge found by its ends', None if opaque(x) is not None else False, e.node, f'an edge is looked up by {show(x)[:80]}', (x,))
            continue
        if not identity(v, F):
            tell.check('edge found by its ends', None if opaque(v) is not None else False, e.node, f'{key} are filed under {show(v)[:80]}', (v,))
            continue
        pairs.setdefault(what, {}).setdefault(n, []).append(frozenset((a, b) for a, b in cond if n is None or size(a, el, n) is None))
    if 'other' in pairs and not {2, 3} <= set(pairs.get('ends', ())):
        return tell.check('edge found by its ends', None, e.node, '')
    for n, cubes in pairs.get('ends', {}).items():
        # an edge of so many parts is found whatever else is true of it
        if n is not None and None not in pairs['ends'] and always(cubes) is not True:
            what = gap(cubes)
            tell.check('edge found by its ends', False if what else None, e.node, f'an edge of {n} parts is found by its ends only if {[(b, show(a)[:60]) for a, b in what][:3]}', [a for a, b in what])
    tell.check('edge found by its ends', True if {2, 3} <= set(pairs.get('ends', ())) else None if None in pairs.get('ends', ()) else False, e.node, f'{key} given for (start, end) are filed under the edge only for edges of {sorted(x for x in pairs.get("ends", ()) if x)} parts')


def identity(x, F):
    """the full id of the edge that connect returned"""
    if x.op == 'pcall' and x.args[0] == 'id' and x.args[1].op == 'apiret':
        return True
    if x.op != 'tup' or len(x.args) != 3:
        return False
    s, e, r = x.args

    def edge(t):
        while t.op == 'fld':
            t = t.args[0]
        return t
    if not all(edge(t).op == 'apiret' for t in (s, e, r)) or len({edge(t) for t in (s, e, r)}) != 1:
        return False
    ret = edge(r)
    return r is mk('fld', ret, F['rid']) and s is mk('fld', mk('fld', ret, F['start']), F['rid']) and e is mk('fld', mk('fld', ret, F['end']), F['rid'])


def lists(ctx, rep):
    me = sym('self', 'Graph')
    for kind in ('list', 'tuple'):
        base = sym('items', kind)

        def each(S, s, o, tell, base=base):
            if fails(S, s, o, tell):
                return
            v = untyped(S.eng.freeze(o.val, s))
            good = []
            for e in s.eff:
                if e.kind not in ('rec', 'api'):
                    continue
                t = eff_term(S.eng, e, s)
                fr = [x.args for x in t.args[3].args]
                a = kwargs(t.args[0].args[3])
                x = untyped(a['obj']) if 'obj' in a else None
                if x is None or len(fr) != 1 or not around(fr[0][1], base) or a.get('self', me) is not me:
                    tell.check('taken over', None, e.node, '')
                    continue
                tell.check('taken over', x is mk('el', base, fr[0][0]), e.node, f'appends {show(x)[:60]}', (x,))
                bad = set(t.args[2].split(',')) & CUT
                tell.check('all of them', False if bad else True if not t.args[4].args else None if any(opaque(l.args[0]) is not None for l in t.args[4].args) else False, e.node, 'items of a list are left out')
                good.append(e)
            if not good:
                tell.check('taken over', None if any(e.kind in ('rec', 'api', 'xcall') for e in s.eff) else False, o.node, f'a {kind} of dictionaries is not taken over')
        # the items are appended by append itself
        ways(ctx, rep, f'{kind} of inputs', 'self.append(items)', {'items': kind}, each)


def refused(ctx, rep):
    for what, expr in (('a number', '5'), ('text', "'text'"), ('None', 'None')):
        def each(S, s, o, tell):
            if o.kind == 'raise':
                tell.check('TypeError', True if 'TypeError' in str(o.val) else None if opaque(s) else False, o.node, f'{what} is refused with {o.val}')
                return
            und = s.lossy or any(e.kind in ('rec', 'xcall') for e in s.eff)
            tell.check('TypeError', None if und else False, o.node, f'append takes {what} without an error')
        try:
            ways(ctx, rep, f'append({what})', f'self.append({expr})', {}, lambda S, s, o, tell: refusal(S, s, o, tell, what))
        except AttributeError:
            raise


def refusal(S, s, o, tell, what):
    if o.kind == 'raise':
        tell.check('TypeError', None if o.val == '?' else 'TypeError' in str(o.val), o.node, f'{what} is refused with {o.val}', list(s.facts))
    else:
        tell.check('TypeError', None if any(e.kind in ('rec', 'xcall') for e in s.eff) else False, o.node, f'append takes {what} without an error', list(s.facts))


def constructor(ctx, rep):
    me, d = sym('self', 'Graph'), sym('d', 'dict')
    f = ctx.fn('Graph', '__init__')

    def taken(eng, st, recv, args, v):
        for a in sorted(FIELDS):
            st.heap[(recv, a)] = sym('taken' + a)
        return v
    stops = {('*', 'append'): ctx.call_stop('append', 'Graph', val=taken)}

    def each(S, s, o, tell):
        tell.f = f
        if fails(S, s, o, tell):
            return
        where = [n for n, e in enumerate(s.eff) if e.kind == 'api' and (cval(e.key) if isinstance(e.key, T) else e.key) == 'append']
        if not where:
            empty = any(not b and a in (mk('nonempty', d), mk('truth', d), d) for a, b in s.facts.items())
            tell.check('appended', True if empty else None if any(e.kind in ('api', 'rec', 'xcall', 'unk') and any(isinstance(x, T) and d in subterms(x) for x in (e.val, e.tgt)) for e in s.eff) else False, o.node, 'the constructor leaves out what it is given')
            return
        e = s.eff[where[0]]
        x = kwargs(eff_term(S.eng, e, s).args[0].args[3]).get('obj')
        tell.check('appended', untyped(x) is d if x is not None else None, e.node, f'the constructor appends {show(x)[:60] if x is not None else ""}', (x,))
        for later in s.eff[where[0] + 1:]:
            key = cval(later.key) if isinstance(later.key, T) and is_const(later.key) else later.key
            if later.kind == 'set' and later.tgt is me and key in FIELDS:
                v = untyped(S.eng.freeze(later.val, s))
                tell.check('kept', v is sym('taken' + key) or (None if any(y.op == 'fld' and y.args[1] == key or y is sym('taken' + key) for y in subterms(v)) else False), later.node, f'the constructor sets {key} after taking the dictionary over')
            elif later.kind == 'set' and later.tgt is me and key == ctx.proto.F['nodes']:
                tell.check('kept', False, later.node, 'the constructor drops the nodes it has taken over')
    for kind in ('dict', 'list', 'tuple'):
        d = sym('d', kind)
        ways(ctx, rep, f'Graph({kind})', 'self.__init__(obj=d)', {'d': kind}, each, False, stops)
    for key, attr, other in (('colour_scheme', '_colour_scheme', 'colour_scheme=None'), ('stylist', '_stylist', 'stylist=None'), ('style_overwrite_allowed', '_style_overwrite_allowed', '')):
        v = sym('v', 'str' if other else 'bool')

        def option(S, s, o, tell, key=key, attr=attr, v=v):
            tell.f = f
            if fails(S, s, o, tell):
                return
            got = s.heap.get((me, attr))
            g = untyped(Joint(S.eng, s.facts).simp(S.eng.freeze(got, s))) if got is not None else NONE
            empty = any(not b and a in (mk('truth', v), mk('nonempty', v), v) or b and a is mk('isnone', v) for a, b in s.facts.items())
            tell.check('taken over', g is v or empty or v in leaves(g) or g.op in ('or', 'bo') and v in g.args, last(s, attr), f'{key} in a dictionary becomes {show(g)[:60]}', (g,))
        ways(ctx, rep, f'Graph(dictionary with {key})', f"self.__init__(obj={{'{key}': v, 'nodes': [], 'edges': []}}{', ' + other if other else ''})", {'v': 'str' if other else 'bool'}, option, False, stops)


def from_dict(ctx, rep):
    f = ctx.fn('Graph', 'from_dict')
    S = built(ctx, f, extra={('*', 'append'): ctx.call_stop('append', 'Graph')})
    tell = Findings(rep, f, 'from_dict')
    if S is None:
        return rep.done('from_dict', None, 'budget')
    p = sym(ctx.params(f)[0])
    for s, o in S.exits:
        if o.kind == 'raise':
            continue
        tell.lossy = s.lossy
        v = untyped(S.eng.freeze(o.val, s))
        got = []
        for e in s.eff:
            what = cval(e.key) if isinstance(e.key, T) else e.key
            if e.kind == 'api' and what == 'append':
                a = kwargs(eff_term(S.eng, e, s).args[0].args[3]).get('obj')
                back = untyped(e.tgt) is v or v.op == 'apiret' and (untyped(e.val) is v or v.args[0] == 'append')
                tell.check('taken over', untyped(a) is p and back if a is not None else None, e.node, 'from_dict takes over something else')
                got.append(e)
            elif e.kind == 'api' and what == '__new__':
                a = kwargs(eff_term(S.eng, e, s).args[0].args[3])
                if 'obj' in a and untyped(a['obj']) is p:
                    tell.check('taken over', True, e.node, '')
                    got.append(e)
        if not got:
            tell.check('taken over', None if any(e.kind in ('rec', 'xcall') for e in s.eff) else False, o.node, 'from_dict leaves out what it is given')
    tell.close()


def copy_of(x, y):
    """x when it is a list of all that y holds, else y"""
    if x.op == 'coll' and len(x.args) == 2 and x.args[1].op == 'gen':
        v, k, fl, fr, gu = x.args[1].args
        if len(fr.args) == 1 and fr.args[0].args[1] is y and v is mk('el', y, fr.args[0].args[0]) and not gu.args:
            return x
    return y


def has_ends(l):
    """an edge that was connected has a start and an end"""
    a, b = l.args
    return not b and a.op == 'isnone' and any(y.op == 'apiret' and y.args[0] == 'connect' for y in subterms(a))
