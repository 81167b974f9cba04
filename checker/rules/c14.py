"""Dictionary form: __graph__ of one graph and append of another are composed into one transfer function; the nodes and
edges it adds, the options it sets and the overwrites it files are read off and compared with the first graph's, and the
dictionary itself is searched for objects that belong to the graph."""
from builders import *
from compare import Joint, spec_func, eff_term
from rules.c07 import leaves

OPTIONS = ('_is_strict', '_ordering', '_label', '_label_url', '_tooltip', '_global_node_style_overwrite', '_global_edge_style_overwrite')
TABLES = ('_node_style_overwrites', '_edge_style_overwrites', '_node_colour_overwrites', '_edge_colour_overwrites')


def run(ctx, rep):
    for part in (unshared, composed):
        try:
            with limit(200):
                part(ctx, rep)
        except OutOfTime:
            rep.done(part.__name__, None, 'out of time')


def held(v):
    """objects found in a structure of dictionaries and lists, with where"""
    for x in leaves(v):
        if x.op == 'coll':
            for g in x.args[1:]:
                if g.op == 'gen':
                    for w, y in held(g.args[0]):
                        yield ([cval(g.args[1])] if is_const(g.args[1]) else []) + w, y
        elif x.op == 'tup':
            for a in x.args:
                yield from held(a)
        else:
            yield [], x


def unshared(ctx, rep):
    f = ctx.fn('Graph', '__graph__')
    st = ctx.std_stops()
    S = ctx.summary(f, args={'self': sym('self', 'Graph')}, stops=st)
    if S is None:
        return rep.done('nothing shared', None, 'budget')
    bad, und, n = 0, [], 0
    F = ctx.proto.F
    for s, o in S.exits:
        if o.kind == 'raise':
            if not o.implicit:
                bad += 1
                rep.violate('dictionary form', f, o.node, f'__graph__ raises {o.val}')
            continue
        v = untyped(S.eng.freeze(o.val, s))
        if opaque(v) is not None or v.op != 'coll':
            und.append(show(opaque(v) or v)[:80])
        for where, x in held(v):
            n += 1
            if x.op == 'fld' and (x.args[1] in TABLES or x.args[1] == F['style'] and x.args[0].op != 'sym' or x.args[1] in (F['nodes'], F['out'], F['inn'])):
                if Joint(S.eng, s.facts).lit_val(mk('lit', mk('isnone', x), True)) is TRUE:
                    continue
                bad += 1
                rep.violate('shared', f, o.node, f'the dictionary form holds {show(x)[:80]} itself, not a copy')
    rep.done('nothing shared', False if bad else None if und else True, str(und[:2])[:200], n)


def plain(t):
    while t.op in ('typed', 'truth'):
        t = t.args[0]
    return t


def copies(s):
    """objects made, with what they are copies of"""
    out = {}
    for e in s.eff:
        if e.kind == 'make' and e.val is not None and e.val.op in ('copyof', 'deepcopy'):
            out[e.tgt] = e.val.args[0]
    return out


def composed(ctx, rep):
    f = ctx.fn('Graph', 'append')
    g = spec_func(ctx, 'Graph', '''
def f(self, other):
    other.append(self.__graph__())
    return other
''')
    me, other = sym('self', 'Graph'), sym('other', 'Graph')
    st = ctx.std_stops(but=[('*', 'append')])
    st[('*', 'get_node')] = ctx.call_stop('get_node', 'Node', pure=True)
    S = ctx.summary(g, args={'self': me, 'other': other}, stops=st, seconds=100)
    if S is None:
        return rep.done('rebuilt', None, 'budget')
    tell = Findings(rep, f, 'rebuilt')
    n = 0
    for s, o in S.exits:
        if o.kind == 'raise':
            J = Joint(S.eng, s.facts)
            tell.lossy = s.lossy
            tell.check('no exception', True if not J.ok or returned(s) else None if o.implicit or any(opaque(a) is not None for a in s.facts) else False, o.node, f'a dictionary form is refused with {o.val}')
            continue
        n += 1
        tell.lossy = s.lossy
        contents(ctx, S, s, tell, me, other)
        settings(ctx, S, s, tell, me, other)
        tables(ctx, S, s, tell, me, other)
    tell.check('some way through', True if n else None, None, '')
    tell.close()


def returned(s):
    """hinges on an edge that connect returned having no ends, which it has"""
    return any(b and a.op == 'isnone' and a.args[0].op == 'fld' and any(x.op == 'apiret' for x in subterms(a.args[0])) for a, b in s.facts.items())


def calls(ctx, S, s, other):
    adds, conns, odd = [], [], []
    for e in s.eff:
        if e.kind != 'api':
            continue
        what = cval(e.key) if isinstance(e.key, T) else e.key
        t = eff_term(S.eng, e, s)
        it = Item(kwargs(t.args[0].args[3]), [x.args for x in t.args[3].args], [(l.args[0], l.args[1]) for l in t.args[4].args], set(x for x in t.args[2].split(',') if x) | (set(e.flags) & {'unord'}), e.node)
        it.args = {k: plain(v) for k, v in it.args.items()}
        it.term = t
        (adds if what == 'add_node' else conns if what == 'connect' else odd).append(it)
        if plain(e.tgt) is not other:
            odd.append(it)
    return adds, conns, odd


def contents(ctx, S, s, tell, me, other):
    F = ctx.proto.F
    adds, conns, odd = calls(ctx, S, s, other)
    for i in odd:
        tell.check('nothing but nodes and edges', None, i.node, 'another call')
    made = copies(s)
    nodes = fld(me, F['nodes'])
    J = Joint(S.eng, s.facts)

    def node_of(frames):
        v, it = frames[0]
        return mk('el', nodes, v)

    def check(i, what, key, want, obj):
        x = i.args.get(key, NONE)
        ok = x is want or J.simp(x) is want
        tell.check(f'{what}: {key}', True if ok else False, i.node, f'{what}s get the {key} {show(x)[:80]} instead of {show(want)[:80]}', (x,))

    def style(i, what, obj):
        x = i.args.get('style', NONE)
        w = mk('fld', obj, F['style'])
        if x is NONE:
            ok = (mk('isnone', w), True) in i.guards
            tell.check(f'{what}: style', True if ok else False, i.node, f'the style of {what}s is lost', [a for a, b in i.guards])
        elif x.op == 'new' and x in made:
            c = plain(made[x])
            ok = c.op == 'fld' and c.args[1] == F['style'] and alike(c.args[0], obj)
            tell.check(f'{what}: style', True if ok else False, i.node, f'the style of {what}s is a copy of {show(c)[:80]}', (c,))
        elif x.op in ('deepcopy', 'copyof') and x.args[0] is w:
            tell.check(f'{what}: style', True, i.node, '')
        else:
            y = untyped(x)
            tell.check(f'{what}: style', True if y is w else None if x.op in ('new', 'made', 'apiret') else False, i.node, f'{what}s get the style {show(x)[:80]}', (x,))

    groups = {}
    for i in adds:
        fr = [(v, it) for v, it in i.frames]
        if len(fr) != 1 or plain(fr[0][1]) not in (nodes, mk('dv', nodes), mk('di', nodes), mk('dk', nodes)):
            about = [it for v, it in fr]
            tell.check('nodes of the graph', None if any(opaque(x) is not None for x in about) or not about else False, i.node, f'nodes are added for {[show(x)[:60] for x in about]}', about)
            continue
        n = node_of(fr)
        name = i.args.get('name', NONE)
        ok = name in (mk('fld', n, F['rid']), mk('ek', nodes, fr[0][0]))
        tell.check('node: name', True if ok else False, i.node, f'nodes are named {show(name)[:80]}', (name,))
        check(i, 'node', 'label', mk('fld', n, F['label']), n)
        check(i, 'node', 'value', mk('fld', n, F['value']), n)
        style(i, 'node', n)
        extras(i, tell, 'node', ('name', 'label', 'value', 'style', 'if_node_exists'))
        groups.setdefault('node', []).append(i)
    for i in conns:
        fr = [(v, it) for v, it in i.frames]
        out = mk('fld', node_of(fr), F['out']) if fr else None
        if len(fr) != 2 or plain(fr[0][1]) not in (nodes, mk('dv', nodes), mk('di', nodes), mk('dk', nodes)) or plain(fr[1][1]) not in (out, mk('dv', out), mk('di', out), mk('dk', out)):
            about = [it for v, it in fr]
            tell.check('edges of the graph', None if any(opaque(x) is not None for x in about) or not about else False, i.node, f'edges are connected for {[show(x)[:60] for x in about]}', about)
            continue
        n = node_of(fr)
        e = mk('el', out, fr[1][0])
        start = i.args.get('start', NONE)
        ok = start in (mk('fld', n, F['rid']), n, mk('fld', mk('fld', e, F['start']), F['rid']), mk('fld', e, F['start']))
        tell.check('edge: start', True if ok else False, i.node, f'edges start at {show(start)[:80]}', (start,))
        end = i.args.get('end', NONE)
        tell.check('edge: end', True if end in (mk('fld', mk('fld', e, F['end']), F['rid']), mk('fld', e, F['end'])) else False, i.node, f'edges end at {show(end)[:80]}', (end,))
        check(i, 'edge', 'id', mk('fld', e, F['rid']), e)
        check(i, 'edge', 'label', mk('fld', e, F['label']), e)
        check(i, 'edge', 'value', mk('fld', e, F['value']), e)
        style(i, 'edge', e)
        extras(i, tell, 'edge', ('start', 'end', 'id', 'label', 'value', 'style', 'if_edge_exists'))
        groups.setdefault('edge', []).append(i)
    for what in ('node', 'edge'):
        its = groups.get(what, [])
        if not its:
            tell.check(f'every {what}', None if odd or any(e.kind == 'xcall' for e in s.eff) else False, None, f'no {what}s are taken over')
            continue
        a = always([frozenset(i.guards) for i in its])
        tell.check(f'every {what}', a, its[0].node, f'{what}s are left out: taken over only if {[(b, show(x)[:60]) for x, b in its[0].guards][:3]}', [x for i in its for x, b in i.guards])
        for i in its:
            bad = i.flags & (CUT | {'unord', 'sorted', 'rev'})
            tell.check(f'every {what} in order', not bad, i.node, f'{what}s are left out or out of order ({", ".join(sorted(bad))})')


def alike(a, b):
    """the same path from the graph, whatever the loop variables are called"""
    if a is b or a.op in ('it', 'bv') and b.op in ('it', 'bv'):
        return True
    a, b = (x.args[0] if x.op == 'typed' else x for x in (a, b))
    return a.op == b.op and len(a.args) == len(b.args) and all(x is y or x == y or isinstance(x, T) and isinstance(y, T) and alike(x, y) for x, y in zip(a.args, b.args))


def extras(i, tell, what, known):
    for k, v in i.args.items():
        if k not in known:
            tell.check(f'{what}: nothing else', None, i.node, f'{k}')
    w = i.args.get(f'if_{what}_exists')
    if w is not None and is_const(w) and cval(w) not in ('warn', 'ignore'):
        tell.check(f'{what}: taken over', True, i.node, '')


def settings(ctx, S, s, tell, me, other):
    J = Joint(S.eng, s.facts)
    for a in OPTIONS:
        got = s.heap.get((other, a))
        want = fld(me, a)
        if got is None:
            tell.check(f'option {a.strip("_")}', None if any(e.kind == 'setdyn' for e in s.eff) else False, None, f'{a} is not taken over')
            continue
        v = S.eng.freeze(got, s)
        ok = all(settled(J, x, want, a) for x in leaves(v))
        ok = ok if ok or v.op != 'maybe' else None
        tell.check(f'option {a.strip("_")}', ok, next((e.node for e in reversed(s.eff) if e.kind == 'set' and e.key == a), None), f'{a} becomes {show(v)[:100]}', (v,))


def settled(J, x, want, a):
    x = untyped(J.simp(x))
    if x is want or x.op in ('copyof', 'deepcopy') and x.args[0] is want:
        return True
    if x is NONE:
        return J.lit_val(mk('lit', mk('isnone', want), True)) is TRUE
    if a == '_label':
        return show(x) == show(mk('cat', const('\n'), want)) or x.op in ('cat', 'add') and (x.args[-1] is want or x.args[-1].op == 'str' and x.args[-1].args[0] is want) and x.args[0] is const('\n')
    return False


def tables(ctx, S, s, tell, me, other):
    for a in TABLES:
        want, tgt = fld(me, a), fld(other, a)
        h = s.heap.get((other, a))
        what = f'table {a.strip("_")}'
        if h is not None and plain(h) is not tgt:
            v = untyped(S.eng.freeze(h, s))
            ok = v is want or v.op in ('copyof', 'deepcopy') and v.args[0] is want or v.op == 'coll' and all(g.op == 'gen' for g in v.args[1:]) and any(whole(g, want) for g in v.args[1:])
            tell.check(what, True if ok else None if v.op == 'coll' else False, None, f'{a} becomes {show(v)[:100]}', (v,))
            continue
        cubes, node, seen = [], None, False
        for e in s.eff:
            if e.tgt is not tgt:
                continue
            t = eff_term(S.eng, e, s)
            fr = [x.args for x in t.args[3].args]
            k, v = untyped(t.args[0].args[2]), untyped(t.args[0].args[3])
            if e.kind == 'dset':
                seen = True
                if len(fr) != 1 or untyped(fr[0][1]) not in (want, mk('dv', want), mk('di', want), mk('dk', want)):
                    if any(want in subterms(it) for b, it in fr) or not fr:
                        tell.check(what, None, e.node, 'filed in another way')
                    else:
                        tell.check(what, False, e.node, f'{a} is filled for {[show(it)[:60] for b, it in fr]}', [it for b, it in fr])
                    continue
                b = fr[0][0]
                key = mk('ek', want, b)
                ok = v is mk('el', want, b) or v.op in ('copyof', 'deepcopy') and v.args[0] is mk('el', want, b)
                tell.check(what, ok, e.node, f'{a} gets {show(v)[:80]}', (v,))
                ok = k is key or k.op in ('item', 'call', 'ite') and any(x is key for x in subterms(k)) and 'edge' in a
                tell.check(what + ': key', ok, e.node, f'{a} files under {show(k)[:80]}', (k,))
                cubes.append(frozenset((l.args[0], l.args[1]) for l in t.args[4].args))
                node = e.node
                if CUT & set(t.args[2].split(',')):
                    tell.check(what + ': all of it', False, e.node, f'{a} is taken over in part')
            elif e.kind in ('dupdate', 'mutate'):
                seen = True
                ok = any(x is want for x in subterms(v))
                tell.check(what, True if ok and not fr and not t.args[4].args and not opaque(v) else None, e.node, '')
                if ok:
                    cubes.append(frozenset((l.args[0], l.args[1]) for l in t.args[4].args))
            elif e.kind in ('dclear', 'ddel'):
                tell.check(what, None, e.node, '')
        if not seen:
            tell.check(what, False, None, f'{a} is not taken over')
            continue
        if cubes:
            r = always(cubes)
            if r is False and len(cubes) > 1 and not gap(cubes):
                r = None
            tell.check(what + ': all of it', r, node, f'{a} is taken over only if {[(b, show(x)[:60]) for x, b in cubes[0]][:3]}', [x for c in cubes for x, b in c])


def whole(g, want):
    fr = g.args[3].args
    return len(fr) == 1 and untyped(fr[0].args[1]) in (want, mk('dv', want), mk('di', want), mk('dk', want)) and not g.args[4].args and 'partial' not in g.args[2]
