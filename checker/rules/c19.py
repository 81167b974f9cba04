"""Styles: the style setters against their specification, and every automatic replacement of a style against the rule that only missing styles are filled in."""
from report import *
from rules.c20 import sites, allowed
from rules.c28 import ctx_writes

TABLES = ('node_colours', 'edge_colours')


def run(ctx, rep):
    F = ctx.proto.F
    for c in ('Node', 'Edge'):
        f = ctx.setter(c, 'style')
        p = ctx.params(f)[0]
        has = 'self.$style$ is not None'
        ok = 'self.$graph$._style_overwrite_allowed'
        kinds = [f'{p} is None', f'isinstance({p}, dict)', f'isinstance({p}, {c}Style)', f'not isinstance({p}, (dict, {c}Style)) and {p} is not None']
        cases = [f'{h} and {o} and {k}' for h, o in ((f'not ({has})', f'{ok}'), (f'not ({has})', f'not {ok}'), (has, ok)) for k in kinds] \
            + [f'{has} and not {ok} and {k}' for k in kinds if k != f'{p} is None']
        rep.spec(c, 'style', f'''
def f(self, {p}):
    if self.$style$ is not None and not self.$graph$._style_overwrite_allowed:
        raise RuntimeError('styled')
    if isinstance({p}, dict):
        self.$style$ = {c}Style(**{p})
    elif isinstance({p}, {c}Style):
        self.$style$ = {p}
    elif {p} is not None:
        raise TypeError({p})
''', fn=f, stops=ctx.style_stops(), cases=cases, effects=ctx_writes, value=False, name=f'{c}.style = ..')
        rep.spec(c, 'style', 'def f(self):\n    return self.$style$', stops=ctx.style_stops(), name=f'{c}.style')
        rep.spec(c, 'has_style', 'def f(self):\n    return self.$style$ is not None', stops=ctx.style_stops())
    option(ctx, rep)
    writers(ctx, rep, F)


def option(ctx, rep):
    """the permission is the constructor's option (or that of the dictionary), off by default"""
    f = ctx.fn('GraphWithoutDisplay', '__init__')
    a = f.node.args
    ps = a.posonlyargs + a.args
    d = dict(zip([x.arg for x in ps[len(ps) - len(a.defaults):]], a.defaults))
    d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
    v = d.get('style_overwrite_allowed')
    ok = isinstance(v, ast.Constant) and v.value is False
    if not ok:
        rep.violate('signature', f, f.node, 'style_overwrite_allowed is not off by default')
    args = {p: NONE for p in ctx.params(f)}
    args.update(self=sym('self', 'Graph'), style_overwrite_allowed=sym('style_overwrite_allowed'))
    S = ctx.summary(f, args=args, stops=ctx.std_stops(), seconds=30)
    good, n = (True if S is not None else None), 0
    for s, o in (S.rets() if S is not None else ()):
        n += 1
        h = s.heap.get((sym('self', 'Graph'), '_style_overwrite_allowed'))
        if h is not sym('style_overwrite_allowed'):
            good = None if h is None or h.op == 'unk' else False
            if good is False:
                rep.violate('option lost', f, f.node, f'style_overwrite_allowed becomes {show(h)[:100]}')
    rep.done('style_overwrite_allowed is kept', good and ok, n=n)


def tables(ctx):
    """fields behind the colour overwrites of the dictionary form"""
    out = set()
    f = ctx.fn('Graph', '__graph__')
    S = ctx.summary(f, args={'self': sym('self', 'Graph')}, stops=ctx.std_stops())
    for s, o in (S.rets() if S is not None else ()):
        v = S.eng.freeze(o.val, s)
        for g in v.args[1:] if v.op == 'coll' else ():
            k = g.args[1]
            if g.op == 'gen' and is_const(k) and cval(k) in TABLES:
                out |= {x for x in subterms(g.args[0]) if x.op == 'fld' and x.args[0] is sym('self', 'Graph')}
    return {x.args[1] for x in out}


def reach(ctx, name):
    """functions the automatic styling may use, by name"""
    todo, seen = [ctx.fn('Graph', name)], set()
    by = {}
    for f in ctx.prog.funcs:
        by.setdefault(f.name, []).append(f)
    while todo:
        f = todo.pop()
        if f in seen:
            continue
        seen.add(f)
        for n in ast.walk(f.node):
            q = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
            for g in by.get(q, ()):
                if g.cls is None or not g.name.startswith('__') and (g.cls.name in ('Node', 'Edge', 'GraphObj') or ctx.prog.subclass('Graph', g.cls.name) and (g.name[0] == '_' or g.name.startswith('styl'))):
                    todo.append(g)
    return seen


def styling_stops(ctx, f):
    st = ctx.std_stops()
    for k in [k for k in st if k[0] == '*' and k[1] in (f.name, 'stylize')]:
        del st[k]
    for n, cls, pure in (('stylize_with_pensieve', None, False), ('stylize_randomly', None, False), ('stylize_edges_based_on_nodes', None, False),
                         ('inherit_style', 'NodeStyle', True), ('is_root_or_parents_are_in_loop', None, True), ('get_least_used_colour', None, True)):
        if n != f.name:
            st[('', n)] = ctx.call_stop(n, cls, pure=pure)
    return st


def writers(ctx, rep, F):
    T_ = tables(ctx)
    auto = {f for f in reach(ctx, 'stylize') if f.kind not in ('setter', 'getter')}
    ok = allowed(ctx, set(), {'style'})
    jobs = {}
    for f, node, a in sites(ctx, {F['style'], 'style'}):
        own = f.cls is not None and f.cls.name not in ('Node', 'Edge', 'GraphObj') and isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id == 'self'
        if f in ok or own:
            continue
        if a == F['style'] or f in auto:
            for g in publicly(ctx, f):
                jobs.setdefault(g, []).append(node)
    for f in sorted(jobs, key=lambda f: f.qual):
        res, n = judge(ctx, rep, f, F, T_)
        rep.done(f'{f.qual} only fills in missing styles', res, n=n)
    rep.done('functions that put styles in place', True, n=len(jobs))


def publicly(ctx, f, seen=None):
    """the functions through which a private helper is used; the function itself when there are none"""
    seen = seen if seen is not None else set()
    if not f.name.startswith('_') or f.name.startswith('__') or f in seen:
        return [f]
    seen.add(f)
    us = [g for g in ctx.prog.funcs if g is not f and any(isinstance(n, ast.Attribute) and n.attr == f.name or isinstance(n, ast.Name) and n.id == f.name for n in ast.walk(g.node))]
    return sorted({h for g in us for h in publicly(ctx, g, seen)}, key=lambda g: g.qual) or [f]


def judge(ctx, rep, f, F, T_):
    types = {'graph': 'Graph', 'node': 'Node', 'edge': 'Edge'}
    args = {p: sym(p, types.get(p)) for p in ctx.params(f)}
    if f.cls is not None and f.kind not in ('static', 'class'):
        args['self'] = sym('self', 'Graph' if ctx.prog.subclass('Graph', f.cls.name) else f.cls.name)
    S = ctx.summary(f, args=args, stops=styling_stops(ctx, f), seconds=60)
    if S is None:
        return None, 0
    res, n, seen = True, 0, set()
    for s, o in S.exits:
        for e in s.eff:
            k = cval(e.key) if isinstance(e.key, T) and is_const(e.key) else e.key
            if e.kind not in ('set', 'setdyn', 'delattr') or k != F['style']:
                continue
            t = e.tgt
            if isinstance(t, T) and t.op == 'new' or S.eng.cls_of(t, s) not in ('Node', 'Edge', 'GraphObj', None):
                continue
            n += 1
            sf = fld(S.eng.freeze(t, s), F['style'])
            st2 = fld(t, F['style'])
            lits = list(e.guards) + list(s.facts.items())
            if any(b and a.op == 'isnone' and a.args[0] in (sf, st2) or not b and a.op == 'truth' and a.args[0] in (sf, st2) for a, b in lits):
                continue
            where = [t] + [src for it, src in e.frames] + [a for a, b in e.guards if b]
            if any(x.op == 'fld' and x.args[1] in T_ for w in where for x in subterms(S.eng.freeze(w, s))):
                continue
            hard = any(b is False and a.op == 'isnone' and a.args[0] in (sf, st2) for a, b in e.guards)
            if not hard and any(x.op == 'fld' and x.args[1] == F['style'] for a, b in e.guards for x in subterms(a)) or s.lossy:
                res = None if res else res
                continue
            if (e.node.lineno, f) not in seen:
                seen.add((e.node.lineno, f))
                rep.violate('style replaced', e.func if isinstance(e.func, Func) else f, e.node, f'the style of {show(t)[:120]} is set without it being missing')
            res = False
    return res, n
