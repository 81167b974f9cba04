"""Frozen values: the value and frozen-mark accessors against their specifications, and who else writes those fields."""
from report import *
from compare import opaque
from rules.c28 import ctx_writes

MAKERS = {'__init__', '__setstate__', '__new__'}


def run(ctx, rep):
    F = ctx.proto.F
    st = ctx.std_stops()
    for c in ('Node', 'Edge'):
        f = ctx.setter(c, 'value')
        p = ctx.params(f)[0]
        rep.spec(c, 'value', f'''
def f(self, {p}):
    if self.$frozen$:
        raise RuntimeError('frozen')
    self.$value$ = {p}
''', fn=f, stops=st, effects=ctx_writes, raise_effects=True, name=f'{c}.value = ..')
        rep.spec(c, 'value', 'def f(self):\n    return self.$value$', stops=st, name=f'{c}.value')
        rep.spec(c, 'is_frozen', 'def f(self):\n    return self.$frozen$', stops=st)
        rep.spec(c, 'freeze', 'def f(self):\n    self.$frozen$ = True', stops=st, effects=ctx_writes, value=False)
        rep.spec(c, 'unfreeze', 'def f(self):\n    self.$frozen$ = False', stops=st, effects=ctx_writes, value=False)
    census(ctx, rep, F)
    unfrozen(ctx, rep, F)
    repeated(ctx, rep, F)


def sites(ctx, names):
    """direct writes of an attribute anywhere in the package: (function, node, attribute)"""
    for f in ctx.prog.funcs:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and n.attr in names:
                yield f, n, n.attr
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('setattr', 'delattr') and len(n.args) > 1:
                a = n.args[1]
                if isinstance(a, ast.Constant) and a.value in names:
                    yield f, n, a.value
            elif isinstance(n, ast.Subscript) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Attribute) and n.value.attr == '__dict__' \
                    and isinstance(n.slice, ast.Constant) and n.slice.value in names:
                yield f, n, n.slice.value


def allowed(ctx, member_names, setters):
    """functions that may write: makers and the named members of graph objects, with the helpers only they use"""
    ok = {f for f in ctx.prog.funcs if f.cls is not None and (f.name in MAKERS or f.name in member_names or f.kind == 'setter' and f.name in setters)}
    callers = {}
    for f in ctx.prog.funcs:
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute):
                callers.setdefault(n.attr, set()).add(f)
            elif isinstance(n, ast.Name):
                callers.setdefault(n.id, set()).add(f)
    again = True
    while again:
        again = False
        for f in ctx.prog.funcs:
            if f not in ok and f.name.startswith('_') and not f.name.startswith('__'):
                cs = callers.get(f.name, set()) - {f}
                if cs and cs <= ok:
                    ok.add(f)
                    again = True
    return ok


def census(ctx, rep, F):
    ok = allowed(ctx, {'freeze', 'unfreeze'}, {'value'})
    n, good = 0, True
    todo = list(sites(ctx, {F['value'], F['frozen']}))
    for f in ctx.prog.funcs:
        for x in ast.walk(f.node):
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ('freeze', 'unfreeze'):
                todo.append((f, x, F['frozen']))
    for f, node, a in todo:
        n += 1
        if f in ok and not isinstance(node, ast.Call):
            continue
        if f.cls is not None and f.cls.name not in ('Node', 'Edge', 'GraphObj') and isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name) and node.value.id == 'self':
            continue
        S = None
        st = judge(ctx, f, a, F)
        if st is True:
            continue
        if st is None:
            rep.done(f'{f.qual} writes {a}', None, 'not resolved')
            continue
        good = False
        rep.violate('frozen mark or value written past the frozen check', f, node, f'{a} is written directly')
    rep.done('value and frozen mark are only written by their own accessors', good, n=n)


def judge(ctx, f, attr, F):
    """every write of the field by this function: to an object made here, or a value under the unfrozen test"""
    cls = f.cls.name if f.cls else None
    args = {p: sym(p) for p in ctx.params(f)}
    if cls and f.kind not in ('static', 'class'):
        args['self'] = sym('self', 'Graph' if ctx.prog.subclass('Graph', cls) else 'Node' if cls == 'GraphObj' else cls)
    S = ctx.summary(f, args=args, stops=ctx.std_stops(), seconds=30)
    if S is None:
        return None
    out = True
    for s, o in S.exits:
        for e in s.eff:
            k = cval(e.key) if isinstance(e.key, T) and is_const(e.key) else e.key
            if e.kind not in ('set', 'setdyn', 'delattr') or k != attr:
                continue
            t = e.tgt
            if isinstance(t, T) and t.op == 'new':
                continue
            if S.eng.cls_of(t, s) not in ('Node', 'Edge', 'GraphObj', None):
                continue
            fz = mk('truth', fld(t, F['frozen']))
            known = dict(s.facts)
            known.update(e.guards)
            if attr == F['value'] and known.get(fz) is False:
                continue
            return False
    return out


def unfrozen(ctx, rep, F):
    """a new node or edge starts unfrozen"""
    for c in ('Node', 'Edge'):
        f = ctx.fn(c, '__init__')
        types = {'graph': 'Graph', 'start': 'Node', 'end': 'Node'}
        S = ctx.summary(f, args={'self': sym('self', c), '**': sym('extra', 'dict'), **{p: sym(p, types.get(p)) for p in ctx.params(f)}}, stops=ctx.style_stops())
        if S is None:
            rep.done(f'{c} starts unfrozen', None, 'budget')
            continue
        ok, n = True, 0
        for s, o in S.exits:
            if o.kind != 'ret':
                continue
            n += 1
            v = s.heap.get((sym('self', c), F['frozen']))
            if v is None or v is not FALSE:
                op = v is None or opaque(S.eng.freeze(v, s)) is not None
                ok = None if op and ok is not False else False
                if not op:
                    rep.violate('new object frozen', f, f.node, f'{F["frozen"]} is {show(v)} after {c}.__init__')
        rep.done(f'{c} starts unfrozen', ok if n else None, n=n)


def repeated(ctx, rep, F):
    """add_node and connect on something that is there: a frozen one refuses a value"""
    stops = ctx.style_stops()
    for m, cond, obj, args in (
            ('add_node', 'isinstance(name, str) and name in self.$nodes$', 'self.$nodes$[name]', {}),
            ('connect', 'isinstance(start, str) and start in self.$nodes$ and isinstance(end, str) and end in self.$nodes$ and (start, end, id) in self.$nodes$[start].$out$ and (start, end, id) in self.$nodes$[end].$inn$',
             'self.$nodes$[start].$out$[(start, end, id)]', {})):
        f = ctx.fn('Graph', m)
        a = {n: sym(n) for n in ctx.params(f)}
        for n in ('name', 'start', 'end', 'id', 'label', 'value', 'style', 'if_node_exists', 'if_edge_exists'):
            if (n in ('name', 'if_node_exists')) <= (m == 'add_node') and (n in ('start', 'end', 'id', 'if_edge_exists')) <= (m == 'connect'):
                a.setdefault(n, sym(n))
        a['self'] = sym('self', 'Graph')
        st = rep.given('Graph', f'{cond} and {obj}.$frozen$ and value is not None', a, stops=stops)
        S = ctx.summary(f, args=a, stops=stops, st=st)
        if S is None:
            rep.done(f'Graph.{m} on a frozen one', None, 'budget')
            continue
        ok = True
        for s, o in S.exits:
            if o.kind == 'ret':
                if s.lossy:
                    ok = None if ok else ok
                    continue
                ok = False
                rep.violate('frozen object changed', f, o.node, f'{m} with a value returns although the object is frozen')
            for e in s.eff:
                k = cval(e.key) if isinstance(e.key, T) and is_const(e.key) else e.key
                if e.kind == 'set' and k in (F['value'], F['frozen']) and not (isinstance(e.tgt, T) and e.tgt.op == 'new'):
                    ok = False
                    rep.violate('frozen object changed', f, e.node, f'{k} of a frozen object is written')
        rep.done(f'Graph.{m} on a frozen one', ok, n=len(S.exits))
