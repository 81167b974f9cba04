"""Refused operations: on every path that ends in an exception nothing observable has been written before."""
from report import *
from compare import Joint, WRITES
from rules import c03, c04

OBS = WRITES - {'warn', 'api'}


def cases(ctx):
    st = ctx.style_stops()
    E = {p: sym(p) for p in ('start', 'end', 'id', 'label', 'value', 'style', 'if_edge_exists')}
    types = ['isinstance({0}, str) and {0} not in self.$nodes$', 'isinstance({0}, int) and {0} not in self.$nodes$', 'not isinstance({0}, (str, int, Node))',
             'not isinstance({0}, (str, int)) and isinstance({0}, Node) and {0}.id not in self.$nodes$']
    good = 'isinstance({0}, str) and {0} in self.$nodes$'
    conn = [t.format(a) + ' and ' + good.format(b) for t in types for a, b in (('start', 'end'), ('end', 'start'))] + list(c04.CASES)
    N = {p: sym(p) for p in ('name', 'label', 'value', 'style', 'if_node_exists')}
    yield 'Graph', ctx.fn('Graph', 'add_node'), N, c03.CASES
    yield 'Graph', ctx.fn('Graph', 'connect'), E, conn
    yield 'Graph', ctx.fn('Graph', 'remove_node'), None, [t.format('node') for t in types] + [good.format('node')]
    yield 'Graph', ctx.fn('Graph', 'disconnect'), {'edge': sym('edge', 'Edge')}, None
    yield 'Node', ctx.fn('Node', 'remove_edges'), None, None
    yield 'Edge', ctx.fn('Edge', 'remove_self'), None, None
    yield 'Graph', ctx.fn('Graph', 'get_node'), None, None
    for c in ('Node', 'Edge'):
        for a in ('value', 'style', 'label'):
            yield c, ctx.setter(c, a), {ctx.params(ctx.setter(c, a))[0]: sym(a)}, None


def run(ctx, rep):
    F = ctx.proto.F
    stops = ctx.style_stops()
    for cls, f, args, conds in cases(ctx):
        args = args if args is not None else {p: sym(p) for p in ctx.params(f)}
        args = {k: v for k, v in args.items() if k in ctx.params(f) or f.node.args.kwarg is not None}
        me = {} if f.kind == 'static' else {'self': sym('self', 'Graph' if cls == 'Graph' else cls)}
        ok, n = True, 0
        for c in conds or [None]:
            st = rep.given(cls, c, args, static=f.kind == 'static', stops=stops) if c else None
            S = ctx.summary(f, args={**args, **me}, stops=stops, st=st)
            if S is None:
                ok = ok and None
                continue
            for s, o in S.exits:
                if o.kind != 'raise':
                    continue
                n += 1
                for e in written(S.eng, s):
                    ok = False
                    rep.violate('changed before it was refused', f, e.node, f'{e.kind} {show(e.tgt)[:150]} {show(e.key)[:60]} happens before {o.val} is raised' + where(o))
        rep.done(f'{cls}.{f.name} refuses before it changes anything', ok, n=n)


def where(o):
    return f' at line {o.node.lineno}' if getattr(o.node, 'lineno', None) else ''


def written(eng, s):
    """observable writes of one exit: not to objects made here, not the running number of nodes"""
    J = Joint(eng, s.facts)
    for e in s.eff:
        if e.kind not in OBS:
            continue
        root = e.tgt
        while isinstance(root, T) and root.op in ('fld', 'item', 'el', 'typed') and isinstance(root.args[0], T):
            root = root.args[0]
        if isinstance(root, T) and root.op in ('new', 'apiret'):
            continue
        if e.kind == 'set' and eng.cls_of(e.tgt, s) == 'Graph' and cval(e.key) not in eng.F.values():
            # bookkeeping of the graph object that is no node, edge or attribute of one
            continue
        if any(J.lit_val(mk('lit', eng.freeze(a, s), b)) is FALSE for a, b in e.guards):
            continue
        yield e
