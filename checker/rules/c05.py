"""Name resolution, and the direction and options of every way to make an edge."""
from report import *

GET = '''
def f(self, node):
    if isinstance(node, (str, int)):
        return self.$nodes$[node]
    if isinstance(node, Node):
        return self.$nodes$[node.id]
    raise TypeError('unsupported')
'''
NAME = '''
def f(self, node):
    if isinstance(node, (str, int)):
        return self.$nodes$[node].id
    if isinstance(node, Node):
        return node.id
    raise TypeError('unsupported')
'''


def run(ctx, rep):
    rep.spec('Graph', 'get_node', GET)
    rep.spec('Graph', 'get_node_name', NAME)
    st = dict(ctx.style_stops())
    st[('*', 'connect')] = ctx.call_stop('connect', 'Edge')
    names = 'label, value, style, if_edge_exists, id'
    for m, a, b, p in (('connect_to', 'self', 'node', 'node'), ('connect_from', 'node', 'self', 'node')):
        f = ctx.fn('Node', m)
        ps = ctx.params(f)
        p = ps[0]
        given = [q for q in ps[1:]]
        src = f'def f(self, {", ".join([p] + given)}, **kwargs):\n    return self.$graph$.connect(start={a if a == "self" else p}, end={b if b == "self" else p}, {"".join(f"{q}={q}, " for q in given)}**kwargs)'
        rep.spec('Node', m, src, effects='spec', stops=st)
        for q in ('label', 'value', 'style', 'id', 'if_edge_exists'):
            if q not in given and f.node.args.kwarg is None:
                rep.violate('option not passed on', f, f.node, f'{m} does not take {q}')
    resolve(ctx, rep)


def resolve(ctx, rep):
    """both ends of a connection come from the graph's own table, never from add_node"""
    f = ctx.fn('Graph', 'connect')
    st = ctx.style_stops()
    add = ctx.fn('Graph', 'add_node')
    st[('*', 'add_node')] = ctx.call_stop('add_node', 'Node')
    types = ['isinstance({0}, str)', 'isinstance({0}, int) and not isinstance({0}, str)', 'isinstance({0}, Node) and not isinstance({0}, (str, int))']
    n, bad = 0, 0
    und = []
    for t in types:
        for i in ('in', 'not in'):
            key = '{0}.id' if 'Node' in t else '{0}'
            for which in ('start', 'end'):
                other = 'end' if which == 'start' else 'start'
                cond = (t + f' and {key} {i} self.$nodes$').format(which) + f' and isinstance({other}, str) and {other} in self.$nodes$ and style is None and value is None and label is None'
                args = {'start': sym('start'), 'end': sym('end'), 'id': sym('id'), 'style': NONE, 'value': NONE, 'label': NONE, 'if_edge_exists': const('ignore')}
                st0 = rep.given('Graph', cond, {k: v for k, v in args.items()}, stops=st)
                S = ctx.summary(f, args=args, stops=st, st=st0)
                if S is None:
                    und.append('budget')
                    continue
                k = fld(args[which], ctx.proto.F['rid']) if 'Node' in t else args[which]
                for s, o in S.exits:
                    n += 1
                    if any(e.kind == 'api' and cval(e.key) == 'add_node' for e in s.eff):
                        bad += 1
                        rep.violate('node created by connect', f, o.node, f'a node is added when {which} is given')
                    if i == 'not in':
                        if o.kind == 'raise' and o.val == '?':
                            und.append('exception')
                        elif o.kind != 'raise' or o.val != 'KeyError':
                            bad += 1
                            rep.violate('unknown node accepted', f, o.node, f'connect with a {which} that is not in the graph gives {o.kind} {o.val if o.kind == "raise" else ""} instead of KeyError')
    rep.done('connect resolves both ends in the graph', False if bad else None if und else True, '; '.join(und), n)
    args = {'start': sym('start'), 'end': sym('end'), 'style': NONE, 'value': NONE, 'label': NONE}
    for which in ('start', 'end'):
        other = 'end' if which == 'start' else 'start'
        st0 = rep.given('Graph', f'not isinstance({which}, (str, int, Node)) and isinstance({other}, str) and {other} in self.$nodes$', args, stops=st)
        S = ctx.summary(f, args=args, stops=st, st=st0)
        ok = True
        for s, o in (S.exits if S else ()):
            if o.kind == 'raise' and o.val == '?':
                ok = None if ok else ok
            elif o.kind != 'raise' or o.val != 'TypeError':
                ok = False
                rep.violate('unsupported node accepted', f, o.node, f'connect with a {which} of another type gives {o.kind} {o.val if o.kind == "raise" else ""} instead of TypeError')
        rep.done(f'connect refuses a {which} of another type', ok if S else None)
