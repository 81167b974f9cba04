"""Loop queries against reachability: ancestors are taken as a given relation and each query compared with what it must say of it."""
from report import *
from rules.c08 import truth


def run(ctx, rep):
    stops = rel_stops(ctx)
    A = 'self.get_ancestors(node={0}, distance=False)'
    N = 'self.get_node({0})'
    kw = dict(stops=stops, excs=False, view=truth)
    rep.spec('Graph', 'is_node_in_loop', f'def f(self, node):\n    return {N.format("node")} in {A.format(N.format("node"))}', 'set', **kw)
    rep.spec('Graph', 'are_nodes_in_same_loop', f'''
def f(self, node1, node2):
    a = {N.format("node1")}
    b = {N.format("node2")}
    return a in {A.format("b")} and b in {A.format("a")}
''', 'set', **kw)
    rep.spec('Graph', 'loop_nodes', f'def f(self):\n    return [n for n in self.$nodes$.values() if n in {A.format("n")}]', 'list', stops=stops, excs=False)
    rep.spec('Node', 'is_in_loop', 'def f(self):\n    return self in self.$graph$.get_ancestors(node=self, distance=False)', 'set', **kw)
    rep.spec('Node', 'is_in_loop_with', '''
def f(self, other):
    return self in self.$graph$.get_ancestors(node=other, distance=False) and other in self.$graph$.get_ancestors(node=self, distance=False)
''', 'set', args={'other': same_graph(ctx, 'other')}, **kw)
    rep.spec('Edge', 'is_in_loop', '''
def f(self):
    a = self.start
    b = self.end
    g = a.$graph$
    return a in g.get_ancestors(node=b, distance=False) and b in g.get_ancestors(node=a, distance=False)
''', 'set', **kw)


def same_graph(ctx, n):
    """another node of the graph of the node asked"""
    F = ctx.proto.F
    return mk('el', fld(fld(sym('self', 'Node'), F['graph']), F['nodes']), sym(n))


def rel_stops(ctx):
    s = dict(ctx.std_stops())
    for q in ('get_ancestors', 'get_descendants'):
        for c in ('Graph', 'BasicGraph', 'GraphWithoutDisplay', '*'):
            s[(c, q)] = relation(ctx, q)
    return s


def relation(ctx, q):
    """relatives of a node as a known collection of nodes; a name and the node it stands for have the same ones"""
    def h(eng, st, recv, args, node):
        n = args.get('node')
        d = args.get('distance')
        f = ctx.fn('Graph', q)
        st = st.copy()
        n = eng.freeze(n, st) if isinstance(n, T) else NONE
        a = mk('tup', mk('kw', 'distance', eng.freeze(d, st) if isinstance(d, T) else TRUE), mk('kw', 'node', n))
        return [(st, mk('rel', q, recv if isinstance(recv, T) else NONE, a))]
    return h
