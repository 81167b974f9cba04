"""Removing a node: the effects of remove_node, and of taking an edge away, compared with their specification."""
from report import *

ONE = '''
    del {e}.$start$.$out$[{e}.id]
    del {e}.$end$.$inn$[{e}.id]
'''
REMOVE = '''
def f(self, node):
    node = self.get_node(node=node)
    for e in list(node.$out$.values()):
        del node.$out$[e.id]
        del e.$end$.$inn$[e.id]
    for e in list(node.$inn$.values()):
        del e.$start$.$out$[e.id]
        del node.$inn$[e.id]
    node.$graph$ = None
    del self.$nodes$[node.id]
'''


def run(ctx, rep):
    F = ctx.proto.F
    end = {const(F['start']), const(F['end'])}
    tables = {'ddel', 'dset', 'dclear', 'dupdate', 'set', 'mutate', 'setdyn', 'api'}
    kw = dict(effects='spec', also=lambda e: e.kind in tables, ignore=(F['start'], F['end'], F['rid']))
    rep.spec('Graph', 'remove_node', REMOVE, view=none_ok, only_sets=node_graph(F), **kw)
    rep.spec('Node', 'remove_edges', REMOVE.replace('    node = self.get_node(node=node)\n', '').replace('(self, node)', '(self)').replace('node.', 'self.').split('    self.$graph$')[0], view=none_ok, only_sets=node_graph(F), **kw)
    rep.spec('Edge', 'remove_self', 'def f(self):\n    del self.$start$.$out$[self.id]\n    del self.$end$.$inn$[self.id]\n    self.$graph$ = None', view=none_ok, **kw)
    rep.spec('Graph', 'disconnect', 'def f(edge):\n    del edge.$start$.$out$[edge.id]\n    del edge.$end$.$inn$[edge.id]\n    edge.$graph$ = None', types={'edge': 'Edge'}, view=none_ok, **kw)
    for c, m in (('Graph', 'remove_node'), ('Node', 'remove_edges')):
        safe(ctx, rep, ctx.fn(c, m), F)
    detached(ctx, rep, F)


def none_ok(v, J):
    return NONE


def node_graph(F):
    """edges may or may not be cut off from their graph as well: only the nodes' mark is compared"""
    def ok(e, eng):
        return e.kind != 'set' or eng.cls_of(e.tgt, None) != 'Edge'
    return ok


def safe(ctx, rep, f, F):
    """no table changes while it is walked, no loop edge is taken out twice"""
    S = ctx.summary(f)
    if S is None:
        rep.done(f'{f.qual} walks copies', None)
        return
    ok = True
    for b in S.bads:
        if b[0] == 'live':
            ok = False
            rep.violate('table changed while walked', b[3] or f, b[2], b[1])
    for s, o in S.rets():
        for e in s.eff:
            if e.kind == 'ddel' and 'more' in e.flags and not any('same' == a.op for a, b in e.guards):
                ok = False
                rep.violate('loop edge removed twice', f, e.node, f'an edge from a node to itself is in both lists, so it is removed a second time: {show(e.tgt)[:200]}')
    rep.done(f'{f.qual} walks copies', ok)


def detached(ctx, rep, F):
    """the node that was removed belongs to no graph on every way out"""
    f = ctx.fn('Graph', 'remove_node')
    S = ctx.summary(f)
    if S is None:
        return
    ok, n = True, 0
    for s, o in S.rets():
        n += 1
        dels = [e for e in s.eff if e.kind == 'ddel' and e.tgt.op == 'fld' and e.tgt.args[1] == F['nodes']]
        sets = [e for e in s.eff if e.kind == 'set' and e.key in (const(F['graph']), F['graph']) and S.eng.freeze(e.val, s) is NONE and not e.frames]
        if not dels or not sets:
            ok = False
            rep.violate('node not taken out', f, o.node, 'the node stays in the table of nodes' if not dels else 'the removed node still names the graph')
    rep.done('remove_node detaches the node', ok if n else None, n=n)
