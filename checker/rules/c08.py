"""Neighbour queries: each is compared with the collection that follows from the recorded edges."""
from report import *
from compare import canon

N = 'self.get_node(node)'


def run(ctx, rep):
    node = {
        'parents': '[e.start for e in self.$inn$.values()]',
        'children': '[e.end for e in self.$out$.values()]',
        'inward_edges': '[e for e in self.$inn$.values()]',
        'outward_edges': '[e for e in self.$out$.values()]',
        'edges': '[e for e in self.$out$.values()] + [e for e in self.$inn$.values()]',
        'siblings': '[c for e in self.$inn$.values() for c in [f.end for f in e.start.$out$.values()] if c is not self]',
        'co_parents': '[p for e in self.$out$.values() for p in [f.start for f in e.end.$inn$.values()] if p is not self]',
    }
    for m, src in node.items():
        rep.spec('Node', m, f'def f(self):\n    return {src}', 'set')
    graph = {
        'get_parents': f'[e.start for e in {N}.$inn$.values()]',
        'get_children': f'[e.end for e in {N}.$out$.values()]',
        'get_inward_edges': f'[e for e in {N}.$inn$.values()]',
        'get_outward_edges': f'[e for e in {N}.$out$.values()]',
        'get_edges': f'[e for e in {N}.$out$.values()] + [e for e in {N}.$inn$.values()]',
        'get_siblings': f'[f.end for e in {N}.$inn$.values() for f in e.start.$out$.values() if f.end is not {N}]',
        'get_spouses': f'[f.start for e in {N}.$out$.values() for f in e.end.$inn$.values() if f.start is not {N}]',
    }
    for m, src in graph.items():
        rep.spec('Graph', m, f'def f(self, node):\n    return {src}', 'set', excs=False)
    rep.spec('Graph', 'edges', 'def f(self):\n    return [e for n in self.$nodes$.values() for e in n.$out$.values()]', 'set', view=both_ends)
    rep.spec('Graph', 'edges_dict', 'def f(self):\n    return {e.id: e for n in self.$nodes$.values() for e in n.$out$.values()}', 'set')
    rep.spec('Graph', 'nodes', 'def f(self):\n    return [n for n in self.$nodes$.values()]', 'bag')
    for what in ('parents', 'children', 'siblings', 'spouses'):
        rep.spec('Graph', 'num_' + what, f'def f(self, node):\n    return len(self.get_{what}(node=node))', 'set', excs=False)
        rep.spec('Graph', 'has_' + what, f'def f(self, node):\n    return len(self.get_{what}(node=node)) > 0', 'set', excs=False, view=truth)
    rep.spec('Node', 'has_parents', 'def f(self):\n    return len(self.parents) > 0', 'set', view=truth)
    rep.spec('Node', 'has_children', 'def f(self):\n    return len(self.children) > 0', 'set', view=truth)
    rep.spec('Node', 'num_outward_edges', 'def f(self):\n    return len(self.$out$)', 'set')
    once(ctx, rep)


def truth(v, J):
    """what a caller's `if` sees"""
    return J.eng.mk_truth(v, J.st)


def both_ends(v, J):
    """the edges of a graph are listed at their start and at their end: either list stands for them"""
    F = J.eng.F
    if v.op != 'coll':
        return v
    out = []
    for g in v.args[1:]:
        val, key, fl, fr, gu = g.args
        if len(fr.args) == 2 and val.op == 'el':
            src = fr.args[1].args[1]
            d = src.args[0] if src.op == 'dv' else src
            if d.op == 'fld' and d.args[1] == F['inn'] and val.args[0] is d and d.args[0].op == 'el' and d.args[0].args[0] is (fr.args[0].args[1].args[0] if fr.args[0].args[1].op == 'dv' else None):
                new = fld(d.args[0], F['out'])
                g = sub(g, {d: new})
        out.append(g)
    return mk('coll', v.args[0], *out)


def once(ctx, rep):
    """edges of a graph and of a node: one entry per edge"""
    for cls in ('Graph', 'Node'):
        f = ctx.fn(cls, 'edges')
        S = ctx.summary(f)
        ok = True
        if S is not None:
            for s, o in S.rets():
                v = S.eng.freeze(o.val, s)
                if v.op == 'coll' and v.args[0] == 'list' and len(v.args) > 2:
                    for i, g in enumerate(v.args[1:]):
                        if any(x.startswith('dedupe_') for x in g.args[2].split(',')):
                            ok = None if ok else ok
                        elif 'again' in g.args[2].split(',') or i and 'dedupe' not in g.args[2].split(',') and not g.args[4].args:
                            ok = False
                            rep.violate('edge listed twice', f, o.node, f'a loop edge or an edge between two nodes of the graph is listed again by: {show(g)[:300]}')
        rep.done(f'{cls}.edges lists each edge once', ok)
