"""Roots, absolute roots and leaves: each is compared with the collection it must be; roots against the nodes less the descendants of nodes still standing."""
from report import *
from rules.c10 import rel_stops
import ast


def run(ctx, rep):
    stops = rel_stops(ctx)
    rep.spec('Graph', 'absolute_roots', 'def f(self):\n    return [n for n in self.$nodes$.values() if len(n.$inn$) == 0]', 'set', excs=False, stops=stops)
    rep.spec('Graph', 'leaves', 'def f(self):\n    return [n for n in self.$nodes$.values() if len(n.$out$) == 0]', 'set', excs=False, stops=stops)
    roots(ctx, rep, stops)


def roots(ctx, rep, stops):
    """roots: all nodes, less the descendants of every node that is still standing when it is met"""
    f = ctx.fn('Graph', 'roots')
    S = ctx.summary(f, stops=stops)
    if S is None:
        rep.done('Graph.roots', None, 'budget')
        return
    F = S.eng.F
    nodes = fld(sym('self', 'Graph'), F['nodes'])
    ok, why = True, ''
    for s, o in S.rets():
        v = S.eng.freeze(o.val, s)
        while v.op in ('listof', 'typed', 'dv', 'sorted', 'dk') and isinstance(v.args[0], T) and v.args[0].op in ('coll', 'dv', 'listof', 'sorted'):
            v = v.args[0]
        r = judge(v, nodes, F, S.eng)
        if r is None:
            ok, why = (ok and None), 'form of the search not recognised'
        elif r:
            ok = False
            rep.violate('not the roots', f, o.node, f'{r}: {show(v)[:400]}')
    rep.done('Graph.roots', ok, why)


def all_nodes(g, nodes):
    fr = g.args[3].args
    return len(fr) == 1 and fr[0].args[1] in (nodes, mk('dv', nodes), mk('dk', nodes), mk('di', nodes))


def judge(v, nodes, F, eng):
    """'' right, text wrong, None not decided"""
    if v.op == 'dv' and v.args[0] is nodes:
        return 'every node is returned'
    if v.op != 'coll':
        return None
    gens = v.args[1:]
    kinds = [g.args[2].split(',') for g in gens]
    if any('open' in k or 'fuzz' in k for k in kinds):
        return None
    minus = [g for g, k in zip(gens, kinds) if 'minus' in k]
    plus = [g for g, k in zip(gens, kinds) if 'minus' not in k]
    if not minus:
        if all(all_nodes(g, nodes) for g in plus) and not any(x.op == 'rel' for g in plus for x in subterms(g)) and opaque_free(v):
            return 'nodes of a loop that nothing leads to are no descendants of any root'
        return None
    if len(plus) != 1 or not all_nodes(plus[0], nodes):
        return None
    if plus[0].args[4].args:
        if not any(x.op in ('rel', 'unk', 'inopen', 'lv') for x in subterms(plus[0].args[4])):
            return 'some nodes are not considered'
        return None
    for g in minus:
        fr = g.args[3].args
        if len(fr) != 2 or fr[0].args[1] not in (nodes, mk('dv', nodes), mk('dk', nodes), mk('di', nodes)):
            return None
        src = fr[1].args[1]
        while src.op in ('listof', 'setof', 'sorted') and isinstance(src.args[0], T):
            src = src.args[0]
        if src.op != 'rel':
            if src.op == 'dv' and src.args[0].op == 'fld' and src.args[0].args[1] in (F['out'], F['inn']):
                return 'only the neighbours of a node are taken away, not all its descendants'
            return None
        if src.args[0] != 'get_descendants':
            return f'{src.args[0]} are taken away, not the descendants'
        gs = [(l.args[0], l.args[1]) for l in g.args[4].args]
        mine = [(a, b) for a, b in gs if a.op == 'inopen']
        other = [(a, b) for a, b in gs if a.op != 'inopen']
        if not mine:
            return 'descendants are also taken away for nodes that were taken away before, so a loop leaves no root'
        if any(not b for a, b in mine):
            return 'descendants are taken away for the wrong nodes'
        if other:
            other = [(a, b) for a, b in other if a.op not in ('same', 'eq')]
            inner = mk('el', fr[1].args[1], fr[1].args[0])
            about = [(a, b) for a, b in other if contains(a, inner) and not opaque_in(a)
                     and not (a.op == 'nonempty' and a.args[0].op == 'fld' and a.args[0].args[1] == F['inn'])]
            if about:
                return f'descendants are only taken away under a condition on them ({", ".join(("" if b else "not ") + show(a)[:120] for a, b in about)})'
            if other:
                return None
    return ''




def opaque_in(a):
    return any(x.op in ('unk', 'inopen', 'lv', 'lh', 'phi', 'accum') for x in subterms(a))


def opaque_free(v):
    from compare import opaque
    return opaque(v) is None
