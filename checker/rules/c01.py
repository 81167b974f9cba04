"""Both-ends recording: on every way out of every public operation the writes to the two tables of edges pair up."""
from report import *
from compare import effect_terms, net, Joint
from rules.c04 import CASES

HALF = {'append_outward_edge', 'append_inward_edge', 'remove_outward_edge', 'remove_inward_edge', '__setstate__', 'update_edges', 'update_nodes'}


def public(ctx):
    out = []
    for f in ctx.prog.funcs:
        if f.cls is None or f.cls.name not in ('Node', 'Edge') and not ctx.prog.subclass('Graph', f.cls.name):
            continue
        if f.name in HALF or f.name.startswith('_') and not f.name.startswith('__'):
            continue
        out.append(f)
    return out


def run(ctx, rep):
    F = ctx.proto.F
    for f in public(ctx):
        stops = dict(ctx.style_stops())
        for name, cls in (('stylize', None), ('append', None)):
            if f.name != name:
                stops[('*', name)] = ctx.call_stop(name, cls)
        for q in ('get_ancestors', 'get_descendants', '_get_ancestors', '_get_descendants'):
            if f.name != q:
                stops[('*', q)] = ctx.call_stop(q, pure=True)
        if f.name != 'remove_node':
            stops[('*', 'remove_node')] = ctx.call_stop('remove_node')
        args = {p: sym(p) for p in ctx.params(f)}
        if f.name == 'disconnect':
            args = {p: sym(p, 'Edge') for p in args}
        if f.cls.name == 'Edge' and f.name == '__init__':
            args.update(graph=sym('graph', ctx.proto.GRAPH), start=sym('start', 'Node'), end=sym('end', 'Node'))
        if f.name not in ('connect', 'add_node', '__init__'):
            stops[('*', 'connect')] = ctx.call_stop('connect', 'Edge')
            stops[('*', 'add_node')] = ctx.call_stop('add_node', 'Node')
        if f.cls.name not in ('Node', 'Edge', 'BasicGraph') and f.name in ('__init__', 'random', 'get_svg', 'get_html', '_repr_html_', 'render', 'get_graphviz_source', 'get_graphviz_str', 'stylize', '__graph__', 'from_dict'):
            stops.update(ctx.std_stops())
            for q in ('get_graphviz_source', 'render', 'get_svg', '_get_svg', 'get_graphviz_str', 'stylize'):
                if q != f.name:
                    stops[('*', q)] = ctx.call_stop(q)
            for q in ('stylize_with_pensieve', 'stylize_randomly'):
                stops[('', q)] = ctx.call_stop(q)
        if f.name == 'connect':
            args = {p: sym(p) for p in ('start', 'end', 'id', 'label', 'value', 'style', 'if_edge_exists')}
        ok, n = True, 0
        for st in ([None] if f.name != 'connect' else [rep.given('Graph', c, args, stops=stops) for c in CASES]):
            S = ctx.summary(f, args=args, stops=stops, seconds=20, st=st)
            if S is None:
                ok = ok and None
                continue
            ok = pairs(ctx, rep, f, S, F) and ok
            n += len(S.exits)
        rep.done(f'{f.qual} pairs its writes', ok, n=n)


def pairs(ctx, rep, f, S, F):
    eng = S.eng
    ok = True
    for s, o in S.exits:
        terms = {'out': [], 'inn': []}
        ends = []
        for e in s.eff:
            if e.kind in ('dset', 'ddel', 'dclear', 'dupdate', 'mutate') and e.tgt.op == 'fld' and e.tgt.args[1] in (F['out'], F['inn']):
                terms['out' if e.tgt.args[1] == F['out'] else 'inn'].append(e)
            elif e.kind == 'set' and key(e) in (F['out'], F['inn']) and not (isinstance(e.tgt, T) and e.tgt.op == 'new'):
                terms['out' if key(e) == F['out'] else 'inn'].append(e)
            elif e.kind == 'set' and key(e) in (F['start'], F['end'], F['rid']) and not (isinstance(e.tgt, T) and e.tgt.op == 'new') and eng.cls_of(e.tgt, s) in ('Edge', 'Node'):
                ends.append(e)
        if any(b.op in ('or',) for e in terms['out'] + terms['inn'] for b, v in e.guards) and s.lossy:
            continue
        J = Joint(eng, s.facts)
        def form(e):
            """id of the edge, the two ends, the conditions and loops it happens in"""
            fr = tuple((i, eng.freeze(x, s)) for i, x in e.frames)
            gu = frozenset((J.simp(eng.freeze(a, s)), b) for a, b in e.guards)
            return e.kind, J.simp(eng.freeze(e.key, s)) if isinstance(e.key, T) else None, J.simp(eng.freeze(e.val, s)) if isinstance(e.val, T) else None, fr, gu
        todo = {k: [(e, form(e)) for e in v] for k, v in terms.items()}
        for k, other in (('out', 'inn'), ('inn', 'out')):
            for e, t in todo[k]:
                if any(a is FALSE and b or a is TRUE and not b for a, b in t[4]):
                    continue
                if e.kind in ('dset', 'ddel'):
                    match = [u for g, u in todo[other] if u[:3] == t[:3]]
                    if not match:
                        # the same edge taken out of the other table under another name for it
                        match = [u for g, u in todo[other] if u[0] == t[0] and bulk(eng, e, g, F)]
                    if not match and any(g.kind in ('dclear', 'set', 'mutate', 'dupdate') for g, u in todo[other]):
                        match = [1]
                    if not match:
                        ok = False
                        rep.violate('recorded at one end only', f, e.node, f'{"adds" if e.kind == "dset" else "removes"} {show(e.key)[:150]} {"to" if e.kind == "dset" else "from"} {show(e.tgt)[:150]} but not the other end')
                        continue
                    if e.kind == 'dset':
                        ok &= keyed(ctx, rep, f, eng, s, e, t, k, F)
                    # both in the same circumstances: the union of conditions has to agree
                    mine = union([u[4] for g, u in todo[k] if u[:4] == t[:4]])
                    his = union([u[4] for g, u in todo[other] if u[:3] == t[:3] and u[3] == t[3]])
                    if his and mine != his and not any(opq(a) for c in (mine, his) for q in c for a, b in q):
                        ok = False
                        rep.violate('recorded at one end only', f, e.node, f'{show(e.tgt)[:120]} is written under other conditions than the other end of {show(e.key)[:120]}')
                elif not todo[other] or (e.kind == 'dclear' and not any(u[0] in ('ddel', 'dclear', 'set', 'mutate') for g, u in todo[other])):
                    ok = False
                    rep.violate('recorded at one end only', f, e.node, f'{e.kind} on {show(e.tgt)[:150]}' + (f'.{key(e)}' if e.kind == 'set' else '') + ' with nothing done at the other ends')
        for e in ends:
            # an edge or node that stays recorded keeps its ends and id
            if key(e) == F['rid'] and eng.cls_of(e.tgt, s) == 'Node' and f.name not in ('__init__',):
                ok = False
                rep.violate('renamed in place', f, e.node, f'the name of a node is written: {show(e.tgt)[:150]}')
            if eng.cls_of(e.tgt, s) == 'Edge' and f.cls.name != 'Edge' or f.name not in ('__init__', '__setstate__', 'remove_self', 'raw_id'):
                gone = [d for d in s.eff if d.kind == 'ddel' and d.tgt.op == 'fld' and d.tgt.args[1] in (F['out'], F['inn'])] or any(d.kind in ('dclear', 'mutate', 'api') or d.kind == 'set' and key(d) in (F['out'], F['inn']) for d in s.eff)
                if not gone and eng.cls_of(e.tgt, s) == 'Edge':
                    ok = False
                    rep.violate('re-targeted in place', f, e.node, f'{key(e)} of a recorded edge is written: {show(e.tgt)[:150]}')
    return ok


def opq(a):
    from compare import opaque
    return opaque(a) is not None


def union(sets):
    from loops import simplify_dnf
    return frozenset(simplify_dnf(sets))


def key(e):
    return cval(e.key) if isinstance(e.key, T) and is_const(e.key) else e.key


def bulk(eng, e, g, F):
    return False


def keyed(ctx, rep, f, eng, s, e, t, k, F):
    """filed under (name of its start, name of its end, its own id), at its start or end"""
    val = t[2]
    if val is None:
        return True
    start, end, rid = (J_field(eng, s, val, F[x]) for x in ('start', 'end', 'rid'))
    owner = e.tgt.args[0]
    want = start if k == 'out' else end
    if want is not None and want is not owner:
        rep.violate('recorded at the wrong node', f, e.node, f'the edge from {show(start)[:80]} to {show(end)[:80]} is recorded in {show(e.tgt)[:120]}')
        return False
    if start is not None and end is not None and t[1].op == 'tup':
        want = (eng.id_of_node(start), eng.id_of_node(end), rid)
        if len(t[1].args) != 3 or any(x is not y and y is not None for x, y in zip(t[1].args, want)):
            rep.violate('recorded under another id', f, e.node, f'the edge is filed under {show(t[1])[:150]}, its id is ({", ".join(show(x)[:60] for x in want if x is not None)})')
            return False
    return True


def J_field(eng, s, o, a):
    if o.op == 'new':
        return s.heap.get((o, a))
    return None
