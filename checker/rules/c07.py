"""Queries: no write to anything that existed before the call, no stored container handed out, no remembered answer."""
import ast
from report import *
from compare import WRITES

WRITERS = {'__init__', '__setstate__', 'add_node', 'remove_node', 'connect', 'disconnect', 'connect_to', 'connect_from', 'remove_self', 'remove_edges', 'append', 'stylize',
           'append_outward_edge', 'append_inward_edge', 'remove_outward_edge', 'remove_inward_edge', 'update_edges', 'update_nodes', 'freeze', 'unfreeze', 'set', '__setitem__',
           'generate_node_index', 'render', 'get_svg', 'get_graphviz_source', 'get_graphviz_str', 'get_html', '_repr_html_', 'get_graphviz_header', 'add', '__iadd__'}
LIVE = {'nodes_dict', 'outward_edges_dict', 'inward_edges_dict'}      # documented as the tables themselves
USER = {'value', 'get', '__getitem__', 'style', 'raw_label', 'label', 'raw_id', 'id', 'name', 'index', 'graph', 'graph_style'}   # hand back what the user stored


def queries(ctx):
    for f in ctx.prog.funcs:
        if f.cls is None or f.cls.name not in ('Node', 'Edge', 'GraphObj') and not ctx.prog.subclass('Graph', f.cls.name):
            continue
        if f.name in WRITERS and not (f.name == 'get_graphviz_str' and f.cls.name in ('Node', 'Edge')):
            continue
        if f.kind == 'setter' or (f.name.startswith('_') and not f.name.startswith('__')):
            continue
        m = f.cls.members.get(f.name)
        if isinstance(m, Prop) and f is not m.get:
            continue
        yield f


def run(ctx, rep):
    F = ctx.proto.F
    base = ctx.std_stops()
    for f in queries(ctx):
        stops = dict(base)
        for q in ('get_ancestors', 'get_descendants', 'stylize'):
            stops[('*', q)] = ctx.call_stop(q, pure=q != 'stylize')
        for q in ('get_ancestors', 'get_descendants'):
            stops[('*', '_' + q)] = ctx.call_stop('_' + q, pure=True)
        for k in [k for k in stops if k[0] == '*' and k[1] == f.name]:
            del stops[k]
        cls = f.cls.name if f.cls.name in ('Node', 'Edge') else 'Node' if f.cls.name == 'GraphObj' else 'Graph'
        args = {p: sym(p) for p in ctx.params(f)}
        if f.cls.name != 'GraphObj' and f.kind not in ('static', 'class'):
            args['self'] = sym('self', cls)
        S = ctx.summary(f, args=args, stops=stops, seconds=30)
        if S is None:
            rep.done(f'{f.qual} only reads', None, 'budget')
            continue
        ok = True
        for s, o in S.exits:
            for e in s.eff:
                if e.kind == 'cache':
                    ok = False
                    rep.violate('answer remembered', f, e.node, f'{show(e.key)} is kept and not worked out again after the graph has changed')
                elif e.kind in WRITES - {'warn'} or e.kind == 'rec':
                    fr = True if e.kind == 'rec' else fresh(e.tgt, s)
                    if fr is None:
                        ok = ok and None
                    if fr is not False:
                        continue
                    ok = False
                    rep.violate('query writes', f, e.node, f'{e.kind} {show(e.tgt)[:150]} {show(e.key)[:80] if isinstance(e.key, T) else e.key}')
            if o.kind == 'ret' and f.name not in LIVE and f.name not in USER:
                for v in leaves(S.eng.freeze(o.val, s)):
                    if stored(v, S.eng, s):
                        ok = False
                        rep.violate('stored container handed out', f, o.node, f'{show(v)[:200]} itself is returned, not a copy')
            v = o.val if o.kind == 'ret' else None
            if isinstance(v, T) and v.op == 'dflt':
                ok = False
                rep.violate('answer shared between calls', f, o.node, f'the default value of {v.args[1]} is returned')
        rep.done(f'{f.qual} only reads', ok, n=len(S.exits))
    static(ctx, rep)


def fresh(t, s):
    """made during this call (None: inside something made here)"""
    while isinstance(t, T):
        if t.op in ('new', 'made', 'call', 'apiret', 'pcall', 'deepcopy'):
            if t.op == 'pcall':
                return False
            return True
        if t.op in ('el', 'item', 'fld') and isinstance(t.args[0], T):
            if t.op == 'fld':
                t = t.args[0]
                continue
            t = t.args[0]
            continue
        if t.op in ('coll', 'typed', 'sorted', 'listof', 'dv', 'dk', 'di'):
            if t.op == 'coll':
                return None
            t = t.args[0]
            continue
        return None if t.op in ('unk', 'lv', 'phi', 'maybe', 'ite') else False
    return None


def leaves(v):
    if v.op == 'ite':
        return leaves(v.args[1]) + leaves(v.args[2])
    if v.op in ('typed', 'maybe'):
        return leaves(v.args[0]) if isinstance(v.args[0], T) else [v]
    return [v]


def stored(v, eng, s):
    if v.op in ('dv', 'dk', 'di'):
        v = v.args[0]
        return v.op == 'fld' and fresh(v, s) is False
    if v.op == 'fld' and fresh(v, s) is False:
        return v.args[1] in (eng.F['out'], eng.F['inn'], eng.F['nodes']) or eng.cls_of(v, s) in ('dict', 'list', 'set')
    if v.op == 'glob':
        return eng.cls_of(v, s) in ('dict', 'list', 'set')
    return False


def static(ctx, rep):
    """no memoising decorator and no mutable default that is written"""
    n, ok = 0, True
    for f in ctx.prog.funcs:
        for d in getattr(f.node, 'decorator_list', []):
            n += 1
            x = d.func if isinstance(d, ast.Call) else d
            name = x.attr if isinstance(x, ast.Attribute) else getattr(x, 'id', '')
            if name in ('lru_cache', 'cache', 'cached_property'):
                a = f.node.args
                if f.cls is not None and (f.cls.name in ('Node', 'Edge', 'GraphObj') or ctx.prog.subclass('Graph', f.cls.name)):
                    ok = False
                    rep.violate('answer remembered', f, d, f'@{name} keeps the first answer of {f.qual}')
    rep.done('no memoised query', ok, n=n)
