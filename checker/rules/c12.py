"""filter: the nodes removed from the copy, for every direction and filter type, against the requested set."""
from report import *
from terms import guards_t
from compare import WRITES, spec_func, effect_terms
from rules.c10 import rel_stops


SPEC = """
def f(self, nodes=None):
    wanted = []
    for x in nodes or []:
        node = self.get_node(node=x)
        wanted.append(node.name)
        ANC
        DESC
    g = self.copy()
    for name in KEEP:
        g.remove_node(node=name)
    return g
"""


def run(ctx, rep):
    f = ctx.fn('Graph', 'filter')
    rep.signature(f, spec_func(ctx, 'Graph', "def f(self, nodes=None, direction='to_and_from', filter_type='include'):\n    return None"), 'Graph', 'filter')
    st = stops(ctx)
    for d in ('to', 'from', 'to_and_from'):
        for t in ('include', 'exclude'):
            src = SPEC.replace('ANC', 'for a in self.get_ancestors(node=node, distance=False):\n            wanted.append(a.name)' if d != 'from' else 'pass')
            src = src.replace('DESC', 'for a in self.get_descendants(node=node, distance=False):\n            wanted.append(a.name)' if d != 'to' else 'pass')
            src = src.replace('KEEP', '[n for n in self.$nodes$.keys() if n not in wanted]' if t == 'include' else '[n for n in self.$nodes$.keys() if n in wanted]')
            args = {'nodes': sym('nodes', 'list'), 'direction': const(d), 'filter_type': const(t)}
            rep.against(f, spec_func(ctx, 'Graph', src), 'set', stops=st, args=args, effects=lambda e: e.kind in WRITES, excs=False, name=f'Graph.filter({d}, {t})', eview=removal, cls='Graph')
            if d == 'to_and_from' and rep.obligations[-1][1] == 'undecided':
                skipped(ctx, rep, f, args, st)


def skipped(ctx, rep, f, args, st):
    """a given node whose relatives are only looked up when it was not collected before, as ancestor or descendant of another"""
    S = ctx.summary(f, args=args, stops=st)
    for s, o in (S.rets() if S is not None else ()):
        for t in effect_terms(S.eng, s, lambda e: e.kind in WRITES):
            for x in subterms(t):
                if x.op != 'coll':
                    continue
                odd = {y.args[0] for g in x.args[1:] if 'dedupe_odd' in g.args[2] for y in subterms(g) if y.op == 'rel'}
                if {'get_ancestors', 'get_descendants'} <= odd:
                    rep.violate('relatives left out', f, o.node, 'ancestors and descendants of a given node are only looked up when it is not already among the ancestors and descendants of the others: a descendant has ancestors of its own')
                    rep.obligations[-1] = (rep.obligations[-1][0], 'violated', '')
                    return


def removal(t, J):
    """a node of the copy goes by the same name as in the original; removing it by object or by name is the same"""
    F = J.eng.F
    m = {}
    for x in subterms(t):
        if x.op == 'fld' and x.args[1] == F['nodes'] and any(y.op == 'apiret' and y.args[0] == 'copy' for y in subterms(x.args[0])):
            m[x] = fld(sym('self', 'Graph'), F['nodes'])
    if m:
        t = sub(t, m)
    k = t.args[0].args
    ND = fld(sym('self', 'Graph'), F['nodes'])
    if cval(k[0]) == 'api' and cval(k[2]) == 'remove_node' and k[3].op == 'tup' and k[3].args:
        # removing what a list says is removing every node that the list says
        fr = t.args[3].args
        v = k[3].args[0].args[1]
        if fr and fr[0].args[1] not in (mk('dv', ND), ND, mk('dk', ND), mk('di', ND)):
            eng = J.eng
            name = eng.id_of_node(v) if eng.cls_of(v, J.st) == 'Node' else v
            it = eng.fresh_it()
            x = eng.id_of_node(mk('el', ND, it))
            ex = eng.mk_ex_frozen(t.args[3], t.args[4], [(name, x)], J.st)
            neg = ex.op == 'not'
            fr2, parts = eng.close([(it, mk('dv', ND))], [k[1], x, ex.args[0] if neg else ex])
            new = mk('tup', k[0], parts[0], k[2], mk('tup', mk('kw', 'node', parts[1])))
            return J.simp(mk('gen', new, NONE, t.args[2], fr2, guards_t([(parts[2], not neg)])))
    if cval(k[0]) == 'api' and cval(k[2]) == 'remove_node' and k[3].op == 'tup' and k[3].args:
        v = k[3].args[0].args[1]
        if J.eng.cls_of(v, J.st) == 'Node':
            new = mk('tup', k[0], k[1], k[2], mk('tup', mk('kw', 'node', J.eng.id_of_node(v))))
            t = mk('gen', new, *t.args[1:])
    return t


def stops(ctx):
    s = rel_stops(ctx)
    s[('*', 'copy')] = ctx.call_stop('copy', 'Graph')
    return s
