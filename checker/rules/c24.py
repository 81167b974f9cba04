"""Comparisons of nodes and edges: each operator against its definition on two arbitrary objects; hashes use only what equality compares."""
import ast
from report import *
from compare import opaque
from rules.c08 import truth


def view(v, J):
    v = truth(v, J)

    def go(t):
        if t.op == 'le' and len(t.args) == 2:
            return go(mk('not', mk('lt', t.args[1], t.args[0])))
        if t.op == 'lt' and t.args[0].op == 'tup' and t.args[1].op == 'tup' and len(t.args[0].args) == len(t.args[1].args):
            for p, q in zip(t.args[0].args, t.args[1].args):
                e = J.lit_val(mk('lit', J.eng.mk_eq(p, q, J.st), True))
                if e is TRUE:
                    continue
                if e is FALSE:
                    return go2(mk('lt', p, q))
                return t
            return FALSE
        if t.op == 'eq' and t.args[0].op == 'tup' and t.args[1].op == 'tup' and len(t.args[0].args) == len(t.args[1].args):
            left = []
            for p, q in zip(t.args[0].args, t.args[1].args):
                e = J.lit_val(mk('lit', J.eng.mk_eq(p, q, J.st), True))
                if e is FALSE:
                    return FALSE
                if e is not TRUE:
                    left.append(e)
            return TRUE if not left else left[0].args[0] if len(left) == 1 and left[0].args[1] else mk('and', *left)
        if t.op == 'not':
            x = go(t.args[0])
            if x.op == 'lt' and J.lit_val(mk('lit', J.eng.mk_eq(x.args[0], x.args[1], J.st), True)) is FALSE:
                return go2(mk('lt', x.args[1], x.args[0]))
            return mk_not(x)
        return go2(t)

    def go2(t):
        if t.op == 'lt':
            e = J.lit_val(mk('lit', J.eng.mk_eq(t.args[0], t.args[1], J.st), True))
            if e is TRUE:
                return FALSE
            k = J.st.facts.get(mk('lt', t.args[1], t.args[0]))
            if k is True:
                return FALSE
            k2 = J.st.facts.get(mk('le', t.args[1], t.args[0]))
            if k2 is False:
                return TRUE
            if k is False and e is FALSE:
                return TRUE
        return t
    return J.simp(go(v))


def run(ctx, rep):
    ctx.inline_cmp = True
    derived = {a for c in ctx.prog.mro(ctx.prog.need_class('Node')) for d in c.node.decorator_list
               if (d.attr if isinstance(d, ast.Attribute) else getattr(d, 'id', '')) == 'total_ordering' for a in ('__lt__', '__le__', '__gt__', '__ge__')}
    have = 0
    for m, op in (('__lt__', '<'), ('__le__', '<='), ('__gt__', '>'), ('__ge__', '>=')):
        if m in derived and ctx.prog.lookup(ctx.prog.need_class('Node'), m) is None and have + 1:
            rep.done(f'Node.{m}', True, 'derived by total_ordering')
            continue
        have += 1
        rep.spec('Node', m, f"""
def f(self, other):
    if self.$index$ == other.$index$:
        if self.$rid$ == other.$rid$:
            return {'=' in op}
        return self.$rid$ {op[0]} other.$rid$
    return self.$index$ {op[0]} other.$index$
""", types={'other': 'Node'}, view=view, excs=False)
    for m, op in (('__eq__', '=='), ('__ne__', '!=')):
        if m == '__ne__' and ctx.prog.lookup(ctx.prog.need_class('Node'), m) is None:
            continue
        rep.spec('Node', m, f"""
def f(self, other):
    if not isinstance(other, Node):
        raise TypeError(0)
    return {'not ' if op == '!=' else ''}(self.$index$ == other.$index$ and self.$rid$ == other.$rid$)
""", view=view)
    for m, op in (('__eq__', '=='), ('__ne__', '!=')):
        if m == '__ne__' and ctx.prog.lookup(ctx.prog.need_class('Edge'), m) is None:
            continue
        rep.spec('Edge', m, f"""
def f(self, other):
    if not isinstance(other, Edge):
        raise TypeError(0)
    if self.$graph$ != other.$graph$:
        raise ValueError(0)
    return self.id {op} other.id
""", view=truth, types={})
    hashes(ctx, rep)


def hashes(ctx, rep):
    F = ctx.proto.F
    for cls, allowed in (('Node', {F['index'], F['rid']}), ('Edge', {F['graph'], F['start'], F['end'], F['rid']})):
        mro = ctx.prog.mro(ctx.prog.need_class(cls))
        eq = next((c for c in mro if '__eq__' in c.members), None)
        hs = next((c for c in mro if '__hash__' in c.members), None)
        if eq is None:
            rep.violate('no equality', ctx.fn(cls, '__init__'), None, f'{cls} has no __eq__')
            rep.done(f'{cls} hash', False)
            continue
        if hs is None or mro.index(hs) > mro.index(eq):
            rep.violate('unhashable', ctx.fn(cls, '__eq__'), None, f'{eq.name} defines __eq__ without __hash__, so its objects cannot be hashed')
            rep.done(f'{cls} hash', False)
            continue
        m = hs.members['__hash__']
        if not isinstance(m, Func):
            rep.done(f'{cls} hash', None, 'not a method')
            continue
        S = ctx.summary(m, args={'self': sym('self', cls)})
        ok = True if S is not None else None
        for s, o in (S.rets() if S is not None else ()):
            v = S.eng.freeze(o.val, s)
            op = opaque(v)
            # calls the analysis does not know may put what they are given into the result
            ts = list(subterms(v)) + [y for e in s.eff if e.kind in ('xcall', 'impure') for t in (e.tgt, e.key, e.val) if isinstance(t, T) for y in subterms(t)]
            for x in ts:
                if x.op == 'fld' and x.args[1] not in allowed and not (isinstance(x.args[1], str) and x.args[1].startswith('__')):
                    ok = False
                    rep.violate('hash not a function of what equality compares', m, o.node, f'{show(x)} enters the hash of {cls}: equal objects may differ in it')
                if x.op == 'call' and x.args and str(x.args[0]) in ('id', 'object.__hash__') or x.op == 'id':
                    ok = False
                    rep.violate('hash not a function of what equality compares', m, o.node, f'{show(x)}: the address of the object enters its hash')
            if op is not None and ok:
                ok = None
        rep.done(f'{cls} hash', ok)
