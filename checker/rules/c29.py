"""Style copies: every field the constructor sets is followed through copy, through the pickled state and back, and through invert_colours; the original may not be written."""
import ast
from report import *
from compare import Joint

CLASSES = ('NodeStyle', 'EdgeStyle')


def run(ctx, rep):
    for c in CLASSES:
        for part in (copied, pickled, inverted):
            try:
                with limit(60):
                    part(ctx, rep, c)
            except OutOfTime:
                rep.done(f'{c} {part.__name__}', None, 'out of time')


def fields(ctx, c):
    """attributes that the class's own methods set on self"""
    k = ctx.prog.classes[c]
    out = {}
    for kk in ctx.prog.mro(k):
        m = kk.members.get('__init__')
        if isinstance(m, Func):
            me = m.node.args.args[0].arg
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    p, _ = ctx.prog.lookup(k, n.attr)
                    if not isinstance(p, Prop):
                        out[n.attr] = m
    return out


def colours(fs):
    return [f for f in fs if f.endswith(('colour', 'color')) and 'based' not in f]


def settled(me, fs):
    """a style whose colours are all there"""
    st = St()
    for a in colours(fs):
        t = fld(me, a)
        st.facts[mk('truth', t)] = True
        st.facts[mk('isnone', t)] = False
        st.facts[mk('isinst', t, 'colouration.Colour')] = True
        st.facts[mk('isinst', t, 'str')] = False
    return st


def plain(t):
    """a colour made of a colour is the same colour"""
    while True:
        if t.op == 'made' and str(t.args[0]).endswith('.Colour') and len(t.args) == 2:
            x = t.args[1]
            x = x.args[1] if x.op == 'kw' and x.args[0] == 'obj' else x
            if x.op == 'kw':
                return t
            t = x
        elif t.op in ('deepcopy', 'copyof', 'typed') and isinstance(t.args[0], T):
            t = t.args[0]
        elif t.op == 'call' and t.args[0] in ('.copy', 'copy.copy', 'copy.deepcopy') and len(t.args) > 1:
            t = t.args[1]
        elif t.op == 'ite':
            a, b = plain(t.args[1]), plain(t.args[2])
            return a if a is b else mk('ite', t.args[0], a, b)
        else:
            return t


def alike(J, got, want):
    got = plain(J.simp(got))
    if got is want:
        return True
    if got.op == 'ite':
        out = []
        for b, x in ((True, got.args[1]), (False, got.args[2])):
            K = Joint(J.eng, J.st.facts, [(got.args[0], b)])
            if K.ok:
                out.append(alike(K, x, want))
        return all(out)
    if got.op == 'const' or want.op == 'const':
        # a truth value known in this situation
        for a in (True, False):
            if got is const(a):
                return J.lit_val(mk('truth', want)) is (TRUE if a else FALSE)
    return False


def check(ctx, rep, c, f, S, pick, only=None, new=True):
    """every field of the object picked equals the original's"""
    me = sym('self', c)
    fs = fields(ctx, c)
    bad, und, n = {}, [], 0
    for s, o in S.rets():
        J = Joint(S.eng, s.facts)
        if not J.ok:
            continue
        v = pick(S, s, o)
        if v is None or v is me:
            if new:
                bad[f'the result is {"the original itself" if v is me else "nothing"}'] = o.node
            continue
        if s.lossy:
            und.append('not followed')
        whole = v.op in ('deepcopy', 'copyof')
        if whole and v.args[0] is me:
            base = True
        elif v.op in ('new', 'sym') or v.op == 'apiret':
            base = False
        else:
            und.append(show(v)[:80])
            continue
        for k in sorted(fs):
            if only is not None and k not in only:
                continue
            n += 1
            got = s.heap.get((v, k))
            if got is None:
                if not base:
                    bad[f'{k} is not taken over'] = o.node
                continue
            got = S.eng.freeze(got, s)
            if not alike(J, got, fld(me, k)):
                bad[f'{k} becomes {show(plain(J.simp(got)))[:150]}'] = o.node
        for e in s.eff:
            if e.kind in ('set', 'setitem', 'delitem', 'del') and (e.tgt is me or fld_of(e.tgt, me)):
                bad[f'the original is changed: {show(e.tgt)}.{show(e.key)}'] = e.node or o.node
    for m, node in bad.items():
        rep.violate('copy', f, node, f'{c}: {m}')
    return bad, und, n


def fld_of(t, me):
    return t.op == 'fld' and t.args[0] is me


def copied(ctx, rep, c):
    me, fs = sym('self', c), fields(ctx, c)
    f = ctx.fn(c, 'copy')
    S = ctx.summary(f, args={'self': me}, st=settled(me, fs))
    if S is None:
        return rep.done(f'{c}.copy', None, 'budget')
    bad, und, n = check(ctx, rep, c, f, S, lambda S, s, o: S.eng.freeze(o.val, s))
    rep.done(f'{c}.copy', False if bad else None if und or not n else True, str(und[:2])[:200], n)


def pickled(ctx, rep, c):
    me, fs = sym('self', c), fields(ctx, c)
    k = ctx.prog.classes[c]
    g, h = (ctx.prog.lookup(k, m)[0] for m in ('__getstate__', '__setstate__'))
    if not isinstance(g, Func) and not isinstance(h, Func):
        return rep.done(f'{c} state', True, 'default state', 1)
    src = f'''
def f(self, other):
    state = {"self.__getstate__()" if isinstance(g, Func) else "dict(vars(self))"}
    {"other.__setstate__(state)" if isinstance(h, Func) else "vars(other).update(state)"}
    return other
'''
    if not (isinstance(g, Func) and isinstance(h, Func)):
        return rep.done(f'{c} state', None, 'only one of __getstate__ and __setstate__')
    f = spec_func(ctx, c, src)
    other = sym('other', c)
    S = ctx.summary(f, args={'self': me, 'other': other}, st=settled(me, fs))
    if S is None:
        return rep.done(f'{c} state', None, 'budget')
    bad, und, n = check(ctx, rep, c, h, S, lambda S, s, o: other)
    for s, o in S.exits:
        if o.kind == 'raise' and o.implicit:
            bad['fails'] = o.node
            rep.violate('copy', h, None, f'{c}: unpickling raises {o.val}')
    rep.done(f'{c} state', False if bad else None if und or not n else True, str(und[:2])[:200], n)


def inverted(ctx, rep, c):
    me, fs = sym('self', c), fields(ctx, c)
    f = ctx.fn(c, 'invert_colours')
    S = ctx.summary(f, args={'self': me}, st=settled(me, fs))
    if S is None:
        return rep.done(f'{c}.invert_colours', None, 'budget')
    keep = [k for k in fs if 'colour' not in k and 'color' not in k]
    bad, und, n = check(ctx, rep, c, f, S, lambda S, s, o: S.eng.freeze(o.val, s), only=keep)
    rep.done(f'{c}.invert_colours', False if bad else None if und or not n else True, str(und[:2])[:200], n)
