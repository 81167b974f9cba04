"""Similarity: from the summary of is_similar_to, every difference the statement names is assumed together with each way of answering True; none may be possible, and no way out may be an exception."""
from report import *
from compare import Joint, opaque

DIFFERENT = {
    'Graph': {
        'numbers of nodes': 'len(self.$nodes$) != len(other.$nodes$)',
        'nodes missing': 'any(i not in other.$nodes$ for i in self.$nodes$)',
        'strictness': 'self._is_strict != other._is_strict',
        'ordering': 'self._ordering != other._ordering',
        'values of nodes': 'any(i in other.$nodes$ and other.$nodes$[i].$value$ != e.$value$ for i, e in self.$nodes$.items())',
        'parameters of nodes': 'any(i in other.$nodes$ and other.$nodes$[i]._parameters != e._parameters for i, e in self.$nodes$.items())',
        'styles of nodes': 'any(i in other.$nodes$ and other.$nodes$[i].$style$ != e.$style$ for i, e in self.$nodes$.items())',
        'numbers of outward edges': 'any(i in other.$nodes$ and len(other.$nodes$[i].$out$) != len(n.$out$) for i, n in self.$nodes$.items())',
        'outward edges missing': 'any(i in other.$nodes$ and any(j not in other.$nodes$[i].$out$ for j in n.$out$) for i, n in self.$nodes$.items())',
        'values of edges': 'any(i in other.$nodes$ and any(j in other.$nodes$[i].$out$ and other.$nodes$[i].$out$[j].$value$ != e.$value$ for j, e in n.$out$.items()) for i, n in self.$nodes$.items())',
        'parameters of edges': 'any(i in other.$nodes$ and any(j in other.$nodes$[i].$out$ and other.$nodes$[i].$out$[j]._parameters != e._parameters for j, e in n.$out$.items()) for i, n in self.$nodes$.items())',
        'styles of edges': 'any(i in other.$nodes$ and any(j in other.$nodes$[i].$out$ and other.$nodes$[i].$out$[j].$style$ != e.$style$ for j, e in n.$out$.items()) for i, n in self.$nodes$.items())',
    },
}


def run(ctx, rep):
    for part in (level, itself):
        try:
            with limit(150):
                part(ctx, rep, 'Graph')
        except OutOfTime:
            rep.done(part.__name__, None, 'out of time')


def boolean(v):
    if v.op == 'ite':
        return boolean(v.args[1]) and boolean(v.args[2])
    return v in (TRUE, FALSE) or v.op in ('eq', 'same', 'in', 'isnone', 'isinst', 'nonempty', 'ex', 'not', 'lt', 'le', 'truth', 'and', 'or', 'bool')


def level(ctx, rep, c):
    f = ctx.fn(c, 'is_similar_to')
    me, other = sym('self', c), sym('other', c)
    S = ctx.summary(f, args={'self': me, ctx.params(f)[0]: other})
    if S is None:
        return rep.done(f'{c}.is_similar_to', None, 'budget')
    bad, und = 0, []
    for s, o in S.exits:
        if o.kind == 'raise' and Joint(S.eng, s.facts).ok:
            if s.lossy or unclear(ctx, s, TRUE):
                und.append('raise')
                continue
            bad += 1
            rep.violate('raises', f, o.node, f'{c}.is_similar_to can fail with {o.val}')
    rep.done(f'{c}: no exception', False if bad else None if und else True, n=len(S.exits))
    yes, bad, und = [], 0, []
    for s, o in S.rets():
        v = S.eng.freeze(o.val, s)
        if v is FALSE or not Joint(S.eng, s.facts).ok:
            continue
        if not boolean(v):
            if v.op == 'const':
                bad += 1
                rep.violate('answer', f, o.node, f'{c}.is_similar_to can answer {show(v)[:80]}')
            else:
                und.append(show(v)[:80])
        yes.append((s, o, v))
    rep.done(f'{c}: True or False', False if bad else None if und or not yes else True, str(und[:2])[:200])
    for what, src in DIFFERENT[c].items():
        st = rep.given(c, src, {'self': me, 'other': other})
        bad, und = [], []
        for s, o, v in yes:
            J = Joint(S.eng, s.facts, list(st.facts.items()) + ([(mk('truth', v) if not boolean(v) else v, True)] if v is not TRUE else []))
            if J.ok and 'numbers of nodes' == what and same_keys(rep, c, me, other, S, s, v):
                continue
            if J.ok:
                (und if s.lossy or unclear(ctx, s, v) else bad).append(o.node)
        for n in bad:
            rep.violate('similar', f, n, f'{c}.is_similar_to can answer True with different {what}')
        rep.done(f'{c}: {what}', False if bad else None if und or not yes else True, n=len(yes))


def same_keys(rep, c, me, other, S, s, v):
    """no node is missing on either side, so the numbers agree"""
    for a, b in (('self', 'other'), ('other', 'self')):
        st = rep.given(c, f'any(i not in {b}.$nodes$ for i in {a}.$nodes$)', {'self': me, 'other': other})
        if Joint(S.eng, s.facts, list(st.facts.items()) + ([(mk('truth', v) if not boolean(v) else v, True)] if v is not TRUE else [])).ok:
            return False
    return True


def of_name(ctx, s):
    """the way out depends on what type a node's name is"""
    return any(a.op == 'isinst' and a.args[0].op == 'fld' and a.args[0].args[-1] == ctx.proto.F['rid'] for a in s.facts)


def unclear(ctx, s, v):
    """what was found on the way to this answer includes something not followed"""
    return of_name(ctx, s) or opaque(v) is not None or any(opaque(a) is not None for a in s.facts)


def itself(ctx, rep, c):
    f = ctx.fn(c, 'is_similar_to')
    me = sym('self', c)
    S = ctx.summary(f, args={'self': me, ctx.params(f)[0]: me})
    if S is None:
        return rep.done(f'{c}: itself', None, 'budget')
    bad, und, n = [], [], 0
    for s, o in S.rets():
        v = S.eng.freeze(o.val, s)
        n += 1
        if v is TRUE:
            continue
        J = Joint(S.eng, s.facts, [(mk('truth', v) if not boolean(v) else v, False)] if v is not FALSE else [])
        if J.ok:
            (und if s.lossy or unclear(ctx, s, v) else bad).append(o.node)
    for x in bad:
        rep.violate('similar', f, x, f'{c}.is_similar_to can answer False for a graph and itself')
    rep.done(f'{c}: itself', False if bad else None if und or not n else True, n=n)
