"""Render options: the attributes of the DOT header are read alternative by alternative against direction, size and padding; every text that is returned or saved must come from a header made with the caller's options; rendering styles first and saves to the path and format asked for."""
from report import *
from compare import Joint, opaque
from dot import Reader, tokens, TooMany, deep_base, extend
from rules.c17 import situation, shown

OPTS = ('direction', 'height', 'width', 'pad')


def run(ctx, rep):
    for part in (header, texts, svg):
        try:
            with limit(100):
                part(ctx, rep)
        except OutOfTime:
            rep.done(part.__name__, None, 'out of time')


# ----------------------------------------------------------------------------------------- the header
def wanted(ctx):
    f = spec_func(ctx, 'Graph', '''
def f(self, direction, height, width, pad):
    d = direction or self._direction
    return d.upper(), height, width, pad, d.upper() == 'TB'
''')
    return ctx.summary(f, args={'self': sym('self', 'Graph'), **{p: sym(p) for p in OPTS}}, stops=ctx.std_stops())


def header(ctx, rep):
    f = ctx.fn('Graph', 'get_graphviz_header')
    me = sym('self', 'Graph')
    args = {p: sym(p) for p in ctx.params(f)}
    if not set(OPTS) <= set(args):
        return rep.done('Graph.get_graphviz_header', None, 'parameters')
    args['self'] = me
    S, R = ctx.summary(f, args=args, stops=ctx.std_stops()), wanted(ctx)
    if S is None or R is None:
        return rep.done('Graph.get_graphviz_header', None, 'budget')
    mine = {sym(p) for p in OPTS} | {fld(me, '_direction')}
    words = ('rankdir', 'size', 'pad')

    def relevant(x):
        return x in mine or is_const(x) and isinstance(cval(x), str) and any(w in cval(x).replace('fontsize', '') for w in words)
    bad, und, n = {}, [], 0
    for s, o in S.rets():
        for r, p in R.rets():
            J = Joint(S.eng, s.facts, r.facts)
            if not J.ok:
                continue
            try:
                alts = Reader(relevant).seqs(S.eng.freeze(o.val, s), J)
            except TooMany:
                und.append('too many alternatives')
                continue
            want = R.eng.freeze(p.val, r)
            for K, parts in alts:
                n += 1
                b, u = judge(K, parts, want)
                und += u
                for m in b:
                    bad[m + situation(K)] = o.node
        if s.lossy:
            und.append('not followed')
    for m, node in bad.items():
        rep.violate('options', f, node, m)
    rep.done('Graph.get_graphviz_header', False if bad else None if und or not n else True, str(und[:2])[:200], n)


def judge(K, parts, want):
    direction, height, width, pad, is_tb = (K.simp(x) for x in want.args)
    ts = tokens(parts)
    if any(t[0] == 'open' for t in ts):
        return [], ['quotes']
    got = {}
    for i in range(len(ts) - 2):
        k = ts[i][1] if ts[i][0] == 'w' else ''.join(p[1] for p in ts[i][1] if p[0] == 'c') if ts[i][0] == 'q' else None
        if ts[i + 1] == ('=',) and k in ('rankdir', 'size', 'pad'):
            v = ts[i + 2]
            got.setdefault(k, []).append(v[1] if v[0] == 'q' else [v])
    bad, und = [], []
    for k, vs in got.items():
        if len(vs) > 1:
            und.append(k + ' twice')

    def pieces(inner):
        return [p[1] if p[0] == 'c' else K.simp(deep_base(p[1])) if p[0] in 'd' else None for p in inner if p != ('c', '')]

    def none(t):
        return True if t is NONE else {TRUE: True, FALSE: False}.get(K.lit_val(mk('isnone', t)))
    # direction
    tb = {TRUE: True, FALSE: False}.get(K.lit_val(is_tb))
    d = got.get('rankdir')
    if d is None:
        if tb is None and not is_const(direction):
            bad.append('the direction is left out whatever it is')
        elif tb is False:
            bad.append('the direction is left out')
    else:
        v = pieces(d[0])
        if not (len(v) == 1 and (v[0] is deep_base(direction) or isinstance(v[0], str) and is_const(direction) and v[0] == cval(direction) or tb and v[0] == 'TB')):
            if v and v[0] is None:
                und.append('direction not read')
            else:
                bad.append(f'the direction is written as {shown(d[0])} instead of {show(direction)}')
    # size
    h, w = none(height), none(width)
    size = got.get('size')
    if size is None:
        if any(a.op == 'truth' and not b and a.args[0].op == 'str' for a, b in K.st.facts.items()):
            pass        # numbers have a text
        elif any(a.op == 'truth' and a.args[0].op in ('join', 'cat', 'coll', 'ite') for a in K.st.facts):
            und.append('size')
        elif h is False or w is False:
            bad.append('the size is left out')
        elif h is None or w is None:
            bad.append('the size is left out whether it is given or not')
    else:
        v = pieces(size[0])
        if None in (h, w):
            und.append('size not decided')
        else:
            exp = [x for x in ([] if w else [deep_base(width)]) + ([] if h or w else [',']) + ([] if h else [deep_base(height)])] + ['!']
            v = [x for y in v for x in (y.split() if isinstance(y, str) and not y.strip() else [y])]
            if v not in (exp, exp[:-1]):
                bad.append(f'the size is written as {shown(size[0])} instead of {",".join(x if isinstance(x, str) else show(x) for x in exp if x != ",")}')
    q = none(pad)
    p = got.get('pad')
    if p is None:
        if q is not True:
            bad.append('the padding is left out')
    elif pieces(p[0]) != [deep_base(pad)]:
        bad.append(f'the padding is written as {shown(p[0])}')
    return bad, und


# ----------------------------------------------------------------------------------------- where it goes
def stops_for(ctx, **more):
    stops = dict(ctx.std_stops())
    for c in ('Node', 'Edge'):
        stops[(c, 'get_graphviz_str')] = marked(ctx, c + '.get_graphviz_str')
    stops[('*', 'get_graphviz_header')] = ctx.call_stop('get_graphviz_header', 'str', pure=True)
    for a in ('edges', 'edges_dict'):
        stops[('*', a)] = ctx.call_stop('Graph.' + a, 'list' if a == 'edges' else 'dict', pure=True)
    return stops


def marked(ctx, name):
    """a pure call that leaves a mark of when it was made"""
    h = ctx.call_stop(name, 'str', pure=True)

    def g(eng, st, recv, args, node):
        out = h(eng, st, recv, args, node)
        for s, v in out:
            eng.effect(s, 'api', recv, const('DOT'), mk('tup'), node)
        return out
    return g


def heads(t):
    return {x for x in subterms(t) if x.op == 'pcall' and x.args[0] == 'get_graphviz_header'}


def same(K, a, b):
    a, b = K.simp(a), K.simp(b)
    if a is b:
        return True
    na, nb = (True if x is NONE else K.lit_val(mk('isnone', x)) is TRUE for x in (a, b))
    return na and nb


def effective(K, v):
    """what the header uses: the direction, or the graph's own when it is missing or empty"""
    own = fld(sym('self', 'Graph'), '_direction')
    return K.simp(mk('ite', K.eng.mk_truth(v, K.st), v, own))


def passed(K, hd, given):
    """what is wrong with the options a header is made with"""
    kw = {k.args[0]: k.args[1] for k in hd.args[2].args}
    bad = []
    for p in OPTS:
        v, want = kw.get(p, NONE), given[p]
        if p == 'direction':
            a, b = effective(K, v), effective(K, want)
            ok = a is b or v is fld(sym('self', 'Graph'), '_direction') and b is v
        else:
            ok = same(K, v, want)
        if not ok:
            bad.append(f'{p} is {show(v)[:80]} instead of {show(want)[:80]}')
    return bad


def texts(ctx, rep):
    me = sym('self', 'Graph')
    for m in ('get_graphviz_str', 'get_graphviz_source', 'render'):
        f = ctx.fn('Graph', m)
        ps = ctx.params(f)
        args = {p: sym(p) for p in ps}
        args['self'] = me
        if not set(OPTS) <= set(args):
            rep.done('Graph.' + m, None, 'parameters')
            continue
        S = ctx.summary(f, args=args, stops=stops_for(ctx))
        if S is None:
            rep.done('Graph.' + m, None, 'budget')
            continue
        bad, und, n = {}, [], 0
        for s, o in S.exits:
            J = Joint(S.eng, s.facts)
            if not J.ok or o.kind != 'ret':
                continue
            if s.lossy:
                und.append('not followed')
            v = S.eng.freeze(o.val, s)
            saved, shown_, styled, drawn, early, written = [], [], 0, 0, False, None
            for e in s.eff:
                if e.kind == 'api' and e.key is const('stylize') and not e.frames:
                    styled += 1
                elif e.kind == 'api' and e.key is const('DOT'):
                    drawn += 1
                    early = early or not styled
                elif e.kind == 'xcall' and is_const(e.tgt) and cval(e.tgt) == '.render':
                    saved.append(e)
            saved = [(e, K) for e in saved for K in [extend(J, lits(e))] if K is not None]
            ts = [('returned', v, J)] + [('saved', e.val, K) for e, K in saved]
            for what, t, J0 in ts:
                hs = heads(t)
                if not hs:
                    und.append(f'no header in what is {what}')
                for hd in hs:
                    for K in cases(J0, t, hd):
                        n += 1
                        for b in passed(K, hd, {p: sym(p) for p in OPTS}):
                            bad[f'in what is {what}, {b}' + situation(K)] = o.node
            if m == 'render':
                if early or not styled:
                    bad['the text is made before the graph is styled' if styled else 'the graph is not styled first'] = o.node
                path = sym('path')
                isn = mk('isnone', path)
                for e, K in saved:
                    if K.lit_val(isn) is not FALSE:
                        bad['a file is written although there is no path'] = o.node
                    b, u = file(K, e, path, sym('view') if 'view' in ps else None)
                    und += u
                    for x in b:
                        bad[x] = o.node
                K = extend(J, [(isn, False)])
                K = K and unwritten(K, [lits(e) for e, _ in saved])
                if K is not None:
                    bad['nothing is written to the path' + situation(K)] = o.node
        for x, node in bad.items():
            rep.violate('options', f, node, x)
        rep.done('Graph.' + m, False if bad else None if und or not n else True, str(und[:2])[:200], n)


def lits(e):
    return [(l.args[0], l.args[1]) if isinstance(l, T) else l for l in (e.guards.args if isinstance(e.guards, T) else e.guards)]


def unwritten(K, gs):
    """a situation in which none of the guarded effects takes place"""
    if not gs:
        return K
    for a, b in gs[0]:
        L = extend(K, [(a, not b)])
        if L is not None:
            L = unwritten(L, gs[1:])
            if L is not None:
                return L
    return None


def cases(J, t, hd):
    """the situations in which this header is used"""
    out = []

    def walk(x, K):
        if K is None or hd not in set(subterms(x)):
            return
        if x is hd:
            out.append(K)
            return
        if x.op == 'ite':
            c = K.lit_val(x.args[0])
            if hd in set(subterms(x.args[0])):
                out.append(K)
            if c is not FALSE:
                walk(x.args[1], extend(K, [(x.args[0], True)]))
            if c is not TRUE:
                walk(x.args[2], extend(K, [(x.args[0], False)]))
            return
        for y in x.args:
            if isinstance(y, T):
                walk(y, K)
    walk(t, J)
    return out[:40]


def file(J, e, path, view):
    t = e.val
    kw = {x.args[0]: x.args[1] for x in t.args if isinstance(x, T) and x.op == 'kw'}
    pos = [x for x in t.args[1:] if isinstance(x, T) and x.op != 'kw'][1:]
    bad, und = [], []
    for name, v in zip(('filename', 'directory', 'view', 'cleanup', 'format'), pos):
        kw.setdefault(name, v)
    vw = kw.get('view', FALSE)
    if view is not None and not same(J, vw, view):
        bad.append(f'view is {show(vw)} instead of what the caller gave')
    if 'outfile' in kw:
        if not same(J, kw['outfile'], path):
            und.append('outfile')
        return bad, und
    name = J.simp(kw.get('filename', NONE))
    stem, ext = 0, 1

    def piece(x, i):
        return x.op == 'item' and x.args[0].op == 'call' and str(x.args[0].args[0]).endswith('splitext') and path in x.args[0].args and is_const(x.args[1]) and cval(x.args[1]) == i
    if piece(name, stem):
        pass
    elif name is NONE or is_const(name) or name is path:
        bad.append(f'the file is written to {show(name)}')
    else:
        und.append('file name ' + show(name)[:100])
    fm = J.simp(kw.get('format', NONE))
    if not any(piece(x, ext) for x in subterms(fm)):
        if is_const(fm) and not knows_empty(J, path):
            bad.append(f'the format is {show(fm)} whatever the path')
        elif not is_const(fm):
            und.append('format ' + show(fm)[:100])
    return bad, und


def knows_empty(J, path):
    """is it known that the path names no format"""
    for a, b in J.st.facts.items():
        if any(x.op == 'item' and is_const(x.args[1]) and cval(x.args[1]) == 1 and path in set(subterms(x)) for x in subterms(a)) and not b and a.op == 'truth':
            return True
    return False


# ----------------------------------------------------------------------------------------- svg and html
def svg(ctx, rep):
    me, extra = sym('self', 'Graph'), sym('extra', 'dict')
    for m, inner in (('get_svg', 'render'), ('get_html', 'get_svg'), ('_repr_html_', 'get_svg')):
        if ctx.prog.lookup(ctx.prog.need_class('Graph') if not isinstance(ctx.prog.need_class('Graph'), str) else ctx.prog.classes['Graph'], m)[0] is None:
            rep.done('Graph.' + m, None, 'missing')
            continue
        f = ctx.fn('Graph', m)
        ps = ctx.params(f)
        args = {p: sym(p) for p in ps}
        args['self'] = me
        if m != '_repr_html_':
            args['**'] = extra
        S = ctx.summary(f, args=args, stops={**stops_for(ctx), ('*', 'render'): ctx.call_stop('render')})
        if S is None:
            rep.done('Graph.' + m, None, 'budget')
            continue
        bad, und, n = {}, [], 0
        for s, o in S.exits:
            J = Joint(S.eng, s.facts)
            if not J.ok or o.kind != 'ret':
                continue
            calls = [e for e in s.eff if e.kind == 'api' and e.key is const('render')]
            v = S.eng.freeze(o.val, s)
            used = [x for x in subterms(v) if x.op == 'apiret' and x.args[0] == 'render']
            if not used or not calls:
                und.append('not rendered')
                continue
            for x in set(used):
                n += 1
                kw = {k.args[0]: k.args[1] for k in x.args[3].args if k.op == 'kw'}
                for p in OPTS + ('dpi', 'path', 'view'):
                    have = J.simp(kw.get(p, NONE))
                    if p in args:
                        want = sym(p)
                    elif '**' in args:
                        if have.op == 'kwopt' and have.args[0] is extra and str(cval(have.args[1]) if isinstance(have.args[1], T) else have.args[1]) == p:
                            continue
                        if p in ('dpi', 'path', 'view') and is_const(have):
                            continue
                        bad[f'{p} given by the caller does not reach render' + situation(J)] = o.node
                        continue
                    else:
                        continue
                    ok = effective(J, have) is effective(J, want) if p == 'direction' else same(J, have, want)
                    if not ok:
                        bad[f'{p} is {show(have)[:80]} instead of what the caller gave' + situation(J)] = o.node
        for x, node in bad.items():
            rep.violate('options', f, node, x)
        rep.done('Graph.' + m, False if bad else None if und or not n else True, str(und[:2])[:200], n)
