"""DOT statements: the text of a node or edge is read back as a statement and compared, alternative by alternative, with its name, ends, label, tooltip and style; the graph's text as header, one statement per node and one per edge."""
from report import *
from compare import Joint, opaque
import dot
from dot import Reader, statement, tokens, TooMany, deep_base, text_of, extend
from rules.c08 import both_ends

WANT = {
    'Node': '''
def f(self):
    return (self.$rid$,), self.display_label(), self._tooltip, self.$style$
''',
    'Edge': '''
def f(self):
    return (self.start.name, self.end.name), self.display_label_or_value(), self._tooltip, self.$style$
'''}


def run(ctx, rep):
    for c in ('Node', 'Edge'):
        one(ctx, rep, c)
    whole(ctx, rep)
    header(ctx, rep)


def none(J, t):
    """True / False / None: is the value missing in this situation"""
    v = J.lit_val(mk('isnone', t)) if t is not NONE else TRUE
    if v is TRUE or v is FALSE:
        return v is TRUE
    k = J.eng.known(mk('truth', t), J.st)
    return k if k is None else (False if k else None)


def missing(J, t):
    n = none(J, t)
    if n is None and J.eng.known(mk('truth', t), J.st) is False:
        return 'falsy'
    return n


def one(ctx, rep, c):
    f = ctx.fn(c, 'get_graphviz_str')
    stops = ctx.std_stops()
    S = ctx.summary(f, args={'self': sym('self', c)}, stops=stops)
    R = ctx.summary(spec_func(ctx, c, WANT[c]), args={'self': sym('self', c)}, stops=stops)
    name = f'{c}.get_graphviz_str'
    if S is None or R is None:
        return rep.done(name, None, 'budget')
    bad, und, n = [], [], 0
    for s, o in S.rets():
        v = S.eng.freeze(o.val, s)
        for r, p in R.rets():
            J = Joint(S.eng, s.facts, r.facts)
            if not J.ok:
                continue
            want = R.eng.freeze(p.val, r)
            try:
                alts = Reader().seqs(v, J)
            except TooMany:
                und.append('too many alternatives')
                continue
            for K, parts in alts:
                n += 1
                w = K.simp(want)
                b, u = judge(c, K, parts, w)
                op = opaque(v) or next((x for x in map(opaque, K.st.facts) if x is not None), None)
                for m in b:
                    (und if op is not None or s.lossy else bad).append((m + situation(K), o.node))
                und += u
    for m, node in {m: (m, node) for m, node in [x for x in bad]}.values():
        rep.violate('statement', f, node, m)
    rep.done(name, False if bad else None if und or not n else True, str(und[:2])[:300], n)


def situation(K):
    return ' [when ' + ', '.join(('' if b else 'not ') + show(a)[:90] for a, b in list(K.st.facts.items())[:5]) + ']'


def judge(c, K, parts, w):
    bad, und = [], []
    st = statement(parts)
    if st is None:
        txt = ''.join(p[1] if p[0] == 'c' else '<..>' for p in parts)
        if any(p[0] in ('rep', 'x') for p in parts):
            return [], ['not read: ' + txt[:80]]
        return [f'the text is no {c.lower()} statement: {txt[:200]}'], []
    ids, attrs, rest = st
    wids, wlabel, wtip, wstyle = w.args
    if len(ids) != len(wids.args):
        return [f'{len(ids)} names where {len(wids.args)} are needed'], []
    for got, want in zip(ids, wids.args):
        t = text_of(got)
        if t is None or deep_base(K.simp(t)) is not deep_base(want):
            bad.append(f'name {shown(got)} instead of {show(want)}')
    keys = [k for k, v in attrs]
    for k in ('label', 'tooltip'):
        want = wlabel if k == 'label' else wtip
        have = [v for q, v in attrs if q == k]
        if len(have) > 1:
            bad.append(f'{k} is given twice')
        nn = missing(K, want)
        if nn is None and want.op in ('ite', 'call', 'str', 'typed') and k == 'label' and c == 'Node':
            nn = False
        if not have:
            if nn is False:
                bad.append(f'{k} {show(want)[:100]} is left out')
            elif nn is None:
                und_or(bad, K, want, f'{k} is left out whether there is one or not')
            elif nn == 'falsy' and k == 'label':
                bad.append(f'{k} is left out when it is 0 or empty')
        else:
            if nn is True:
                bad.append(f'{k} is given although there is none')
            elif nn is None:
                und_or(bad, K, want, f'{k} is given whether there is one or not')
            t = text_of(have[0])
            if t is None or deep_base(K.simp(t)) is not deep_base(K.simp(want)):
                bad.append(f'{k} shows {shown(have[0])} instead of {show(want)[:150]}')
    styles = [t for t in rest if t[0] == 'd' and style_of(t[1]) is not None]
    other = [t for t in rest if t not in styles]
    if other:
        und.append('other text in the statement: ' + shown(other)[:100])
    ns = none(K, wstyle)
    if any(style_of(t[1]) is not wstyle for t in styles):
        bad.append('the style of something else is written')
    elif len(styles) > 1:
        bad.append('the style is written twice')
    elif styles and ns is not False:
        bad.append('a style is written whether there is one or not')
    elif not styles and not other and ns is not True:
        bad.append('the style is left out')
    return bad, und


def und_or(bad, K, want, msg):
    bad.append(msg)


def style_of(t):
    while t.op == 'typed':
        t = t.args[0]
    if t.op == 'pcall' and str(t.args[0]).endswith('.get_graphviz_str'):
        return t.args[1]
    return None


def shown(ps):
    return ''.join(p[1] if p[0] == 'c' else show(p[1])[:120] if isinstance(p[1], T) else '<..>' for p in ps)


# ------------------------------------------------------------------------------------------ the graph
def whole(ctx, rep):
    f = ctx.fn('Graph', 'get_graphviz_str')
    stops = dict(ctx.std_stops())
    for c in ('Node', 'Edge'):
        stops[(c, 'get_graphviz_str')] = ctx.call_stop(c + '.get_graphviz_str', 'str', pure=True)
    stops[('*', 'get_graphviz_header')] = ctx.call_stop('get_graphviz_header', 'str', pure=True)
    # which edges these list, and that each is listed once, is decided for C08
    for a in ('edges', 'edges_dict'):
        stops[('*', a)] = ctx.call_stop('Graph.' + a, 'list' if a == 'edges' else 'dict', pure=True)
    args = {p: sym(p) for p in ctx.params(f)}
    args['self'] = sym('self', 'Graph')
    S = ctx.summary(f, args=args, stops=stops)
    R = ctx.summary(spec_func(ctx, 'Graph', '''
def f(self):
    return [n for n in self.$nodes$.values()], [e for n in self.$nodes$.values() for e in n.$out$.values()]
'''), args={'self': sym('self', 'Graph')}, stops=stops)
    if S is None:
        return rep.done('Graph.get_graphviz_str', None, 'budget')
    ok, n, why = True, 0, ''
    from compare import canon
    for s, o in S.rets():
        for r, p in R.rets():
            J = Joint(S.eng, s.facts, r.facts)
            if not J.ok:
                continue
            want = R.eng.freeze(p.val, r).args
            try:
                alts = Reader().seqs(S.eng.freeze(o.val, s), J)
            except TooMany:
                ok, why = None, 'too many alternatives'
                continue
            for K, parts in alts:
                n += 1
                b, u = lists(ctx, K, parts, want)
                if u and not b:
                    ok, why = (ok and None), u
                for m in b:
                    ok = False
                    rep.violate('statements', f, o.node, m)
    rep.done('Graph.get_graphviz_str', ok if n else None, why, n)


def kind_of(t):
    while t.op == 'typed':
        t = t.args[0]
    if t.op == 'pcall' and t.args[0] in ('Node.get_graphviz_str', 'Edge.get_graphviz_str'):
        return t.args[0][:4], t.args[1]
    return None, t


def lists(ctx, K, parts, want):
    from compare import canon
    seen, b = {'Node': [], 'Edge': []}, []
    for p in parts:
        if p[0] != 'rep':
            continue
        for gu, v, fl in p[3]:
            v = K.simp(v)
            if v.op == 'cat':
                # text around each statement
                inner = [x for x in v.args if kind_of(x)[0]]
                if len(inner) != 1 or not all(is_const(x) for x in v.args if x not in inner):
                    return [], 'statements inside other text'
                v2 = inner[0]
            else:
                v2 = v
            k, x = kind_of(v2)
            if k is None:
                return [], f'not read: {show(v)[:100]}'
            sep = cval(p[2]) if is_const(p[2]) else None
            around = ''.join(str(cval(x)) for x in v.args if is_const(x)) if v.op == 'cat' else ''
            if sep is None or not re_blank(sep + around):
                return [f'statements are not separated: {sep!r}'], None
            if k == 'Edge' and 'dedupe' in fl.split(','):
                if any(kind_of(y)[0] == 'Edge' for y in K.eng.by_other):
                    return [], 'statements are left out for what was seen before'
                return ['edges with the same text are written only once: one is left out'], None
            seen[k].append(from_nodes(K, mk('gen', x, NONE, fl, p[1], mk('guards', *[l for l in gu if not attached(l)])), b))
    heads = [p for p in parts if p[0] == 'd']
    if len([p for p in heads if any(x.op == 'pcall' and x.args[0] == 'get_graphviz_header' for x in subterms(p[1]))]) != 1:
        return [], 'header not found'
    nodes = canon(K.simp(mk('coll', 'list', *seen['Node'])), 'bag')
    w = canon(K.simp(want[0]), 'bag')
    if nodes is not w:
        if opaque(nodes):
            return [], 'nodes: ' + show(opaque(nodes))[:100]
        b.append(f'node statements for {show(nodes)[:250]} instead of {show(w)[:150]}')
    src = [g.args[3].args[0].args[1] for g in seen['Edge'] if len(g.args[3].args) == 1]
    if len(seen['Edge']) == 1 and src and listed(g0 := seen['Edge'][0], src[0]):
        if g0.args[4].args:
            b.append('an edge is left out: ' + show(g0)[:200])
        return b + nesting(parts), None
    ev = both_ends(K.simp(mk('coll', 'list', *seen['Edge'])), K)
    for i, g in enumerate(seen['Edge']):
        if 'again' in g.args[2].split(',') or i and 'dedupe' not in g.args[2].split(',') and not g.args[4].args:
            b.append(f'an edge is written again by {show(g)[:200]}')
    edges, w = canon(ev, 'set'), canon(K.simp(want[1]), 'set')
    if edges is not w:
        if opaque(edges):
            return [], 'edges: ' + show(opaque(edges))[:100]
        b.append(f'edge statements for {show(edges)[:250]} instead of {show(w)[:150]}')
    return b + nesting(parts), None


def attached(l):
    """an edge that is listed has a start and an end"""
    a, b = l.args
    return not b and a.op == 'isnone' and a.args[0].op == 'fld' and a.args[0].args[0].op == 'el' and a.args[0].args[1] in ('_start', '_end')


def own_list(src):
    """the node whose edges are listed"""
    while src.op in ('dv', 'typed', 'listof'):
        src = src.args[0]
    if src.op in ('rel', 'pcall') and str(src.args[0]).split('.')[-1] == 'edges' and src.args[1].op == 'el':
        return src.args[1]


def from_nodes(K, g, b):
    """the edges of every node of the graph: those that start there, once each"""
    val, key, fl, fr, gu = g.args
    if len(fr.args) != 2:
        return g
    node, src = own_list(fr.args[1].args[1]), fr.args[1].args[1]
    if node is None or val.op != 'el' or val.args[0] is not src or node is not mk('el', node.args[0], fr.args[0].args[0]):
        return g
    if not {'dedupe', 'each'} & set(fl.split(',')):
        b.append('an edge is written again at its other end')
    d = fld(node, K.eng.F['out'])
    f2 = fr.args[1]
    return mk('gen', mk('el', d, *val.args[1:]), key, fl, mk(fr.op, fr.args[0], mk(f2.op, f2.args[0], mk('dv', d), *f2.args[2:])), gu)


def listed(g, src):
    """does it run once over what Graph.edges or Graph.edges_dict lists"""
    me = sym('self', 'Graph')
    while src.op in ('dv', 'typed', 'listof'):
        src = src.args[0]
    v = g.args[0]
    return src.op in ('rel', 'pcall') and src.args[0] in ('Graph.edges', 'Graph.edges_dict') and src.args[1] is me and v.op == 'el' and g.args[2] in ('', 'dedupe')


def nesting(parts):
    b = []
    # nesting: everything lies inside the braces the header opens
    d = 1
    for t in tokens([('c', p[1]) if p[0] == 'c' else ('d', NONE) for p in parts]):
        d += {'{': 1, '}': -1}.get(t[0], 0)
        if t[0] == 'd' and d < 1:
            b.append('text after the closing brace')
    if d != 0:
        b.append('braces do not close')
    return b


def re_blank(s):
    return any(ch.isspace() or ch in ';,' for ch in s)


def header(ctx, rep):
    """strict digraph exactly for strict graphs, ordering=out exactly when ordering is off"""
    f = ctx.fn('Graph', 'get_graphviz_header')
    me = sym('self', 'Graph')
    args = {p: sym(p) for p in ctx.params(f)}
    args['self'] = me
    S = ctx.summary(f, args=args, stops=ctx.std_stops())
    if S is None:
        return rep.done('Graph.get_graphviz_header', None, 'budget')
    strict, order = fld(me, '_is_strict'), fld(me, '_ordering')
    words = ('strict', 'digraph', 'ordering')

    def relevant(x):
        return x in (strict, order) or is_const(x) and isinstance(cval(x), str) and any(w in cval(x) for w in words)
    ok, n, why = True, 0, ''
    for s, o in S.rets():
        J = Joint(S.eng, s.facts)
        if not J.ok:
            continue
        try:
            alts = Reader(relevant).seqs(S.eng.freeze(o.val, s), J)
        except TooMany:
            ok, why = None, 'too many alternatives'
            continue
        for K, parts in alts:
            n += 1
            ts = tokens(parts)
            ws = [t[1] for t in ts[:2] if t[0] == 'w']
            has_strict = ws[:1] == ['strict']
            dig = ws[has_strict:][:1] == ['digraph']
            out = any(ts[i] == ('w', 'ordering') and i + 2 < len(ts) and ts[i + 1] == ('=',) and ts[i + 2] in (('w', 'out'), ('q', [('c', 'out')])) for i in range(len(ts)))
            ks, ko = K.eng.known(mk('truth', strict), K.st), K.eng.known(mk('truth', order), K.st)
            for cond, have, want, what in ((True, dig, True, 'digraph'), (ks, has_strict, ks, 'strict'), (ko, out, not ko, 'ordering=out')):
                if cond is None:
                    ok = False
                    rep.violate('header', f, o.node, f'{what} is {"written" if have else "left out"} whatever the graph says')
                elif have != want:
                    ok = False
                    rep.violate('header', f, o.node, f'{what} is {"written" if have else "left out"}' + situation(K))
    rep.done('Graph.get_graphviz_header', ok if n else None, why, n)
