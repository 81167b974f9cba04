"""Quoting: every text of a DOT statement is walked with the state of its quotes; what is put between quotes must be
escaped, what is put into an HTML label must be HTML-escaped. The escaping is judged by what it does to runs of
backslashes: before every quote their number must be odd, at the end of the text even."""
import ast
import re._parser as sre
from report import *
from dot import is_textop, Reader, TooMany
from compare import Joint

ODD, EVEN = 1, 0
ANY = frozenset((0, 1))
TOP = (ANY, ANY, True)             # runs before quotes, run at the end, may hold < > &
SAFE = (frozenset(), frozenset((0,)), False)
KEEP = ('.upper', '.lower', '.title', '.capitalize', '.casefold', '.lstrip', '.expandtabs', '.swapcase', '.replace')


def run(ctx, rep):
    stops = ctx.std_stops()
    for cls, name in (('Node', 'get_graphviz_str'), ('Edge', 'get_graphviz_str'), ('Graph', 'get_graphviz_header'), ('Graph', 'get_graphviz_str'), ('NodeStyle', 'get_graphviz_str'), ('EdgeStyle', 'get_graphviz_str')):
        st = {k: v for k, v in stops.items() if k[0] != cls} if cls.endswith('Style') else dict(stops)
        if name == 'get_graphviz_str' and cls == 'Graph':
            for c in ('Node', 'Edge'):
                st[(c, 'get_graphviz_str')] = ctx.call_stop(c + '.get_graphviz_str', 'str', pure=True)
            st[('*', 'get_graphviz_header')] = ctx.call_stop('Graph.get_graphviz_header', 'str', pure=True)
        try:
            with limit(90):
                one(ctx, rep, cls, name, st)
        except OutOfTime:
            rep.done(f'{cls}.{name}', None, 'out of time')


def one(ctx, rep, cls, name, stops):
    f = ctx.fn(cls, name)
    args = {p: sym(p) for p in ctx.params(f)}
    args['self'] = sym('self', cls)
    S = ctx.summary(f, args=args, stops=stops)
    what = f'{cls}.{name}'
    if S is None:
        return rep.done(what, None, 'budget')
    A = Escapes(ctx, cls, f)
    start = ('out',)
    bad, und, n = {}, [], 0
    for s, o in S.rets():
        v = S.eng.freeze(o.val, s)
        facts = frozenset(s.facts.items())
        W = Walk(A, S.eng)
        ends = W.walk(v, {start}, facts)
        sure = [m for m in W.sure]
        if (W.bad or ends - {('out',)}) and not sure:
            # again, alternative by alternative
            try:
                alts = Reader(limit=4000).seqs(v, Joint(S.eng, s.facts))
            except TooMany:
                alts = None
            if alts is not None:
                W2 = Walk(A, S.eng)
                for K, parts in alts:
                    ends = {start}
                    for i, p in enumerate(parts):
                        ends = W2.part(p, ends, frozenset(K.st.facts.items()), parts[i + 1:])
                    if ends - {('out',)}:
                        W2.bad.append('a quote or HTML label is left open')
                W2.n = W.n
                W = W2
            elif ends - {('out',)}:
                W.und.append('quotes not followed')
                W.bad = []
        n += W.n
        und += W.und
        for m in [] if s.lossy else sure or W.bad:
            bad.setdefault(m, o.node)
        if s.lossy:
            und.append('not followed')
    for m, node in bad.items():
        rep.violate('quoting', f, node, m)
    for m, (g, node) in A.bad.items():
        rep.violate('escaping', g, node, m)
    rep.done(what, False if bad or A.bad else None if und or not S.rets() else True, str(und[:2])[:300], n)


class Walk:
    def __init__(self, A, eng):
        self.A, self.eng, self.bad, self.und, self.n, self.memo, self.sure = A, eng, [], [], 0, {}, []

    def walk(self, t, states, lits, nxt=''):
        if t.op in ('ite', 'join'):
            lits = frozenset(l for l in lits if l[0].op == 'isinst' or l[1] and l[0].op in ('truth', 'call'))
            k = (t, frozenset(states), lits, nxt)
            r = self.memo.get(k)
            if r is None:
                r = self.memo[k] = self.walk_(t, states, lits, nxt)
            return r
        return self.walk_(t, states, lits, nxt)

    def walk_(self, t, states, lits, nxt=''):
        o, a = t.op, t.args
        if o == 'const':
            return {step(s, str(cval(t))) for s in states}
        if o == 'cat':
            for i, x in enumerate(a):
                n = str(cval(a[i + 1])) if i + 1 < len(a) and is_const(a[i + 1]) else nxt if i + 1 == len(a) else ''
                states = self.walk(x, states, lits, n)
            return states
        if o == 'ite' and (is_textop(a[1]) or is_textop(a[2])):
            return self.walk(a[1], states, lits | {(a[0], True)}, nxt) | self.walk(a[2], states, lits | {(a[0], False)}, nxt)
        if o in ('typed', 'str') and isinstance(a[0], T) and is_textop(a[0]):
            return self.walk(a[0], states, lits, nxt)
        if o == 'join' and a[1].op in ('coll', 'listof', 'tupleof'):
            c = a[1]
            while c.op in ('listof', 'tupleof'):
                c = c.args[0]
            if c.op == 'coll' and all(g.op == 'gen' for g in c.args[1:]):
                return self.rep(a[0], [(g.args[4].args, g.args[0]) for g in c.args[1:]], states, lits)
        self.dyn(t, states, lits, nxt)
        return set(states)

    def rep(self, sep, alts, states, lits):
        all_, new = set(states), set(states)
        while new:
            got = set()
            for gu, v in alts:
                got |= self.walk(v, new, lits | {(l.args[0], l.args[1]) for l in gu})
            after = self.walk(sep, got, lits)
            new = (got | after) - all_
            if len(all_) > 40:
                break
            all_ |= got
            # a separator is followed by another item
            new = after - all_ if after - all_ else set()
            all_ |= after & {('out',)}
        return all_ if len(alts) else set(states)

    def part(self, p, states, lits, rest):
        if p[0] == 'c':
            return {step(s, p[1]) for s in states}
        if p[0] == 'd':
            self.dyn(p[1], states, lits, rest[0][1] if rest and rest[0][0] == 'c' else '')
            return states
        if p[0] == 'rep':
            return self.rep(p[2], [(g, v) for g, v, fl in p[3]], states, lits)
        self.und.append('text not read')
        return states

    def dyn(self, t, states, lits, nxt):
        self.n += 1
        if self.A.number(t, lits):
            return
        before = len(self.bad)
        for s in states:
            v = self.A.of(t, lits)
            if v is None:
                self.und.append(f'escaping of {show(t)[:120]}')
            elif s[0] == 'q':
                if s[1]:
                    self.bad.append(f'a backslash stands before the text {show(t)[:150]}')
                elif not v[0] <= {ODD}:
                    self.bad.append(f'a quote in the text can end the quoted string: {show(t)[:200]}')
                elif not v[1] <= {EVEN}:
                    self.bad.append(f'a backslash at the end of the text can hide the closing quote: {show(t)[:200]}')
            elif s[0] == 'h':
                if v[2]:
                    self.bad.append(f'text in an HTML label is not HTML-escaped: {show(t)[:200]}')
                elif s[2] and v[0]:
                    self.bad.append(f'a quote in the text can end the quoted HTML attribute: {show(t)[:200]}')
            elif self.A.bare(t, lits, nxt):
                self.bad.append(f'text is written without quotes: {show(t)[:200]}')
        if len(states) == 1 and len(self.bad) > before and Joint(self.eng, {}, list(lits)).ok:
            self.sure.append(self.bad[-1])


def step(s, text):
    """state of the quotes after some constant text"""
    for ch in text:
        if s[0] == 'out':
            if ch == '"':
                s = ('q', False)
            elif ch == '<':
                s = ('h', 1, False)
        elif s[0] == 'q':
            if s[1]:
                s = ('q', False)
            elif ch == '\\':
                s = ('q', True)
            elif ch == '"':
                s = ('out',)
        else:
            k, d, q = s
            if ch == '"':
                q = not q and d > 1
            elif ch == '<' and not q:
                d += 1
            elif ch == '>' and not q:
                d -= 1
            s = ('h', d, q) if d else ('out',)
    return s


class Escapes:
    def __init__(self, ctx, cls, f):
        self.ctx, self.bad, self.memo, self.bodies = ctx, {}, {}, {}
        self.ann = {}
        c = ctx.prog.classes[cls]
        for k in ctx.prog.mro(c):
            m = k.members.get('__init__')
            if isinstance(m, Func):
                types = {a.arg: ast.unparse(a.annotation) if a.annotation else '' for a in m.node.args.args + m.node.args.kwonlyargs}
                for n in ast.walk(m.node):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Attribute):
                        if isinstance(n.value, ast.Name) and n.value.id in types:
                            self.ann.setdefault(n.targets[0].attr, types[n.value.id])
                        elif any(isinstance(x, ast.Name) and 'str' in types.get(x.id, '') for x in ast.walk(n.value)):
                            self.ann.setdefault(n.targets[0].attr, 'str')
        self.par = {a.arg: ast.unparse(a.annotation) if a.annotation else '' for a in f.node.args.args + f.node.args.kwonlyargs}

    def number(self, t, lits):
        """can its text hold no quote, backslash or angle bracket"""
        while t.op in ('typed', 'str') and isinstance(t.args[0], T):
            t = t.args[0]
        if t.op in ('len', 'count', 'bool'):
            return True
        for a, b in lits:
            if a.op == 'isinst' and a.args[0] is t and ((b and str(a.args[1]) in ('int', 'float', 'bool')) or (not b and str(a.args[1]) == 'str')):
                return True
        ann = self.par.get(t.args[0]) if t.op == 'sym' else self.ann.get(t.args[1]) if t.op == 'fld' else None
        if ann and not any(w in ann for w in ('str', 'Any', 'dict', 'Dict', 'List', 'Colour')) and any(w in ann for w in ('int', 'float', 'bool')):
            return True
        if t.op == 'call' and t.args[0] == '.get_hexadecimal' or t.op == 'fld' and t.args[1] in ('hexadecimal', '.hexadecimal'):
            return True
        if t.op in ('ek',):
            return True
        if t.op == 'pcall' and str(t.args[0]).endswith(('.get_graphviz_str', '.get_graphviz_header')):
            return True
        if t.op == 'ite':
            return self.number(t.args[1], lits | {(t.args[0], True)}) and self.number(t.args[2], lits | {(t.args[0], False)})
        return False

    def bare(self, t, lits, nxt):
        """user text outside quotes"""
        if nxt.lstrip().startswith('='):
            return False
        b = t
        while b.op in ('typed', 'str') and isinstance(b.args[0], T):
            b = b.args[0]
        if b.op == 'pcall' and b.args[0] == 'escape_quotes':
            return True
        # the user's own HTML label, or a number that the annotations do not show
        low = {x for x, v in lits if v}
        if all(any(y.op == 'call' and y.args[0] == m and y.args[1] is b for x in low for y in subterms(x)) for m in ('.startswith', '.endswith')):
            return False
        if any(y.op == 'call' and y.args[0] in ('.startswith', '.endswith') and y.args[1] is b for x in low for y in subterms(x)):
            return True
        return b.op == 'fld' and 'str' in self.ann.get(b.args[1], '') or b.op == 'sym' and 'str' in self.par.get(b.args[0], '') or b.op == 'call' and b.args[0] in KEEP

    def of(self, t, lits=frozenset()):
        """(numbers of backslashes before quotes, at the end, may hold angle brackets); None: not known"""
        o, a = t.op, t.args
        if self.number(t, lits):
            return SAFE
        if o in ('typed', 'str') and isinstance(a[0], T):
            return self.of(a[0], lits)
        if o == 'const':
            s = str(cval(t))
            r, k = runs(s)
            return (frozenset(r), frozenset((k,)), any(c in s for c in '<>&'))
        if o == 'ite':
            x, y = self.of(a[1], lits | {(a[0], True)}), self.of(a[2], lits | {(a[0], False)})
            return join(x, y)
        if o == 'pcall' and a[0] == 'escape_quotes':
            return self.body(a[2].args[0].args[1] if a[2].args else None)
        if o == 'cat':
            return self.cat([self.of(x, lits) for x in a], a, lits)
        if o == 're.sub' or o == 'call' and a[0] in ('re.sub', 'sub'):
            xs = [x for x in a if isinstance(x, T)]
            if len(xs) == 3 and is_const(xs[0]) and is_const(xs[1]):
                return resub(cval(xs[0]), cval(xs[1]), self.of(xs[2], lits))
            return None
        if o == 'call' and isinstance(a[0], str):
            return self.call(a[0], [x for x in a[1:] if isinstance(x, T)], lits)
        if o in ('fld', 'sym', 'el', 'item', 'get', 'slice', 'callv', 'apiret', 'rel', 'first', 'last', 'deepcopy', 'extra'):
            v = TOP
            if o == 'slice':
                w = self.of(a[0], lits)
                v = w and (w[0], ANY, w[2])
            return v
        if o == 'pcall':
            return TOP
        return None

    def call(self, name, xs, lits):
        base = name.rsplit('.', 1)[-1]
        if name == '.sub' and len(xs) == 3:
            pat = self.pattern(xs[0])
            if pat is not None and is_const(xs[1]):
                return resub(pat, cval(xs[1]), self.of(xs[2], lits))
            return None
        if name.startswith('.'):
            v = self.of(xs[0], lits)
            if v is None:
                return None
            cs = [cval(x) for x in xs[1:] if is_const(x)]
            if base in ('upper', 'lower', 'title', 'capitalize', 'casefold', 'swapcase', 'expandtabs'):
                return v
            if base == 'lstrip':
                # a run may lose some of its backslashes only when they are stripped
                return v if not xs[1:] or cs and '\\' not in str(cs[0]) else None
            if base in ('strip', 'rstrip'):
                return (v[0], ANY, v[2]) if not xs[1:] or cs and '\\' not in str(cs[0]) else None
            if base == 'replace' and len(cs) == 2:
                return replace(cs[0], cs[1], v)
            if base in ('decode', 'encode', 'get_hexadecimal'):
                return v
            return None
        if base == 'escape' and xs:
            v = self.of(xs[0], lits)
            q = [x for x in xs[1:] if x.op == 'kw' and x.args[0] == 'quote'] or [x for x in xs[1:] if is_const(x)]
            off = any(is_const(x) and not cval(x) or x.op == 'kw' and is_const(x.args[1]) and not cval(x.args[1]) for x in q)
            return v and (v[0] if off else frozenset(), v[1], False)
        return None

    def pattern(self, t):
        """the constant a compiled pattern was made of"""
        if t.op == 'call' and t.args[0] in ('re.compile', 'compile'):
            xs = [x for x in t.args[1:] if isinstance(x, T)]
            return cval(xs[0]) if len(xs) == 1 and is_const(xs[0]) else None
        if t.op == 'glob' and t.args[0] in self.ctx.prog.modules:
            for n in self.ctx.prog.modules[t.args[0]].tree.body:
                if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name) and n.targets[0].id == t.args[1]:
                    v = n.value
                    if isinstance(v, ast.Call) and ast.unparse(v.func) in ('re.compile', 'compile') and len(v.args) == 1 and not v.keywords and isinstance(v.args[0], ast.Constant):
                        return v.args[0].value
        return None

    def cat(self, vs, a, lits):
        """concatenation; a run of backslashes may go on in the next piece only if that starts with one"""
        if any(v is None for v in vs):
            return None
        out = (frozenset(), frozenset((0,)), False)
        for v, x in zip(vs, a):
            if is_const(x):
                s = str(cval(x))
                q, e = set(), set()
                for p in out[1]:
                    r, k = runs(s, p)
                    q |= r
                    e.add(k)
                out = (out[0] | q, frozenset(e), out[2] or v[2])
            elif self.number(x, lits):
                out = (out[0], frozenset((0,)), out[2])
            else:
                # the run at the end of what comes before is unknown to the next piece
                if out[1] != {0}:
                    return None
                out = (out[0] | v[0], v[1], out[2] or v[2])
        return out

    def body(self, arg):
        """what the package's escaping makes of any text"""
        if 'b' not in self.bodies:
            f = self.ctx.modfn('escape_quotes')
            S = self.ctx.summary(f)
            res = None
            if S is not None and not any(s.lossy for s, o in S.rets()):
                res = (frozenset(), frozenset(), False)
                for s, o in S.rets():
                    v = S.eng.freeze(o.val, s)
                    w = self.refined(v, s.facts)
                    if w is None:
                        res = None
                        break
                    res = join(res, w)
            self.bodies['b'] = res
            if res is not None:
                node = S.rets()[0][1].node
                if not res[0] <= {ODD}:
                    self.bad['a quote in the text may be left without, or with a second, backslash before it'] = (f, node)
                if not res[1] <= {EVEN}:
                    self.bad['the text may end in an odd number of backslashes'] = (f, node)
        b = self.bodies['b']
        return b if b is None or not self.bad else SAFE[:2] + (True,)

    def refined(self, v, facts):
        """the value under facts about the backslashes at its end"""
        o, a = v.op, v.args
        if o in ('typed', 'str') and isinstance(a[0], T):
            return self.refined(a[0], facts)
        if o == 'ite':
            return join(self.refined(a[1], {**facts, a[0]: True}), self.refined(a[2], {**facts, a[0]: False}))
        last = None
        if o == 'cat' and is_const(a[-1]) and set(str(cval(a[-1]))) == {'\\'} and len(a) == 2:
            last = len(str(cval(a[-1])))
            v = a[0]
        w = self.of(v)
        if w is None:
            return None
        e = set()
        known = False
        for p in w[1]:
            ok = True
            for c, b in facts.items():
                k = parity_fact(c, v)
                if k is not None:
                    known = True
                    if k == 'nonzero':
                        ok = ok and (b or p == 0)
                    elif k == 'ends':
                        # ends with a backslash or not: an odd run does
                        ok = ok and (b or p == 0)
                    else:
                        ok = ok and (p == k) == b
                elif any(x is v for x in subterms(c)):
                    known = None if known is False else known
            if ok:
                e.add(p)
        if known is None and w[1] == ANY:
            return None
        return (w[0], frozenset((p + (last or 0)) % 2 for p in e), w[2])


def trailing(t, v):
    """is it the number of backslashes at the end of v"""
    if t.op == 'bin' and t.args[0] == 'Sub':
        x, y = t.args[1], t.args[2]
        return x.op == 'len' and x.args[0] is v and y.op == 'len' and strips(y.args[0], v)
    return False


def strips(t, v):
    while t.op in ('typed', 'str'):
        t = t.args[0]
    return t.op == 'call' and t.args[0] == '.rstrip' and t.args[1] is v and len(t.args) == 3 and is_const(t.args[2]) and cval(t.args[2]) == '\\'


def parity_fact(c, v):
    """parity of the run at the end of v that makes the condition true"""
    t = c.args[0] if c.op == 'truth' else c
    if t.op == 'eq':
        for x, y in (t.args[:2], t.args[1::-1]):
            if is_const(y) and x.op == 'bin' and x.args[0] == 'Mod' and is_const(x.args[2]) and cval(x.args[2]) == 2 and trailing(x.args[1], v):
                return cval(y) if cval(y) in (0, 1) else None
    if t.op == 'bin' and t.args[0] in ('Mod', 'BitAnd') and is_const(t.args[2]) and cval(t.args[2]) == (2 if t.args[0] == 'Mod' else 1) and trailing(t.args[1], v):
        return 1
    if t.op == 'call' and t.args[0] == '.endswith' and t.args[1] is v and len(t.args) == 3 and is_const(t.args[2]) and cval(t.args[2]) == '\\':
        return 'ends'
    return None


def runs(s, n=0):
    """parities of the backslash runs before the quotes of a constant, and at its end"""
    out = set()
    for ch in s:
        if ch == '\\':
            n += 1
        else:
            if ch == '"':
                out.add(n % 2)
            n = 0
    return out, n % 2


def join(x, y):
    return None if x is None or y is None else (x[0] | y[0], x[1] | y[1], x[2] or y[2])


def replace(old, new, v):
    """str.replace of one constant by another"""
    q, e, ang = v
    if not isinstance(old, str) or not isinstance(new, str):
        return None
    if old == '"':
        lead = len(new) - len(new.rstrip('"')) if new.endswith('"') else 0
        if '"' not in new:
            if new and '\\' not in new:
                return (frozenset(), e, ang)
            if new == '':
                return (frozenset(), ANY, ang)
            return None
        if new.endswith('"') and set(new[:-1]) <= {'\\'}:
            k = len(new) - 1
            return (frozenset((p + k) % 2 for p in q), e, ang)
        return None
    if old == '\\':
        if set(new) == {'\\'}:
            k = len(new)
            return (frozenset((p * k) % 2 for p in q), frozenset((p * k) % 2 for p in e), ang)
        if '\\' not in new and '"' not in new:
            return (q and frozenset((0,)), frozenset((0,)), ang)
        return None
    if '\\' not in old + new and '"' not in old + new:
        if new == '':
            # what stood on both sides comes together: runs may grow
            return (ANY if q else q, ANY, ang)
        return (q, e if old.strip() or True and new else ANY, ang) if e == {0} or new else (q, ANY, ang)
    return None


def resub(pat, repl, v):
    """re.sub with a constant pattern ending in a quote: which quotes it meets, and what stands before them after it"""
    if v is None or not isinstance(pat, str) or not isinstance(repl, str):
        return None
    q, e, ang = v
    try:
        items = list(sre.parse(pat))
    except Exception:
        return None
    i, behind, group, pairs = 0, False, None, None
    name = lambda it: str(it[0])
    if i < len(items) and name(items[i]) == 'ASSERT_NOT' and items[i][1][0] == -1 and [(name(x), x[1]) for x in items[i][1][1]] == [('LITERAL', 92)]:
        behind = True
        i += 1
    if i < len(items) and name(items[i]) == 'SUBPATTERN':
        group = items[i][1][0]
        inner = list(items[i][1][3])
        while len(inner) == 1 and name(inner[0]) == 'SUBPATTERN':
            inner = list(inner[0][1][3])
        k = repeated(inner)
        if k is None:
            return None
        pairs = k
        i += 1
    elif i < len(items) and name(items[i]) == 'MAX_REPEAT':
        k = repeated([items[i]])
        if k is None:
            return None
        pairs = k
        i += 1
    if i + 1 != len(items) or name(items[i]) != 'LITERAL' or items[i][1] != 34:
        return None
    # what the replacement puts before the quote
    s, n, back = repl, 0, None
    j = 0
    while j < len(s) - 1 or j < len(s) and s[j] != '"':
        if s[j] == '\\' and j + 1 < len(s) and s[j + 1].isdigit():
            if n or back is not None or int(s[j + 1]) != group:
                return None
            back = True
            j += 2
        elif s.startswith('\\g<', j):
            end = s.find('>', j)
            if n or back or s[j + 3:end] not in (str(group),):
                return None
            back = True
            j = end + 1
        elif s[j] == '\\' and s[j + 1:j + 2] == '\\':
            n += 1
            j += 2
        else:
            return None
    if j >= len(s) or s[j] != '"':
        return None
    out = set()
    for p in q:
        if pairs is None:
            # only the quote itself is met; with a look-behind only a bare one
            if behind:
                if p == ODD:
                    out.add(ODD)
                else:
                    out |= {n % 2, EVEN}       # none before it: n; two before it: not met
            else:
                out.add((p + n) % 2)
        elif pairs == 2:
            if behind and p == ODD:
                out.add(ODD)
            elif back:
                out.add((p + n) % 2)
            else:
                out.add(((p if not behind else 0) + n) % 2)
        else:
            # any number of backslashes
            out |= {(p + n) % 2} if back else {n % 2}
    return (frozenset(out), e, ang)


def repeated(items):
    """number of backslashes of each round of a greedy repetition of any number of rounds"""
    if len(items) != 1 or str(items[0][0]) != 'MAX_REPEAT':
        return None
    lo, hi, body = items[0][1]
    if lo != 0 or str(hi) != 'MAXREPEAT':
        return None
    body = list(body)
    while len(body) == 1 and str(body[0][0]) == 'SUBPATTERN':
        body = list(body[0][1][3])
    if not all((str(x[0]), x[1]) == ('LITERAL', 92) for x in body) or len(body) not in (1, 2):
        return None
    return len(body)
