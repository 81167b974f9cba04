"""Text terms read as DOT: alternatives of a text under the conditions that choose them, tokens with
constant and dynamic parts, and the state of quotes, brackets and HTML labels at every dynamic part."""
import re
from analysis import *
from compare import Joint


class TooMany(Exception):
    pass


def extend(J, lits):
    """the same situation with more facts; None when they contradict it"""
    K = Joint(J.eng, J.st.facts, list(lits))
    return K if K.ok else None


def is_textop(t):
    return t.op in ('cat', 'join', 'ite') or t.op == 'const' and isinstance(cval(t), str) or t.op == 'typed' and is_textop(t.args[0])


QUOTES = {}


def quotes(t):
    """how many quotes the text holds, odd or even, over its alternatives"""
    r = QUOTES.get(t)
    if r is None:
        o, a = t.op, t.args
        if o == 'const':
            s = re.sub(r'\\\\.', '', str(cval(t)))
            r = {s.count('"') % 2}
        elif o == 'cat':
            r = {0}
            for x in a:
                q = quotes(x)
                r = {(i + j) % 2 for i in r for j in q}
        elif o == 'ite':
            r = quotes(a[1]) | quotes(a[2])
        elif o in ('typed', 'str') and is_textop(a[0]):
            r = quotes(a[0])
        elif o == 'join' and a[1].op == 'coll':
            r = {0, 1} if any(quotes(g.args[0]) != {0} for g in a[1].args[1:] if g.op == 'gen') else {0}
        else:
            r = {0}
        QUOTES[t] = r
    return r


def keys(g):
    """joining a dictionary joins its keys, each once"""
    v, k, fl, fr, gu = g.args
    return mk('gen', k, NONE, ','.join(sorted(set(fl.split(',')) - {'', 'kv'} | ({'dedupe'} if fr.args else set()))), fr, gu)


class Reader:
    """alternatives of a text: (situation, parts); parts are
    ('c', text) | ('d', term) | ('rep', frames, separator, [(guards, value)]) | ('x', term not looked into)"""

    def __init__(self, relevant=None, limit=3000):
        self.relevant, self.limit, self.rel = relevant, limit, {}

    def isrel(self, t):
        if self.relevant is None:
            return True
        r = self.rel.get(t)
        if r is None:
            r = self.rel[t] = any(self.relevant(x) for x in subterms(t))
        return r

    def seqs(self, t, J):
        o, a = t.op, t.args
        if o != 'const' and not self.isrel(t) and (not is_textop(t) or quotes(t) == {0}):
            return [(J, [('x', t)])]
        if o == 'const':
            return [(J, [('c', str(cval(t)))])]
        if o == 'cat':
            out = [(J, [])]
            for x in a:
                out = [(K, ps + qs) for L, ps in out for K, qs in self.seqs(x, L)]
                if len(out) > self.limit:
                    raise TooMany
            return out
        if o == 'ite' and (is_textop(a[1]) or is_textop(a[2])):
            out = []
            c = J.lit_val(a[0])
            for b in (True, False):
                if c is TRUE or c is FALSE:
                    if (c is TRUE) == b:
                        out += self.seqs(a[1] if b else a[2], J)
                    continue
                K = extend(J, [(a[0], b)])
                if K is not None:
                    out += self.seqs(a[1] if b else a[2], K)
            return out
        if o in ('typed', 'str') and is_textop(a[0]):
            return self.seqs(a[0], J)
        if o == 'join' and a[1].op in ('coll', 'listof', 'tupleof'):
            c = a[1]
            while c.op in ('listof', 'tupleof'):
                c = c.args[0]
            if c.op == 'coll' and all(g.op == 'gen' for g in c.args[1:]):
                return self.join(a[0], [keys(g) for g in c.args[1:]] if c.args[0] == 'dict' else c.args[1:], J)
        return [(J, [('d', t)])]

    def join(self, sep, gens, J):
        out = [(J, [], False)]
        i = 0
        s = [('c', cval(sep))] if is_const(sep) else [('d', sep)]
        while i < len(gens):
            g = gens[i]
            v, k, fl, fr, gu = g.args
            if fr.args or fl:
                alts = [g]
                while i + 1 < len(gens) and gens[i + 1].args[3] is fr and fr.args:
                    i += 1
                    alts.append(gens[i])
                rep = ('rep', fr, sep, [(x.args[4].args, x.args[0], x.args[2]) for x in alts])
                out = [(K, ps + (s if some else []) + [rep], True) for K, ps, some in out]
            else:
                new = []
                for K, ps, some in out:
                    lits = [(l.args[0], l.args[1]) for l in gu.args]
                    # left out
                    done = []
                    for a, b in lits:
                        L = extend(K, done + [(a, not b)])
                        if L is not None:
                            new.append((L, ps, some))
                        done.append((a, b))
                    L = extend(K, lits) if lits else K
                    if L is not None:
                        for M, qs in self.seqs(v, L):
                            new.append((M, ps + (s if some else []) + qs, True))
                out = new
            if len(out) > self.limit:
                raise TooMany
            i += 1
        return [(K, ps) for K, ps, some in out]


WORD = re.compile(r'[A-Za-z0-9_.#%!+-]+')


def tokens(parts):
    """('q', [inner parts]) | ('w', word) | ('d', term) | ('rep', ..) | ('x', ..) | ('h', ..) | punctuation"""
    out, q, esc = [], None, False
    for p in parts:
        if p[0] != 'c':
            if q is not None:
                q.append(p)
                esc = False
            else:
                out.append(p)
            continue
        s, i = p[1], 0
        while i < len(s):
            ch = s[i]
            if q is not None:
                if esc:
                    esc = False
                    q.append(('c', '\\' + ch))
                elif ch == '\\':
                    esc = True
                elif ch == '"':
                    out.append(('q', merge(q)))
                    q = None
                else:
                    q.append(('c', ch))
                i += 1
                continue
            if ch == '"':
                q, esc = [], False
                i += 1
            elif s.startswith('->', i) or s.startswith('--', i):
                out.append((s[i:i + 2],))
                i += 2
            elif ch in '[]{};,=<>':
                out.append((ch,))
                i += 1
            elif ch.isspace():
                i += 1
            else:
                m = WORD.match(s, i)
                w = m.group(0) if m else ch
                if w.endswith('-') and s[i + len(w):i + len(w) + 1] == '>':
                    w = w.rstrip('-') or w
                out.append(('w', w))
                i += len(w)
    if q is not None:
        out.append(('open', merge(q)))
    return out


def merge(ps):
    out = []
    for p in ps:
        if out and p[0] == 'c' and out[-1][0] == 'c':
            out[-1] = ('c', out[-1][1] + p[1])
        else:
            out.append(p)
    return out


def statement(parts):
    """(ids joined by ->, {attribute: inner parts}, other things in the brackets) of one statement; None if it is none"""
    ts = tokens(parts)
    ids, i = [], 0
    while i < len(ts):
        if ts[i][0] not in ('q', 'd', 'w', 'x'):
            return None
        ids.append(ts[i][1] if ts[i][0] == 'q' else [ts[i]])
        i += 1
        if i < len(ts) and ts[i][0] in ('->', '--'):
            if ts[i][0] == '--':
                return None
            i += 1
            continue
        break
    attrs, rest = [], []
    while i < len(ts) and ts[i] == ('[',):
        i += 1
        while i < len(ts) and ts[i] != (']',):
            t = ts[i]
            if t[0] in ('q', 'w') and i + 2 < len(ts) and ts[i + 1] == ('=',):
                k = t[1] if t[0] == 'w' else ''.join(p[1] if p[0] == 'c' else '?' for p in t[1])
                v = ts[i + 2]
                if v[0] not in ('q', 'd', 'w', 'x'):
                    return None
                attrs.append((k, v[1] if v[0] == 'q' else [v]))
                i += 3
            elif t in ((',',), (';',)):
                i += 1
            elif t[0] in ('d', 'rep', 'x'):
                rest.append(t)
                i += 1
            else:
                return None
        if i == len(ts):
            return None
        i += 1
    while i < len(ts) and ts[i] == (';',):
        i += 1
    return (ids, attrs, rest) if i == len(ts) else None


def base(t):
    """the value behind conversion to text and escaping"""
    while True:
        if t.op in ('typed', 'str') and isinstance(t.args[0], T):
            t = t.args[0]
        elif t.op == 'pcall' and t.args[0] == 'escape_quotes':
            t = t.args[2].args[0].args[1]
        elif t.op == 'call' and t.args[0] in ('.replace', 're.sub', '.rstrip') or t.op == 'call' and t.args[0] in ('html.escape', 'escape'):
            xs = [x for x in t.args[1:] if isinstance(x, T) and not is_const(x) and x.op != 'kw']
            if len(xs) != 1:
                return t
            t = xs[0]
        elif t.op == 'ite' and base(t.args[1]) is base(t.args[2]) and not is_const(base(t.args[1])):
            t = base(t.args[1])
        else:
            return t


def deep_base(t, memo=None):
    """the same inside conditional values"""
    t = base(t)
    if t.op == 'ite':
        x, y = deep_base(t.args[1]), deep_base(t.args[2])
        return x if x is y else mk('ite', t.args[0], x, y)
    return t


def text_of(inner):
    """the single value shown between quotes, or None"""
    inner = [p for p in inner if p != ('c', '')]
    if len(inner) == 1 and inner[0][0] == 'd':
        return inner[0][1]
    return None
