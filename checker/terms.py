"""Value terms of the analysis: hash-consed provenance expressions.

A term says where a value comes from (a parameter, a field as it was on entry, the elements of a
collection, a collection built from those), never what it is at run time."""


class T:
    __slots__ = ('op', 'args', 'h', 'order', 'hasit')
    _tab = {}
    _n = 0

    def __repr__(self):
        return show(self)

    def __hash__(self):
        # sets of terms are walked in the same order in every run
        return self.order


def mk(op, *args):
    key = (op,) + tuple((a.order, 0) if isinstance(a, T) else (type(a).__name__, a) for a in args)
    t = T._tab.get(key)
    if t is None:
        t = T.__new__(T)
        t.op, t.args = op, args
        T._n += 1
        t.order = T._n
        h = 0
        hasit = op == 'it'
        for a in args:
            if isinstance(a, T):
                h = max(h, a.h)
                hasit = hasit or a.hasit
        if op == 'bv':
            h = max(h, args[0] + 1)
        t.h = h
        t.hasit = hasit
        T._tab[key] = t
    return t


def const(v):
    return mk('const', type(v).__name__, v)


NONE, TRUE, FALSE = const(None), const(True), const(False)


def is_const(t):
    return t.op == 'const'


def ground(t):
    """a constant, or a tuple of constants"""
    return t.op == 'const' or t.op == 'tup' and all(ground(x) for x in t.args)


def cval(t):
    return t.args[1]


def sym(name, cls=None):
    return mk('sym', name, cls)


def fld(o, a):
    return mk('fld', o, a)


def tup(*xs):
    return mk('tup', *xs)


def sub(t, m, memo=None):
    """substitute terms by terms"""
    if not m:
        return t
    if memo is None:
        memo = {}
    r = m.get(t)
    if r is not None:
        return r
    if not t.args:
        return t
    r = memo.get(t)
    if r is not None:
        return r
    ch = False
    out = []
    for a in t.args:
        if isinstance(a, T):
            b = sub(a, m, memo)
            ch = ch or b is not a
            out.append(b)
        else:
            out.append(a)
    if ch and t.op in ('eq', 'same') and len(out) == 2 and out[0].order > out[1].order:
        out.reverse()
    r = rebuild(t.op, out) if ch else t
    memo[t] = r
    return r


REBUILD = {}


def rebuild(op, args):
    f = REBUILD.get(op)
    return f(*args) if f else mk(op, *args)


def subterms(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        for a in x.args:
            if isinstance(a, T):
                st.append(a)


def mentions(t, ops):
    return any(x.op in ops for x in subterms(t))


def contains(t, u):
    return any(x is u for x in subterms(t))


# ---- frozen collections:  coll(kind, g1, g2, ...)   g = gen(value, key|NONE, flags, frames, guards)
# frames = tup(tup(bv, src), ...)   guards = tup(lit, ...)   lit = lit(atom, bool)
def lit(a, b):
    return mk('lit', a, bool(b))


def gkey(t):
    return t.order


def guards_t(pairs):
    ls = sorted({lit(a, b) for a, b in pairs}, key=gkey)
    return mk('guards', *ls)


def show(t, d=0):
    if not isinstance(t, T):
        return str(t)
    if d > 14:
        return '…'
    s = lambda x: show(x, d + 1)
    o, a = t.op, t.args
    if o == 'const':
        return repr(a[1])
    if o == 'sym':
        return a[0]
    if o == 'fld':
        return f'{s(a[0])}.{a[1]}'
    if o == 'item':
        return f'{s(a[0])}[{s(a[1])}]'
    if o == 'el':
        return f'{s(a[1])}∈{s(a[0])}'
    if o == 'it':
        return f'i{a[0]}'
    if o == 'bv':
        return f'b{a[0]}'
    if o == 'tup':
        return '(' + ', '.join(s(x) for x in a) + ')'
    if o == 'new':
        return f'new:{a[0]}#{a[-1]}'
    if o == 'lit':
        return ('' if a[1] else '¬') + s(a[0])
    if o == 'guards':
        return ' & '.join(s(x) for x in a)
    if o == 'gen':
        v, k, fl, fr, gu = a
        r = (s(k) + ': ' if k is not NONE or fl.startswith('kv') else '') + s(v)
        if fr.args:
            r += ' for ' + ', '.join(f'{s(x.args[0])} in {s(x.args[1])}' for x in fr.args)
        if gu.args:
            r += ' if ' + s(gu)
        if fl:
            r += f' <{fl}>'
        return r
    if o == 'coll':
        return a[0] + '{' + '; '.join(s(x) for x in a[1:]) + '}'
    if o in ('dk', 'dv', 'di'):
        return f'{s(a[0])}.{dict(dk="keys", dv="values", di="items")[o]}()'
    if o == 'cat':
        return '+'.join(s(x) for x in a)
    if o == 'call':
        return f'{a[0]}(' + ', '.join(s(x) for x in a[1:]) + ')'
    return f'{o}(' + ', '.join(s(x) for x in a) + ')'
