"""What a constructor-like function builds: the nodes it adds and the edges it connects, each with the
iteration it happens in and the conditions it happens under."""
from report import *
from boolnorm import canon_dnf
from compare import opaque

GRAPHS = ('Graph', 'GraphWithoutDisplay', 'BasicGraph')


class Item:
    def __init__(self, args, frames, guards, flags, node):
        self.args, self.frames, self.guards, self.flags, self.node = args, frames, guards, flags, node

    def __repr__(self):
        return f'{ {k: show(v) for k, v in self.args.items()} } for {[show(f)[:80] for f in self.frames]} if {[(b, show(a)[:100]) for a, b in self.guards]} {self.flags}'


def as_name(t):
    """a node stands for its name"""
    def go(x):
        if x.op == 'typed' and x.args[0].op == 'apiret' and x.args[0].args[0] == 'add_node':
            for k in x.args[0].args[3].args:
                if k.args[0] == 'name':
                    return go(k.args[1])
        if x.op == 'fld' and x.args[1] in ('_raw_id',):
            return go(x.args[0])
        if x.op == 'typed' and x.args[0].op == 'pcall' and x.args[0].args[0] == 'get_node':
            for k in x.args[0].args[2].args:
                if k.args[0] == 'node':
                    return go(k.args[1])
        if not x.args or x.op in ('const', 'sym'):
            return x
        args = [go(a) if isinstance(a, T) else a for a in x.args]
        return x if all(a is b for a, b in zip(args, x.args)) else mk(x.op, *args)
    return go(t)


def untyped(t):
    m = {x: x.args[0] for x in subterms(t) if x.op == 'typed'}
    while m:
        t = sub(t, m)
        m = {x: x.args[0] for x in subterms(t) if x.op == 'typed'}
    return t


def kwargs(t):
    out = {}
    for k in t.args:
        if k.op != 'kw':
            continue
        if k.args[0] == 'kwargs' and k.args[1].op == 'coll':
            for g in k.args[1].args[1:]:
                if g.op == 'gen' and is_const(g.args[1]) and not g.args[3].args and not g.args[4].args:
                    out[cval(g.args[1])] = g.args[0]
                else:
                    out['**'] = k.args[1]
        elif k.args[0] == 'kwargs':
            if not (k.args[1].op == 'coll' and len(k.args[1].args) == 1):
                out['**'] = k.args[1]
        else:
            out[k.args[0]] = k.args[1]
    return out


def built(ctx, f, extra=None, args=None, st=None):
    """per way out: the graph made, the keyword arguments it was made with, nodes added, edges connected"""
    stops = {
        ('*', 'add_node'): ctx.call_stop('add_node', 'Node'), ('*', 'connect'): ctx.call_stop('connect', 'Edge'),
        ('*', '__contains__'): ctx.call_stop('__contains__', pure=True),
        ('*', 'get_node'): ctx.call_stop('get_node', 'Node', pure=True),
        **{(c, '__new__'): ctx.new_stop('Graph') for c in GRAPHS},
        **(extra or {}),
    }
    a = {'cls': mk('cls', 'Graph'), **{n: sym(n) for n in ctx.params(f)}, **(args or {})}
    return ctx.summary(f, args=a, stops=stops, st=st)


def items(ctx, S, s, rewrite=lambda t: t):
    from compare import eff_term
    adds, conns, made, other = [], [], {}, []
    for e in s.eff:
        if e.kind != 'api':
            continue
        what = cval(e.key) if isinstance(e.key, T) else e.key
        t = eff_term(S.eng, e, s)
        t = rewrite(untyped_names(t))
        fr = [f.args for f in t.args[3].args]
        it = Item(kwargs(t.args[0].args[3]), fr, [(l.args[0], l.args[1]) for l in t.args[4].args], set(x for x in t.args[2].split(',') if x), e.node)
        it.graph = e.tgt
        if what == '__new__':
            made[e.tgt] = it
        elif what == 'add_node':
            adds.append(it)
        elif what == 'connect':
            conns.append(it)
        else:
            other.append(it)
    return adds, conns, made, other


def untyped_names(t):
    return untyped(as_name(t))


class Findings:
    """outcomes per obligation of one function"""
    def __init__(self, rep, f, name):
        self.rep, self.f, self.name = rep, f, name
        self.out = {}
        self.lossy = False

    def check(self, what, ok, node, msg, about=()):
        """ok: True, False, None; a difference in terms that were not followed is left undecided"""
        if ok is False and (self.lossy or any(opaque(t) is not None for t in about if isinstance(t, T))):
            ok = None
        c = self.out.setdefault(what, [0, 0, 0])
        c[0 if ok is True else 1 if ok is None else 2] += 1
        if ok is False:
            self.rep.violate('builds', self.f, node, f'{self.name}: {msg}')

    def close(self):
        for what, (good, und, bad) in self.out.items():
            self.rep.done(f'{self.name}: {what}', False if bad else None if und else True, n=good + und + bad)


def mine(ctx, S, s, o, tell, rewrite=lambda t: t):
    """what is added to the graph that is returned"""
    tell.lossy = s.lossy
    v = untyped(S.eng.freeze(o.val, s))
    adds, conns, made, other = items(ctx, S, s, rewrite)
    if v not in made:
        tell.check('returns the graph', None if opaque(v) is not None or v.op not in ('const', 'new') else False, o.node, f'returns {show(v)[:60]}, not the graph made')
        return adds, conns, None
    strangers = [i for i in adds + conns if untyped(i.graph) is not v]
    if strangers or other:
        tell.check('one graph', None, None, '')
    return [i for i in adds if untyped(i.graph) is v], [i for i in conns if untyped(i.graph) is v], made[v]


def options(g, tell, **want):
    for k, w in want.items():
        x = g.args.get(k)
        tell.check(f'option {k}', x is w, g.node, f'the graph is made with {k} {show(x) if x is not None else "missing"}', (x,))


def grouped(its, keys):
    """items that differ only in their conditions, with the disjunction of the conditions"""
    out = {}
    for i in its:
        k = (tuple(i.frames), tuple(i.args.get(n, NONE) for n in keys))
        cubes, node, flags = out.get(k, ([], i.node, set()))
        out[k] = (cubes + [frozenset(i.guards)], node, flags | i.flags)
    return out


def always(cubes, ignore=None):
    """whether one of the conditions always holds (but for literals that may be left out)"""
    if any(not c for c in cubes):
        return True
    r = canon_dnf(cubes)
    if r is None:
        return None
    if ignore:
        r = canon_dnf([[l for l in c if not ignore(*l)] for c in r])
    return None if r is None else frozenset() in r


def gap(cubes):
    """a condition that all of several ways have in common: without it nothing happens"""
    both = frozenset.intersection(*[frozenset(c) for c in cubes]) if cubes else ()
    return [(a, b) for a, b in both if opaque(a) is None]


CUT = {'partial', 'once'}


def membership(a, b):
    """'not in the graph yet'"""
    while a.op == 'truth':
        a = a.args[0]
    if a.op == 'pcall' and a.args[0] == '__contains__':
        return not b
    return a.op == 'in' and not b and a.args[1].op == 'fld' and a.args[1].args[0].op == 'new'


def existing(its, tell, key='if_node_exists', first=None):
    """what exists already is taken over, not refused"""
    for i in its:
        w = i.args.get(key)
        if i.frames and w is not None and not any(membership(*g) for g in i.guards):
            tell.check(f'{key}', False if is_const(w) and cval(w) not in ('ignore', 'warn') or w.op == 'ite' and const('error') in w.args else True, i.node, f'{key} is {show(w)}: a repeated name is refused')


def same(x, w, v):
    return x is w
