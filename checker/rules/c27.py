"""Relatives of objects: the loop that walks layer by layer is split into what it starts from, one round as a transfer
function over everything it carries, and what is handed back; each carried variable is given its role (the layer to walk
next, everything met, everything listed, the table of distances, the count) and every way through a round must take each
of them from distance d to distance d + 1, stop only when the layer is empty or the limit is reached, and go on only when
neither is."""
import ast
from report import *
from compare import opaque
from boolnorm import canon_dnf
from builders import Findings, untyped, kwargs
from steps import round_of

WAYS = {'get_ancestors': ('__parents__', 'max_height'), 'get_descendants': ('__children__', 'max_depth')}


def run(ctx, rep):
    for name in WAYS:
        try:
            with limit(120):
                relatives(ctx, rep, name)
        except OutOfTime:
            rep.done(name, None, 'out of time')
    for name, (_, p) in WAYS.items():
        signature(ctx, rep, name, p)


def signature(ctx, rep, name, p):
    f = ctx.modfn(name)
    a = f.node.args
    names = [x.arg for x in a.args]
    d = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
    ok = None
    if {'distance', p} <= set(d):
        ok = isinstance(d['distance'], ast.Constant) and d['distance'].value is True and isinstance(d[p], ast.Constant) and d[p].value is None
        if not ok:
            rep.violate('defaults', f, f.node, f'{name} without arguments should give all of them, with distances')
    rep.done(f'{name}: defaults', ok)


def walker(ctx, f):
    """the function with the loop: the one asked for, or one it calls"""
    todo, seen = [f], []
    while todo:
        g = todo.pop(0)
        if g in seen:
            continue
        seen.append(g)
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name):
                h = next((x for x in ctx.prog.funcs if x.cls is None and x.name == n.func.id and x.kind == 'func'), None)
                if h is not None:
                    todo.append(h)
    return [g for g in seen if any(isinstance(n, ast.While) for n in ast.walk(g.node))]


def relatives(ctx, rep, name):
    way, limit_name = WAYS[name]
    f = ctx.modfn(name)
    ws = walker(ctx, f)
    if len(ws) != 1:
        return rep.done(f'{name}: layer by layer', None, f'{len(ws)} loops')
    w = ws[0]

    def kinds(before, names):
        S = ctx.summary(before, args={p.arg: sym(p.arg) for p in before.node.args.args})
        if S is None or len(S.exits) != 1 or S.exits[0][1].kind != 'ret' or S.exits[0][0].lossy:
            return None, None
        s, o = S.exits[0]
        vs = o.val.args
        locs = [v for v in vs if v in s.colls]
        if len(set(locs)) < len(locs):
            return None, None    # two names for one collection
        vs = [untyped(S.eng.freeze(v, s)) for v in vs]
        init = dict(zip(names, vs))
        kind = {n: v.args[0] if v.op == 'coll' else 'int' if is_const(v) and type(cval(v)) is int else None for n, v in init.items()}
        return init, kind

    R = round_of(w, kinds)
    if R is None:
        return rep.done(f'{name}: layer by layer', None, 'the loop is not understood')
    role_sym = {v: sym(v, R.kind[v]) if R.kind.get(v) else sym(v) for v in R.params + R.carried}
    S = ctx.summary(R.round, args={a.arg: role_sym[a.arg] for a in R.round.node.args.args})
    if S is None or not S.exits:
        return rep.done(f'{name}: layer by layer', None, 'budget')
    W = Walk(ctx, rep, f, w, R, role_sym, way, limit_name, name)
    W.rounds(S)
    if not W.unknown:
        W.handed(f)
    rep.done(f'{name}: layer by layer', False if W.bad else None if W.unknown else True, '; '.join(W.unknown)[:200], W.n)


def R_LIST(t):
    return t.args[0] in ('list', 'set')


def mentions_val(a, val):
    return any(x is val for x in subterms(a))


def OPEN(a):
    return any(x.op == 'gen' and 'open' in x.args[2] for x in subterms(a))


class Walk:
    def __init__(self, ctx, rep, f, w, R, syms, way, limit_name, name):
        self.ctx, self.rep, self.f, self.w, self.R, self.syms, self.way, self.name = ctx, rep, f, w, R, syms, way, name
        self.bad, self.unknown, self.n = 0, [], 0
        self.obj = syms[R.params[0]]
        ps = [p for p in R.params if p != R.params[0] and p != 'distance']
        self.max = syms.get(limit_name) or (syms[ps[0]] if ps else None)
        self.role = {}

    def fault(self, rule, node, msg):
        self.bad += 1
        self.rep.violate(rule, self.w, node or self.R.loop, f'{self.name}: {msg}')

    def unsure(self, why):
        if why not in self.unknown:
            self.unknown.append(why)

    # ------------------------------------------------------------- what a variable is after a round
    def split(self, v, t):
        """(keeps what it had, what is added)"""
        if t is self.syms[v]:
            return True, ()
        if t.op != 'coll':
            return None
        gens = list(t.args[1:])
        keeps = False
        if gens and gens[0].op == 'gen' and self.same_as(gens[0], self.syms[v]):
            keeps, gens = True, gens[1:]
        if any(g.op != 'gen' for g in gens):
            return None
        if len(gens) > 1 and R_LIST(t) and all(g.args[:4] == gens[0].args[:4] for g in gens):
            # the same elements under several conditions
            c = canon_dnf([{(l.args[0], l.args[1]) for l in g.args[4].args} for g in gens])
            if c is not None and len(c) == 1:
                gens = [mk('gen', *gens[0].args[:4], guards_t(next(iter(c))))]
        return keeps, tuple(gens)

    def clean(self, t):
        """a copy of what a variable holds is what it holds"""
        t = untyped(t)
        m = {}
        for x in subterms(t):
            if x.op == 'coll' and len(x.args) == 2 and x.args[1].op == 'gen':
                for v in self.R.carried:
                    if self.R.kind.get(v) == x.args[0] and self.same_as(x.args[1], self.syms[v]):
                        m[x] = self.syms[v]
        return sub(t, m) if m else t

    def same_as(self, g, s):
        """all elements of s and nothing else"""
        val, key, fl, fr, gu = g.args
        if len(fr.args) != 1 or gu.args:
            return False
        b, src = fr.args[0].args
        if src.op == 'dv':
            src = src.args[0]
            return src is s and val.op == 'el' and val.args[0] in (s, mk('dv', s)) and key.op == 'ek'
        return src is s and val.op == 'el' and val.args[0] is s

    def neighbours(self, g):
        """(frontier, literals, flags) when the generator gives the neighbours of the elements of a collection"""
        val, key, fl, fr, gu = g.args
        if len(fr.args) != 2 or key is not NONE:
            return None
        (b0, src), (b1, nb) = [x.args for x in fr.args]
        nb = untyped(nb)
        if val.op != 'el' or untyped(val.args[0]) is not nb or val.args[1] is not b1:
            return None
        if nb.op in ('slice', 'idx') and nb.args[0].op == 'call' and nb.args[0].args[0] == '.' + self.way:
            self.fault('every relative', None, f'only {show(nb)[:80]} are taken, not all')
            return None
        if nb.op == 'call' and len(nb.args) == 2 and nb.args[0] == '.' + self.way and nb.args[1] is self.obj:
            self.fault('every relative', None, 'every round takes the relatives of the object itself, not those of the layer')
            return None
        if nb.op != 'call' or len(nb.args) != 2 or nb.args[1].op != 'el' or nb.args[1].args[1] is not b0:
            return None
        if nb.args[1].args[0] is not src:
            return None
        return src, nb.args[0], [(l.args[0], l.args[1]) for l in gu.args], set(fl.split(',')) - {''}, val

    def rounds(self, S):
        R, E = self.R, S.eng
        exits = []
        for s, o in S.exits:
            if o.kind == 'raise':
                if not o.implicit:
                    return self.unsure(f'raises {o.val}')
                continue
            v = E.freeze(o.val, s)
            v = self.clean(v)
            if s.lossy:
                return self.unsure('lossy')
            if v.op != 'tup' or len(v.args) != len(R.carried) + 1:
                return self.unsure('result')
            exits.append((cval(v.args[0]), dict(zip(R.carried, v.args[1:])), {self.clean(a): b for a, b in s.facts.items()}, o.node))
        if not any(h == 'next' for h, *_ in exits):
            return self.fault('one round', None, 'the walk never goes beyond the first layer') if exits else None
        self.find_roles(exits)
        if self.unknown or self.bad:
            return
        for how, vals, facts, node in exits:
            self.exit(how, vals, facts, node)
            self.n += 1

    # ------------------------------------------------------------- roles
    def find_roles(self, exits):
        R = self.R
        single = lambda t: t.op == 'coll' and len(t.args) == 2 and t.args[1].op == 'gen' and t.args[1].args[0] is self.obj and not t.args[1].args[3].args and not t.args[1].args[4].args
        empty = lambda t: t.op == 'coll' and len(t.args) == 1
        nexts = [(v, f) for h, v, f, _ in exits if h == 'next']
        for v in R.carried:
            i = R.init[v]
            ups = [self.split(v, vals[v]) for vals, _ in nexts]
            if R.kind[v] == 'int':
                self.role[v] = ('count', cval(i))
            elif i is self.max and i is not None:
                self.role[v] = ('left',)
            elif any(u is None for u in ups):
                return self.unsure(f'{v} after a round: ' + show(next(vals[v] for vals, _ in nexts if self.split(v, vals[v]) is None))[:120])
            elif R.kind[v] == 'dict':
                if single(i):
                    return self.unsure(f'{v} is a table of the objects met')
                if not empty(i):
                    return self.unsure(f'{v} starts as {show(i)[:60]}')
                if all(k for k, g in ups):
                    self.role[v] = ('table',)
                else:
                    return self.unsure(f'{v} is set anew')
            elif single(i):
                pure = all(len(g) == 1 and self.neighbours(g[0]) for k, g in ups if g)
                self.role[v] = ('seen',) if all(k for k, g in ups) else ('front',) if pure else ('other',)
            elif empty(i):
                self.role[v] = ('list',) if all(k for k, g in ups) else ('fresh',)
            else:
                return self.unsure(f'{v} starts as {show(i)[:60]}')
            if self.role[v][0] in ('seen', 'front', 'list') and R.kind[v] == 'dict':
                return self.unsure(f'{v} is a dictionary')
        fronts = [v for v, r in self.role.items() if r[0] == 'front']
        if len(fronts) != 1:
            # nothing walks on: every round starts from where the last one did
            return self.unsure(f'{len(fronts)} layers')
        self.front = fronts[0]
        new = []
        for vals, _ in nexts:
            for v in R.carried:
                u = self.split(v, vals[v]) if R.kind[v] in ('list', 'set') else None
                if u:
                    new += [g for g in u[1]]
                    if self.role[v] == ('other',):
                        new = [g for g in new if self.neighbours(g)]
        new = list(dict.fromkeys(new))
        if self.bad:
            return
        self.new = None
        doors = [self.neighbours(g)[2] for vals, _ in nexts for g in self.split(self.front, vals[self.front])[1] if self.neighbours(g)]
        self.open_door = {l for d in doors for l in d} if doors else None
        for g in new:
            nb = self.neighbours(g)
            if nb is None:
                return self.unsure('adds ' + show(g)[:150])
            src, way, lits, flags, val = nb
            if src is not self.syms[self.front]:
                if src.op in ('slice', 'idx', 'item'):
                    return self.fault('every object of the layer', None, f'walks from {show(src)} only, not from the whole layer')
                if src in [self.syms[v] for v, r in self.role.items() if r[0] in ('list', 'seen')]:
                    return self.unsure(f'walks from {show(src)}')
                return self.unsure(f'walks from {show(src)[:100]}')
            if way != '.' + self.way:
                return self.fault('neighbours', None, f'walks along {way[1:]}, not along {self.way}')
            self.new = val
        if self.new is None:
            return self.unsure('no objects found')

    def is_new(self, g, v):
        """does the generator add exactly the objects not met before; None: not known"""
        src, way, lits, flags, val = self.neighbours(g)
        role = self.role[v][0]
        covered = set()
        for a, b in lits:
            what = None
            if a.op == 'in' and not b and untyped(a.args[0]) is val:
                c = a.args[1]
                for u, r in self.role.items():
                    if c is self.syms[u] or c.op == 'coll' and len(c.args) == 2 and self.same_as(c.args[1], self.syms[u]):
                        what = r[0]
            elif a.op in ('eq', 'same') and not b and {val, self.obj} == {untyped(x) for x in a.args}:
                what = 'obj'
            if what in ('seen', 'list', 'obj', 'front'):
                covered.add(what)
            elif what in ('fresh', 'other'):
                return None
            else:
                if role in ('list', 'filed') and self.open_door is not None and (a, b) not in self.open_door and opaque(a) is None and mentions_val(a, val):
                    self.fault('complete', None, f'{v} gets objects only if {"" if b else "not "}{show(a)[:80]}')
                    return False
                self.unsure(f'objects kept if {"" if b else "not "}{show(a)[:80]}')
                return None
        open_ = 'prior' in flags or self.R.kind[v] == 'set'
        if 'seen' in covered or {'list', 'obj'} <= covered:
            full = True
        elif open_ and role == 'seen':
            full = True       # adding what is there already changes nothing
        elif open_ and role == 'list':
            full = 'obj' in covered
        else:
            full = False
        if not full:
            if 'fresh' in [r[0] for r in self.role.values()]:
                return None
            if 'list' in covered or open_ and role == 'list':
                self.fault('not the object itself', None, f'{v} gets the object itself when it is met again')
            else:
                self.fault('met before', None, f'{v} gets objects again that were met before' + (': the walk does not end on a cycle' if role == 'front' else ''))
            return False
        if 'dedupe' not in flags and self.R.kind[v] != 'set' and role != 'seen':
            self.fault('once', None, f'{v} gets an object twice when two objects of a layer lead to it')
            return False
        if 'front' in flags and self.R.kind[v] == 'list' and role == 'list':
            self.fault('order', None, f'{v} gets the objects found in front of those that are nearer')
            return False
        if flags - {'dedupe', 'prior'}:
            self.unsure('flags ' + ','.join(sorted(flags)))
            return None
        return True

    # ------------------------------------------------------------- one way through a round
    def exit(self, how, vals, facts, node):
        E = N = X = None
        L = {}
        odd = []
        for a, b in facts.items():
            r = self.atom(a)
            if r is None:
                odd.append(a)
                continue
            k, pos = r
            b = b == pos
            if k == 'E':
                E = b
            elif k == 'N':
                N = b
            elif k == 'X':
                X = b
            elif k == 'T':
                # a limit that counts as true is a limit; one that does not is none, or zero
                if b:
                    N = False
            elif k[0] == 'L':
                L[k[1]] = b
        sized = self.sizes(odd, facts)
        if sized:
            odd = [a for a in odd if a not in sized[1]]
        change = {}
        for v, r in self.role.items():
            c = self.change(v, r, vals[v], X)
            if c is None:
                self.unsure(f'{v}: {show(vals[v])[:120]}')
                return
            if c is False:
                return
            change[v] = c
        grown = any(c in ('+', 'new') for c in change.values())
        held = [v for v, c in change.items() if c == 'same' and self.role[v][0] in ('seen', 'list', 'front', 'table')]
        L0 = L.get(0)
        if L0 is None and any(k >= 0 and b for k, b in L.items()):
            L0 = True
        if L0 is None and any(k <= 0 and not b for k, b in L.items()):
            L0 = False
        if how == 'next':
            if X is False:
                # nothing new: the next layer is empty
                return self.unsure('goes on without new objects') if E is None else self.after(change, node, X, N)
            if E is not True and X is not True:
                if odd:
                    return self.unsure('goes on if ' + show(odd[0])[:80])
                return self.fault('ends', node, 'goes on when the layer is empty: it does not end')
            if N is not True and L0 is not True:
                if odd:
                    return self.unsure('goes on if ' + show(odd[0])[:80])
                if L and not any(k == 0 for k in L):
                    k = sorted(L)[0]
                    return self.fault('limit', node, f'goes on {"beyond" if any(b and k < 0 for k, b in L.items()) else "without regard to"} the limit (compares distance {k:+d})')
                if self.max is None:
                    return self.unsure('no limit')
                return self.fault('limit', node, 'goes on without regard to the limit')
            return self.after(change, node, X, N)
        # stops
        if E is False or X is False:
            return
        if N is False and L0 is False:
            if grown and any(c == '+' for v, c in change.items() if self.role[v][0] in ('list', 'table')):
                return self.fault('limit', node, 'takes one more layer when the limit is reached')
            return
        if N is False and L.get(1) is False and not held:
            return self.unsure('stops after a layer')
        if sized and not sized[0]:
            return
        if odd:
            return self.unsure('stops if ' + show(odd[0])[:80])
        if N is False and any(k > 0 and not b for k, b in L.items()):
            return self.fault('limit', node, 'stops before the limit is reached')
        return self.fault('complete', node, 'stops although there are objects left within the limit')

    def after(self, change, node, X, N):
        """everything has moved on by one"""
        for v, r in self.role.items():
            c = change[v]
            if r[0] in ('seen', 'list', 'table') and c == 'same' and X is not False:
                return self.fault('complete', node, f'{v} does not get the objects found in this round')
            if r[0] == 'left' and c != -1 and not (c == 0 and N is True):
                return self.fault('limit', node, f'what is left of the limit changes by {c} in a round')
            if r[0] == 'count' and c != 1 and any(self.mentions(v)):
                return self.fault('distance', node, f'{v} changes by {c} in a round')

    def mentions(self, v):
        return [True for n in ast.walk(self.R.loop) if isinstance(n, ast.Name) and n.id == v and isinstance(n.ctx, ast.Load)]

    def change(self, v, r, t, X):
        k = r[0]
        if k in ('count', 'left'):
            return self.shift(t, v)
        u = self.split(v, t)
        if u is None:
            return None
        keeps, gens = u
        if k in ('fresh', 'other'):
            return 'fresh'
        if k == 'table':
            if not keeps:
                return None
            if not gens:
                return 'same'
            if len(gens) > 1:
                return None
            val, key, fl, fr, gu = gens[0].args
            if len(fr.args) == 2 and 'prior' not in fl.split(',') and self.distance(key) is not None and val.op == 'coll' and len(val.args) == 2 and val.args[1].op == 'gen' and not val.args[1].args[3].args:
                self.fault('distance', None, 'only one of the objects at a distance is filed')
                return False
            if fr.args:
                return None
            if val.op == 'coll' and len(val.args) == 2 and val.args[1].op == 'gen' and self.same_as(val.args[1], self.syms[self.front]):
                val = self.syms[self.front]
            if val is self.syms[self.front] and not gu.args:
                self.fault('distance', None, 'the layer that was walked from is filed, not the objects found')
                return False
            if gu.args and not all(self.atom(l.args[0]) and self.atom(l.args[0])[0] == 'X' and self.atom(l.args[0])[1] == l.args[1] for l in gu.args):
                return None
            if not self.holds_new(val, v):
                return None if not self.bad else False
            d = self.distance(key)
            if d is None:
                return None
            if d != 1:
                self.fault('distance', None, f'the objects found are filed {d - 1:+d} from their distance')
                return False
            if X is False:
                return None
            return '+'
        if not gens:
            return 'same' if keeps else 'empty' if X is False else None
        if len(gens) > 1 and k == 'list' and self.open_door is not None and all(g.args[:4] == gens[0].args[:4] for g in gens) and self.neighbours(gens[0]):
            c = canon_dnf([{(l.args[0], l.args[1]) for l in g.args[4].args} for g in gens])
            extra = {a for q in c or () for a, b in q} - {a for a, b in self.open_door}
            if extra and all(self.open_door <= q for q in c) and not any(a.op in ('in', 'inopen', 'ex') or opaque(a) is not None or OPEN(a) for a in extra):
                self.fault('complete', None, f'{v} gets objects only under a condition on {show(sorted(extra, key=lambda a: a.order)[0])[:80]}')
                return False
        if len(gens) > 1 or self.neighbours(gens[0]) is None:
            return None
        ok = self.is_new(gens[0], v)
        if not ok:
            return ok
        return '+' if keeps else 'new'

    def holds_new(self, val, v):
        if val.op != 'coll' or len(val.args) != 2 or val.args[1].op != 'gen' or self.neighbours(val.args[1]) is None:
            return False
        old = self.role[v]
        self.role[v] = ('filed',)
        ok = self.is_new(val.args[1], v) if self.R.kind[v] == 'dict' else None
        self.role[v] = old
        return ok

    def shift(self, t, v):
        if t is self.syms[v]:
            return 0
        if t.op == 'bin' and t.args[0] in ('Add', 'Sub'):
            a, b = t.args[1:]
            if is_const(a) and t.args[0] == 'Add':
                a, b = b, a
            if is_const(b) and type(cval(b)) is int:
                n = self.shift(a, v)
                return None if n is None else n + cval(b) if t.args[0] == 'Add' else n - cval(b)
        return None

    def distance(self, t):
        """t as d + n, d the number of layers walked"""
        for v, r in self.role.items():
            if r[0] == 'count':
                n = self.shift(t, v)
                if n is not None:
                    return n + r[1]
            if r[0] == 'table' or r[0] == 'filed':
                # a layer is only walked when all before it were filed
                for x in (mk('len', self.syms[v]), ):
                    if t is x:
                        return 0
                    if t.op == 'bin' and t.args[0] == 'Add' and x in t.args[1:]:
                        o = t.args[2] if t.args[1] is x else t.args[1]
                        if is_const(o) and type(cval(o)) is int:
                            return cval(o)
        return None

    def atom(self, a):
        """(what, holds when the atom does); E: the layer is not empty, N: there is no limit, ('L', k): d + k < limit,
        X: objects were found, T: the limit counts as true"""
        if a.op in ('nonempty', 'truth') and a.args[0] is self.syms[self.front]:
            return 'E', True
        if a.op == 'nonempty' and a.args[0].op == 'coll' and len(a.args[0].args) == 2:
            g = a.args[0].args[1]
            if g.op == 'gen' and self.same_as(g, self.syms[self.front]):
                return 'E', True
            if g.op == 'gen' and self.neighbours(g) and self.is_new(g, self.front):
                return 'X', True
        if a.op == 'ex':
            fr, body = a.args[0], a.args[1]
            g = mk('gen', self.new, NONE, 'dedupe', mk('tup', *fr.args), body if body.op == 'guards' else mk('guards', body)) if isinstance(fr, T) and isinstance(body, T) and body.op in ('guards', 'lit') else None
            if g is not None and self.neighbours(g):
                was, self.bad = self.bad, 0
                kept, self.unknown = self.unknown, []
                vs, self.rep.violate = self.rep.violate, lambda *x: None
                ok = self.is_new(g, self.front)
                self.bad, self.unknown = was, kept
                self.rep.violate = vs
                if ok:
                    return 'X', True
        left = [self.syms[v] for v, r in self.role.items() if r[0] == 'left']
        if a.op == 'isnone' and a.args[0] in left:
            return 'N', True
        if a.op in ('lt', 'le') and len(left) == 1 and left[0] in a.args:
            # left = limit - d
            k = a.args[0] if a.args[1] is left[0] else a.args[1]
            if is_const(k) and type(cval(k)) is int:
                if a.args[1] is left[0]:
                    return ('L', cval(k) if a.op == 'lt' else cval(k) - 1), True
                return ('L', cval(k) if a.op == 'le' else cval(k) - 1), False
        if a.op == 'isnone' and a.args[0] is self.max:
            return 'N', True
        if a.op == 'truth' and a.args[0] is self.max:
            return 'T', True
        if a.op in ('lt', 'le') and self.max in a.args and a.args[0] is not a.args[1]:
            first = a.args[1] is self.max
            d = self.distance(a.args[0] if first else a.args[1])
            if d is not None:
                if first:
                    return ('L', d if a.op == 'lt' else d - 1), True
                # max <= d + k is not (d + k < max); max < d + k is not (d + k - 1 < max)
                return ('L', d if a.op == 'le' else d - 1), False
        return None

    def sizes(self, odd, facts):
        """(can a collection of this size be nonempty, the atoms about it) for atoms on the size of the layer or of what was found"""
        mine = []
        for a in odd:
            if a.op in ('lt', 'le', 'eq') and len(a.args) == 2:
                for x, y in (a.args, a.args[::-1]):
                    if x.op == 'len' and is_const(y) and type(cval(y)) is int and self.atom(mk('nonempty', x.args[0])):
                        mine.append((a, x.args[0]))
        if not mine or len({x for _, x in mine}) > 1:
            return None
        x = mk('len', mine[0][1])
        def true(a, n):
            p, q = [n if y is x else cval(y) for y in a.args]
            return p < q if a.op == 'lt' else p <= q if a.op == 'le' else p == q
        top = max(cval(y) for a, _ in mine for y in a.args if is_const(y)) + 2
        return any(all(true(a, n) == facts[a] for a, _ in mine) for n in range(1, top + 1)), [a for a, _ in mine]

    # ------------------------------------------------------------- what is handed back
    def handed(self, f):
        R, ctx = self.R, self.ctx
        S = ctx.summary(R.after, args={a.arg: self.syms[a.arg] for a in R.after.node.args.args})
        if S is None:
            return self.unsure('budget')
        table = [self.syms[v] for v, r in self.role.items() if r[0] == 'table']
        lists = [self.syms[v] for v, r in self.role.items() if r[0] == 'list']
        seen = [self.syms[v] for v, r in self.role.items() if r[0] == 'seen' and R.kind[v] == 'list']

        def what(t):
            t = untyped(t)
            if t in table:
                return 'table'
            if t in lists and t.args[1] == 'list':
                return 'list'
            if t.op == 'coll' and len(t.args) == 2 and t.args[1].op == 'gen':
                if any(self.same_as(t.args[1], x) for x in table):
                    return 'table'
                if any(self.same_as(t.args[1], x) for x in lists if x.args[1] == 'list') and t.args[0] == 'list':
                    return 'list'
                val, key, fl, fr, gu = t.args[1].args
                if len(fr.args) == 2 and not gu.args and not fl and key is NONE and val.op == 'el':
                    (b0, src), (b1, lay) = [x.args for x in fr.args]
                    if val.args[1] is b1 and val.args[0] is lay and lay.op == 'el' and lay.args[1] is b0 and any(x in (src, lay.args[0]) for y in table for x in (y, mk('dv', y))):
                        return 'list'
            if t.op == 'slice' and t.args[0] in seen and t.args[1:3] == (const(1), NONE):
                return 'list'
            return None

        outs = []
        for s, o in S.exits:
            if o.kind == 'raise':
                if not o.implicit:
                    self.unsure('raises')
                continue
            v = untyped(S.eng.freeze(o.val, s))
            outs.append((s, o, v))
        if self.w is f:
            return self.chosen(f, [(s, o, what(v), v) for s, o, v in outs])
        if len(outs) != 1:
            return self.unsure(f'{len(outs)} results')
        v = outs[0][2]
        parts = v.args if v.op == 'tup' else (v,)
        kinds = [what(x) for x in parts]
        marks = [sym('handed' + k, 'dict' if k == 'table' else 'list') if k else sym(f'handed{i}') for i, k in enumerate(kinds)]
        result = mk('tup', *marks) if v.op == 'tup' else marks[0]
        st = {('', self.w.name): ctx.call_stop(self.w.name, val=lambda eng, st, recv, args, v: result)}
        S = ctx.summary(f, args={p: sym(p) for p in ctx.params(f)}, stops=st)
        if S is None:
            return self.unsure('budget')
        rows = []
        for s, o in S.exits:
            if o.kind == 'raise':
                if not o.implicit:
                    self.unsure('raises')
                continue
            calls = [e for e in s.eff if e.kind == 'api' and cval(e.key) == self.w.name]
            if len(calls) != 1:
                return self.unsure(f'{len(calls)} walks')
            kw = kwargs(S.eng.freeze(calls[0].val, s))
            for p in self.R.params:
                if p == self.R.params[0]:
                    want = sym(ctx.params(f)[0])
                elif self.max is not None and self.syms[p] is self.max:
                    want = sym(WAYS[self.name][1])
                else:
                    continue
                got = kw.get(p)
                if got is not want:
                    if got is not None and opaque(got) is None and (is_const(got) or got.op == 'sym' or got.op == 'bin' or got.op == 'bool'):
                        return self.fault('arguments', calls[0].node, f'the walk is given {show(got)} as {p}')
                    return self.unsure(f'{p} := {show(got) if got else None}')
            v = untyped(S.eng.freeze(o.val, s))
            k = {m: x for m, x in zip(marks, kinds)}
            w = k.get(v)
            if w is None and v.op == 'coll' and len(v.args) == 2 and v.args[1].op == 'gen':
                for m, x in k.items():
                    if x and self.same_as(v.args[1], m):
                        w = x
            rows.append((s, o, w, v))
        self.chosen(f, rows)

    def chosen(self, f, rows):
        d = sym('distance')
        for s, o, k, v in rows:
            self.n += 1
            if k is None:
                if v.op == 'coll' and len(v.args) == 2 and v.args[1].op == 'gen' and v.args[1].args[0].op == 'ek' and len(v.args[1].args[3].args) == 1:
                    self.fault('distances', o.node, 'gives the distances only, not the objects')
                    continue
                self.unsure(f'gives {show(v)[:100]}')
                continue
            t = None
            for a, b in s.facts.items():
                if a is d or a.op == 'truth' and a.args[0] is d:
                    t = b
                if a.op in ('eq', 'same') and d in a.args and TRUE in a.args:
                    t = b
            if t is None:
                if len(rows) == 1 or not any(contains(a, d) for s2, *_ in rows for a in s2.facts):
                    self.fault('distances', o.node, 'gives the same whether distances are asked for or not')
                else:
                    self.unsure('which result')
            elif t != (k == 'table'):
                self.fault('distances', o.node, f'gives the {k} when distances are {"" if t else "not "}asked for')
