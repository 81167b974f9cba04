"""Styling: who is given a style when. A node is seen as the kinds of its parents (outside any loop, in another loop, in a
loop with the node) and whether it has a style; the conditions found on the writes and calls are evaluated on these small
cases, one loop of the stylist after the other. Inheriting must end at nodes already styled and never ask a parent in the
same loop; every node and edge must end up with a style and none that has one may be given another; the overwrites must be
looked up before they are used and after the stylist has run."""
from report import *
from builders import untyped, kwargs
from rules.c31 import Out, base
import itertools

FREE, OTHER, OWN = 'free', 'other', 'own'
CASES = [c for n in range(4) for c in itertools.combinations_with_replacement((FREE, OTHER, OWN), n)] + [
    (OWN, FREE), (OTHER, FREE), (OWN, OTHER), (OWN, FREE, FREE), (FREE, OWN, FREE), (OWN, OWN, FREE), (OTHER, OWN, FREE)]
SAY = {FREE: 'outside any loop', OTHER: 'in another loop', OWN: 'in a loop with it'}


def run(ctx, rep):
    box = {}
    for part in (inherit, pensieve, randomly, edges, overwrites):
        try:
            with limit(120):
                part(ctx, rep, box)
        except OutOfTime:
            rep.done(part.__name__, None, 'out of time')


class Odd(Exception):
    """a condition that is not understood"""


class Any(dict):
    """one of the parents, whichever"""
    def __init__(self, case):
        self.case = case

    def __contains__(self, b):
        return b.op not in ('const', 'idx')

    def __missing__(self, b):
        return 0


def say(case):
    return 'a node without parents' if not case else 'a node with ' + ', '.join(f'a parent {SAY[k]}' for k in case)


# ---- what is kept as it is

def ask(what):
    def h(eng, st, recv, args, node):
        other = [eng.freeze(v, st) for k, v in sorted(args.items()) if isinstance(v, T) and v is not recv]
        return [(st, mk('pcall', what, untyped(recv), mk('tup', *other)))]
    return h


def listing(what):
    return lambda eng, st, recv, args, node: [(st, mk('rel', what, untyped(recv), mk('tup')))]


def style_of(ctx):
    field = ctx.proto.F['style']
    def h(eng, st, recv, args, node):
        v = [v for k, v in args.items() if v is not recv]
        if not v:
            return [(st, st.heap.get((recv, field), fld(recv, field)))]
        st = st.copy()
        eng.effect(st, 'set', recv, const('.style'), v[0], node)
        return [(st, NONE)]
    return h


def heir(f):
    def h(eng, st, recv, args, node):
        st = st.copy()
        obj = mk('new', 'obj', 'NodeStyle', next(eng._uid))
        eng.effect(st, 'api', NONE, const(f.name), mk('tup', *[mk('kw', k, eng.freeze(v, st)) for k, v in sorted(args.items()) if isinstance(v, T)]), node)
        return [(st, obj)]
    return h


def kept(ctx, *but):
    st = {**ctx.std_stops(), **ctx.style_stops()}
    st.pop(('*', 'stylize'), None)
    for c in ('Graph', 'BasicGraph', 'GraphWithoutDisplay'):
        for n in ('nodes', 'edges', 'nodes_dict', 'edges_dict'):
            st[(c, n)] = listing(n)
    for n in ('is_in_loop', 'is_in_loop_with', 'get_child_rank'):
        st[('Node', n)] = ask(n)
    for n in ('parents', 'children'):
        st[('Node', n)] = listing(n)
    for c in ('Node', 'Edge'):
        st[(c, 'style')] = style_of(ctx)
    f = one(ctx, 'inherit_style')
    if f:
        st[('', f.name)] = heir(f)
    for n in ('get_least_used_colour', 'get_diverging_number'):
        if one(ctx, n):
            st[('', n)] = ctx.call_stop(n, pure=True)
    for n in ('stylize_edges_based_on_nodes', 'stylize_with_pensieve', 'stylize_randomly'):
        if n not in but and one(ctx, n):
            st[('', n)] = ctx.call_stop(n)
    return st


def one(ctx, name):
    fs = [f for f in ctx.prog.funcs if f.name == name and f.cls is None]
    return fs[0] if len(fs) == 1 else None


# ---- conditions on the small cases

class Case:
    def __init__(self, ctx, x, kinds, bare, free=None):
        self.ctx, self.x, self.kinds, self.bare, self.free, self.env = ctx, x, kinds, bare, free or {}, {}
        self.F = ctx.proto.F

    def parents(self, t):
        t = base(untyped(t))
        return t.op == 'rel' and t.args[0] == 'parents' and untyped(t.args[1]) is self.x or t.op == 'fld' and t.args[0] is self.x and t.args[1] == self.F['inn']

    def which(self, t):
        """the number of the parent that is meant, or me"""
        t = untyped(t)
        if t is self.x:
            return 'me'
        if t.op == 'fld' and t.args[1] in (self.F['start'], 'start') and t.args[0].op in ('el', 'item'):
            t = t.args[0]
        if t.op in ('el', 'item'):
            if t.args[1] in self.env:
                self.part(t.args[0])
                return self.env[t.args[1]]
            if is_const(t.args[1]) and isinstance(cval(t.args[1]), int):
                return self.part(t.args[0])[cval(t.args[1])]
        raise Odd(t)

    def frames(self, fr):
        """the ways through the loops over parents"""
        if len(fr) != 1:
            raise Odd(fr[0][1] if fr else NONE)
        b = fr[0][0]
        for i in self.part(fr[0][1]):
            self.env[b] = i
            yield i
        self.env.pop(b, None)

    def part(self, t):
        """the parents in a listing of them or a part of it"""
        t = base(untyped(t))
        if self.parents(t):
            return range(len(self.kinds))
        if t.op == 'slice' and all(is_const(y) and (cval(y) is None or isinstance(cval(y), int)) for y in t.args[1:]):
            return self.part(t.args[0])[slice(*(cval(y) for y in t.args[1:]))]
        raise Odd(t)

    def many(self, t):
        t = base(untyped(t))
        if self.parents(t) or t.op == 'slice':
            return len(self.part(t))
        if t.op == 'coll':
            n = 0
            for g in t.args[1:]:
                if g.op != 'gen':
                    raise Odd(t)
                if not g.args[3].args:
                    n += all(self.holds(l.args[0]) == l.args[1] for l in g.args[4].args)
                    continue
                if set(g.args[2].split(',')) - {'', 'each'}:
                    raise Odd(t)
                for _ in self.frames([f.args for f in g.args[3].args]):
                    n += all(self.holds(l.args[0]) == l.args[1] for l in g.args[4].args)
            return n
        raise Odd(t)

    def num(self, t):
        if is_const(t) and isinstance(cval(t), (int, float)):
            return cval(t)
        if t.op == 'len':
            return self.many(t.args[0])
        if t.op in ('max', 'min') and len(t.args) > 1 and not any(y.op == 'kw' for y in t.args):
            return (max if t.op == 'max' else min)(self.num(y) for y in t.args)
        if t.op == 'bin' and t.args[0] in ('Add', 'Sub'):
            a, b = self.num(t.args[1]), self.num(t.args[2])
            return a + b if t.args[0] == 'Add' else a - b
        raise Odd(t)

    def holds(self, a):
        if a in self.free:
            return self.free[a]
        a = untyped(a)
        if a in self.free:
            return self.free[a]
        if is_const(a):
            return bool(cval(a))
        o = a.op
        if o == 'not':
            return not self.holds(a.args[0])
        if o == 'and':
            return all(self.holds(x) for x in a.args)
        if o == 'or':
            return any(self.holds(x) for x in a.args)
        if o == 'truth':
            t = untyped(a.args[0])
            if t.op == 'pcall' and t.args[0] == 'is_in_loop':
                i = self.which(t.args[1])
                return OWN in self.kinds if i == 'me' else self.kinds[i] != FREE
            if t.op == 'pcall' and t.args[0] == 'is_in_loop_with' and len(t.args[2].args) == 1:
                i, j = self.which(t.args[1]), self.which(t.args[2].args[0])
                i, j = (j, i) if i == 'me' else (i, j)
                if j == 'me' and i != 'me':
                    return self.kinds[i] == OWN
            if t.op in ('not', 'and', 'or', 'ex', 'eq', 'lt', 'le', 'isnone', 'nonempty', 'truth', 'const'):
                return self.holds(t)
            if t.op in ('coll', 'rel', 'fld') and (t.op == 'coll' or self.parents(t)):
                return self.many(t) > 0
            if t.op == 'len':
                return self.num(t) != 0
            if t.op == 'fld' and t.args[1] == self.F['style'] and untyped(t.args[0]) is self.x:
                return not self.bare
        if o == 'isnone':
            t = untyped(a.args[0])
            if t.op == 'new':
                return False
            if t.op == 'fld' and t.args[1] == self.F['style'] and untyped(t.args[0]) is self.x:
                return self.bare
        if o == 'isinst' and untyped(a.args[0]).op == 'new' and len(untyped(a.args[0]).args) > 1:
            return a.args[1] == untyped(a.args[0]).args[1] if isinstance(a.args[1], str) else self.odd(a)
        if o == 'nonempty':
            return self.many(a.args[0]) > 0
        if o == 'ex':
            out = False
            for _ in self.frames([f.args for f in a.args[0].args]):
                out |= all(self.holds(l.args[0]) == l.args[1] for l in a.args[1].args)
            return out
        if o in ('eq', 'lt', 'le'):
            x, y = self.num(a.args[0]), self.num(a.args[1])
            return x == y if o == 'eq' else x < y if o == 'lt' else x <= y
        raise Odd(a)

    def odd(self, a):
        raise Odd(a)

    def all(self, lits):
        lits = list(lits)
        found = {}
        def walk(t):
            if t.op in ('ex', 'coll', 'gen'):
                return
            if t.op == 'el' and t.args[1] not in self.env:
                try:
                    found.setdefault(t.args[1], self.part(t.args[0]))
                except Odd:
                    pass
            for x in t.args:
                if isinstance(x, T):
                    walk(x)
        for a, _ in lits:
            walk(a)
        if not found:
            return all(self.holds(a) == b for a, b in lits)
        # of one of the parents
        for vals in itertools.product(*found.values()):
            self.env.update(zip(found, vals))
            ok = all(self.holds(a) == b for a, b in lits)
            for b in found:
                self.env.pop(b)
            if ok:
                return True
        return False


def about(ctx, x, t):
    """whether it speaks of the style or the parents, or of something unknown"""
    if t.op == 'rel' and t.args[0] == 'children' or t.op == 'pcall' and t.args[0] == 'get_child_rank':
        return False
    if t.op == 'rel' and t.args[0] == 'parents' and untyped(t.args[1]) is x or t.op == 'fld' and t.args[0] is x and t.args[1] in (ctx.proto.F['style'], ctx.proto.F['inn']):
        return True
    return t.op in ('lv', 'phi', 'unk', 'maybe') or any(isinstance(y, T) and about(ctx, x, y) for y in t.args)


def unknown(ctx, x, lits):
    """conditions that have nothing to do with styles and parents: they can go either way"""
    out = set()
    def walk(a):
        if a.op in ('not', 'and', 'or'):
            for y in a.args:
                walk(y)
            return
        c = Case(ctx, x, (FREE,), True)
        c.env = Any(c)
        if a.op == 'truth' and isinstance(a.args[0], T) and a.args[0].op in ('not', 'and', 'or'):
            return walk(a.args[0])
        try:
            if a.op != 'ex' or about(ctx, x, a):
                c.holds(a)
            else:
                out.add(a)
        except IndexError:
            pass
        except Odd as e:
            # within: only if the whole speaks of something else
            if about(ctx, x, a):
                raise
            out.add(a)
    for a, _ in lits:
        walk(a)
    return sorted(out, key=lambda t: t.order)


def either(atoms):
    for vals in itertools.product((True, False), repeat=len(atoms)):
        v = dict(zip(atoms, vals))
        # not of two unrelated types at once
        if sum(1 for a, b in v.items() if b and a.op == 'isinst') <= 1 or len({a.args[0] for a, b in v.items() if b and a.op == 'isinst'}) > 1:
            yield v


# ---- inheriting

def inherit(ctx, rep, box):
    f = one(ctx, 'inherit_style')
    if f is None:
        return rep.done('inherit_style', None, 'no such function')
    O = Out(rep, f, 'inherit_style')
    ps = ctx.params(f)
    if 'node' not in ps:
        return rep.done(O.title, None, 'other parameters')
    x = sym('node', 'Node')
    S = ctx.summary(f, args={p: x if p == 'node' else NONE if p.endswith('style') else sym(p) for p in ps}, stops=kept(ctx))
    if S is None:
        return rep.done(O.title, None, 'budget')
    box['base'], box['name'] = {}, f.name
    try:
        for kinds in CASES:
            O.n += 1
            needs = False
            for s, o in S.exits:
                free = unknown(ctx, x, s.facts.items())
                if len(free) > 6:
                    raise Odd(free[0])
                for env in either(free):
                    bare = Case(ctx, x, kinds, True, env)
                    if o.kind == 'raise' and o.implicit and not Case(ctx, x, kinds, False, env).all(s.facts.items()):
                        needs |= bare.all(s.facts.items())
                        continue
                    c = Case(ctx, x, kinds, False, env)
                    if not c.all(s.facts.items()):
                        continue
                    if o.kind == 'raise':
                        if o.implicit:
                            O.fault('inherits', o.node, f'{say(kinds)} cannot inherit a style: fails with {o.val}')
                        else:
                            O.unsure('raises')
                        continue
                    if s.lossy:
                        O.unsure('lossy')
                        continue
                    if base(untyped(S.eng.freeze(o.val, s))) is NONE:
                        O.fault('inherits', o.node, f'{say(kinds)} inherits no style')
                        continue
                    if firsts(O, S, s, o, c, kinds):
                        break
                    targets(O, S, s, f, c, kinds)
                if O.bad:
                    break
            box['base'][kinds] = needs
    except Odd as e:
        O.unsure('if ' + show(e.args[0])[:200])
    if O.unknown:
        box.pop('base')
    O.close()


def firsts(O, S, s, o, c, kinds):
    """one of a list is taken where there is one"""
    ts = [S.eng.freeze(o.val, s)] + [S.eng.freeze(e.val, s) for e in s.eff if isinstance(e.val, T)] + [e.tgt for e in s.eff if isinstance(e.tgt, T)]
    for t in {y for x in ts for y in subterms(x) if y.op == 'item' and is_const(y.args[1]) and cval(y.args[1]) in (0, -1)}:
        if c.parents(t.args[0]) or t.args[0].op == 'coll' and any(c.parents(f.args[1]) for g in t.args[0].args[1:] if g.op == 'gen' for f in g.args[3].args):
            if c.many(t.args[0]) == 0:
                O.fault('inherits', o.node, f'{say(kinds)} is given the first of no styles: fails')
                return True
    return False


def targets(O, S, s, f, c, kinds):
    """a style is asked only of parents further up"""
    for e in s.eff:
        if e.kind != 'api' or cval(e.key) != f.name:
            continue
        t = kwargs(S.eng.freeze(e.val, s)).get('node')
        if t is None:
            raise Odd(e.val)
        lits = list(e.guards)
        def see():
            if not c.all(lits):
                return
            try:
                i = c.which(t)
            except IndexError:
                return O.fault('inherits', e.node, f'{say(kinds)} inherits from a parent it does not have')
            if i == 'me' or kinds[i] == OWN:
                O.fault('ends', e.node, f'{say(kinds)} inherits from {"itself" if i == "me" else "a parent in its own loop"}: it never ends')
        if e.frames:
            for _ in c.frames([(fr[0], fr[1]) for fr in e.frames]):
                see()
        else:
            see()


# ---- the stylists

def everything(t, what, graph, field):
    """a listing of all of the graph: True, a part of it: False, something else: None"""
    t = base(untyped(t))
    if t.op == 'rel' and t.args[0] in (what, what + '_dict') and untyped(t.args[1]) is graph or t.op == 'fld' and t.args[0] is graph and t.args[1] == field:
        return True
    if t.op == 'slice':
        whole = everything(t.args[0], what, graph, field)
        return whole if all(y is NONE for y in t.args[1:3]) and cval(t.args[3]) in (None, 1, -1) else None if whole is None else False
    if t.op == 'coll' and len(t.args) == 2 and t.args[1].op == 'gen':
        v, k, fl, fr, gu = t.args[1].args
        if len(fr.args) == 1 and not gu.args and not set(fl.split(',')) - {'', 'each', 'kv'}:
            b, src = fr.args[0].args
            if untyped(v).op in ('el', 'ek', 'dv') and untyped(v).args[1] is b and base(untyped(untyped(v).args[0])) is base(untyped(src)):
                return everything(src, what, graph, field)
    return None


def stylist(ctx, rep, box, name):
    f = one(ctx, name)
    if f is None:
        return rep.done(name, None, 'no such function')
    O = Out(rep, f, name)
    ps = ctx.params(f)
    if 'graph' not in ps:
        return rep.done(name, None, 'other parameters')
    g = sym('graph', 'Graph')
    S = ctx.summary(f, args={p: g if p == 'graph' else NONE if p.endswith('style') else sym(p) for p in ps}, stops=kept(ctx, name))
    if S is None:
        return rep.done(name, None, 'budget')
    F = ctx.proto.F
    style = F['style']
    for s, o in S.exits:
        O.n += 1
        if o.kind == 'raise':
            if not o.implicit:
                O.unsure('raises')
            elif any(a.op == 'isnone' and b for a, b in s.facts.items()):
                O.unsure(f'fails with {o.val}')
            continue
        if s.lossy:
            O.unsure('lossy')
            continue
        try:
            nodes_of(ctx, O, S, s, o, g, F, box)
        except Odd as e:
            O.unsure('if ' + show(e.args[0])[:200])
            continue
        # the edges after the nodes
        calls = [(i, e) for i, e in enumerate(s.eff) if e.kind == 'api' and cval(e.key) == 'stylize_edges_based_on_nodes']
        sets = [i for i, e in enumerate(s.eff) if e.kind == 'set' and cval(e.key) in ('.style', style)]
        if not calls:
            if any('edges' in show(fr[1])[:60] for e in s.eff for fr in e.frames):
                O.unsure('edges are styled in another way')
            else:
                O.fault('edges', o.node, 'the edges are given no styles')
            continue
        i, e = calls[-1]
        if untyped(kwargs(S.eng.freeze(e.val, s)).get('graph', NONE)) is not g:
            O.unsure('edges of ' + show(e.val)[:80])
        elif e.frames:
            if any(base(untyped(fr[1])).op == 'rel' for fr in e.frames) and any(k > i and s.eff[k].frames[:1] == e.frames[:1] or k < i and s.eff[k].frames[:1] == e.frames[:1] for k in sets):
                O.fault('edges', e.node, 'the edges are styled before all nodes are')
            else:
                O.unsure('edges in a loop')
        elif e.guards:
            O.unsure('edges if ' + show(sorted(e.guards, key=lambda l: l[0].order)[0][0])[:80])
        elif sets and i < max(sets):
            O.fault('edges', e.node, 'the edges are styled before all nodes are: there may be no style to take the colour from')
    O.close()


def nodes_of(ctx, O, S, s, o, g, F, box):
    name = box.get('name')
    loops = []
    for e in s.eff:
        is_set = e.kind == 'set' and isinstance(e.key, T) and cval(e.key) in ('.style', F['style']) and not any('edges' in show(fr[1])[:60] for fr in e.frames)
        is_ask = e.kind == 'api' and cval(e.key) == name
        if not (is_set or is_ask):
            continue
        if is_set and untyped(e.tgt).op == 'new':
            continue
        if len(e.frames) != 1:
            raise Odd(e.tgt)
        b, src = e.frames[0][0], e.frames[0][1]
        what = everything(src, 'nodes', g, F['nodes'])
        if what is False:
            O.fault('nodes', e.node, f'only some of the nodes are styled: {show(untyped(src))[:80]}')
            return
        if what is None:
            raise Odd(src)
        if getattr(e.frames[0], 'partial', None) or 'partial' in e.flags:
            raise Odd(src)
        if not loops or loops[-1][0] is not b:
            if any(l[0] is b for l in loops):
                raise Odd(src)
            loops.append((b, src, []))
        loops[-1][2].append((e, is_set))
    if not loops:
        O.fault('nodes', o.node, 'the nodes are given no styles')
        return
    xs = {}
    for b, src, es in loops:
        ts = {untyped(e.tgt) for e, is_set in es if is_set} | {untyped(kwargs(S.eng.freeze(e.val, s)).get('node', NONE)) for e, is_set in es if not is_set}
        if len(ts) != 1:
            raise Odd(sorted(ts, key=lambda t: t.order)[0])
        x = ts.pop()
        if not (x.op in ('el', 'item', 'ek', 'dv') and x.args[1] is b):
            raise Odd(x)
        xs[b] = x
    free = []
    for b, src, es in loops:
        for e, _ in es:
            for a in unknown(ctx, xs[b], e.guards):
                if a not in free:
                    free.append(a)
    if len(free) > 5:
        raise Odd(free[0])
    for env in either(free):
        before = {(k, given): not given for k in CASES for given in (False, True)}    # whether there is no style yet
        for b, src, es in loops:
            after = dict(before)
            for (kinds, given), bare in before.items():
                c = Case(ctx, xs[b], kinds, bare, env)
                who = say(kinds)
                for e, is_set in es:
                    if not c.all(e.guards):
                        continue
                    if is_set:
                        if not bare:
                            O.fault('again', e.node, f'{who} that {"was given a style" if given else "has a style by now"} is given another: it cannot be styled twice')
                            return
                        v = untyped(S.eng.freeze(e.val, s))
                        if v is NONE:
                            continue
                        if v.op not in ('new', 'coll') and not (v.op == 'typed'):
                            raise Odd(v)
                        after[kinds, given] = False
                        continue
                    if 'base' not in box:
                        raise Odd(src)
                    if box['base'][kinds] and bare:
                        O.fault('inherits', e.node, f'{who} is to inherit a style but is where styles come from: it has none')
                        return
                    late = [k for (k, gv), br in before.items() if br and box['base'][k]]
                    if late and not box['base'][kinds]:
                        O.fault('order', e.node, f'styles are inherited while those they come from may have none yet: {say(late[0])}')
                        return
            before = after
        left = [k for (k, given), bare in before.items() if bare]
        if left:
            O.fault('nodes', o.node, f'{say(left[0])} is left without a style')
            return


def pensieve(ctx, rep, box):
    stylist(ctx, rep, box, 'stylize_with_pensieve')


def randomly(ctx, rep, box):
    stylist(ctx, rep, box, 'stylize_randomly')


# ---- edges

def edges(ctx, rep, box):
    name = 'stylize_edges_based_on_nodes'
    f = one(ctx, name)
    if f is None or 'graph' not in ctx.params(f):
        return rep.done(name, None, 'no such function')
    O = Out(rep, f, name)
    g = sym('graph', 'Graph')
    F = ctx.proto.F
    S = ctx.summary(f, args={p: g if p == 'graph' else NONE if p.endswith('style') else sym(p) for p in ctx.params(f)}, stops=kept(ctx, name))
    if S is None:
        return rep.done(name, None, 'budget')
    def ends(a, b):
        """conditions on the nodes at the ends: they are there, with a style"""
        if a.op == 'isnone':
            t = untyped(a.args[0])
            if t.op == 'fld' and t.args[1] == F['style']:
                t = untyped(t.args[0])
            return t.op == 'fld' and t.args[1] in (F['start'], F['end'], 'start', 'end')
        if a.op == 'ex':
            return any(l.args[1] and ends(l.args[0], True) for l in a.args[1].args)
        return False
    for s, o in S.exits:
        O.n += 1
        if o.kind == 'raise':
            if any(b and a.op == 'isnone' and ends(a, b) for a, b in s.facts.items()):
                continue
            O.unsure(f'raises {o.val}')
            continue
        if s.lossy:
            O.unsure('lossy')
            continue
        sets = [e for e in s.eff if e.kind == 'set' and isinstance(e.key, T) and cval(e.key) in ('.style', F['style']) and untyped(e.tgt).op != 'new']
        try:
            if not sets:
                O.fault('edges', o.node, 'the edges are given no styles')
                continue
            if len({e.frames[0][0] if e.frames else None for e in sets}) != 1 or any(len(e.frames) != 1 for e in sets):
                raise Odd(sets[0].tgt)
            src = sets[0].frames[0][1]
            what = everything(src, 'edges', g, F.get('edges', '_edges'))
            if what is False:
                O.fault('edges', sets[0].node, f'only some of the edges are styled: {show(untyped(src))[:80]}')
                continue
            if what is None:
                raise Odd(src)
            x = untyped(sets[0].tgt)
            if any(untyped(e.tgt) is not x for e in sets) or not (x.op in ('el', 'item') and x.args[1] is sets[0].frames[0][0]):
                raise Odd(x)
            guards = [[(a, b) for a, b in e.guards if not (ends(a, b) and not b)] for e in sets]
            free = []
            for gs in guards:
                free += [a for a in unknown(ctx, x, gs) if a not in free]
            if len(free) > 5:
                raise Odd(free[0])
            for env in either(free):
                for bare in (True, False):
                    c = Case(ctx, x, (), bare, env)
                    here = [e for e, gs in zip(sets, guards) if c.all(gs)]
                    if not bare and here:
                        O.fault('again', here[0].node, 'an edge that was given a style is given another: it cannot be styled twice')
                    elif bare and not any(untyped(S.eng.freeze(e.val, s)) is not NONE for e in here):
                        O.fault('edges', o.node, 'an edge is left without a style' + ''.join(f' if {"" if v else "not "}{show(a)[:60]}' for a, v in env.items()))
                    if O.bad:
                        break
                if O.bad:
                    break
            numbers(O, S, s, F)
        except Odd as e:
            O.unsure('if ' + show(e.args[0])[:200])
    O.close()


def numbers(O, S, s, F):
    """the value of an edge is used as a number only when it is one"""
    for e in s.eff:
        v = S.eng.freeze(e.val, s) if isinstance(e.val, T) else None
        if v is None:
            continue
        for t in subterms(v):
            if t.op == 'bin' and t.args[0] in ('Mult', 'Div', 'Sub', 'Pow'):
                for y in t.args[1:]:
                    y = untyped(y)
                    if y.op == 'fld' and y.args[1] == F['value'] and y.args[0].op == 'el':
                        yes = [a for a, b in e.guards if b and a.op == 'isinst' and untyped(a.args[0]) is y]
                        if not yes:
                            O.fault('numbers', e.node, 'the value of an edge is used as a number whatever it is: styling fails')
                        elif any(show(a).rstrip(')').split(', ')[-1] not in ('int', 'float', 'Number', 'Real', 'bool') for a in yes):
                            O.fault('numbers', e.node, 'the value of an edge is used as a number though it need not be one: styling fails')


# ---- the overwrites

def overwrites(ctx, rep, box):
    f = ctx.fn('Graph', 'stylize')
    if f is None:
        return rep.done('stylize', None, 'no such function')
    O = Out(rep, f, 'Graph.stylize')
    me = sym('self', 'Graph')
    F = ctx.proto.F
    S = ctx.summary(f, args={f.node.args.args[0].arg: me}, stops=kept(ctx))
    if S is None:
        return rep.done(O.title, None, 'budget')
    STY = ('stylize_with_pensieve', 'stylize_randomly')
    seen = set()
    for s, o in S.exits:
        O.n += 1
        eff = s.eff
        done = [i for i, e in enumerate(eff) if e.kind == 'api' and cval(e.key) in STY]
        ts = list(s.facts)
        if o.kind == 'ret' and s.lossy:
            O.unsure('lossy')
            continue
        for t in {y for a in ts for y in subterms(a)}:
            if t.op in ('max', 'min') and 'default' not in show(t) and t.args and untyped(t.args[0]).op in ('coll', 'rel'):
                O.fault('empty', o.node, f'fails on a graph without nodes: {show(t)[:80]}')
        if o.kind == 'raise':
            if o.implicit:
                why = [a for a, b in s.facts.items() if a.op == 'isnone' and b and untyped(a.args[0]).op == 'fld' and untyped(a.args[0]).args[1] == F['style']]
                if why and not done and not any(runs(s, w) for w in ('pensieve', 'random')):
                    continue
                if why and not done and 'AttributeError' in str(o.val):
                    O.fault('order', o.node, 'a style is used before the stylist has given any')
                elif not why:
                    if any(a.op == 'nonempty' and not b and any(y.op == 'rel' and y.args[0] in ('nodes', 'edges') for y in subterms(a)) for a, b in s.facts.items()):
                        O.fault('empty', o.node, f'fails with {o.val[0] if isinstance(o.val, tuple) else o.val} on a graph without nodes or edges')
                    elif any(a.op == 'in' and not b and base(untyped(a.args[1])).op == 'rel' and base(untyped(a.args[1])).args[0].endswith('_dict') for a, b in s.facts.items()) and 'KeyError' in str(o.val):
                        O.fault('gone', o.node, f'an overwrite of what is no longer there fails with {o.val[0] if isinstance(o.val, tuple) else o.val}')
                    else:
                        O.unsure(f'fails with {o.val}')
            else:
                O.unsure(f'raises {o.val}')
            continue
        # one of the stylists is run
        calls = [eff[i] for i in done]
        for which, fn in (('pensieve', STY[0]), ('random', STY[1])):
            hit = False
            for e in calls:
                try:
                    ok = all(b == stylist_is(a, which) for a, b in list(e.guards) + [(a, b) for a, b in s.facts.items() if '_stylist' in show(a)])
                except Odd as x:
                    O.unsure('stylist if ' + show(x.args[0])[:80])
                    ok = True
                if e.frames:
                    O.unsure('a stylist in a loop')
                if ok and untyped(kwargs(S.eng.freeze(e.val, s)).get('graph', NONE)) is not me:
                    O.unsure('stylises ' + show(e.val)[:80])
                hit |= ok
            try:
                here = all(b == stylist_is(a, which) for a, b in s.facts.items() if '_stylist' in show(a))
            except Odd as x:
                O.unsure('stylist if ' + show(x.args[0])[:80])
                here = False
            if here and not hit:
                O.fault('stylist', o.node, f'with the stylist {which!r} nothing is given a style')
        for i, e in enumerate(eff):
            terms = [t for t in ([e.tgt] if isinstance(e.tgt, T) else []) + ([S.eng.freeze(e.val, s)] if isinstance(e.val, T) else [])]
            gs = {a for a, b in e.guards if b} | {a for a, b in s.facts.items() if b}
            for t in {y for x in terms for y in subterms(x)}:
                if t.op == 'item' and t.args[0].op == 'rel' and t.args[0].args[0] in ('nodes_dict', 'edges_dict'):
                    k = t.args[1]
                    if not any(a.op == 'in' and a.args[0] is k and base(untyped(a.args[1])) is t.args[0] for a in gs):
                        about = [a for a in gs if a.op == 'in' and any(y is k for y in subterms(a))]
                        other = [a for a in about if any(y.op == 'rel' and y.args[0] == ('edges_dict' if t.args[0].args[0] == 'nodes_dict' else 'nodes_dict') for y in subterms(a))]
                        if not about or other:
                            O.fault('gone', e.node, f'an overwrite of {"a node" if t.args[0].args[0][0] == "n" else "an edge"} that is no longer there fails')
                        else:
                            O.unsure('if ' + show(about[0])[:80])
            if e.kind != 'set' or not isinstance(e.key, T) or cval(e.key) not in ('.style', F['style']) or untyped(e.tgt).op == 'new':
                continue
            x = untyped(e.tgt)
            bare = mk('isnone', fld(x, F['style']))
            v = untyped(S.eng.freeze(e.val, s))
            none = next((b for a, b in e.guards if a is bare or a.op == 'isnone' and untyped(a.args[0]) is untyped(bare.args[0])), None)
            late = not done or i > min(done)
            if v is NONE:
                O.fault('nodes', e.node, 'a style is taken away')
            elif cval(e.key) == '.style':
                if late and none is not True:
                    O.fault('again', e.node, 'a style that is there is set again: styling fails')
                elif not late and none is not True:
                    extra = [a for a, b in e.guards if 'style' in show(a)]
                    O.unsure('if ' + show(extra[0])[:80]) if extra else O.fault('again', e.node, 'a style that was given is set again: styling a second time fails')
    O.close()


def runs(s, which):
    """whether this way is taken with a stylist"""
    try:
        return all(b == stylist_is(a, which) for a, b in s.facts.items() if '_stylist' in show(a))
    except Odd:
        return False


def stylist_is(a, which):
    if a.op == 'eq':
        x, y = a.args
        if is_const(x):
            x, y = y, x
        if is_const(y) and untyped(x).op == 'fld' and untyped(x).args[1] == '_stylist':
            return cval(y) == which
    if a.op == 'isnone' and untyped(a.args[0]).op == 'fld' and untyped(a.args[0]).args[1] == '_stylist':
        return False
    if a.op == 'in' and untyped(a.args[0]).op == 'fld' and untyped(a.args[0]).args[1] == '_stylist' and a.args[1].op in ('tup', 'coll'):
        vals = a.args[1].args if a.args[1].op == 'tup' else [g.args[0] for g in a.args[1].args[1:]]
        if all(is_const(v) for v in vals):
            return which in [cval(v) for v in vals]
    raise Odd(a)
