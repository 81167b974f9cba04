"""The tree text: one level of Node.get_tree_str as a transfer function, with the recursive call kept as the text of the
child it is called for; the text of every way through is taken apart into its pieces and compared with what a level must
show, and what was shown before must be the one list that is marked before the walk goes on and handed to every child;
and the text of the graph put together from its roots with one such list."""
from report import *
from builders import untyped, kwargs
import ast
import itertools

SIGNS = {True: '└ ', False: '├ '}


def run(ctx, rep):
    for part in (level, whole):
        try:
            with limit(120):
                part(ctx, rep)
        except OutOfTime:
            rep.done(part.__name__, None, 'out of time')


def tree_of(f, spoilt=False):
    """the text of a node, with whether the list of those shown was made outside the loop"""
    me = f.node.args.args[0].arg
    def h(eng, st, recv, args, node):
        st = st.copy()
        kw = []
        for k, v in sorted(args.items()):
            if isinstance(v, T) and k != me:
                kw.append(mk('kw', k, eng.freeze(v, st)))
                if v in st.colls:
                    kw.append(mk('kw', k + '?', const(st.colls[v].depth < len(st.ctx))))
        a = mk('tup', *kw)
        for v in args.values():
            if spoilt and v in st.colls:
                eng.coll_add(st, v, NONE, kind='fuzz')
        eng.effect(st, 'api', recv if isinstance(recv, T) else NONE, const(f.name), a, node)
        return [(st, mk('rel', f.name, recv if isinstance(recv, T) else NONE, a))]
    return h


def named(what, cls=None):
    def h(eng, st, recv, args, node):
        t = mk('pcall', what, recv, mk('tup')) if cls is None else mk('rel', what, recv, mk('tup'))
        return [(st, t)]
    return h


class Out:
    def __init__(self, rep, f, title):
        self.rep, self.f, self.title, self.bad, self.unknown, self.n = rep, f, title, 0, [], 0

    def fault(self, rule, node, msg):
        self.bad += 1
        self.rep.violate(rule, self.f, node or self.f.node, msg)

    def unsure(self, why):
        if why not in self.unknown:
            self.unknown.append(why)

    def close(self):
        self.rep.done(self.title, False if self.bad else None if self.unknown else True, '; '.join(self.unknown)[:900], self.n)


def pieces(t):
    """a text as a list of constants (str), terms, and loops (coll)"""
    out = []
    def add(x):
        x = untyped(x)
        while x.op == 'str' and isinstance(x.args[0], T) and untyped(x.args[0]).op in ('pcall', 'rel', 'cat', 'join'):
            x = untyped(x.args[0])
        if x.op == 'cat':
            for a in x.args:
                add(a)
        elif is_const(x) and isinstance(cval(x), str):
            if out and isinstance(out[-1], str):
                out[-1] += cval(x)
            elif cval(x):
                out.append(cval(x))
        elif x.op == 'join' and x.args[0] is const('') and x.args[1].op == 'coll':
            framed = []
            for g in x.args[1].args[1:]:
                if g.op == 'gen' and not g.args[3].args and not g.args[4].args and not framed:
                    add(g.args[0])
                else:
                    framed.append(g)
            if framed:
                out.append(mk('loop', *framed))
        else:
            out.append(x)
    add(t)
    return out


def level(ctx, rep):
    F = ctx.proto.F
    f = ctx.fn('Node', 'get_tree_str')
    O = Out(rep, f, 'Node.get_tree_str')
    ps = ctx.params(f)
    if len(ps) != 2:
        return rep.done(O.title, None, 'other parameters')
    pi, pa = ps
    me = sym('self', 'Node')
    ind, V = sym(pi, 'str'), sym(pa, 'list')
    st = {**{k: v for k, v in ctx.std_stops().items() if k[1] not in ('children',)}, ('Node', f.name): tree_of(f), ('Node', 'label'): named('label')}
    st = {('Node', f.name): tree_of(f), ('Node', 'label'): named('label')}
    S = ctx.summary(f, args={f.node.args.args[0].arg: me, pi: ind, pa: V}, stops=st)
    if S is None:
        return rep.done(O.title, None, 'budget')
    a = f.node.args
    for p, d in list(zip((a.posonlyargs + a.args)[::-1], a.defaults[::-1])) + list(zip(a.kwonlyargs, a.kw_defaults)):
        if p.arg == pa and isinstance(d, (ast.List, ast.Call)) and any(e.tgt is V for s, o in S.exits for e in s.eff if isinstance(e.tgt, T)):
            O.fault('again', d, 'the nodes shown are kept from one text to the next: the second text shows no children')
    out = fld(me, F['out'])
    label = mk('pcall', 'label', me, mk('tup'))
    for s, o in S.exits:
        O.n += 1
        if o.kind == 'raise':
            if not o.implicit:
                O.unsure('raises')
            continue
        if s.lossy:
            O.unsure('lossy')
            continue
        none = again = empty = void = None
        odd = []
        for a, b in s.facts.items():
            if a.op == 'isnone' and a.args[0] is V:
                none = b
            elif a.op in ('nonempty', 'truth') and a.args[0] is V:
                void = not b
            elif a.op == 'in' and untyped(a.args[0]) is me and a.args[1] is V:
                again = b
            elif a.op == 'nonempty' and a.args[0] in (out, mk('dv', out)):
                empty = not b
            elif not open_question(a, me, V, out, fld(me, F['inn'])):
                odd.append(a)
        if odd:
            O.unsure('if ' + show(odd[0])[:700])
            continue
        p = pieces(S.eng.freeze(o.val, s))
        calls = [(i, e) for i, e in enumerate(s.eff) if e.kind == 'api']
        if again:
            if calls:
                O.fault('again', o.node, 'a node met again is expanded again')
            elif p == [label, '\n']:
                O.fault('again', o.node, 'a node met again is not marked')
            elif p != [label, '*\n']:
                O.unsure('shows ' + show(untyped(S.eng.freeze(o.val, s)))[:700])
            continue
        if again is None and none is not True and void is not True and empty is not True:
            if calls:
                O.fault('ends', o.node, 'children are shown whether or not the node was shown before: the text does not end on a cycle')
            else:
                O.unsure('no children')
            continue
        v = untyped(S.eng.freeze(o.val, s))
        if v.op == 'phi' and calls:
            lost = [x for x in v.args[4:] if label not in pieces(x) and not any(isinstance(y, T) and y.op == 'lv' and y.args[:2] == v.args[:2] for y in pieces(x)) and any(isinstance(y, T) and y.op == 'rel' for y in pieces(x))]
            if lost:
                O.fault('children', o.node, f'what was shown above a child is thrown away: {show(lost[0])[:80]}')
                continue
        if p[:1] != [label] or len(p) < 2 or not isinstance(p[1], str) or p[1] not in ('\n', '*\n'):
            O.unsure('shows ' + show(untyped(S.eng.freeze(o.val, s)))[:700])
            continue
        if p[1] == '*\n':
            O.fault('again', o.node, 'a node met for the first time is marked as met again')
            continue
        if empty is True:
            if len(p) == 2 or len(p) == 3 and isinstance(p[2], T) and p[2].op == 'loop' and all(
                    g.op == 'gen' and g.args[3].args and base(untyped(g.args[3].args[0].args[1])) is out for g in p[2].args):
                continue
        if len(p) == 2:
            if empty is not True:
                O.fault('children', o.node, 'the children are not shown')
            continue
        if len(p) != 3 or not isinstance(p[2], T) or p[2].op != 'loop':
            O.unsure('shows ' + show(untyped(S.eng.freeze(o.val, s)))[:700])
            continue
        children(O, F, s, o, p[2].args, out, ind, pi, pa, V, none, me)
        if O.bad or O.unknown:
            continue
        marked(O, F, S, s, o, me, V, pa, none, calls)
    O.close()


class Odd(Exception):
    """a condition that is not understood"""


def open_question(a, me, V, out, inn):
    """a condition that can go either way whatever was shown before: of lengths, edges and other things in the list"""
    if a.op == 'in' and a.args[1] is V:
        return untyped(a.args[0]) is not me
    if a.op == 'in' and a.args[1].op == 'slice' and a.args[1].args[0] is V:
        return True
    def plain(t):
        return not isinstance(t, T) or t.op not in ('call', 'pcall', 'rel', 'apiret', 'made', 'unk', 'lv', 'phi', 'lh', 'ite', 'maybe') and all(plain(x) for x in t.args)
    return a.op in ('lt', 'le', 'eq') and plain(a) and any(x is not V and isinstance(x, T) for x in a.args) or a.op == 'ex' and plain(a)


def amounts(lits, out, inn, distinct):
    """the unknown amounts the conditions on a child speak of"""
    found = {}
    def walk(t):
        if t.op == 'len':
            found.setdefault(t, measure(t, out, inn, distinct))
        elif t.op == 'bin' or t.op in ('eq', 'lt', 'le', 'truth', 'not', 'and', 'or'):
            for a in t.args:
                if isinstance(a, T):
                    walk(a)
        elif t.op in ('in', 'inopen', 'same', 'isnone', 'nonempty'):
            found.setdefault(t, 'either')
    for a, _ in lits:
        walk(a)
    return found


def base(t):
    while t.op in ('dv', 'dk', 'di', 'listof', 'typed', 'sorted', 'reversed', 'tupleof'):
        t = t.args[0]
    return t


def measure(t, out, inn, distinct):
    """what a length is: of the children shown, of all of them, of those that differ, or of something else"""
    x = base(t.args[0])
    if x is out:
        return 'all' if distinct else 'shown'
    if x is inn:
        return 'other'
    if x.op == 'coll' and len(x.args) == 2 and x.args[1].op == 'gen':
        v, k, fl, fr, gu = x.args[1].args
        if len(fr.args) == 1 and base(fr.args[0].args[1]) in (out, inn) and not gu.args:
            if base(fr.args[0].args[1]) is inn:
                return 'other'
            if x.args[0] == 'set' or {'each', 'dedupe'} & set(fl.split(',')):
                return 'shown' if distinct else 'fewer'
            return 'all' if distinct else 'shown'
    raise Odd(t)


def truth(a, b, i, env):
    def val(t):
        if is_const(t):
            return cval(t)
        if t in env:
            return env[t]
        if t.op == 'idx' and t.args[0] is b and is_const(t.args[1]):
            return i + cval(t.args[1])
        if t.op == 'pos' and t.args[1].op in ('fld', 'el') and is_const(t.args[2]) and mentions(t.args[1], b):
            return i + cval(t.args[2])
        if t.op == 'bin' and t.args[0] in ('Add', 'Sub', 'Mult', 'Mod', 'FloorDiv'):
            x, y = val(t.args[1]), val(t.args[2])
            if t.args[0] in ('Mod', 'FloorDiv') and y == 0:
                raise Odd(t)
            return {'Add': x.__add__, 'Sub': x.__sub__, 'Mult': x.__mul__, 'Mod': x.__mod__, 'FloorDiv': x.__floordiv__}[t.args[0]](y)
        if t.op == 'eq':
            return val(t.args[0]) == val(t.args[1])
        if t.op == 'lt':
            return val(t.args[0]) < val(t.args[1])
        if t.op == 'le':
            return val(t.args[0]) <= val(t.args[1])
        if t.op == 'truth':
            return bool(val(t.args[0]))
        if t.op == 'not':
            return not val(t.args[0])
        raise Odd(t)
    return val(a)


def mentions(t, b):
    return t is b or any(isinstance(x, T) and mentions(x, b) for x in t.args)


def settings(found, n):
    """all the ways the unknown amounts can be when n children are shown"""
    names = list(found)
    spans = [{'shown': [n], 'all': range(n, n + 2), 'fewer': range(1, n + 1), 'other': range(0, n + 2), 'either': [False, True]}[found[t]] for t in names]
    # lengths of one kind are the same length
    for combo in itertools.product(*spans):
        env = dict(zip(names, combo))
        if all(env[x] == env[y] for x in names for y in names if found[x] == found[y] and found[x] in ('all', 'fewer')):
            yield env


def children(O, F, s, o, gens, out, ind, pi, pa, V, none, me):
    inn = fld(me, F['inn'])
    rows = []
    for g in gens:
        if g.op != 'gen':
            return O.unsure('shows ' + show(g)[:120])
        val, key, fl, fr, gu = g.args
        fl = set(fl.split(',')) - {''}
        if len(fr.args) != 1 or fl - {'each', 'dedupe'}:
            return O.unsure('shows ' + show(g)[:120])
        b, src = fr.args[0].args
        src = untyped(src)
        if src is not out and src is not mk('dv', out):
            if src.op == 'slice':
                return O.fault('children', o.node, f'only a part of the children is shown: {show(src)[:80]}')
            if base(src) is inn:
                return O.fault('children', o.node, f'shows {show(src)[:80]} in place of the children')
            return O.unsure('shows ' + show(g)[:120])
        lits = [(l.args[0], l.args[1]) for l in gu.args]
        p = pieces(val)
        texts = [x for x in p if isinstance(x, T) and x.op == 'rel']
        if len(texts) != 1 or p[-1] is not texts[0]:
            return O.unsure('a line ' + show(val)[:120])
        t = texts[0]
        edge = mk('el', mk('dv', out), b), mk('el', out, b)
        child = t.args[1]
        if child.op in ('item', 'el') and child.args[0].op == 'coll' and len(child.args[0].args) == 2 and child.args[1] in (mk('idx', b, const(0)), b):
            v, k, f2, fr2, gu2 = child.args[0].args[1].args
            if len(fr2.args) == 1 and not f2 and not gu2.args and untyped(fr2.args[0].args[1]) in (out, mk('dv', out)):
                t = mk('rel', t.args[0], sub(v, {fr2.args[0].args[0]: b}), t.args[2])
        if not (t.args[1].op == 'fld' and t.args[1].args[0] in edge and t.args[1].args[1] in (F['end'], 'end')):
            if t.args[1] is me or t.args[1].op == 'fld' and t.args[1].args[0] in edge:
                return O.fault('children', o.node, f'shows {show(t.args[1])[:60]} in place of a child')
            return O.unsure('shows ' + show(t.args[1])[:80])
        known = lambda q: all(isinstance(x, str) or x is ind for x in q)
        front = p[:-1]
        kw = kwargs(t.args[2])
        below = pieces(kw.get(pi, const('')))
        if not known(front):
            return O.unsure('a line ' + show(val)[:120])
        if not known(below):
            return O.unsure('indented by ' + show(kw.get(pi, const('')))[:80])
        t = kw.get(pa, NONE)
        if t is NONE:
            return O.fault('ends', o.node, 'children are not told what was shown before: the text does not end on a cycle')
        if none is not True and untyped(t) is not V:
            return O.fault('again', o.node, 'children get another list of what was shown than the one given: a node met again in another place is expanded again') if untyped(t).op == 'coll' else O.unsure('already shown ' + show(t)[:80])
        if none is True and kw.get(pa + '?') is FALSE:
            return O.fault('again', o.node, 'each child gets a list of its own of what was shown: a node met again in another place is expanded again')
        rows.append((b, lits, front, below, bool(fl)))
    distinct = any(r[4] for r in rows)
    try:
        found = amounts([l for r in rows for l in [(sub(a, {r[0]: rows[0][0]}), v) for a, v in r[1]]], out, inn, distinct)
        rows = [(rows[0][0], [(sub(a, {r[0]: rows[0][0]}), v) for a, v in r[1]]) + r[2:] for r in rows]
        if len([1 for x in found.values() if x == 'either']) > 4:
            return O.unsure('many conditions')
        for n in range(1, 6):
            for env in settings(found, n):
                for i in range(n):
                    here = [r for r in rows if all(truth(a, rows[0][0], i, env) == v for a, v in r[1])]
                    last = i == n - 1
                    case = ', '.join(f'{"" if env[t] else "not "}{show(t)[:60]}' for t in env if found[t] == 'either')
                    what = f'{"the last" if last else "another"} of {n} children' + (f' if {case}' if case else '')
                    if not here:
                        return O.fault('children', o.node, f'{what} is not shown')
                    if len(here) > 1:
                        return O.unsure(f'{what} is shown more than once')
                    _, _, front, below, _ = here[0]
                    if front != [ind, SIGNS[last]]:
                        if front == [ind, SIGNS[not last]]:
                            return O.fault('signs', o.node, f'{what} has the sign {front[1].strip()}')
                        if [x for x in front if x is ind] != [ind] or front[0] is not ind:
                            return O.fault('indentation', o.node, f'{what} is not indented under its node')
                        return O.unsure('the sign ' + str(front[1:]))
                    if below != [ind, '  ' if last else '│ ']:
                        return O.fault('indentation', o.node, f'what is below {what} is indented by {"".join(x if isinstance(x, str) else pi for x in below)!r}')
    except Odd as e:
        return O.unsure(f'if {show(e.args[0])[:100]}')


def covers(es):
    """whether one of the effects happens in any case"""
    g = [e.guards for e in es]
    return any(not x for x in g) or any(len(x) == len(y) == 1 and tuple(x)[0][0] is tuple(y)[0][0] and tuple(x)[0][1] != tuple(y)[0][1] for x in g for y in g)


def mine_of(marks, S, s, me):
    return [(i, e) for i, e in marks if untyped(S.eng.freeze(e.val, s)) is me]


def marked(O, F, S, s, o, me, V, pa, none, calls):
    """the node is in the list before any child is shown"""
    first = min(i for i, _ in calls) if calls else len(s.eff)
    if none is True:
        for i, e in calls:
            t = untyped(kwargs(S.eng.freeze(e.val, s)).get(pa, NONE))
            if t.op != 'coll':
                return O.unsure('already shown ' + show(t)[:80])
            if not any(untyped(g.args[0]) is me or {'open', 'fuzz'} & set(g.args[2].split(',')) for g in t.args[1:] if g.op == 'gen'):
                return O.fault('ends', e.node, 'the node is not marked as shown before its children are: the text does not end on a cycle')
        return
    marks = [(i, e) for i, e in enumerate(s.eff) if e.kind in ('lappend', 'linsert') and e.tgt is V]
    other = [e for e in s.eff if isinstance(e.tgt, T) and e.tgt is V and e.kind not in ('lappend', 'linsert')]
    for e in other:
        if e.kind in ('lpop', 'lremove', 'lclear') and covers([x for x in other if x.kind == e.kind]) and len(mine_of(marks, S, s, me)) == len(marks) == 1:
            return O.fault('again', e.node, 'the mark is taken away again: a node met again in another place is expanded again')
    for i, e in enumerate(s.eff):
        if e.kind == 'lextend' and e.tgt is V:
            v = S.eng.freeze(e.val, s)
            vals = [g.args[0] for g in v.args[1:] if g.op == 'gen' and not g.args[2]] if v.op == 'coll' else v.args if v.op == 'tup' else []
            if [untyped(x) for x in vals if isinstance(x, T)] == [me]:
                marks.append((i, e._replace(val=me)))
                other.remove(e)
    for e in other:
        if e.kind == 'lextend' and not e.guards:
            v = S.eng.freeze(e.val, s)
            if v.op in ('coll', 'tup') and untyped(v) is not me:
                vals = [untyped(g.args[0]) for g in v.args[1:] if g.op == 'gen'] if v.op == 'coll' else [untyped(x) for x in v.args]
                if any(x.op == 'fld' and x.args[1] == 'end' or x.op == 'fld' and x.args[0].op == 'el' for x in vals):
                    return O.fault('children', e.node, 'a child is marked as shown before it is')
    if other:
        return O.unsure('changes the list: ' + other[0].kind)
    for i, e in marks:
        v = untyped(S.eng.freeze(e.val, s))
        if v.op == 'fld' and v.args[0].op == 'el':
            return O.fault('children', e.node, 'a child is marked as shown before it is')
    mine = mine_of(marks, S, s, me)
    if not mine:
        if marks and not all(untyped(S.eng.freeze(e.val, s)).op in ('pcall', 'const') for i, e in marks):
            return O.unsure('marks ' + show(S.eng.freeze(marks[0][1].val, s))[:60])
        return O.fault('ends', o.node, 'the node is not marked as shown: the text does not end on a cycle')
    early = [(i, e) for i, e in mine if i < first]
    if calls and not early:
        return O.fault('ends', mine[0][1].node, 'the node is marked as shown only after its children: the text does not end on a cycle')
    if not calls or any(not e.guards for i, e in early):
        return
    out, inn = fld(me, F['out']), fld(me, F['inn'])
    try:
        for n in range(1, 5):
            # before the first child: at least one of the marks
            envs = [{}]
            lits = [(a, v) for i, e in early for a, v in e.guards]
            for env in settings(amounts(lits, out, inn, False), n):
                if not any(all(first_time(a, e, env) == v for a, v in e.guards) for i, e in early):
                    return O.fault('ends', early[0][1].node, f'with {n} children the node is not marked as shown before the first of them: the text does not end on a cycle')
    except Odd as e:
        return O.unsure('marks only if ' + show(e.args[0])[:80])


def first_time(a, e, env):
    return truth(a, e.frames[-1][0] if e.frames else None, 0, env)


def speaks(t, field):
    return isinstance(t, T) and (t.op == 'fld' and t.args[1] == field or any(speaks(x, field) for x in t.args))


def whole(ctx, rep):
    F = ctx.proto.F
    f = ctx.fn('Graph', 'get_tree_str')
    n = ctx.fn('Node', 'get_tree_str')
    O = Out(rep, f, 'Graph.get_tree_str')
    pi, pa = (ctx.params(n) + ['', ''])[:2]
    g = sym('self', 'Graph')
    st = {('Node', n.name): tree_of(n, True)}
    roots = mk('rel', 'roots', g, mk('tup'))
    for c in ('Graph', 'BasicGraph', 'GraphWithoutDisplay'):
        st[(c, 'roots')] = named('roots', 'list')
    S = ctx.summary(f, args={f.node.args.args[0].arg: g}, stops=st)
    if S is None:
        return rep.done(O.title, None, 'budget')
    for s, o in S.exits:
        O.n += 1
        if o.kind == 'raise':
            if not o.implicit:
                O.unsure('raises')
            continue
        odd = [a for a in s.facts if not (a.op == 'nonempty' and untyped(a.args[0]) is roots)]
        v = untyped(S.eng.freeze(o.val, s))
        if odd:
            O.unsure('if ' + show(odd[0])[:80])
            continue
        if v.op == 'const' and any(not b for b in s.facts.values()):
            continue    # no roots
        if v.op != 'join' or v.args[1].op != 'coll' or len(v.args[1].args) != 2 or v.args[1].args[1].op != 'gen':
            O.unsure('gives ' + show(v)[:700])
            continue
        val, key, fl, fr, gu = v.args[1].args[1].args
        p = pieces(val)
        t = p[0] if len(p) == 1 else None
        if 'dedupe' in fl.split(',') and len(fr.args) == 1 and isinstance(t, T) and t.op == 'rel':
            O.fault('roots', o.node, 'of roots with the same text only one is shown')
            continue
        if len(fr.args) != 1 or fl or not isinstance(t, T) or t.op != 'rel':
            O.unsure('gives ' + show(v)[:700])
            continue
        b, src = fr.args[0].args
        if untyped(src) is not roots:
            if src in (fld(g, F['nodes']), mk('dv', fld(g, F['nodes']))) and gu.args and all(speaks(l.args[0], F['out']) and not speaks(l.args[0], F['inn']) for l in gu.args):
                O.fault('roots', o.node, f'shows the nodes with {show(gu)[:80]} in place of the roots')
            elif untyped(src).op == 'slice':
                O.fault('roots', o.node, f'only a part of the roots is shown: {show(src)[:80]}')
            else:
                O.unsure('shows ' + show(src)[:700])
            continue
        if gu.args:
            O.unsure(f'shows a root if {show(gu)[:80]}')
            continue
        if not (t.args[1].op == 'el' and t.args[1].args[1] is b):
            O.unsure('shows ' + show(t.args[1])[:80])
            continue
        kw = kwargs(t.args[2])
        if kw.get(pa, NONE) is NONE or kw.get(pa + '?') is FALSE:
            O.fault('again', o.node, 'each root gets a list of its own of what was shown: a node below two roots is expanded twice')
        elif untyped(kw[pa]) is roots:
            O.fault('roots', o.node, 'roots are marked as shown before they are')
        elif untyped(kw[pa]).op != 'coll':
            O.unsure('already shown ' + show(kw[pa])[:80])
        if kw.get(pi, const('')) is not const(''):
            O.unsure('indented by ' + show(kw[pi])[:60])
    O.close()
