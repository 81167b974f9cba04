"""Ancestors and descendants: one level of the recursive walk as a transfer function, with the recursive call kept as the
relatives of the node it is called for, checked against the inductive step (every parent or child, with the relatives of
those not travelled yet, the node marked before the walk goes on); one round of the grouping by distance likewise; and
the public queries on top of them."""
import ast, copy
from report import *
from compare import opaque
from boolnorm import canon_dnf
from builders import untyped, kwargs
from steps import round_of, func_like
from rules.c10 import rel_stops

WAYS = {'get_ancestors': ('inn', 'start', 'get_parents'), 'get_descendants': ('out', 'end', 'get_children')}


def run(ctx, rep):
    grouped = set()
    for name in WAYS:
        try:
            with limit(120):
                walk(ctx, rep, name, grouped)
        except OutOfTime:
            rep.done(name, None, 'out of time')
    for n in WAYS:
        rep.spec('Node', n[4:], f'def f(self):\n    return self.$graph$.{n}(node=self, distance=False)', 'list', stops=rel_stops(ctx), excs=False)


def ident(eng, st, recv, args, node):
    return [(st, args['node'])]


def kept(name, me):
    """a call as the known collection it stands for, and an effect"""
    def h(eng, st, recv, args, node):
        st = st.copy()
        kw = mk('tup', *[mk('kw', k, eng.freeze(v, st)) for k, v in sorted(args.items()) if isinstance(v, T) and k != me])
        eng.effect(st, 'api', recv if isinstance(recv, T) else NONE, const(name), kw, node)
        return [(st, mk('rel', name, recv if isinstance(recv, T) else NONE, kw))]
    return h


def callees(ctx, f):
    """methods of the graph a method calls on itself, itself first, all the way down"""
    todo, seen = [f], []
    while todo:
        g = todo.pop(0)
        if g in seen:
            continue
        seen.append(g)
        me = g.node.args.args[0].arg if g.node.args.args else None
        for n in ast.walk(g.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == me:
                try:
                    h = ctx.fn('Graph', n.func.attr)
                except Exception:
                    continue
                todo.append(h)
    return seen


def calls_itself(f):
    return any(isinstance(n, ast.Call) and (isinstance(n.func, ast.Attribute) and n.func.attr == f.name or isinstance(n.func, ast.Name) and n.func.id == f.name) for n in ast.walk(f.node))


def stops_for(ctx, names):
    st = {('*', 'get_node'): ident}
    for c in ('Graph', 'BasicGraph', 'GraphWithoutDisplay'):
        st[(c, 'get_node')] = ident
        for f in names:
            st[(c, f.name)] = kept(f.name, f.node.args.args[0].arg)
    return st


class Level:
    def __init__(self, ctx, rep, f, name):
        self.ctx, self.rep, self.f, self.name = ctx, rep, f, name
        self.bad, self.unknown, self.n = 0, [], 0
        self.what = name[4:]

    def fault(self, rule, node, msg):
        self.bad += 1
        self.rep.violate(rule, self.f, node or self.f.node, f'{self.name}: {msg}')

    def unsure(self, why):
        if why not in self.unknown:
            self.unknown.append(why)

    def close(self, title):
        self.rep.done(f'{self.name}: {title}', False if self.bad else None if self.unknown else True, '; '.join(self.unknown)[:200], self.n)


def walk(ctx, rep, name, grouped):
    f = ctx.fn('Graph', name)
    rec = [g for g in callees(ctx, f) if calls_itself(g)]
    grp = [g for g in callees(ctx, f) if any(isinstance(n, ast.While) for n in ast.walk(g.node))]
    if len(rec) != 1 or len(rec[0].node.args.args) != 3 or rec[0] is f or len(grp) != 1 or grp[0] is f or rec[0].kind == 'static' or grp[0].kind == 'static':
        return rep.done(f'{name}: complete', None, f'{len(rec)} recursive functions, {len(grp)} with a loop')
    rec, grp = rec[0], grp[0]
    start = query(ctx, rep, name, f, rec, grp)
    if start is not None:
        level(ctx, rep, name, rec, start)
    if grp not in grouped:
        grouped.add(grp)
        rounds(ctx, rep, grp)


# ------------------------------------------------------------------ the public query
def query(ctx, rep, name, f, rec, grp):
    L = Level(ctx, rep, f, name)
    me = f.node.args.args[0].arg
    node, dist = sym('node', 'Node'), sym('distance')
    S = ctx.summary(f, args={me: sym('self', 'Graph'), 'node': node, 'distance': dist}, stops=stops_for(ctx, [rec, grp]))
    start = None
    a = f.node.args
    d = dict(zip([x.arg for x in a.args][len(a.args) - len(a.defaults):], a.defaults)).get('distance')
    if isinstance(d, ast.Constant) and d.value is not True:
        L.fault('distances', f.node, 'distances are given unless asked for otherwise')
    if S is None:
        L.unsure('budget')
    rp = [x.arg for x in rec.node.args.args]
    gp = [x.arg for x in grp.node.args.args]
    rows = []
    for s, o in S.exits if S else ():
        L.n += 1
        if o.kind == 'raise':
            if not o.implicit:
                L.unsure('raises')
            continue
        v = untyped(S.eng.freeze(o.val, s))
        for k in ('list', 'dict'):
            v = plain_copy(v, k)
        kind = inner = None
        if v.op == 'rel' and v.args[0] == rec.name:
            kind, inner = 'list', v
        elif v.op == 'rel' and v.args[0] == grp.name:
            kind = 'table'
            kw = kwargs(v.args[2])
            rels = [plain_copy(untyped(kw[p]), 'list') for p in gp if p in kw]
            lists = [x for x in rels if x.op == 'rel' and x.args[0] == rec.name]
            if len(lists) != 1:
                L.unsure('groups ' + show(v)[:100])
                continue
            inner = lists[0]
            ways = [x for x in kw.values() if x.op == 'bm' and x.args[-1] in [w[2] for w in WAYS.values()]]
            if len(ways) != 1 or node not in kw.values():
                others = [x for k, x in kw.items() if x is not inner and x not in ways and x.op in ('fld', 'el', 'const')]
                L.unsure('groups with ' + ', '.join(show(x)[:50] for x in kw.values()))
                continue
            if ways[0].args[-1] != WAYS[name][2]:
                L.fault('distance', o.node, f'the {L.what} are grouped along {ways[0].args[-1]}')
        if kind is None:
            L.unsure('gives ' + show(v)[:100])
            continue
        kw = kwargs(inner.args[2])
        if kw.get(rp[1]) is not node:
            L.unsure('walks from ' + show(kw.get(rp[1]))[:60])
            continue
        t = kw.get(rp[2], NONE)
        if not (t is NONE or t.op == 'coll' and len(t.args) == 1):
            if is_const(t) or t.op == 'coll' and opaque(t) is None:
                L.unsure('starts with travelled ' + show(t)[:60])
            else:
                L.unsure('starts with travelled ' + show(t)[:60])
            continue
        if start is not None and start is not t:
            L.unsure('two starts')
        start = t
        rows.append((s, o, kind))
    for s, o, kind in rows:
        t = None
        for x, b in s.facts.items():
            if x is dist or x.op == 'truth' and x.args[0] is dist or x.op in ('eq', 'same') and dist in x.args and TRUE in x.args:
                t = b
        if t is None:
            if not any(contains(x, dist) for s2, *_ in rows for x in s2.facts):
                L.fault('distances', o.node, 'gives the same whether distances are asked for or not')
            else:
                L.unsure('which result')
        elif t != (kind == 'table'):
            L.fault('distances', o.node, f'gives the {kind} when distances are {"" if t else "not "}asked for')
    if not rows:
        L.unsure('nothing given')
    L.close('as asked')
    return start


def plain_copy(t, kind):
    if t.op == 'coll' and t.args[0] == kind and len(t.args) == 2 and t.args[1].op == 'gen':
        val, key, fl, fr, gu = t.args[1].args
        if len(fr.args) == 1 and not gu.args and val.op == 'el' and fl in ('', 'kv'):
            src = fr.args[0].args[1]
            if src is val.args[0] and key is NONE:
                return src
            if key.op == 'ek' and src.op == 'dv':
                return src.args[0]
    return t


# ------------------------------------------------------------------ one level of the walk
def level(ctx, rep, name, f, start):
    L = Level(ctx, rep, f, name)
    me, pn, pt = [x.arg for x in f.node.args.args]
    node = sym('node', 'Node')
    V = None
    for case in ('first', 'deeper'):
        if case == 'first':
            g, t = f, None
            args = {me: sym('self', 'Graph'), pn: node}
            S = None
            eng = ctx.engine(stops_for(ctx, [f]))
            args[pt] = start if start is NONE else NONE
            if start is not NONE:
                # an empty collection made for the walk
                g = prefixed(f, f'{pt} = {start.args[0]}()')
        else:
            if V is None:
                break
            g = prefixed(f, f'{pt} = {V}({pt})')
            args = {me: sym('self', 'Graph'), pn: node, pt: sym(pt, V)}
        S = ctx.summary(g, args=args, stops=stops_for(ctx, [f]))
        if S is None:
            L.unsure('budget')
            break
        trav = args[pt] if case == 'deeper' else None
        for s, o in S.exits:
            L.n += 1
            k = one_exit(ctx, L, f, S, s, o, node, pn, pt, trav, name)
            V = V or k
        if case == 'first' and V is None and not L.bad:
            L.unsure('does not go on')
    L.close('complete, and ends')


def prefixed(f, line):
    g = func_like(f, f.name, [copy.deepcopy(a) for a in f.node.args.args], ast.parse(line).body + copy.deepcopy(f.node.body), f.node)
    g.node.args.defaults = copy.deepcopy(f.node.args.defaults)
    return g


def one_exit(ctx, L, f, S, s, o, node, pn, pt, trav, name):
    F = ctx.proto.F
    role, far, _ = WAYS[name]
    if o.kind == 'raise':
        if not o.implicit:
            L.unsure('raises')
        return None
    if s.lossy:
        L.unsure('lossy')
        return None
    v = untyped(S.eng.freeze(o.val, s))
    edges = fld(node, F[role])
    if trav is not None and any(a.op in ('nonempty', 'truth') and a.args[0] is trav and not b for a, b in s.facts.items()):
        trav = None    # nothing was travelled before
    facts, odd, empty = s.facts, [], None
    for a, b in facts.items():
        if a.op == 'nonempty' and a.args[0] in (edges, mk('dv', edges)):
            empty = not b
        elif a.op in ('nonempty', 'truth', 'isnone') and a.args[0].op == 'sym' and a.args[0].args[0] == pt:
            if a.op == 'isnone' and b:
                return None
        elif a.op in ('isinst', 'isnone') and node in a.args:
            pass
        elif a.op == 'ex' or a.op == 'nonempty' and a.args[0].op == 'coll':
            odd.append(a)
        else:
            odd.append(a)
    if v.op != 'coll' or v.args[0] not in ('list',):
        L.unsure('gives ' + show(v)[:100])
        return None
    if any(x.op == 'gen' and x.args[0].op == 'el' and x.args[0].args[0] is trav for x in v.args[1:] if trav is not None):
        L.unsure('gives what was travelled')
        return None
    kind = None

    def neighbour(t):
        """the element of the frame a parent or child is taken from"""
        return t.op == 'fld' and t.args[1] in (F[far], far) and t.args[0].op == 'el' and t.args[0].args[0] in (edges, mk('dv', edges))

    def wrong(t):
        if t.op == 'fld' and t.args[0].op == 'el':
            src = t.args[0].args[0]
            src = src.args[0] if src.op == 'dv' else src
            return src in (fld(node, F['inn']), fld(node, F['out'])) and not neighbour(t)
        return False

    near, deep, calls = [], [], {}
    for g in v.args[1:]:
        if g.op != 'gen':
            L.unsure('gives ' + show(g)[:80])
            return None
        val, key, fl, fr, gu = g.args
        fl = set(fl.split(',')) - {''}
        cube = frozenset((l.args[0], l.args[1]) for l in gu.args)
        if len(fr.args) == 1 and (neighbour(val) or wrong(val)) and val.args[0].args[1] is fr.args[0].args[0]:
            if wrong(val):
                L.fault('neighbours', o.node, f'gives {show(val)[:80]} as {L.what}')
                return None
            near.append((val, cube, fl))
        elif len(fr.args) == 2 and val.op == 'el' and val.args[0].op == 'rel' and val.args[0].args[0] == f.name and val.args[1] is fr.args[1].args[0] and untyped(fr.args[1].args[1]) is val.args[0]:
            kw = kwargs(val.args[0].args[2])
            p = kw.get(pn)
            if p is not None and wrong(p):
                L.fault('neighbours', o.node, f'goes on from {show(p)[:80]}')
                return None
            if p is None or not neighbour(p) or p.args[0].args[1] is not fr.args[0].args[0]:
                L.unsure('goes on from ' + show(p)[:80])
                return None
            deep.append((val, p, kw.get(pt), cube, fl))
        elif not fr.args and val is node:
            # itself: right or wrong depends on what was walked
            L.unsure('gives the node itself') if name == 'get_ancestors' else L.fault('itself', o.node, 'the node is given as its own descendant')
            return None
        elif any(x.op in ('slice', 'idx') and (untyped(x.args[0]).op == 'rel' or untyped(x.args[0]).op == 'coll') for x in [untyped(y.args[1]) for y in fr.args]):
            # a part of the neighbours, or of what was found farther on
            return L.fault('complete', o.node, 'only a part is taken: ' + show(next(y.args[1] for y in fr.args if untyped(y.args[1]).op in ('slice', 'idx')))[:120])
        else:
            L.unsure('gives ' + show(g)[:100])
            return None
    for a in odd:
        q = next((x for x in (untyped(y) for y in a.args if isinstance(y, T)) if neighbour(x) and x.args[0].args[1].op == 'it'), None)
        if q is not None and (a.op in ('same', 'eq') and node in a.args or a.op == 'in' and trav is not None and a.args[1] is trav):
            return L.fault('complete', o.node, f'stops at a neighbour when {"" if facts[a] else "not "}{show(a)[:60]}: those after it are left out')
    size = sizes(odd, facts, lambda x: x in (edges, mk('dv', edges)) or x.op == 'coll' and len(x.args) == 2 and x.args[1].op == 'gen' and neighbour(x.args[1].args[0]) and not x.args[1].args[4].args)
    if size:
        if not size[0]:
            return None
        odd = [a for a in odd if a not in size[1]]
    if empty is True:
        return None if not odd else L.unsure('if ' + show(odd[0])[:80])
    if any(a.op not in ('ex',) for a in odd):
        a = next(a for a in odd if a.op != 'ex')
        L.unsure(f'if {show(a)[:80]}')
        return None
    if not near or not deep:
        if odd:
            L.unsure('if ' + show(odd[0])[:80])
            return None
        # nothing said about the neighbours, or nothing beyond them
        if empty is None and not near and not deep and not v.args[1:]:
            return L.fault('complete', o.node, f'gives no {L.what}')
        if not near:
            return L.fault('complete', o.node, f'the nearest {L.what} are not given')
        return L.fault('complete', o.node, f'the {L.what} farther away than one step are not given')
    val, p, t, cube, fl = deep[0]

    # what is handed on as travelled: what came in, and the node
    if t is None or t is NONE:
        return L.fault('ends', o.node, 'the walk goes on without what was travelled: it does not end on a cycle')
    t = untyped(t)
    if t.op != 'coll':
        if t is trav:
            return L.fault('ends', o.node, 'the node is not marked as travelled before the walk goes on: it does not end on a cycle')
        L.unsure('travelled ' + show(t)[:80])
        return None
    kind = t.args[0]
    has_node = has_all = extra = False
    for g in t.args[1:]:
        if g.op != 'gen':
            extra = True
            continue
        gval, gkey_, gfl, gfr, ggu = g.args
        if not gfr.args and gval is node and not ggu.args:
            has_node = True
        elif trav is not None and gval.op == 'el' and gval.args[0] is trav and len(gfr.args) == 1 and gfr.args[0].args[1] is trav and not ggu.args:
            has_all = True
        else:
            extra = True
    if trav is None:
        has_all = True
    if not (has_node and has_all):
        if extra:
            L.unsure('travelled ' + show(t)[:80])
            return None
        if not has_node:
            return L.fault('ends', o.node, 'the node is not marked as travelled before the walk goes on: it does not end on a cycle')
        return L.fault('ends', o.node, 'what was travelled before is forgotten: the walk does not end on a cycle')
    if extra:
        L.unsure('travelled ' + show(t)[:80])
        return None

    def understood(cubes, val, q, inner=None):
        """the conditions as sets of 'not travelled' / other; None when unclear"""
        c = canon_dnf(cubes)
        if c is None:
            return None
        out = set()
        for k in c:
            w = set()
            for a, b in k:
                if a.op in ('same', 'eq') and {untyped(x) for x in a.args} == {q, node}:
                    w.add('not the node' if not b else 'the node')
                elif a.op == 'in' and a.args[0] is q and trav is not None and a.args[1] is trav:
                    w.add('not before' if not b else 'before')
                elif inner is not None and a.op in ('same', 'eq') and {untyped(x) for x in a.args} == {inner, node}:
                    w.add('found: not the node' if not b else 'found: the node')
                elif inner is not None and a.op == 'in' and a.args[0] is inner and trav is not None and a.args[1] is trav:
                    w.add('found: not before' if not b else 'found: before')
                elif a.op in ('lt', 'le', 'eq') and any(is_const(x) for x in a.args) and any(x.op == 'len' and x.args[0].op == 'coll' for x in a.args):
                    w.add('the number of those found so far allows it')
                elif opaque(a) is not None or a.op in ('inopen', 'in', 'ex', 'isinst', 'isnone', 'hasattr') or any(x.op == 'gen' and 'open' in x.args[2] for x in subterms(a)):
                    return None
                else:
                    w.add(('' if b else 'not ') + show(a)[:80])
            out.add(frozenset(w))
        return out
    untravelled = {'not the node'} | ({'not before'} if trav is not None else set())
    N = understood([c for _, c, _ in near], None, near[0][0]) if len({x[0] for x in near}) == 1 else merged(near, understood)
    D = [understood([x[3] for x in deep if x[0] is y], None, next(x[1] for x in deep if x[0] is y), y) for y in dict.fromkeys(x[0] for x in deep)]
    if N is None or any(d is None for d in D):
        L.unsure('conditions of ' + show(v)[:120])
        return kind
    D = set().union(*D)
    once = lambda fls: all(fl & {'dedupe', 'dedupe_odd'} for fl in fls)
    # the nearest
    want = {frozenset()} if name == 'get_ancestors' else {frozenset(untravelled)}
    if N != want:
        known = {'not the node', 'not before', 'the node', 'before'}
        if name == 'get_ancestors':
            if frozenset() not in N:
                if any(w - known for w in N):
                    L.fault('complete', o.node, 'a parent is given only if ' + ' and '.join(sorted(next(w for w in N if w - known) - known)))
                else:
                    L.fault('complete', o.node, 'a parent is given only if it was not travelled: a node on a loop is not among its own ancestors')
        else:
            if any(not (w >= untravelled) for w in N) and all(w <= known for w in N):
                miss = set().union(*[untravelled - w for w in N])
                # a child that was travelled before is listed already, unless it is the node the walk began from
                L.fault('itself', o.node, 'a child that was travelled is given too: a node on a loop is among its own descendants')
            elif any(w - known for w in N):
                L.fault('complete', o.node, 'a child is given only if ' + ' and '.join(sorted(next(w for w in N if w - known) - known)))
            else:
                L.unsure('conditions of the nearest')
    # those farther away
    allowed = {'found: not the node', 'found: not before'} if name == 'get_descendants' else set()
    D2 = {w - allowed for w in D}
    if frozenset(untravelled) not in D2:
        if any(not (w >= untravelled) for w in D2) and all(w <= {'not the node', 'not before'} for w in D2):
            L.fault('ends', o.node, 'the walk goes on to nodes travelled before: it does not end on a cycle')
        elif any('found: not the node' in w for w in D2):
            L.fault('complete', o.node, 'a node found again farther on is left out: a node on a loop is not among its own ancestors')
        else:
            extra = sorted({x for w in D2 for x in w} - untravelled)
            if extra:
                L.fault('complete', o.node, f'the {L.what} farther on are given only if ' + ' and '.join(extra)[:150])
            else:
                L.unsure('conditions of those farther on')
    elif D2 != {frozenset(untravelled)}:
        L.unsure('conditions of those farther on')
    # calls made: not for nodes travelled before
    for e in s.eff:
        if e.kind != 'api':
            if e.kind in ('lappend',) or e.kind == 'xcall':
                L.unsure('changes ' + show(e.tgt)[:60] if isinstance(e.tgt, T) else 'changes')
            continue
        gs = {(S.eng.freeze(a, s), b) for a, b in e.guards}
        kw = kwargs(S.eng.freeze(e.val, s))
        q = kw.get(pn)
        have = set()
        for a, b in gs:
            if a.op in ('same', 'eq') and not b and {untyped(x) for x in a.args} == {q, node}:
                have.add('not the node')
            if a.op == 'in' and not b and a.args[0] is q and trav is not None and a.args[1] is trav:
                have.add('not before')
        if not have >= untravelled:
            L.fault('ends', e.node, 'the walk goes on to nodes travelled before: it does not end on a cycle')
    if not once([x[2] for x in near]) or not once([x[4] for x in deep]):
        L.fault('once', o.node, f'one of the {L.what} reached in two ways is given twice')
    return kind


def sizes(odd, facts, mine):
    """(can it be nonempty, the atoms about its size)"""
    got = []
    for a in odd:
        if a.op in ('lt', 'le', 'eq') and len(a.args) == 2:
            for x, y in (a.args, a.args[::-1]):
                if x.op == 'len' and mine(x.args[0]) and is_const(y) and type(cval(y)) is int:
                    got.append((a, x))
    if not got or len({x for _, x in got}) > 1:
        return None
    def true(a, x, n):
        p, q = [n if y is x else cval(y) for y in a.args]
        return p < q if a.op == 'lt' else p <= q if a.op == 'le' else p == q
    top = max(cval(y) for a, _ in got for y in a.args if is_const(y)) + 2
    return any(all(true(a, x, n) == facts[a] for a, x in got) for n in range(1, top + 1)), [a for a, _ in got]


def merged(near, understood):
    out = set()
    for q in dict.fromkeys(x[0] for x in near):
        u = understood([c for y, c, _ in near if y is q], None, q)
        if u is None:
            return None
        out |= u
    return {w for w in out if not any(x < w for x in out)}


# ------------------------------------------------------------------ one round of the grouping
def rounds(ctx, rep, f):
    L = Level(ctx, rep, f, f.name)
    params = [x.arg for x in f.node.args.args]
    me = params[0]
    node = sym('node', 'Node')

    def start_of(p):
        if p == me:
            return sym('self', 'Graph')
        return node if p == 'node' else sym(p, 'list') if p == 'relatives' else sym(p)

    def kinds(before, names):
        S = ctx.summary(before, args={p.arg: start_of(p.arg) for p in before.node.args.args}, stops=stops_for(ctx, []))
        if S is None or len(S.exits) != 1 or S.exits[0][1].kind != 'ret' or S.exits[0][0].lossy:
            return None, None
        s, o = S.exits[0]
        locs = [v for v in o.val.args if v in s.colls]
        if len(set(locs)) < len(locs):
            return None, None
        vs = [untyped(S.eng.freeze(v, s)) for v in o.val.args]
        return dict(zip(names, vs)), {n: v.args[0] if v.op == 'coll' else 'int' if is_const(v) and type(cval(v)) is int else 'list' if v.op == 'sym' and len(v.args) > 1 and v.args[1] == 'list' else None for n, v in zip(names, vs)}

    R = round_of(f, kinds)
    if R is None:
        return rep.done(f'{f.name}: by distance', None, 'the loop is not understood')
    syms = {v: start_of(v) for v in R.params}
    syms.update({v: sym(v, R.kind[v]) if R.kind.get(v) else sym(v) for v in R.carried})
    S = ctx.summary(R.round, args={a.arg: syms[a.arg] for a in R.round.node.args.args}, stops=stops_for(ctx, []))
    if S is None:
        return rep.done(f'{f.name}: by distance', None, 'budget')
    is_copy = lambda t, x: plain_copy(untyped(t), 'list') is x or plain_copy(untyped(t), 'set') is x or t is x
    role = {}
    for v in R.carried:
        i = R.init[v]
        if R.kind[v] == 'int':
            role[v] = ('count', cval(i))
        elif R.kind[v] == 'dict' and len(i.args) == 1:
            role[v] = ('table',)
        elif i.op == 'coll' and len(i.args) == 2 and i.args[1].op == 'gen' and i.args[1].args[0] is node and not i.args[1].args[3].args:
            role[v] = ('front',)
        elif is_copy(i, sym('relatives', 'list')) or i.op == 'coll' and len(i.args) == 2 and plain_copy(mk('coll', 'list', i.args[1]), 'list') is sym('relatives', 'list'):
            role[v] = ('left',)
    by = {}
    for v, r in role.items():
        by.setdefault(r[0], []).append(v)
    if set(R.carried) - set(role) or [len(by.get(k, ())) for k in ('table', 'front', 'left')] != [1, 1, 1]:
        return rep.done(f'{f.name}: by distance', None, 'the variables are not understood')
    table, front, left = (by[k][0] for k in ('table', 'front', 'left'))

    def clean(t):
        t = untyped(t)
        m = {}
        for x in subterms(t):
            if x.op == 'coll' and len(x.args) == 2:
                for v in R.carried:
                    if R.kind[v] == x.args[0] and plain_copy(x, x.args[0]) is syms[v]:
                        m[x] = syms[v]
        return sub(t, m) if m else t

    def found(t):
        """True: exactly the neighbours of the layer that are left, each once; a message: why not; None: unclear"""
        if t.op != 'coll' or len(t.args) != 2 or t.args[1].op != 'gen':
            return None
        val, key, fl, fr, gu = t.args[1].args
        fl = set(fl.split(',')) - {''}
        if len(fr.args) != 2 or val.op != 'el' or val.args[1] is not fr.args[1].args[0] or fr.args[0].args[1] is not syms[front]:
            return None
        nb = untyped(fr.args[1].args[1])
        if nb.op in ('slice', 'idx') and nb.args[0].op == 'call':
            return f'only a part of the neighbours is taken: {show(nb)[:80]}'
        if nb.op == 'call' and any(x is node or x.op == 'kw' and x.args[1] is node for x in nb.args if isinstance(x, T)):
            return 'every round takes the neighbours of the node itself, not those of the layer'
        if nb is not untyped(val.args[0]) or nb.op != 'call' or not any(x.op == 'sym' for x in nb.args if isinstance(x, T)):
            return None
        one = mk('el', syms[front], fr.args[0].args[0])
        if not any(x is one or x.op == 'kw' and x.args[1] is one for x in nb.args if isinstance(x, T)):
            return None
        closed = False
        for l in gu.args:
            a, b = l.args
            if a.op == 'inopen' and b and a.args[0] is val:
                closed = True
            elif a.op == 'in' and b and a.args[0] is val and a.args[1] is syms[left]:
                if 'dedupe' in fl:
                    closed = True
                else:
                    return 'a node reached in two ways is filed twice at one distance'
            else:
                return None
        if not closed:
            return 'nodes are filed again that were filed at a shorter distance' if not gu.args else None
        return True

    grows = [c for n in ast.walk(R.round.node) if isinstance(n, ast.For) and isinstance(n.iter, ast.Name) and n.iter.id == front
             for c in (x for y in n.body for x in ast.walk(y))
             if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr in ('append', 'extend', 'insert') and isinstance(c.func.value, ast.Name) and c.func.value.id == front]
    goes = stops = False
    for s, o in S.exits:
        L.n += 1
        if o.kind == 'raise':
            if not o.implicit:
                L.unsure('raises')
            continue
        v = clean(S.eng.freeze(o.val, s))
        if s.lossy or v.op != 'tup':
            L.unsure('lossy')
            continue
        how, vals = cval(v.args[0]), dict(zip(R.carried, v.args[1:]))
        fs = {clean(a): b for a, b in s.facts.items()}
        more = layer = None
        odd = []
        for a, b in fs.items():
            if a.op in ('nonempty', 'truth') and a.args[0] is syms[left]:
                more = b
            elif a.op in ('nonempty', 'truth') and a.args[0] is syms[front]:
                layer = b
            else:
                odd.append(a)
        size = sizes(odd, fs, lambda x: x is syms[left])
        if size:
            odd = [a for a in odd if a not in size[1]]
            if not size[0]:
                more = False if more is None else more
            elif how == 'next':
                more = True
        if how == 'stop':
            stops = True
            if more is False or layer is False:
                continue
            if odd:
                L.unsure('stops if ' + show(odd[0])[:80])
            else:
                L.fault('complete', o.node, 'stops although nodes are left')
            continue
        goes = True
        if more is not True:
            # what was found must empty the rest some time
            if odd or layer:
                L.unsure('goes on while ' + ', '.join(show(a)[:60] for a in fs))
            else:
                L.fault('ends', o.node, 'goes on when no nodes are left')
            continue
        r = found(vals[front])
        if r is not True:
            if r:
                L.fault('distance', o.node, r)
            elif vals[front] is syms[front]:
                L.fault('distance', o.node, 'every round walks from the same layer')
            else:
                L.unsure(f'{front}: {show(vals[front])[:120]}')
            continue
        new = vals[front]
        if grows:
            L.fault('distance', grows[0], 'nodes are added to the layer while it is being walked: nodes further away are filed with the nearer ones')
            continue
        # what is left
        t = vals[left]
        if t is syms[left]:
            L.fault('ends', o.node, 'nodes that were filed stay among those left')
            continue
        if not shrinks(t, syms[left], new):
            L.unsure(f'{left}: {show(t)[:120]}')
            continue
        # the table
        t = vals[table]
        if t is syms[table]:
            L.fault('complete', o.node, 'the nodes found are not filed')
            continue
        if t.op != 'coll' or len(t.args) != 3 or plain_copy(mk('coll', 'dict', t.args[1]), 'dict') is not syms[table] or t.args[2].op != 'gen':
            L.unsure(f'{table}: {show(t)[:120]}')
            continue
        val, key, fl, fr, gu = t.args[2].args
        if fr.args or plain_copy(val, 'list') is not new and val is not new:
            if plain_copy(val, 'list') is syms[front]:
                L.fault('distance', o.node, 'the layer that was walked from is filed, not the nodes found')
            else:
                L.unsure(f'files {show(val)[:100]}')
            continue
        d = depth(key, role, syms, table)
        if d is None:
            L.unsure('filed under ' + show(key)[:60])
        elif d != 1:
            L.fault('distance', o.node, f'the nodes found are filed {d - 1:+d} from their distance')
        for v2, r2 in role.items():
            if r2[0] == 'count' and shift(vals[v2], syms[v2]) != 1 and contains(key, syms[v2]):
                L.fault('distance', o.node, f'{v2} changes by {shift(vals[v2], syms[v2])} in a round')
    if not goes and not L.bad:
        L.unsure('no rounds')
    S = ctx.summary(R.after, args={a.arg: syms[a.arg] for a in R.after.node.args.args}, stops=stops_for(ctx, []))
    for s, o in S.exits if S else ():
        if o.kind != 'ret' or clean(S.eng.freeze(o.val, s)) is not syms[table]:
            L.unsure('gives ' + (show(untyped(S.eng.freeze(o.val, s)))[:80] if o.kind == 'ret' else 'an error'))
    L.close('by distance')


def shrinks(t, left, new):
    """left without the nodes found"""
    if t.op != 'coll':
        return False
    n = new.args[1].args
    if len(t.args) == 3 and all(g.op == 'gen' for g in t.args[1:]):
        a, b = t.args[1:]
        if plain_copy(mk('coll', t.args[0], a), t.args[0]) is left and 'minus' in b.args[2]:
            return b.args[3] is n[3] and n[0] in (b.args[0], b.args[1])
    if len(t.args) == 2 and t.args[1].op == 'gen':
        val, key, fl, fr, gu = t.args[1].args
        if len(fr.args) == 1 and fr.args[0].args[1] is left and val.op == 'el' and val.args[0] is left and len(gu.args) == 1:
            a, b = gu.args[0].args
            if not b and a.op == 'ex' and a.args[0] is n[3]:
                # none of those found is this one
                body = a.args[1].args if a.args[1].op == 'guards' else (a.args[1],)
                same = [l for l in body if l.op == 'lit' and l.args[1] and l.args[0].op in ('eq', 'same') and set(l.args[0].args) == {n[0], val}]
                return len(same) == 1 and {l for l in body} - set(same) == set(n[4].args)
            return not b and a.op == 'in' and a.args[0] is val and renum(a.args[1]) is renum(new)
    return False


def renum(t):
    """bound variables numbered from the outside in"""
    seen = {}
    def go(x):
        if x.op == 'bv':
            return mk('bv', seen.setdefault(x.args[0], len(seen)))
        if not x.args or x.op in ('const', 'sym'):
            return x
        return mk(x.op, *[go(a) if isinstance(a, T) else a for a in x.args])
    return go(t)


def shift(t, v):
    if t is v:
        return 0
    if t.op == 'bin' and t.args[0] in ('Add', 'Sub'):
        a, b = t.args[1:]
        if is_const(a) and t.args[0] == 'Add':
            a, b = b, a
        if is_const(b) and type(cval(b)) is int:
            n = shift(a, v)
            return None if n is None else n + cval(b) if t.args[0] == 'Add' else n - cval(b)
    return None


def depth(t, role, syms, table):
    for v, r in role.items():
        if r[0] == 'count':
            n = shift(t, syms[v])
            if n is not None:
                return n + r[1]
    return shift(t, mk('len', syms[table]))
