"""Copies and pickles: for each class the state it hands out and its restoration are composed into one transfer
function, field by field; what a restored graph does to its nodes and edges is read off the effects of the same composition."""
import ast
from report import *
from compare import Joint, opaque, WRITES
from engine import Summary
from boolnorm import canon_dnf
from rules.c07 import fresh

SPECIAL = ('__deepcopy__', '__copy__', '__reduce__', '__reduce_ex__', '__getnewargs__', '__getnewargs_ex__', '__slots__')


def run(ctx, rep):
    for part in (objects, graph, copies):
        try:
            with limit(100):
                part(ctx, rep)
        except OutOfTime:
            rep.done(part.__name__, None, 'out of time')


def members(ctx, c):
    for k in ctx.prog.mro(ctx.prog.need_class(c)):
        for n, m in k.members.items():
            for f in (m,) if isinstance(m, Func) else (m.get, m.set) if isinstance(m, Prop) else ():
                if isinstance(f, Func) and f.kind != 'static' and f.node.args.args:
                    yield f


def attributes(ctx, c):
    """attributes that methods of the class set on self"""
    k = ctx.prog.need_class(c)
    out = {}
    for f in members(ctx, c):
        me = f.node.args.args[0].arg
        for n in ast.walk(f.node):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me and f.kind == 'method':
                if not isinstance(ctx.prog.lookup(k, n.attr)[0], Prop):
                    out.setdefault(n.attr, f)
    return out


def readers(ctx, attr):
    return {f.qual for f in ctx.prog.funcs for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load) and n.attr == attr}


def restored(ctx, c):
    """summary of other.__setstate__(self.__getstate__()); None with a reason when that is not what copying does"""
    k = ctx.prog.need_class(c)
    odd = [m for m in SPECIAL if ctx.prog.lookup(k, m)[0] is not None]
    if odd:
        return None, f'{c} defines {odd[0]}'
    g, h = (ctx.prog.lookup(k, m)[0] for m in ('__getstate__', '__setstate__'))
    if g is None and h is None:
        return 'default', ''
    src = f'''
def f(self, other):
    {"other.__setstate__(" if h is not None else "vars(other).update("}{"self.__getstate__()" if g is not None else "dict(vars(self))"})
    return other
'''
    if g is None or h is None:
        return None, f'{c} has only one of __getstate__ and __setstate__'
    S = ctx.summary(spec_func(ctx, c, src), args={'self': sym('self', c), 'other': sym('other', c)}, key='restored ' + c)
    return (S, '') if S is not None else (None, 'budget')


def fields(ctx, rep, c, back, restorers):
    """each attribute of a restored object is the original's"""
    S, why = restored(ctx, c)
    if not isinstance(S, Summary):
        rep.done(f'{c}: state', True if S == 'default' else None, why or 'the default state')
        return None
    me, other = sym('self', c), sym('other', c)
    h = ctx.prog.lookup(ctx.prog.need_class(c), '__setstate__')[0]
    und, bad, n = [], [], 0
    consts = {}
    for s, o in S.exits:
        if o.kind == 'raise':
            if o.implicit:
                und.append(f'may raise {o.val}')
            else:
                bad.append('raises')
                rep.violate('state', h, o.node, f'{c}: restoring a copy raises {o.val}')
            continue
        J = Joint(S.eng, s.facts)
        if s.lossy:
            und.append('joined states')
        for a in sorted(attributes(ctx, c)):
            if a in back:
                continue
            got = s.heap.get((other, a))
            if readers(ctx, a) <= restorers:
                # only restoring itself looks at it
                if got is not None and is_const(got):
                    consts[a] = got
                continue
            n += 1
            want = fld(me, a)
            if got is not None:
                got = J.simp(S.eng.freeze(got, s))
                while got.op in ('typed', 'deepcopy', 'copyof'):
                    got = got.args[0]
            if got is want or got is not None and got.op == 'coll' and copy_of(got, want):
                continue
            if got is not None and opaque(got) is not None:
                und.append(f'{a}: {show(opaque(got))[:60]}')
                continue
            if got is None and lazy(ctx, c, a):
                und.append(f'{a} is made when it is first asked for')
                continue
            bad.append(a)
            rep.violate('state', h, o.node, f'{c}: {a} of a copy is {"lost" if got is None else show(got)[:80]}')
    rep.done(f'{c}: state', False if bad else None if und or not n else True, str(und[:3])[:200], n)
    return consts


def lazy(ctx, c, a):
    """is the attribute only ever set by functions that first look whether it is there"""
    fs = [f for f in members(ctx, c) if any(isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and n.attr == a for n in ast.walk(f.node))]
    return bool(fs) and all(any(isinstance(n, ast.Constant) and n.value == a or isinstance(n, ast.ExceptHandler) for n in ast.walk(f.node)) for f in fs)


def copy_of(t, want):
    """a new collection with the contents of the old one"""
    return len(t.args) == 2 and t.args[1].op == 'gen' and any(x is want for x in subterms(t.args[1])) and not t.args[1].args[4].args and 'partial' not in t.args[1].args[2]


def reach(ctx):
    """functions that restoring a graph runs"""
    S, _ = restored(ctx, 'Graph')
    return {f.qual for f in S.eng.funcs_seen} if isinstance(S, Summary) else set()


def untouched(ctx, rep, c):
    """handing out the state leaves the original alone"""
    g = ctx.prog.lookup(ctx.prog.need_class(c), '__getstate__')[0]
    if not isinstance(g, Func):
        return
    S = ctx.summary(g, args={'self': sym('self', c)})
    if S is None:
        return rep.done(f'{c}.__getstate__', None, 'budget')
    bad = False
    for s, o in S.exits:
        for e in s.eff:
            if e.kind in WRITES and fresh(e.tgt, s) is False:
                bad = True
                rep.violate('state', g, e.node, f'{c}: handing out the state changes {show(e.tgt)[:60]}{" " + str(cval(e.key)) if isinstance(e.key, T) and is_const(e.key) else ""}')
    rep.done(f'{c}.__getstate__ changes nothing', not bad)


CONSTS = {}


def objects(ctx, rep):
    F = ctx.proto.F
    seen = reach(ctx)
    for c, back in (('Node', {F['graph']}), ('Edge', {F['graph'], F['start'], F['end']})):
        CONSTS[c] = fields(ctx, rep, c, back, seen)
        untouched(ctx, rep, c)


def graph(ctx, rep):
    F = ctx.proto.F
    c = 'Graph'
    untouched(ctx, rep, c)
    fields(ctx, rep, c, set(), reach(ctx))
    S, why = restored(ctx, c)
    states = {k: restored(ctx, k)[0] for k in ('Node', 'Edge')}
    if S == 'default' and all(v == 'default' for v in states.values()):
        return rep.done('references', True, 'the default state')
    if not isinstance(S, Summary):
        return rep.done('references', None, why)
    h = ctx.prog.lookup(ctx.prog.need_class(c), '__setstate__')[0]
    me, other = sym('self', c), sym('other', c)
    nodes = fld(me, F['nodes'])
    want = {'graph of the nodes': ('Node', F['graph']), 'graph of the edges': ('Edge', F['graph']), 'start of the edges': ('Edge', F['start']), 'end of the edges': ('Edge', F['end'])}
    for what, (cls, field) in want.items():
        R = states[cls]
        kept = R == 'default' or isinstance(R, Summary) and all(s.heap.get((sym('other', cls), field)) is fld(sym('self', cls), field) for s, o in R.exits if o.kind == 'ret')
        if kept:
            rep.done(what, True, 'kept in the state')
            continue
        ok, why, node = True, '', None
        for s, o in S.exits:
            if o.kind != 'ret':
                continue
            r, why, node = given(ctx, S, s, cls, field, nodes, other, F)
            ok = r if ok is True else ok
            if r is False:
                rep.violate('references', h, node, f'{what} of a copied graph: {why}')
                ok = False
                break
        rep.done(what, ok, why if ok is None else '')


def given(ctx, S, s, cls, field, nodes, other, F):
    """is the field of every node (edge) of the restored graph set to the graph (its node)"""
    got, near, node = [], [], None
    for e in s.eff:
        if e.kind != 'set' or key_of(e) != field:
            continue
        node = e.node or node
        fr = list(e.frames)
        t = e.tgt
        while t.op == 'typed':
            t = t.args[0]
        where = place(t, fr, nodes, F)
        if where is None:
            near.append(e)
            continue
        val = e.val
        while val.op == 'typed':
            val = val.args[0]
        me = mk('el', nodes, fr[0][0])
        if val is nodes.args[0] and field == F['graph'] and where != 'node':
            # the graph of a node of the original: in the copy, the one its nodes were given before
            val = other if any(x.kind == 'set' and x.val is other and key_of(x) == field and place(untype(x.tgt), list(x.frames), nodes, F) == 'node' for x in s.eff[:s.eff.index(e)]) else val
        good = val is other if field == F['graph'] else strip_typed(val) is strip_typed(me)
        guards = frozenset(g for g in (settle(a, b) for a, b in e.guards) if g is not True)
        if False in guards:
            continue
        got.append((where, good, guards, e))
    need = {'Node': {'node'}, 'Edge': {'out', 'in'} if field == F['graph'] else {'out' if field == F['start'] else 'in'}}[cls]
    alt = {'out', 'in'} & need
    for where, good, guards, e in got:
        if not good and (where in need or cls == 'Edge'):
            if opaque(e.val) is not None:
                return None, 'not followed', e.node
            return False, f'set to {show(e.val)[:60]}', e.node
    hit = set()
    und = False
    for w in need:
        cubes = [g for where, good, g, e in got if where == w]
        if not cubes:
            continue
        flags = [e.flags for where, good, g, e in got if where == w]
        if any(not g for g, f in zip(cubes, flags) if not f & {'partial', 'once'}):
            hit.add(w)
            continue
        d = canon_dnf(cubes)
        if d is None:
            und = True
        elif frozenset() in d:
            hit.add(w)
    if hit and (hit == need or cls == 'Edge' and field == F['graph']):
        return True, '', None
    if und or near or s.lossy:
        return None, 'set in a way that is not followed', node
    return False, 'is not always set' if got else 'is never set', node


def key_of(e):
    return cval(e.key) if isinstance(e.key, T) and is_const(e.key) else e.key


def strip_typed(t):
    return untype(t)


def untype(t):
    m = {x: x.args[0] for x in subterms(t) if x.op == 'typed'}
    return sub(t, m) if m else t


def place(t, fr, nodes, F):
    """a node of the graph, an outward or an inward edge of one, each of them"""
    t = untype(t)
    src = [untype(c) for _, c in fr]
    if len(fr) == 1 and t.op == 'el' and t.args[1] is fr[0][0] and base(src[0]) is nodes:
        return 'node'
    if len(fr) == 2 and t.op == 'el' and t.args[1] is fr[1][0] and base(src[0]) is nodes:
        c = base(src[1])
        if c.op == 'fld' and c.args[0].op == 'el' and c.args[0].args[1] is fr[0][0]:
            return {F['out']: 'out', F['inn']: 'in'}.get(c.args[1])
    return None


def base(c):
    while c.op in ('dv', 'di', 'dk', 'listof', 'tupof', 'snapshot') or c.op == 'call' and c.args[0] in ('.values', 'list', '.copy'):
        c = c.args[0] if isinstance(c.args[0], T) else c.args[1]
    return c


def settle(a, b):
    """what a restored node says about its bookkeeping"""
    x = a
    while x.op == 'truth':
        x = x.args[0]
    if x.op == 'fld' and CONSTS.get('Node') and x.args[1] in CONSTS['Node']:
        v = bool(cval(CONSTS['Node'][x.args[1]]))
        return True if v == b else False
    return (a, b)


def copies(ctx, rep):
    f = ctx.fn('Graph', 'copy')
    S = ctx.summary(f, args={'self': sym('self', 'Graph')})
    if S is None:
        return rep.done('copy', None, 'budget')
    bad = und = n = 0
    for s, o in S.exits:
        if o.kind == 'raise':
            continue
        n += 1
        v = untype(S.eng.freeze(o.val, s))
        if v.op == 'deepcopy' and v.args[0] is sym('self', 'Graph'):
            continue
        if v is sym('self', 'Graph') or v.op == 'copyof' or v.op == 'call' and v.args[0] == 'copy.copy':
            bad += 1
            rep.violate('copy', f, o.node, f'copy returns {"the graph itself" if v.op == "sym" else "a shallow copy"}')
        else:
            und += 1
    rep.done('copy is deep', False if bad else None if und or not n else True, '' if not und else 'not a deep copy of the graph', n)
    for c in ('Graph', 'Node', 'Edge'):
        for m in ('__copy__', '__deepcopy__'):
            k = ctx.prog.lookup(ctx.prog.need_class(c), m)[0]
            if k is not None:
                rep.done(f'{c}.{m}', None, 'not analysed')
