"""Comparing what a function was found to do with what its specification says.

Both sides are summaries made by the same engine, so both are in the same normal form.  Every pair
of exits whose conditions can hold together is compared; a difference between understood terms is a
violation, a difference where either side holds something the analysis gave up on is left undecided."""
import ast
import textwrap
from analysis import *
from terms import lit, gkey
from boolnorm import canon_dnf
from entail import equiv, same_gens
import entail

OPAQUE = {'unk', 'while', 'lv', 'lh', 'fuzz', 'accum', 'maybe', 'selfref', 'phi', 'open', 'reccall', 'inopen'}

# libraries whose functions take other functions or whole collections: a call of one that has no model is not understood
UNMODELLED = ('functools.', 'itertools.', 'operator.', 'collections.', 'contextlib.', 'heapq.', 'bisect.', 'map', 'filter', 'zip', 'reduce')


def opaque(t):
    for x in subterms(t):
        if x.op in OPAQUE or x.op in ('dv', 'di') and x.args[0].op == 'rel':
            return x
        if x.op == 'bin' and x.args[0] in ('BitOr', 'BitAnd', 'BitXor'):
            return x
        if x.op in ('call', 'made') and (str(x.args[0]).startswith(UNMODELLED) or any(isinstance(y, T) and y.op in ('clo', 'bm', 'partial') for y in x.args[1:])):
            return x
        if x.op == 'gen' and any(q in x.args[2] for q in ('minus', 'fuzz', 'open', 'dedupe_odd')):
            return x
    return None


def spec_func(ctx, cls, src, name=None, kind='method'):
    """a specification written as source, resolved in the module of the class it describes"""
    for role, field in ctx.proto.F.items():
        src = src.replace('$' + role + '$', field)
    node = ast.parse(textwrap.dedent(src)).body[0]
    f = Func.__new__(Func)
    c = ctx.prog.need_class(cls)
    mod = ctx.cache.get(('specmod', c.module.short))
    if mod is None:
        # the names of the class's module, and every class and function of the package besides
        import copy
        mod = copy.copy(c.module)
        mod.names = dict(c.module.names)
        for m in ctx.prog.modules.values():
            for k, v in m.names.items():
                if v[0] in ('cls', 'func'):
                    mod.names.setdefault(k, v)
        ctx.cache[('specmod', c.module.short)] = mod
    f.name, f.node, f.module, f.cls, f.kind = node.name, node, mod, c, kind
    f.qual, f.path = f'spec:{cls}.{node.name}', 'spec'
    f.isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in ast.walk(node))
    return f


def sat(have, clauses):
    """is there an assignment of the remaining atoms that satisfies every clause"""
    while True:
        rest, unit = [], None
        for c in clauses:
            if any(have.get(a) == b for a, b in c):
                continue
            c = [(a, b) for a, b in c if a not in have]
            if not c:
                return False
            if len(c) == 1:
                unit = c[0]
            rest.append(c)
        clauses = rest
        if unit is None:
            break
        have = {**have, unit[0]: unit[1]}
    if not clauses or len(clauses) > 40:
        return True
    a, b = clauses[0][0]
    return sat({**have, a: b}, clauses) or sat({**have, a: not b}, clauses)


class Joint:
    def __init__(self, eng, fa, fb=()):
        self.eng = eng
        self.st = St()
        self.memo = {}
        self.ok = True
        self.moved = False
        self.add(fa)
        self.add(fb)
        # once more: later facts may contradict earlier ones
        if self.ok:
            for a, b in list(self.st.facts.items()):
                del self.st.facts[a]
                k = self.eng.known(a, self.st)
                self.st.facts[a] = b
                if k is not None and k != b:
                    self.ok = False

        if self.ok:
            self.exists()
        if self.ok:
            self.instances()

    def instances(self):
        """what holds for all elements of a collection holds for those the other facts speak of"""
        ground = {a: b for a, b in self.st.facts.items() if a.op != 'ex'}
        els = None
        for x, b in self.st.facts.items():
            if b or x.op != 'ex' or len(x.args[0].args) != 1:
                continue
            if els is None:
                els = {}
                for a in ground:
                    for t in subterms(a):
                        if t.op == 'el' and t.args[1].op == 'it':
                            els.setdefault(t.args[0], set()).add(t.args[1])
                if not els:
                    return
            v = x.args[0].args[0].args[0]
            bases = {t.args[0] for l in x.args[1].args for t in subterms(l) if t.op == 'el' and t.args[1] is v}
            if len(bases) != 1:
                continue
            for it in els.get(bases.pop(), ()):
                if all(ground.get(sub(l.args[0], {v: it})) == l.args[1] for l in x.args[1].args):
                    self.ok = False
                    return

    def exists(self):
        """an element said to exist must be compatible with all elements said not to"""
        yes = [a for a, b in self.st.facts.items() if b and a.op == 'ex']
        no = [a for a, b in self.st.facts.items() if not b and a.op == 'ex']
        for y in yes:
            fr = y.args[0].args
            have = {l.args[0]: l.args[1] for l in y.args[1].args}
            clauses = []
            for x in no:
                if len(x.args[0].args) > len(fr):
                    continue
                m, same = {}, True
                for p, q in zip(x.args[0].args, fr):
                    if sub(p.args[1], m) is not q.args[1]:
                        same = False
                        break
                    m[p.args[0]] = q.args[0]
                if same:
                    # not all of these together
                    clauses.append([(sub(l.args[0], m), not l.args[1]) for l in x.args[1].args])
            if clauses and not sat(have, clauses):
                self.ok = False
                return
            if any(l.op == 'ex' for l in have) and clauses:
                try:
                    if not entail.element(y, no, {a: b for a, b in self.st.facts.items() if a.op != 'ex'}, [4000]):
                        self.ok = False
                        return
                except entail.Limit:
                    pass

    def add(self, facts):
        for a, b in (facts.items() if isinstance(facts, dict) else facts):
            if not self.ok:
                return
            self.memo = {}
            a2 = self.atom(a)
            while a2.op == 'not':
                a2, b = a2.args[0], not b
            if a2 is TRUE or a2 is FALSE:
                if (a2 is TRUE) != b:
                    self.ok = False
                continue
            if a2.op == 'and' and b:
                for l in a2.args:
                    self.add([(l.args[0], l.args[1])] if l.op == 'lit' else [(l, True)])
                continue
            if a2.op == 'or' and not b:
                for l in a2.args:
                    self.add([(l.args[0], not l.args[1])] if l.op == 'lit' else [(l, False)])
                continue
            self.eng.assume(self.st, a2, b)
            self.memo = {}

    def atom(self, a):
        return self.simp(a)

    def implied(self, fr, gs):
        """guards of a generator that remain when 'there is no such element' facts are used; None: no element"""
        if not fr.args:
            return gs
        for x, v in self.st.facts.items():
            if v or x.op != 'ex' or len(x.args[0].args) != len(fr.args):
                continue
            m, same = {}, True
            for p, q in zip(x.args[0].args, fr.args):
                if sub(p.args[1], m) is not q.args[1]:
                    same = False
                    break
                m[p.args[0]] = q.args[0]
            if not same:
                continue
            ex = {(sub(l.args[0], m), l.args[1]) for l in x.args[1].args}
            have = {(l.args[0], l.args[1]) for l in gs}
            if ex <= have:
                return None
            for l in list(gs):
                o = (l.args[0], not l.args[1])
                if o in ex and ex - {o} <= have - {(l.args[0], l.args[1])}:
                    gs = gs - {l}
                    have = {(l.args[0], l.args[1]) for l in gs}
        return gs

    def group(self, lits, pos):
        """statements 'there is (no) element such that ..' about the same collection, in canonical form"""
        by = {}
        for l in lits:
            if l.args[0].op == 'ex' and l.args[1] == pos:
                by.setdefault(l.args[0].args[0], []).append(l)
        for fr, ls in by.items():
            cubes = [[(g.args[0], g.args[1]) for g in l.args[0].args[1].args] for l in ls]
            new = canon_dnf(cubes)
            if new is None or new == {frozenset(c) for c in cubes}:
                continue
            lits = set(lits) - set(ls)
            if not new and pos:
                lits.add(lit(FALSE, True))
            for c in new:
                lits.add(lit(mk('ex', fr, guards_t(sorted(c, key=lambda p: (p[0].order, p[1])))), pos))
        return lits

    def lit_val(self, l):
        """TRUE/FALSE/lit after simplification"""
        if l.op == 'lit':
            a = self.simp(l.args[0])
            v = l.args[1]
        else:
            a, v = self.simp(l), True
        while a.op == 'not':
            a, v = a.args[0], not v
        if a is TRUE or a is FALSE:
            return TRUE if (a is TRUE) == v else FALSE
        k = self.eng.known(a, self.st)
        if k is not None:
            return TRUE if k == v else FALSE
        return lit(a, v)

    def simp(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._simp(t)
        return r

    def that_one(self, t):
        """'there is an element which is this element of the same collection and ..' says it of this element"""
        fr = t.args[0].args
        if len(fr) != 1:
            return t
        v, src = fr[0].args
        base = src.args[0] if src.op in ('dv', 'di', 'dk') else src
        for l in t.args[1].args:
            if l.args[1] and l.args[0].op == 'same':
                for p, q in (l.args[0].args, l.args[0].args[::-1]):
                    if p.op == 'el' and q.op == 'el' and p.args[0] is base and q.args[0] is base and p.args[1] is v and q.args[1] is not v:
                        rest = [(sub(m.args[0], {v: q.args[1]}), m.args[1]) for m in t.args[1].args if m is not l]
                        if not rest:
                            return TRUE
                        self.moved = True
                        out = [lit(a, b) for a, b in rest]
                        return mk('and', *out) if len(out) > 1 else rest[0][0] if rest[0][1] else mk_not(rest[0][0])
        return t

    def nothing(self, src):
        """is the collection known to be empty"""
        while src.op in ('dv', 'di', 'dk', 'listof', 'sorted', 'tupleof', 'setof', 'reversed') and isinstance(src.args[0], T):
            src = src.args[0]
        return src.op not in ('coll', 'it') and self.eng.known(mk('nonempty', src), self.st) is False

    def _simp(self, t):
        o, a = t.op, t.args
        if not a or o in ('const', 'sym', 'it', 'bv', 'cls', 'func'):
            return t
        if o == 'ite':
            c = self.lit_val(a[0])
            if c is TRUE:
                return self.simp(a[1])
            if c is FALSE:
                return self.simp(a[2])
            x, y = self.simp(a[1]), self.simp(a[2])
            if not c.args[1]:
                x, y = y, x
            return x if x is y else mk('ite', c.args[0], x, y)
        if o in ('and', 'or'):
            stop, drop = (FALSE, TRUE) if o == 'and' else (TRUE, FALSE)
            out = []
            for l in a:
                v = self.lit_val(l)
                if v is stop:
                    return stop
                if v is not drop:
                    out.append(v)
            if not out:
                return drop
            out = sorted(self.group(set(out), o == 'or'), key=gkey)
            if len(out) == 1:
                return out[0].args[0] if out[0].args[1] else mk_not(out[0].args[0])
            return mk(o, *out)
        if o == 'not':
            v = self.lit_val(a[0])
            if v is TRUE:
                return FALSE
            if v is FALSE:
                return TRUE
            return mk_not(v.args[0]) if v.args[1] else v.args[0]
        if o == 'gen':
            gs = []
            for l in a[4].args:
                v = self.lit_val(l)
                if v is FALSE:
                    return mk('nogen')
                if v is not TRUE:
                    gs.append(v)
            fr = self.simp(a[3])
            if any(self.nothing(p.args[1]) for p in fr.args):
                return mk('nogen')
            gs = self.implied(fr, set(gs))
            if gs is None:
                return mk('nogen')
            gs = self.group(self.group(gs, False), True) if sum(l.args[0].op == 'ex' and l.args[1] for l in gs) < 2 else self.group(gs, False)
            if any(l.args[0] is FALSE for l in gs):
                return mk('nogen')
            return mk('gen', self.simp(a[0]), self.simp(a[1]), a[2], fr, mk('tup', *sorted(gs, key=gkey)))
        if o == 'coll':
            gens = [self.simp(g) for g in a[1:]]
            return mk('coll', a[0], *[g for g in gens if g.op != 'nogen'])
        if o == 'ex':
            r = self.that_one(t)
            if r is not t:
                return self.simp(r)
        if o == 'ex':
            gs = []
            for l in t.args[1].args:
                x, b = self.simp(l.args[0]), l.args[1]
                if x is TRUE or x is FALSE:
                    if (x is TRUE) != b:
                        return FALSE
                    continue
                gs.append((l.args[0], b))
            if len(gs) < len(t.args[1].args):
                src = t.args[0].args[0].args[1] if len(t.args[0].args) == 1 else None
                if gs:
                    return self.simp(mk('ex', t.args[0], guards_t(gs)))
                if src is not None:
                    return self.simp(self.eng.mk_nonempty(src, self.st))
        args = [self.simp(x) if isinstance(x, T) else x for x in a]
        r = rebuild(o, tuple(args)) if any(x is not y for x, y in zip(args, a)) else t
        if r.op in ('isnone', 'truth', 'eq', 'same', 'in', 'nonempty', 'isinst', 'lt', 'le', 'hasattr', 'ex'):
            k = self.eng.known(r, self.st)
            if k is None and r is not t:
                try:
                    r2 = self.eng.renorm(r, self.st)
                except Exception:
                    r2 = r
                if r2 is not r:
                    k = self.eng.known(r2, self.st)
                    r = r2
            if k is not None:
                return TRUE if k else FALSE
        return r


def renumber(eng, t):
    """the variables of generators numbered again from the inside out"""
    memo = {}

    def go(x):
        if x in memo:
            return memo[x]
        r = x
        if x.args and any(isinstance(y, T) for y in x.args):
            args = [go(y) if isinstance(y, T) else y for y in x.args]
            r = mk(x.op, *args)
            if r.op in ('gen', 'ex'):
                fr, gu = (r.args[3], r.args[4]) if r.op == 'gen' else r.args[:2]
                if fr.op == 'tup' and fr.args and all(p.op == 'tup' and p.args[0].op == 'bv' for p in fr.args):
                    m = {}
                    frames = []
                    for p in fr.args:
                        src = sub(p.args[1], m)
                        m[p.args[0]] = mk('it', -1 - len(m) - 100 * x.h)
                        frames.append((m[p.args[0]], src))
                    head = [sub(y, m) for y in r.args[:2]] if r.op == 'gen' else []
                    fr, parts = eng.close(frames, head + [sub(l.args[0], m) for l in gu.args])
                    gs = guards_t(list(zip(parts[len(head):], [l.args[1] for l in gu.args])))
                    r = mk('gen', *parts[:2], r.args[2], fr, gs) if r.op == 'gen' else mk('ex', fr, gs)
        memo[x] = r
        return r
    return go(t)


def coll_key(c, mode):
    """comparison form of a collection; mode: 'list' keeps order, 'bag' ignores it, 'set' also ignores repeats"""
    if c.op in ('sorted', 'listof', 'setof', 'tupleof', 'reversed', 'dv', 'dk', 'di', 'shuffled') and mode == 'set':
        return coll_key(c.args[0], mode) if c.args[0].op == 'coll' else c
    if c.op != 'coll':
        return c
    gens = list(c.args[1:])
    if mode == 'list':
        out = []
        for g in gens:
            fl = [x for x in g.args[2].split(',') if x and x not in ('prior',)]
            out.append(mk('gen', g.args[0], g.args[1], ','.join(fl), g.args[3], g.args[4]))
        return mk('coll', 'seq' if c.args[0] in ('list', 'tuple') else c.args[0], *out)
    by = {}
    for g in gens:
        if mode == 'set' and 'again' in g.args[2].split(','):
            continue
        fl = ','.join(x for x in g.args[2].split(',') if x and (mode == 'bag' or x in ('minus', 'fuzz', 'open', 'kv', 'dedupe_odd', 'dedupe_by', 'cut')) and x != 'prior')
        by.setdefault((g.args[0], g.args[1], fl, g.args[3]), []).append(frozenset((l.args[0], l.args[1]) for l in g.args[4].args))
    from loops import simplify_dnf
    out = []
    for (v, k, fl, fr), gs in by.items():
        if mode == 'set' or len(set(gs)) == len(gs):
            c = canon_dnf(gs) if mode == 'set' else None
            gs = simplify_dnf(list(gs)) if c is None else c
        for g in gs:
            out.append(mk('gen', v, k, fl, fr, mk('tup', *sorted((lit(a, b) for a, b in g), key=gkey))))
    if mode == 'set':
        out = list(set(out))
    return mk('coll', '*', *sorted(out, key=lambda t: t.order))


def canon(t, mode):
    """comparison form of a value: every collection inside in the given mode"""
    m = {}

    def go(x):
        if x in m:
            return m[x]
        if not x.args or not any(isinstance(y, T) for y in x.args):
            r = x
        else:
            args = tuple(go(y) if isinstance(y, T) else y for y in x.args)
            if x.op in ('eq', 'same') and len(args) == 2 and args[0].order > args[1].order:
                args = args[::-1]
            elif x.op in ('guards', 'and', 'or') or x.op == 'lit':
                args = args if x.op == 'lit' else tuple(sorted(set(args), key=lambda t: t.order))
            r = x if len(args) == len(x.args) and all(p is q for p, q in zip(args, x.args)) else mk(x.op, *args)
            if r.op == 'gen':
                r = mk('gen', *r.args[:4], mk('tup', *sorted(set(r.args[4].args), key=lambda t: t.order)))
            if r.op in ('coll', 'sorted', 'listof', 'setof', 'tupleof', 'reversed', 'shuffled'):
                r = coll_key(r, mode)
        m[x] = r
        return r
    return go(t)


def rename_new(ts):
    """fresh objects numbered per class, in order of creation"""
    m, n = {}, {}
    found = set()
    for t in ts:
        found |= {y for y in subterms(t) if y.op == 'new' or y.op == 'apiret'}
    for x in sorted(found, key=lambda y: y.args[-1] if y.op == 'new' else y.args[1]):
        if x.op == 'new':
            c = x.args[1] if x.args[0] == 'obj' else x.args[0]
            n[c] = n.get(c, -1) + 1
            m[x] = mk('fresh', c, n[c])
        else:
            m[x] = None
    for x in [x for x in m if m[x] is None]:
        del m[x]
    ts = [sub(t, m) for t in ts] if m else ts
    # results of calls kept as calls: numbered per callee
    m, n = {}, {}
    for t in ts:
        for x in sorted((y for y in subterms(t) if y.op == 'apiret'), key=lambda y: y.args[1]):
            if x not in m:
                n[x.args[0]] = n.get(x.args[0], -1) + 1
                m[x] = mk('result', x.args[0], n[x.args[0]])
    return [sub(t, m) for t in ts] if m else ts


WRITES = {'set', 'setdyn', 'dset', 'ddel', 'dclear', 'dupdate', 'mutate', 'lappend', 'lextend', 'linsert', 'lremove', 'lpop', 'lclear', 'api', 'delattr', 'globmut', 'global', 'warn'}


def eff_term(eng, e, st):
    v = eng.freeze(e.val, st) if isinstance(e.val, T) and e.kind != 'warn' else NONE
    fr, parts = eng.close([(i, eng.freeze(s, st)) for i, s in e.frames], [eng.freeze(e.tgt, st), eng.freeze(e.key, st) if isinstance(e.key, T) else const(e.key), v] + [eng.freeze(a, st) for a, b in e.guards])
    fl = ','.join(sorted(f for f in e.flags if f in ('partial', 'once')))
    return mk('gen', mk('tup', const(e.kind), parts[0], parts[1], parts[2]), NONE, fl, fr, guards_t(list(zip(parts[3:], [b for a, b in e.guards]))))


def fields_set(S):
    return {e.key for s, o in S.exits for e in s.eff if e.kind == 'set'}


def effect_terms(eng, s, pred):
    """the effects of one exit as terms; objects made here count by their final fields"""
    made = {e.tgt for e in s.eff if e.kind == 'make' and not e.frames and isinstance(e.tgt, T) and e.tgt.op == 'new'}
    out, done = [], set()
    for e in s.eff:
        if not pred(e):
            continue
        if e.kind == 'set' and e.tgt in made and not e.frames:
            k = (e.tgt, e.key)
            attr = cval(e.key) if isinstance(e.key, T) else e.key
            h = s.heap.get((e.tgt, attr))
            if h is not None:
                if k not in done:
                    done.add(k)
                    out.append(eff_term(eng, e._replace(val=h, guards=frozenset()), s))
                continue
        out.append(eff_term(eng, e, s))
    return out


IDEM = {'set', 'dset', 'ddel', 'dclear', 'warn'}


def net(ts):
    """what a list of effects comes to"""
    out = []
    for t in ts:
        k = t.args[0].args
        kind = cval(k[0])
        plain = not t.args[3].args and not t.args[4].args and not t.args[2]
        if kind in ('set', 'dset'):
            if plain:
                out = [u for u in out if not (cval(u.args[0].args[0]) == kind and u.args[0].args[1] is k[1] and u.args[0].args[2] is k[2] and not u.args[3].args)]
        if kind in IDEM and t in out:
            continue
        out.append(t)
    from loops import simplify_dnf
    by, res = {}, []
    for t in out:
        if cval(t.args[0].args[0]) in IDEM:
            by.setdefault((t.args[0], t.args[2], t.args[3]), []).append(frozenset((l.args[0], l.args[1]) for l in t.args[4].args))
        else:
            res.append(t)
    for (v, fl, fr), gs in by.items():
        c = canon_dnf(gs)
        for g in simplify_dnf(gs) if c is None else c:
            res.append(mk('gen', v, NONE, fl, fr, mk('tup', *sorted((lit(a, b) for a, b in g), key=gkey))))
    return res


def class_default(ctx, eng, t):
    """is this the setting of an attribute to what the class of the object gives it anyway"""
    kind, obj, attr, val = t.args[0].args
    if cval(kind) != 'set' or t.args[3].args or t.args[4].args or not is_const(attr) or not is_const(val) or obj.op != 'sym':
        return False
    c = ctx.prog.classes.get(eng.cls_of(obj, St()))
    m = ctx.prog.lookup(c, cval(attr))[0] if c is not None else None
    return isinstance(m, ast.Constant) and type(m.value) is type(cval(val)) and m.value == cval(val)


import os
GOT = int(os.environ.get('GOT', '400'))


class Mismatch:
    def __init__(self, what, got, want, st, node, func):
        self.what, self.got, self.want, self.st, self.node, self.func = what, got, want, st, node, func

    def text(self):
        facts = ', '.join(('' if b else 'not ') + show(a) for a, b in list(self.st.facts.items())[:6])
        g, w = (show(self.got) if isinstance(self.got, T) else str(self.got)), (show(self.want) if isinstance(self.want, T) else str(self.want))
        return f'{self.what}: found {g[:GOT]}; specified {w[:GOT]}' + (f' [when {facts[:400]}]' if facts else '')


def compare(ctx, S, R, mode='list', effects=None, value=True, excs=True, view=None, pre=None, ignore=(), also=None, only_sets=None, raise_effects=False, eview=None):
    """differences between a summary S and its specification R: (mismatches, undecided, pairs compared)
    effects: predicate selecting the effects that are compared (None: none)
    view: function applied to returned values on both sides before comparing
    excs: compare exception types; pre: facts assumed on both sides"""
    bad, und, n = [], [], 0
    if S is None or R is None:
        return bad, ['analysis budget'], 0
    eng = S.eng
    if effects == 'spec':
        keys = {k if isinstance(k, T) else const(k) for k in fields_set(R)} | {const(v) for k, v in eng.F.items()}
        keys -= {const(k) if not isinstance(k, T) else k for k in ignore}
        effects = lambda e: e.kind in WRITES and (e.kind != 'set' or (e.key if isinstance(e.key, T) else const(e.key)) in keys) and (also is None or also(e)) and (only_sets is None or only_sets(e, eng))
    for s, o in S.exits:
        if s.lossy:
            und.append('joined states')
        for r, p in R.exits:
            J = Joint(eng, s.facts, r.facts)
            if J.ok and pre:
                J.add(pre)
            if not J.ok:
                continue
            n += 1
            node = o.node
            if o.kind != p.kind:
                d = Mismatch('outcome', f'{o.kind} {o.val if not isinstance(o.val, T) else show(s and eng.freeze(o.val, s))}', f'{p.kind} {p.val if not isinstance(p.val, T) else show(R.eng.freeze(p.val, r))}', J.st, node, S.func)
                op = next((x for x in map(opaque, list(s.facts)) if x is not None), None)
                (und if op is not None or s.lossy else bad).append(d if op is None and not s.lossy else f'conditions: {show(op) if op is not None else "joined"}')
                continue
            ts, tr = [], []
            if effects and (o.kind == 'ret' or raise_effects):
                ts = effect_terms(eng, s, effects)
                tr = effect_terms(R.eng, r, effects)
            vs, vr = None, None
            if o.kind == 'ret' and value:
                vs, vr = eng.freeze(o.val, s), R.eng.freeze(p.val, r)
                if view:
                    vs, vr = view(vs, J), view(vr, J)
            elif o.kind == 'raise' and excs:
                vs, vr = const(str(o.val)), const(str(p.val))
                if '?' in (o.val, p.val):
                    und.append('exception: not known which')
                    vs = vr
            ts, tr = [J.simp(t) for t in ts], [J.simp(t) for t in tr]
            if eview:
                ts, tr = [eview(t, J) for t in ts], [eview(t, J) for t in tr]
            if J.moved:
                ts, tr = [renumber(eng, t) for t in ts], [renumber(eng, t) for t in tr]
            ts, tr = net([t for t in ts if t.op != 'nogen']), net([t for t in tr if t.op != 'nogen'])
            vs, vr = (J.simp(vs) if vs is not None else None), (J.simp(vr) if vr is not None else None)
            if J.moved:
                vs, vr = (renumber(eng, v) if v is not None else None for v in (vs, vr))
            ls = rename_new(ts + ([vs] if vs is not None else []))
            lr = rename_new(tr + ([vr] if vr is not None else []))
            ls, lr = [canon(t, mode) for t in ls], [canon(t, mode) for t in lr]
            if vs is not None:
                a, b = ls.pop(), lr.pop()
                if a is not b and not (mode == 'set' and equiv(a, b, J.st.facts)):
                    op = opaque(a) or opaque(b)
                    m = Mismatch('result' if o.kind == 'ret' else 'exception', a, b, J.st, node, S.func)
                    if op is not None or s.lossy:
                        und.append(f'result: {show(op) if op is not None else "joined"}'[:200])
                    else:
                        bad.append(m)
            if effects:
                ea, eb = list(ls), list(lr)
                for t in list(ea):
                    if t in eb:
                        ea.remove(t)
                        eb.remove(t)
                eb = [t for t in eb if not (S.func.name == '__init__' and class_default(ctx, eng, t))]
                if (ea or eb) and not (all(cval(t.args[0].args[0]) in IDEM or mode == 'set' for t in ea + eb) and same_gens(ls, lr, J.st.facts)):
                    op = next((x for x in map(opaque, ea + eb) if x is not None), None)
                    m = Mismatch('effects', '; '.join(show(t) for t in ea) or 'nothing more', '; '.join(show(t) for t in eb) or 'nothing more', J.st, node, S.func)
                    if op is not None or s.lossy:
                        und.append(f'effects: {show(op) if op is not None else "joined"}'[:200])
                    else:
                        bad.append(m)
    return bad, und, n
