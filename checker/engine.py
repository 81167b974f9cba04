"""Guarded effect summaries by abstract interpretation of the package's syntax trees.

Every entry function is summarised into exit states: the conditions under which the exit is taken
(facts), what was written where (effects, under which loops and conditions), and what is returned,
as terms over parameters and entry state.  Loops are summarised, not unrolled: what an iteration
adds becomes a generator over the iterated source.  Nothing of the package is executed."""
import ast
import builtins
import itertools
import time
from terms import *
from state import *
from prog import Program, Func, Prop, Cls, AnalysisBroken
from logic import Logic
from colls import Colls, mk_not, mk_ite, BOOLOPS
from models import Models
from loops import Loops


class Limit(Exception):
    pass


class ExcName(str):
    """The builtin exception that is raised; `cls` is the class of the package that stands for it, if there is one."""
    def __new__(cls, name, own=None):
        s = str.__new__(cls, name)
        s.cls = own
        return s


class Exit:
    """outcome of a statement other than falling through"""
    __slots__ = ('kind', 'val', 'node', 'implicit', 'func')

    def __init__(self, kind, val=None, node=None, implicit=False, func=None):
        self.kind, self.val, self.node, self.implicit, self.func = kind, val, node, implicit, func

    def __repr__(self):
        return f'<{self.kind} {self.val}>'


class Summary:
    def __init__(self, func, exits, eng):
        self.func, self.exits, self.eng = func, exits, eng

    def rets(self):
        return [(s, o) for s, o in self.exits if o.kind == 'ret']

    def raises(self):
        return [(s, o) for s, o in self.exits if o.kind == 'raise']


class Engine(Logic, Colls, Models, Loops):
    MAXDEPTH = 45
    MAXSTATES = 3000
    JOIN = 48
    GATE = 5
    GATE2 = 12

    def __init__(self, prog):
        self.prog = prog
        self._uid = itertools.count(1)
        self._it = itertools.count(1)
        self.F = {}
        self.GRAPH = 'Graph'
        self.member_of = {}
        self.registered = set()
        self.nonnull_syms = set()
        self.nonnull_attrs = set()
        self.attr_types = {}
        self.field_hooks = []
        self.stops = {}          # (clsname|module, funcname) -> handler
        self.stack = []
        self.raises = []
        self.catch = []
        self.notes = []
        self.steps = 0
        self.deadline = None
        self.funcs_seen = set()
        self.clos = {}
        self.witness = {}
        self.by_other = []
        self.dead_cache = {}
        self.news_cache = {}
        self.iter_roots = []
        self.frame_starts = []
        self.live_cache = {}
        self.infer_attrs()
        self.discover()

    # ------------------------------------------------------------------ schema discovery
    def infer_attrs(self):
        """types of private attributes as initialised in constructors"""
        self.attrs = {}       # class -> set of attribute names assigned on self anywhere
        types, nullable = {}, set()
        for c in self.prog.classes.values():
            s = set()
            for f in c.members.values():
                for fn in ([f] if isinstance(f, Func) else [f.get, f.set] if isinstance(f, Prop) else []):
                    if fn is None or not fn.node.args.args:
                        continue
                    selfname = fn.node.args.args[0].arg
                    for n in ast.walk(fn.node):
                        if isinstance(n, ast.Attribute) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == selfname:
                            s.add(n.attr)
                    if fn.name == '__init__':
                        for n in ast.walk(fn.node):
                            if isinstance(n, (ast.Assign, ast.AnnAssign)):
                                tg = n.targets if isinstance(n, ast.Assign) else [n.target]
                                for t in tg:
                                    if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == selfname:
                                        v = n.value
                                        ty = None
                                        if isinstance(v, ast.Dict) or isinstance(v, ast.DictComp) or (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'dict'):
                                            ty = 'dict'
                                        elif isinstance(v, ast.Name) and fn.node.args.kwarg is not None and v.id == fn.node.args.kwarg.arg:
                                            ty = 'dict'
                                        elif isinstance(v, (ast.List, ast.ListComp)) or (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'list'):
                                            ty = 'list'
                                        elif isinstance(v, ast.Constant) and isinstance(v.value, bool):
                                            ty = 'bool'
                                        elif isinstance(v, ast.Constant) and isinstance(v.value, int):
                                            ty = 'int'
                                        if ty is None:
                                            nullable.add(t.attr)
                                        elif types.get(t.attr, ty) != ty:
                                            nullable.add(t.attr)
                                        else:
                                            types[t.attr] = ty
            self.attrs[c.name] = s
        self.attr_types = {a: t for a, t in types.items() if a not in nullable}
        self.nonnull_attrs = set(self.attr_types)

    def has_attr(self, cname, attr):
        if not isinstance(attr, str):
            return None
        c = self.prog.classes.get(cname)
        if c is None:
            return False
        for k in self.prog.mro(c):
            if attr in k.members or attr in self.attrs.get(k.name, ()):
                return True
        if hasattr(object, attr):
            return True
        for k in self.prog.mro(c):      # a base outside the package
            for b in k.base_names:
                r = self.prog.resolve_expr(k.module, b) if isinstance(b, ast.Name) else None
                if not (r and r[0] == 'cls') and not (isinstance(b, ast.Name) and b.id == 'object'):
                    return None
        # attributes set from outside (other._x = ...) or through setattr with computed names
        return False

    def discover(self):
        """private fields behind the public accessors"""
        P = self.prog
        for c in ('Graph', 'Node', 'Edge', 'NodeStyle', 'EdgeStyle'):
            P.need_class(c)
        roles = [('Graph', 'nodes_dict', 'nodes'), ('Node', 'outward_edges_dict', 'out'), ('Node', 'inward_edges_dict', 'inn'),
                 ('Edge', 'start', 'start'), ('Edge', 'end', 'end'), ('Node', 'graph', 'graph'), ('Node', 'raw_id', 'rid'),
                 ('Node', 'value', 'value'), ('Node', 'style', 'style'), ('Node', 'is_frozen', 'frozen'), ('Node', 'index', 'index'),
                 ('Node', 'raw_label', 'label')]
        for c, p, role in roles:
            m = P.need_method(c, p)
            if not isinstance(m, Prop) or m.get is None:
                raise AnalysisBroken(f'{c}.{p} is no property any more')
            names = set()
            sn = m.get.node.args.args[0].arg
            for n in ast.walk(m.get.node):
                if isinstance(n, ast.Return) and n.value is not None:
                    v = n.value
                    if isinstance(v, ast.Attribute) and isinstance(v.value, ast.Name) and v.value.id == sn:
                        names.add(v.attr)
            if len(names) != 1:
                # any single private attribute read in the getter
                names = {n.attr for n in ast.walk(m.get.node) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == sn and n.attr.startswith('_')}
            if len(names) > 1:
                # the one named after the accessor
                stem = p.removeprefix('is_').removeprefix('raw_')
                names = {n for n in names if n.strip('_') in (p, stem, 'raw_' + stem)} or names
            if len(names) != 1:
                raise AnalysisBroken(f'cannot find the field behind {c}.{p}: {sorted(names)}')
            self.F[role] = names.pop()
        if P.subclass('GraphWithoutDisplay', 'Graph'):
            pass

    # ------------------------------------------------------------------ small helpers
    def fresh_it(self):
        return mk('it', next(self._it))

    def new_coll_term(self, kind):
        return mk('new', kind, next(self._uid))

    def mkcoll(self, st, kind, values=(), flags=NOFLAGS):
        c = self.new_coll_term(kind)
        st.colls[c] = Coll(kind, (), len(st.ctx), flags)
        for v in values:
            self.coll_add(st, c, v)
        return c

    def note(self, msg, node=None):
        f = self.stack[-1] if self.stack else None
        self.notes.append((msg, f.qual if f else '', getattr(node, 'lineno', 0)))

    def unk(self, why='', *parts):
        return mk('unk', why, next(self._uid), *parts)

    def frame_flags(self, st, depth=0):
        fl = set()
        for f in st.ctx[depth:]:
            fl |= f.partial
        return frozenset(fl)

    def replaced(self, gens, key, value, flags):
        """a key that is there already keeps its place"""
        at = next((i for i, g in enumerate(gens) if g.kind == 'kv' and g.key is key and not g.frames and not g.guards), None)
        if at is None or not all(g.kind == 'kv' and ground(g.key) and not g.frames and g.key is not key for g in gens[at + 1:]):
            return None
        return gens[:at] + (gens[at]._replace(value=value, flags=flags, uid=next(self._uid)),) + gens[at + 1:]

    def coll_add(self, st, c, value, key=NONE, kind='elem', flags=NOFLAGS):
        C = st.colls[c]
        if 'glob' in C.flags:
            self.effect(st, 'globmut', c, key, value)
        gu = st.cur_guards(C.depth)
        fr = st.cur_frames(C.depth)
        gens = C.gens
        if kind == 'kv' and ground(key) and not fr and not gu:
            new = self.replaced(gens, key, value, flags | (self.frame_flags(st, C.depth) - {'more'}))
            if new is not None:
                st.colls[c] = C._replace(gens=new)
                return
            gens = tuple(g for g in gens if not (g.kind == 'kv' and g.key is key and not g.frames))
        if C.kind == 'set' and not fr and not gu and any(g.value is value and not g.frames and not g.guards for g in gens):
            return
        g = Gen(kind, value, key, fr, gu, flags | (self.frame_flags(st, C.depth) - ({'more'} if C.kind == 'list' else {'more', 'each'})), next(self._uid))
        st.colls[c] = C._replace(gens=gens + (g,))

    def coll_minus(self, st, c, k):
        """take the element (key) k out of a local set or dictionary"""
        C = st.colls[c]
        if C.kind in ('dict', 'set') and not st.cur_frames(C.depth) and all(g.kind in ('elem', 'kv') for g in C.gens) and 'glob' not in C.flags:
            gens = []
            for g in C.gens:
                x = g.key if C.kind == 'dict' else g.value
                at = self.mk_eq(self.freeze(x, st), k, st)
                neg = False
                while at.op == 'not':
                    at, neg = at.args[0], not neg
                if at in (TRUE, FALSE):
                    if (at is TRUE) != neg:
                        continue
                    gens.append(g)
                elif at.op in ('and', 'or'):
                    break
                else:
                    gens.append(g._replace(guards=g.guards | {(at, neg)}))
            else:
                st.colls[c] = C._replace(gens=tuple(gens))
                return
        self.coll_add(st, c, NONE, k, 'minus')

    def effect(self, st, kind, tgt, key=NONE, val=NONE, node=None, flags=NOFLAGS):
        fn = self.stack[-1] if self.stack else None
        key = self.freeze(key, st) if isinstance(key, T) else key
        e = Eff(kind, tgt, key, val, st.cur_frames(0), st.cur_guards(0), next(self._uid), node or self.cur_node, fn, flags | self.frame_flags(st))
        st.eff = st.eff + (e,)
        return e

    cur_node = None

    # ------------------------------------------------------------------ deciding conditions
    def decide(self, atom, st):
        """list of (state, bool)"""
        if atom is TRUE:
            return [(st, True)]
        if atom is FALSE:
            return [(st, False)]
        if atom.op == 'not':
            return [(s, not b) for s, b in self.decide(atom.args[0], st)]
        k = self.known(atom, st)
        if k is not None:
            return [(st, k)]
        if atom.op == 'or':
            out, pend = [], [st]
            for p in atom.args:
                nxt = []
                for s in pend:
                    for s2, b in self.decide(p, s):
                        (out.append((s2, True)) if b else nxt.append(s2))
                pend = nxt
            return out + [(s, False) for s in pend]
        if atom.op == 'and':
            out, pend = [], [st]
            for p in atom.args:
                nxt = []
                for s in pend:
                    a, want = (p.args[0], p.args[1]) if p.op == 'lit' else (p, True)
                    for s2, b in self.decide(a, s):
                        (nxt.append(s2) if b == want else out.append((s2, False)))
                pend = nxt
            return out + [(s, True) for s in pend]
        # split conditionals inside the atom
        for x in subterms(atom):
            if x.op == 'ite':
                out = []
                for s, b in self.decide(x.args[0], st):
                    a2 = sub(atom, {x: x.args[1] if b else x.args[2]})
                    a2 = self.renorm(a2, s)
                    out += self.decide(a2, s)
                return out
        t, f = st.copy(), st
        self.assume(t, atom, True)
        f = st.copy()
        self.assume(f, atom, False)
        return [(t, True), (f, False)]

    def renorm(self, a, st):
        o, x = a.op, a.args
        if o == 'isnone':
            return self.mk_isnone(x[0], st)
        if o == 'truth':
            return self.mk_truth(x[0], st)
        if o in ('eq', 'same'):
            return self.mk_eq(x[0], x[1], st, identity=(o == 'same'))
        if o == 'in':
            return self.mk_in(x[0], x[1], st)
        if o == 'nonempty':
            return self.mk_nonempty(x[0], st)
        return a

    def assume(self, st, atom, val):
        while atom.op == 'not':
            atom, val = atom.args[0], not val
        if atom in (TRUE, FALSE):
            return
        st.facts[atom] = val
        if not val and atom.op == 'in' and atom.args[1].op == 'tup':
            for y in atom.args[1].args:
                q = self.mk_eq(atom.args[0], y, st)
                if q not in (TRUE, FALSE) and q.op != 'not':
                    st.facts.setdefault(q, False)
        if val and atom.op == 'eq':
            pass

    def cond(self, e, st):
        """evaluate an expression as a condition: list of (state, bool)"""
        if isinstance(e, ast.BoolOp):
            isand = isinstance(e.op, ast.And)
            out, pend = [], [st]
            for i, v in enumerate(e.values):
                nxt = []
                for s in pend:
                    for s2, b in self.cond(v, s):
                        if b == isand:
                            nxt.append(s2)
                        else:
                            out.append((s2, b))
                pend = nxt
            return self.merge_bools(out + [(s, isand) for s in pend])
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return [(s, not b) for s, b in self.cond(e.operand, st)]
        if isinstance(e, ast.IfExp):
            out = []
            for s, b in self.cond(e.test, st):
                out += self.cond(e.body if b else e.orelse, s)
            return out
        out = []
        for s, v in self.ev(e, st):
            out += self.decide(self.mk_truth(v, s), s)
        return out

    def merge_bools(self, rs):
        out = []
        for want in (True, False):
            ss = self.merge_exact([s for s, b in rs if b == want])
            out += [(s, want) for s in ss]
        return out

    # ------------------------------------------------------------------ merging states
    def merge_exact(self, states):
        """join states that differ in one branch fact only (no information is lost)"""
        if len(states) < 2:
            return states
        groups = {}
        for s in states:
            groups.setdefault(s.key_nofacts(), []).append(s)
        if len(groups) == len(states):
            return states
        out = []
        for g in groups.values():
            ch = True
            while ch and len(g) > 1:
                ch = False
                for i in range(len(g)):
                    for j in range(i + 1, len(g)):
                        a, b = g[i].facts, g[j].facts
                        da = [k for k in a if b.get(k) != a[k]]
                        db = [k for k in b if a.get(k) != b[k]]
                        if not da and not db:
                            m = g[i]
                        elif len(da) == 1 and len(db) == 1 and da[0] is db[0]:
                            m = g[i].copy()
                            del m.facts[da[0]]
                        elif not da:       # a is weaker: covers b
                            m = g[i]
                        elif not db:
                            m = g[j]
                        elif len(da) == 1 and b.get(da[0]) is (not a[da[0]]):
                            # A={x}, B={¬x, rest}: x or rest -- keep apart
                            continue
                        else:
                            continue
                        g = [x for k, x in enumerate(g) if k not in (i, j)] + [m]
                        ch = True
                        break
                    if ch:
                        break
            out += g
        return out

    def merge_gated(self, states, wide=False):
        """join states that agree on every variable and effect and differ in one branch fact and in
        what local collections hold; the fact becomes a guard of those elements (nothing is lost)"""
        groups = {}
        for s in states:
            groups.setdefault(s.key_env(self.is_text) if wide else s.key_nocolls(self.is_text), []).append(s)
        if len(groups) == len(states):
            return states
        out = []
        for g in groups.values():
            ch = True
            while ch and len(g) > 1:
                ch = False
                for i in range(len(g)):
                    for j in range(i + 1, len(g)):
                        a, b = g[i].facts, g[j].facts
                        if len(a) != len(b):
                            continue
                        da = [k for k in a if b.get(k) != a[k]]
                        if len(da) == 1 and b.get(da[0]) is (not a[da[0]]) and self.only_grew(g[i], g[j]):
                            lossy = g[i].lossy or g[j].lossy
                            m = self.join2(g[i], g[j])
                            m.lossy = lossy
                            g = [x for k, x in enumerate(g) if k not in (i, j)] + [m]
                            ch = True
                            break
                    if ch:
                        break
            out += g
        return out

    def is_text(self, v):
        if v.op == 'const':
            return isinstance(v.args[1], str) and len(v.args[1]) != 0 or v is const('')
        return v.op in ('cat', 'str', 'join') or v.op == 'ite' and self.is_text(v.args[1]) and self.is_text(v.args[2]) or self.cls_of(v, None) == 'str'

    def only_grew(self, A, B):
        """every collection is known in both states, with the same kind and properties"""
        for k in A.colls.keys() | B.colls.keys():
            x, y = A.colls.get(k), B.colls.get(k)
            if x is None or y is None or x == y:
                continue
            if x.kind != y.kind or x.flags != y.flags or x.depth != y.depth:
                return False
            ux, uy = {g.uid: g for g in x.gens}, {g.uid: g for g in y.gens}
            if any(ux[u] != uy[u] for u in ux.keys() & uy.keys()):
                return False
        return True

    def join(self, states):
        """merge any states into one: differing values become conditional values, effects and
        elements present on one side only get that side's conditions as guards"""
        acc = states[0]
        for s in states[1:]:
            acc = self.join2(acc, s)
        return acc

    def join2(self, A, B):
        m = A.copy()
        m.lossy = True
        ga = [(k, v) for k, v in A.facts.items() if B.facts.get(k) != v]
        gb = [(k, v) for k, v in B.facts.items() if A.facts.get(k) != v]
        m.facts = {k: v for k, v in A.facts.items() if B.facts.get(k) == v}
        fa, fb = frozenset(ga), frozenset(gb)
        def conj(g):
            if len(g) == 1:
                return g[0][0] if g[0][1] else mk_not(g[0][0])
            return mk('and', *sorted((lit(a, b) for a, b in g), key=gkey))
        if ga:
            c = conj(ga)
        elif gb:
            c = mk_not(conj(gb))
        else:
            c = self.unk('join')

        def ite(x, y):
            if x is y:
                return x
            if x is None or y is None:
                return mk('maybe', c, x or y)
            return mk_ite(c, x, y)
        m.env = {k: ite(A.env.get(k), B.env.get(k)) for k in A.env.keys() | B.env.keys()}
        heap = {}
        for k in A.heap.keys() | B.heap.keys():
            x, y = A.heap.get(k), B.heap.get(k)
            if x is None:
                x = self.initial(k[0], k[1], A)
            if y is None:
                y = self.initial(k[0], k[1], B)
            heap[k] = ite(x, y)
        m.heap = heap
        colls = {}
        for k in A.colls.keys() | B.colls.keys():
            x, y = A.colls.get(k), B.colls.get(k)
            if x is None or y is None or x == y:
                colls[k] = x or y
                continue
            ua, ub = {g.uid: g for g in x.gens}, {g.uid: g for g in y.gens}
            gens = []
            for g in x.gens:
                if g.uid in ub:
                    gens.append(g if g == ub[g.uid] else g._replace(guards=g.guards & ub[g.uid].guards))
                else:
                    gens.append(g._replace(guards=g.guards | fa))
            for g in y.gens:
                if g.uid not in ua:
                    gens.append(g._replace(guards=g.guards | fb))
            gens = sorted(gens, key=lambda g: g.uid)
            colls[k] = x._replace(gens=tuple(gens))
        m.colls = colls
        ua, ub = {e.uid: e for e in A.eff}, {e.uid: e for e in B.eff}
        eff = []
        for u in sorted(ua.keys() | ub.keys()):
            if u in ua and u in ub:
                e = ua[u]
                eff.append(e if e.guards == ub[u].guards else e._replace(guards=e.guards & ub[u].guards))
            elif u in ua:
                eff.append(ua[u]._replace(guards=ua[u].guards | fa))
            else:
                eff.append(ub[u]._replace(guards=ub[u].guards | fb))
        m.eff = tuple(eff)
        return m

    # ------------------------------------------------------------------ statements
    def block(self, stmts, st):
        """list of (state, Exit|None)"""
        cur, out = [st], []
        for s in stmts:
            nxt = []
            for c in cur:
                for s2, o in self.stmt(s, c):
                    if o is None:
                        nxt.append(s2)
                    else:
                        out.append((s2, o))
            if len(nxt) > 1:
                nxt = self.collect(self.kill_dead(s, nxt))
            cur = self.shrink(nxt)
            if not cur:
                break
        return out + [(s, None) for s in cur]

    def kill_dead(self, stmt, states):
        """forget local names that nothing reads from here on"""
        if not self.stack:
            return states
        live = self.liveness(self.stack[-1].node).get(id(stmt))
        if live is None:
            return states
        out = []
        for s in states:
            gone = [k for k in s.env if k not in live and k[0] != '\0']
            if gone:
                s = s.copy()
                for k in gone:
                    del s.env[k]
            out.append(s)
        return out

    def news_of(self, t):
        """fresh collections a term mentions"""
        r = self.news_cache.get(t)
        if r is None:
            out = set()
            for x in subterms(t):
                if x.op == 'new' and x.args[0] != 'obj':
                    out.add(x)
                elif x.op == 'clo' and x in self.clos and isinstance(self.clos[x], tuple):
                    self.news_cache[t] = frozenset()
                    for v in self.clos[x][1].values():
                        if isinstance(v, T):
                            out |= self.news_of(v)
            r = self.news_cache[t] = frozenset(out)
        return r

    def collect(self, states):
        """drop local collections of the current call that nothing refers to any more"""
        start = self.frame_starts[-1] if self.frame_starts else 0
        out = []
        for s in states:
            cand = [c for c in s.colls if c.args[-1] > start]
            if not cand:
                out.append(s)
                continue
            seen = set()
            todo = []
            N = self.news_of

            def add(t):
                if isinstance(t, T):
                    for x in N(t):
                        if x not in seen:
                            seen.add(x)
                            todo.append(x)
            for v in s.env.values():
                add(v)
            for (o, a), v in s.heap.items():
                add(o)
                add(v)
            for a in s.facts:
                add(a)
            for e in s.eff:
                add(e.tgt), add(e.key), add(e.val)
                for i, x in e.frames:
                    add(x)
                for a, b in e.guards:
                    add(a)
            for f in s.ctx:
                add(f.src)
            for t in self.iter_roots:
                add(t)
            for c in s.colls:
                if c.args[-1] <= start:
                    add(c)
            while todo:
                c = todo.pop()
                C = s.colls.get(c)
                if C is None:
                    continue
                for g in C.gens:
                    add(g.value), add(g.key)
                    for i, x in g.frames:
                        add(x)
                    for a, b in g.guards:
                        add(a)
            gone = [c for c in cand if c not in seen]
            if gone:
                s = s.copy()
                for c in gone:
                    del s.colls[c]
            out.append(s)
        return out

    def liveness(self, fn):
        r = self.live_cache.get(fn)
        if r is not None:
            return r
        r = {}

        def loads(nodes):
            return {x.id for n in nodes for x in ast.walk(n) if isinstance(x, ast.Name)}
        always = set()
        for x in ast.walk(fn):
            if x is not fn and isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                always |= loads([x])
            if isinstance(x, (ast.Global, ast.Nonlocal)):
                always |= set(x.names)
            if isinstance(x, ast.Name) and x.id in ('locals', 'vars', 'eval', 'exec', 'super'):
                a = fn.args
                always |= {y.id for y in ast.walk(fn) if isinstance(y, ast.Name)} | {y.arg for y in a.posonlyargs + a.args + a.kwonlyargs}

        def blk(stmts, after):
            for i in range(len(stmts) - 1, -1, -1):
                s = stmts[i]
                r[id(s)] = after
                inner = after
                if isinstance(s, (ast.For, ast.While)):
                    inner = after | loads([s])
                elif isinstance(s, ast.Try):
                    inner = after | loads(s.handlers) | loads(s.orelse) | loads(s.finalbody)
                for f in ('body', 'orelse', 'finalbody'):
                    b = getattr(s, f, None)
                    if isinstance(b, list) and not isinstance(s, (ast.FunctionDef, ast.ClassDef)):
                        blk(b, inner)
                for h in getattr(s, 'handlers', ()):
                    blk(h.body, inner)
                after = after | loads([s])
        if isinstance(getattr(fn, 'body', None), list):
            blk(fn.body, frozenset(always))
        self.live_cache[fn] = r
        return r

    def stmt(self, n, st):
        self.steps += 1
        if self.deadline and time.time() > self.deadline:
            raise Limit('time')
        if self.steps > 3_000_000:
            raise Limit('step limit')
        saved, self.raises = self.raises, []
        self.cur_node = n
        try:
            m = getattr(self, 's_' + type(n).__name__, None)
            if m is None:
                self.note('unsupported statement ' + type(n).__name__, n)
                res = [(st, None)]
            else:
                res = m(n, st)
            return list(res) + self.raises
        finally:
            self.raises = saved

    def do_raise(self, st, exc, node=None, implicit=False):
        self.raises.append((st, Exit('raise', exc, node or self.cur_node, implicit, self.stack[-1] if self.stack else None)))

    def s_Pass(self, n, st):
        return [(st, None)]

    def s_Expr(self, n, st):
        if isinstance(n.value, ast.Constant):
            return [(st, None)]
        return [(s, None) for s, v in self.ev(n.value, st)]

    def s_Return(self, n, st):
        if n.value is None:
            return [(st, Exit('ret', NONE, n))]
        return [(s, Exit('ret', v, n)) for s, v in self.ev(n.value, st)]

    def s_Assign(self, n, st):
        out = []
        for s, v in self.ev(n.value, st):
            ss = [s]
            for t in n.targets:
                ss = [x for q in ss for x in self.assign(t, v, q)]
            out += ss
        return [(s, None) for s in out]

    def s_AnnAssign(self, n, st):
        if n.value is None:
            return [(st, None)]
        out = []
        for s, v in self.ev(n.value, st):
            out += self.assign(n.target, v, s)
        return [(s, None) for s in out]

    def s_AugAssign(self, n, st):
        load = ast.copy_location(self.as_load(n.target), n.target)
        out = []
        for s, cur in self.ev(load, st):
            for s2, v in self.ev(n.value, s):
                if isinstance(n.op, ast.Add) and (cur in s2.colls and s2.colls[cur].kind == 'list'):
                    self.coll_extend(s2, cur, v)
                    out.append(s2)
                    continue
                if isinstance(n.op, ast.BitOr) and cur in s2.colls:
                    self.coll_extend(s2, cur, v)
                    out.append(s2)
                    continue
                if isinstance(n.op, ast.Add) and self.cls_of(cur, s2) == 'list':
                    self.effect(s2, 'lextend', cur, NONE, v, n)
                    out.append(s2)
                    continue
                for s3, r in self.binop(n.op, cur, v, s2, n):
                    out += self.assign(n.target, r, s3)
        return [(s, None) for s in out]

    def as_load(self, t):
        import copy
        t = copy.copy(t)
        t.ctx = ast.Load()
        return t

    def bounds(self, sl, st):
        out = [(st.copy(), ())]
        for x in (sl.lower, sl.upper, sl.step):
            out = [(s2, b + (v,)) for s, b in out for s2, v in (self.ev(x, s) if x is not None else [(s, NONE)])]
        return [(s.copy(), b) for s, b in out]

    def s_Delete(self, n, st):
        cur = [st]
        for t in n.targets:
            nxt = []
            for s in cur:
                if isinstance(t, ast.Name):
                    s = s.copy()
                    s.env.pop(t.id, None)
                    nxt.append(s)
                elif isinstance(t, ast.Subscript):
                    for s2, o in self.ev(t.value, s):
                        if isinstance(t.slice, ast.Slice):
                            for s3, b in self.bounds(t.slice, s2):
                                self.fuzz(s3, o, 'delslice', n, NONE if o in s3.colls else mk('tup', *b, NONE))
                                nxt.append(s3)
                            continue
                        for s3, k in self.ev(t.slice, s2):
                            nxt += self.del_item(o, k, s3, n)
                elif isinstance(t, ast.Attribute):
                    for s2, o in self.ev(t.value, s):
                        s2 = s2.copy()
                        self.effect(s2, 'delattr', o, const(t.attr), NONE, n)
                        s2.heap[(o, t.attr)] = self.unk('deleted')
                        nxt.append(s2)
            cur = nxt
        return [(s, None) for s in cur]

    def s_If(self, n, st):
        out = []
        rs = self.cond(n.test, st)
        for s, b in rs:
            out += self.block(n.body if b else n.orelse, s)
        norm = [s for s, o in out if o is None]
        norm = self.merge_exact(norm)
        return [(s, None) for s in norm] + [(s, o) for s, o in out if o is not None]

    def s_Assert(self, n, st):
        out = []
        for s, b in self.cond(n.test, st):
            if b:
                out.append((s, None))
            else:
                self.do_raise(s, 'AssertionError', n)
        return out

    def s_Raise(self, n, st):
        if n.exc is None:
            return [(st, Exit('raise', getattr(self, 'cur_exc', None) or 'Exception', n, False, self.stack[-1] if self.stack else None))]
        rs = self.ev(n.exc, st)
        if n.cause is not None:
            rs = [(s2, v) for s, v in rs for s2, _ in self.ev(n.cause, s)]
        return [(s, Exit('raise', self.raised(v, s), n, False, self.stack[-1] if self.stack else None)) for s, v in rs]

    def raised(self, v, st):
        """The name of the exception that raising `v` raises: for a class of the package the builtin exception it comes from."""
        if v.op == 'exc':
            return ExcName(*v.args)
        if v.op == 'ext':
            return v.args[0].rsplit('.', 1)[-1]
        cn = v.args[0] if v.op == 'cls' else v.args[1] if v.op == 'new' and v.args[0] == 'obj' else None
        if cn is not None and cn in self.prog.classes:
            return ExcName(self.exc_base(cn), cn)
        return ExcName('?')

    def exc_base(self, cn):
        for c in self.prog.mro(self.prog.classes[cn]):
            for b in c.base_names:
                if isinstance(b, ast.Name) and self.prog.resolve(c.module, b.id) is None and isinstance(getattr(builtins, b.id, None), type):
                    return b.id
        return 'Exception'

    def s_Break(self, n, st):
        return [(st, Exit('break', None, n))]

    def s_Continue(self, n, st):
        return [(st, Exit('cont', None, n))]

    def s_Global(self, n, st):
        st = st.copy()
        st.env['\0global'] = mk('names', *sorted(set(n.names) | set(st.env['\0global'].args if '\0global' in st.env else ())))
        return [(st, None)]

    s_Nonlocal = s_Global

    def s_Import(self, n, st):
        st = st.copy()
        for a in n.names:
            st.env[a.asname or a.name.split('.')[0]] = mk('ext', a.name)
        return [(st, None)]

    def s_ImportFrom(self, n, st):
        st = st.copy()
        m = self.stack[-1].module
        base = self.prog._rel(m, n)
        for a in n.names:
            nm = a.asname or a.name
            if base is None:
                st.env[nm] = mk('ext', f'{n.module}.{a.name}')
            else:
                tgt = self.prog.modules.get(base)
                r = self.prog.resolve(tgt, a.name) if tgt else None
                st.env[nm] = self.from_resolved(r, a.name, st) if r else self.unk('import')
        return [(st, None)]

    def s_FunctionDef(self, n, st):
        st = st.copy()
        st.env[n.name] = self.closure(n, st)
        # recursion by name
        return [(st, None)]

    def s_ClassDef(self, n, st):
        st = st.copy()
        st.env[n.name] = self.unk('localclass')
        return [(st, None)]

    def closure(self, n, st):
        u = next(self._uid)
        t = mk('clo', u)
        self.clos[t] = (n, st.env, self.stack[-1] if self.stack else None)
        return t

    def s_With(self, n, st):
        if self.suppressing(n.items[0], st) is not None:
            inner = n.body
            if len(n.items) > 1:
                inner = [ast.copy_location(ast.With(items=n.items[1:], body=n.body), n)]
            c = n.items[0].context_expr
            h = ast.copy_location(ast.ExceptHandler(type=ast.copy_location(ast.Tuple(elts=c.args, ctx=ast.Load()), c), name=None, body=[ast.copy_location(ast.Pass(), n)]), n)
            return self.s_Try(ast.copy_location(ast.Try(body=inner, handlers=[h], orelse=[], finalbody=[]), n), st)
        cur = [st]
        for item in n.items:
            nxt = []
            for s in cur:
                for s2, v in self.ev(item.context_expr, s):
                    if item.optional_vars is not None:
                        nxt += self.assign(item.optional_vars, mk('call', '.__enter__', v), s2)
                    else:
                        nxt.append(s2)
            cur = nxt
        out = []
        for s in cur:
            out += self.block(n.body, s)
        return out

    EXC = {'KeyError': 'LookupError', 'IndexError': 'LookupError', 'LookupError': 'Exception', 'AttributeError': 'Exception',
           'TypeError': 'Exception', 'ValueError': 'Exception', 'RuntimeError': 'Exception', 'RecursionError': 'RuntimeError',
           'NotImplementedError': 'RuntimeError', 'StopIteration': 'Exception', 'AssertionError': 'Exception', 'UnboundLocalError': 'NameError',
           'NameError': 'Exception', 'OSError': 'Exception', 'Exception': 'BaseException'}

    def exc_matches(self, exc, handler):
        """Whether a handler for `handler` takes the exception `exc`."""
        cn = getattr(exc, 'cls', None)
        if cn is not None and any(c.name == handler for c in self.prog.mro(self.prog.classes[cn])):
            return True
        if exc == '?':
            return handler in ('Exception', 'BaseException')
        kind, wanted = getattr(builtins, str(exc), None), getattr(builtins, handler, None)
        if isinstance(kind, type) and isinstance(wanted, type):
            return issubclass(kind, wanted)
        exc = str(exc)
        while exc:
            if exc == handler:
                return True
            exc = self.EXC.get(exc, 'Exception' if exc not in ('Exception', 'BaseException') else ('BaseException' if exc == 'Exception' else None))
        return False

    def suppressing(self, item, st):
        """The exceptions that `with suppress(..)` swallows, or None."""
        c = item.context_expr
        if isinstance(c, ast.Call) and item.optional_vars is None and not c.keywords and not any(isinstance(a, ast.Starred) for a in c.args):
            rs = self.ev(c.func, st) if isinstance(c.func, (ast.Name, ast.Attribute)) else []
            if len(rs) == 1 and rs[0][1].op == 'ext' and rs[0][1].args[0] == 'contextlib.suppress':
                return c.args
        return None

    def s_Try(self, n, st):
        hs = []
        for h in n.handlers:
            if h.type is None:
                hs.append((['BaseException'], h))
            else:
                ts = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
                hs.append(([t.id if isinstance(t, ast.Name) else getattr(t, 'attr', '?') for t in ts], h))
        self.catch.append([x for ts, _ in hs for x in ts])
        try:
            body = self.block(n.body, st)
        finally:
            self.catch.pop()
        out = []
        for s, o in body:
            if o is None:
                if n.orelse:
                    out += self.block(n.orelse, s)
                else:
                    out.append((s, None))
            elif o.kind == 'raise':
                for ts, h in hs:
                    if any(self.exc_matches(o.val, t) for t in ts):
                        s = s.copy()
                        if h.name:
                            s.env[h.name] = mk('exc', str(o.val), o.val.cls) if getattr(o.val, 'cls', None) else mk('exc', str(o.val))
                        old = getattr(self, 'cur_exc', None)
                        self.cur_exc = o.val
                        out += self.block(h.body, s)
                        self.cur_exc = old
                        break
                else:
                    out.append((s, o))
            else:
                out.append((s, o))
        if n.finalbody:
            res = []
            for s, o in out:
                for s2, o2 in self.block(n.finalbody, s):
                    res.append((s2, o2 if o2 is not None else o))
            out = res
        norm = self.merge_exact([s for s, o in out if o is None])
        return [(s, None) for s in norm] + [(s, o) for s, o in out if o is not None]

    # ------------------------------------------------------------------ assignment
    def assign(self, t, v, st):
        """list of states"""
        if isinstance(t, ast.Name):
            if '\0global' in st.env and t.id in st.env['\0global'].args:
                st = st.copy()
                self.effect(st, 'global', mk('globname', t.id), NONE, v)
                return [st]
            st = st.copy()
            st.env[t.id] = v
            return [st]
        if isinstance(t, ast.Attribute):
            out = []
            for s, o in self.ev(t.value, st):
                out += self.store_attr(o, t.attr, v, s, t)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for s, o in self.ev(t.value, st):
                if isinstance(t.slice, ast.Slice):
                    for s2, b in self.bounds(t.slice, s):
                        self.fuzz(s2, o, 'setslice', t, v if o in s2.colls else mk('tup', *b, self.freeze(v, s2)))
                        out.append(s2)
                    continue
                for s2, k in self.ev(t.slice, s):
                    out += self.store_item(o, k, v, s2, t)
            return out
        if isinstance(t, (ast.Tuple, ast.List)):
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                st = st.copy()
            parts = self.unpack(v, len(t.elts), stars[0] if stars else None, st)
            cur = [st]
            for e, p in zip(t.elts, parts):
                e = e.value if isinstance(e, ast.Starred) else e
                cur = [x for s in cur for x in self.assign(e, p, s)]
            return cur
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st)
        self.note('unsupported target', t)
        return [st]

    def unpack(self, v, n, star, st):
        if v.op == 'ite':
            a, b = self.unpack(v.args[1], n, star, st), self.unpack(v.args[2], n, star, st)
            return [x if x is y else mk('ite', v.args[0], x, y) for x, y in zip(a, b)]
        if v.op == 'tup' and star is None and len(v.args) == n:
            return list(v.args)
        if v.op == 'const' and isinstance(cval(v), tuple) and len(cval(v)) == n:
            return [const(x) for x in cval(v)]
        if star is None and (v in st.colls or v.op == 'coll'):
            ps, kind = self.pieces(v, st)
            if kind in ('list', 'tuple') and len(ps) == n and all(not p[0] and not p[1] and p[4] == 'elem' for p in ps):
                return [p[2] for p in ps]
        if star is not None:
            after = n - star - 1
            if v.op == 'tup':
                known = list(v.args)
            elif v.op == 'const' and isinstance(cval(v), (tuple, str)):
                known = [const(x) for x in cval(v)]
            else:
                ps, kind = self.pieces(v, st) if v in st.colls or v.op == 'coll' else ((), None)
                known = [p[2] for p in ps] if kind in ('list', 'tuple') and all(not p[0] and not p[1] and p[4] == 'elem' for p in ps) else None
            if known is not None and len(known) >= n - 1:
                return known[:star] + [self.mkcoll(st, 'list', known[star:len(known) - after])] + known[len(known) - after:]
            w = self.freeze(v, st)
            rest = mk('slice', w, const(star), const(-after) if after else NONE, NONE)
            return [self.mk_item(v, const(i), st) for i in range(star)] + [rest] + [self.mk_item(v, const(i - after), st) for i in range(after)]
        return [self.mk_item(v, const(i), st) for i in range(n)]

    def store_attr(self, o, attr, v, st, node):
        if o.op == 'ite':
            out = []
            for s, b in self.decide(o.args[0], st):
                out += self.store_attr(o.args[1] if b else o.args[2], attr, v, s, node)
            return out
        c = self.cls_of(o, st)
        if c in self.prog.classes:
            m, k = self.prog.lookup(self.prog.classes[c], attr)
            if isinstance(m, Prop):
                if m.set is None:
                    self.do_raise(st, 'AttributeError', node, implicit=True)
                    self.bad(st, 'attr', f'{c}.{attr} has no setter', node)
                    return []
                return [s for s, r in self.call_func(m.set, [o, v], {}, st, node)]
        if o.op == 'const':
            self.do_raise(st, 'AttributeError', node, implicit=True)
            return []
        st = st.copy()
        if attr == '__dict__':
            self.effect(st, 'setdyn', o, self.unk('vars'), v, node)
            st.lossy = True
            return [st]
        old = st.heap.get((o, attr))
        self.effect(st, 'set', o, const(attr), v, node)
        st.heap[(o, attr)] = v
        return [st]

    def bad(self, st, rule, msg, node):
        """record an internal failure (used by the names rule)"""
        self.bads.append((rule, msg, node, self.stack[-1] if self.stack else None))

    bads = []

    # ------------------------------------------------------------------ loads
    def load_attr(self, o, attr, st, node=None):
        """list of (state, value)"""
        if o.op == 'ite':
            out = []
            for s, b in self.decide(o.args[0], st):
                out += self.load_attr(o.args[1] if b else o.args[2], attr, s, node)
            return out
        if o.op == 'maybe':
            return self.load_attr(o.args[1], attr, st, node)
        if o.op == 'ext':
            return [(st, mk('ext', o.args[0] + '.' + attr))]
        if o.op == 'mod':
            m = self.prog.modules.get(o.args[0])
            r = self.prog.resolve(m, attr) if m else None
            return [(st, self.from_resolved(r, attr, st) if r else self.unk('mod'))]
        if o.op == 'cls' or o.op == 'classof':
            cn = o.args[0] if o.op == 'cls' else self.cls_of(o.args[0], st)
            c = self.prog.classes.get(cn)
            if c is not None:
                if attr == '__name__':
                    return [(st, const(cn))]
                m, k = self.prog.lookup(c, attr)
                if isinstance(m, Func):
                    if m.kind == 'static':
                        return [(st, self.func_term(m))]
                    if m.kind == 'class':
                        return [(st, mk('bm', o, k.name, attr))]
                    return [(st, self.func_term(m))]
                if isinstance(m, ast.AST):
                    return self.class_const(m, k, attr, st)
            return [(st, mk('fld', o, attr))]
        if o.op == 'super':
            return self.load_super(o, attr, st, node)
        if o.op == 'func' and attr in ('__name__', '__doc__', '__qualname__'):
            return [(st, self.unk('funcattr'))]
        c = self.cls_of(o, st)
        if o.op == 'new' and o.args[0] != 'obj' or c in ('list', 'dict', 'set', 'str', 'tuple', 'view'):
            if c in ('list', 'dict', 'set', 'str', 'tuple') and not hasattr({'list': list, 'dict': dict, 'set': set, 'str': str, 'tuple': tuple}[c], attr) and o.op not in ('fld', 'item', 'el'):
                if not any(x in ts for ts in self.catch for x in ('AttributeError', 'Exception', 'BaseException')):
                    self.bad(st, 'attr', f'{c} has no attribute {attr}', node)
                else:
                    self.do_raise(st, 'AttributeError', node, implicit=True)
                    return []
            return [(st, mk('bm', o, c or '', attr))]
        if c in self.prog.classes:
            n = self.known(self.mk_isnone(o, st), st) if not self.nonnull(o, st) else False
            if n is True:
                self.do_raise(st, 'AttributeError', node, implicit=True)
                return []
            if n is None and self.track_null and o.op == 'fld' and o.args[1] == self.F['style']:
                out = []
                for s, b in self.decide(mk('isnone', o), st):
                    if b:
                        self.do_raise(s, 'AttributeError', node, implicit=True)
                    else:
                        out += self.load_attr_obj(o, c, attr, s, node)
                return out
            return self.load_attr_obj(o, c, attr, st, node)
        if is_const(o) and o is NONE:
            self.do_raise(st, 'AttributeError', node, implicit=True)
            return []
        if self.known(mk('isnone', o), st) is True:
            self.do_raise(st, 'AttributeError', node, implicit=True)
            return []
        h = st.heap.get((o, attr))
        if h is not None:
            return [(st, h)]
        if any('AttributeError' in ts or 'Exception' in ts or 'BaseException' in ts for ts in self.catch[-1:]):
            a = mk('hasattr', o, attr)
            out = []
            for s, b in self.decide(a, st):
                if b:
                    out.append((s, mk('fld', o, attr)))
                else:
                    self.do_raise(s, 'AttributeError', node, implicit=True)
            return out
        return [(st, mk('fld', o, attr))]

    track_null = True

    def load_attr_obj(self, o, c, attr, st, node):
        if attr == '__class__':
            return [(st, mk('classof', o))]
        if attr == '__dict__':
            return [(st, mk('vars', o))]
        m, k = self.prog.lookup(self.prog.classes[c], attr)
        if isinstance(m, Prop):
            h = self.stops.get((c, attr)) or self.stops.get((k.name, attr))
            if h:
                return h(self, st, o, {}, node)
            if m.get.kind == 'cached':
                if (o, attr) in st.heap:
                    return [(st, st.heap[(o, attr)])]
            out = self.call_func(m.get, [o], {}, st, node)
            if m.get.kind == 'cached':
                for s, v in out:
                    self.effect(s, 'cache', o, const(attr), v, node)
            return out
        if isinstance(m, Func):
            if m.kind == 'static':
                return [(st, self.func_term(m))]
            return [(st, mk('bm', o, k.name, attr))]
        h = st.heap.get((o, attr))
        if h is not None:
            return [(st, h)]
        if isinstance(m, ast.AST) and (o.op == 'new' or not any(attr in self.attrs.get(q, ()) for q in self.attrs)):
            return self.class_const(m, k, attr, st)
        if o.op == 'new' and not any(attr in self.attrs.get(q.name, ()) for q in self.prog.mro(self.prog.classes[c])):
            self.bad(st, 'attr', f'{c} has no attribute {attr}', node)
            self.do_raise(st, 'AttributeError', node, implicit=True)
            return []
        if self.has_attr(c, attr) is False:
            if not any(x in ts for ts in self.catch for x in ('AttributeError', 'Exception', 'BaseException')):
                self.bad(st, 'attr', f'{c} has no attribute {attr}', node)
            self.do_raise(st, 'AttributeError', node, implicit=True)
            return []
        return [(st, self.initial(o, attr, st))]

    def class_const(self, expr, k, attr, st):
        f = Func.__new__(Func)
        f.name, f.node, f.module, f.cls, f.kind, f.qual, f.isgen, f.path = attr, expr, k.module, k, 'const', k.name + '.' + attr, False, k.module.path
        s = st.copy()
        env, s.env = s.env, {}
        self.stack.append(f)
        try:
            rs = self.ev(expr, s)
        finally:
            self.stack.pop()
        out = []
        for s2, v in rs:
            s2.env = env
            if v in s2.colls:
                s2.colls[v] = s2.colls[v]._replace(flags=s2.colls[v].flags | {'glob'})
            out.append((s2, v))
        return out

    def load_super(self, o, attr, st, node):
        selfv, after = o.args[0], self.prog.classes[o.args[1]]
        if selfv.op in ('cls', 'classof'):
            cn = selfv.args[0] if selfv.op == 'cls' else self.cls_of(selfv.args[0], st)
        else:
            cn = self.cls_of(selfv, st)
        c = self.prog.classes.get(cn)
        if c is None:
            return [(st, self.unk('super'))]
        m, k = self.prog.lookup(c, attr, after=after)
        if m is None:
            if hasattr(object, attr):
                return [(st, mk('ext', 'object.' + attr))]
            self.bad(st, 'attr', f'super() of {after.name} has no attribute {attr}', node)
            self.do_raise(st, 'AttributeError', node, implicit=True)
            return []
        if isinstance(m, Prop):
            return self.call_func(m.get, [selfv], {}, st, node)
        if isinstance(m, Func):
            if m.kind == 'static':
                return [(st, self.func_term(m))]
            return [(st, mk('bm', selfv, k.name, attr))]
        return self.class_const(m, k, attr, st)

    def func_term(self, f):
        t = mk('func', f.qual, id(f))
        self.clos[t] = f
        return t

    def from_resolved(self, r, name, st):
        if r is None:
            return None
        if r[0] == 'func':
            return self.func_term(r[1])
        if r[0] == 'cls':
            return mk('cls', r[1].name)
        if r[0] == 'ext':
            return mk('ext', r[1])
        if r[0] == 'mod':
            return mk('mod', r[1].short)
        if r[0] == 'expr':
            return self.global_const(r[1], r[2], name, st)
        return None

    def global_const(self, expr, module, name, st):
        try:
            v = ast.literal_eval(expr)
            if isinstance(v, (list, dict, set)):
                raise ValueError
            if isinstance(v, tuple):
                if all(not isinstance(x, (list, dict, set, tuple)) for x in v):
                    return mk('tup', *[const(x) for x in v])
                raise ValueError
            return const(v)
        except (ValueError, TypeError, SyntaxError, MemoryError):
            pass
        if isinstance(expr, (ast.Lambda,)):
            f = Func.__new__(Func)
            f.name, f.node, f.module, f.cls, f.kind, f.qual, f.isgen, f.path = name, expr, module, None, 'func', name, False, module.path
            t = mk('clo', next(self._uid))
            self.clos[t] = (expr, {}, f)
            return t
        if isinstance(expr, (ast.List, ast.Dict, ast.Set)) or (isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) and expr.func.id in ('dict', 'list', 'set', 'defaultdict', 'OrderedDict')):
            k = 'dict' if isinstance(expr, ast.Dict) or (isinstance(expr, ast.Call) and expr.func.id not in ('list', 'set')) else 'set' if isinstance(expr, ast.Set) or (isinstance(expr, ast.Call) and expr.func.id == 'set') else 'list'
            # a literal that is never changed anywhere is a constant table
            if isinstance(expr, (ast.List, ast.Dict, ast.Set)):
                f = Func.__new__(Func)
                f.name, f.node, f.module, f.cls, f.kind, f.qual, f.isgen, f.path = name, expr, module, None, 'const', name, False, module.path
                env, st.env = st.env, {}
                self.stack.append(f)
                try:
                    rs = self.ev(expr, st)
                finally:
                    self.stack.pop()
                    st.env = env
                if len(rs) == 1:
                    v = rs[0][1]
                    if v in rs[0][0].colls and self.elements_const(rs[0][0].colls[v]) and rs[0][0].colls[v].gens:
                        st.colls[v] = rs[0][0].colls[v]._replace(flags=frozenset({'glob'}))
                        return v
            return mk('dflt', module.short, name, k)
        return mk('glob', module.short, name)

    def elements_const(self, C):
        return all((is_const(g.value) or g.value.op in ('tup', 'ext', 'func', 'cls', 'glob')) and not g.frames and not g.guards for g in C.gens)

    # ------------------------------------------------------------------ expressions
    def ev(self, e, st):
        """list of (state, term)"""
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            self.note('unsupported expression ' + type(e).__name__, e)
            return [(st, self.unk('expr'))]
        return m(e, st)

    def ev_many(self, es, st):
        """list of (state, [terms])"""
        cur = [(st, [])]
        for e in es:
            nxt = []
            for s, vs in cur:
                for s2, v in self.ev(e, s):
                    nxt.append((s2, vs + [v]))
            cur = nxt
        return cur

    def e_Constant(self, e, st):
        return [(st, const(e.value))]

    def e_Name(self, e, st):
        if e.id in st.env:
            v = st.env[e.id]
            if v.op == 'maybe':
                return [(st, v.args[1])]
            return [(st, v)]
        f = self.stack[-1] if self.stack else None
        if f is not None and e.id in self.assigned(f):
            # local, not assigned on this path
            self.bad(st, 'unbound', f'local variable {e.id} used before assignment', e)
            self.do_raise(st, 'UnboundLocalError', e, implicit=True)
            return []
        r = self.prog.resolve(f.module, e.id) if f else None
        if r is not None:
            return [(st, self.from_resolved(r, e.id, st))]
        import builtins
        if hasattr(builtins, e.id):
            return [(st, mk('ext', e.id))]
        self.bad(st, 'name', f'name {e.id} is not defined', e)
        self.do_raise(st, 'NameError', e, implicit=True)
        return []

    def assigned(self, f):
        n = f.node
        if not isinstance(n, (ast.FunctionDef,)):
            return ()
        try:
            return f._assigned
        except AttributeError:
            pass
        s = set()
        from prog import walk_own
        for x in walk_own(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                s.add(x.id)
            elif isinstance(x, (ast.FunctionDef, ast.ClassDef)):
                s.add(x.name)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                s.add(x.name)
            elif isinstance(x, (ast.Import, ast.ImportFrom)):
                for a in x.names:
                    s.add(a.asname or a.name.split('.')[0])
            elif isinstance(x, (ast.Global, ast.Nonlocal)):
                s -= set(x.names)
        comps = set()
        for x in walk_own(n):
            if isinstance(x, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                for g in x.generators:
                    for y in ast.walk(g.target):
                        if isinstance(y, ast.Name):
                            comps.add(y.id)
        real = set()
        for x in walk_own(n):
            tg = []
            if isinstance(x, ast.Assign):
                tg = x.targets
            elif isinstance(x, (ast.AugAssign, ast.AnnAssign, ast.For, ast.NamedExpr)):
                tg = [x.target]
            elif isinstance(x, ast.With):
                tg = [i.optional_vars for i in x.items if i.optional_vars is not None]
            elif isinstance(x, ast.Delete):
                tg = x.targets
            for t in tg:
                for y in ast.walk(t):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, (ast.Store, ast.Del)):
                        real.add(y.id)
        s -= comps - real
        f._assigned = s
        return s

    def e_Attribute(self, e, st):
        out = []
        for s, o in self.ev(e.value, st):
            out += self.load_attr(o, e.attr, s, e)
        return out

    def e_Tuple(self, e, st):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.e_List(e, st)
        return [(s, mk('tup', *vs)) for s, vs in self.ev_many(e.elts, st)]

    def e_List(self, e, st, kind='list'):
        out = []
        es = [x.value if isinstance(x, ast.Starred) else x for x in e.elts]
        for s, vs in self.ev_many(es, st):
            s = s.copy()
            c = self.mkcoll(s, kind)
            for x, v in zip(e.elts, vs):
                if isinstance(x, ast.Starred):
                    self.coll_extend(s, c, v)
                else:
                    self.coll_add(s, c, v)
            out.append((s, c))
        return out

    def e_Set(self, e, st):
        return self.e_List(e, st, 'set')

    def e_Dict(self, e, st):
        out = []
        parts = []
        for k, v in zip(e.keys, e.values):
            parts += ([k] if k is not None else []) + [v]
        for s, vs in self.ev_many(parts, st):
            s = s.copy()
            c = self.mkcoll(s, 'dict')
            i = 0
            for k in e.keys:
                if k is None:
                    self.coll_update(s, c, vs[i])
                    i += 1
                else:
                    self.coll_add(s, c, vs[i + 1], vs[i], 'kv')
                    i += 2
            out.append((s, c))
        return out

    def e_JoinedStr(self, e, st):
        es = []
        for v in e.values:
            es.append(v)
        out = []
        for s, vs in self.ev_many(es, st):
            out.append((s, self.mk_cat(vs, s)))
        return out

    def e_FormattedValue(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            if e.conversion == 114:
                v = mk('call', 'repr', v)
            if e.format_spec is not None:
                v = mk('fmt', v, self.unk('spec'))
            out.append((s, self.mk_str(v, s)))
        return out

    def mk_str(self, v, st):
        if is_const(v):
            return const(str(cval(v))) if isinstance(cval(v), (str, int, float, bool, type(None))) else mk('str', v)
        if self.cls_of(v, st) == 'str':
            return v
        c = self.cls_of(v, st)
        return mk('str', v)

    def mk_cat(self, vs, st):
        parts = []
        for v in vs:
            v = v if v.op != 'cat' else v
            for p in (v.args if v.op == 'cat' else (v,)):
                if is_const(p) and cval(p) == '':
                    continue
                if parts and is_const(p) and is_const(parts[-1]) and isinstance(cval(p), str) and isinstance(cval(parts[-1]), str):
                    parts[-1] = const(cval(parts[-1]) + cval(p))
                else:
                    parts.append(p)
        if not parts:
            return const('')
        if len(parts) == 1 and (is_const(parts[0]) or self.cls_of(parts[0], st) == 'str'):
            return parts[0]
        return mk('cat', *parts)

    def e_BoolOp(self, e, st):
        isand = isinstance(e.op, ast.And)
        out, pend = [], [(st, None)]
        for i, x in enumerate(e.values):
            nxt = []
            for s, _ in pend:
                for s2, v in self.ev(x, s):
                    if i == len(e.values) - 1:
                        out.append((s2, v))
                        continue
                    for s3, b in self.decide(self.mk_truth(v, s2), s2):
                        if b == isand:
                            nxt.append((s3, v))
                        else:
                            if v.op in BOOLOPS:
                                v = const(b)
                            out.append((s3, v))
            pend = nxt
        return self.merge_vals(out)

    def merge_vals(self, rs):
        """merge results with the same value whose states differ in one fact"""
        if len(rs) < 2:
            return rs
        by = {}
        for s, v in rs:
            by.setdefault(v, []).append(s)
        if len(by) == len(rs):
            return rs
        return [(s, v) for v, ss in by.items() for s in self.merge_exact(ss)]

    def e_UnaryOp(self, e, st):
        if isinstance(e.op, ast.Not):
            out = []
            for s, v in self.ev(e.operand, st):
                a = self.mk_truth(v, s)
                k = self.known(a, s)
                out.append((s, const(not k) if k is not None else mk_not(a)))
            return out
        out = []
        for s, v in self.ev(e.operand, st):
            if is_const(v) and isinstance(cval(v), (int, float)):
                x = cval(v)
                out.append((s, const(-x if isinstance(e.op, ast.USub) else +x if isinstance(e.op, ast.UAdd) else ~x)))
            else:
                out.append((s, mk('un', type(e.op).__name__, v)))
        return out

    def e_BinOp(self, e, st):
        out = []
        for s, (a, b) in self.ev_many([e.left, e.right], st):
            out += self.binop(e.op, a, b, s, e)
        return out

    def binop(self, op, a, b, st, node):
        n = type(op).__name__
        if is_const(a) and is_const(b):
            x, y = cval(a), cval(b)
            if isinstance(x, (int, float)) and isinstance(y, (int, float)) or (n in ('Add', 'Mult') and isinstance(x, str)):
                try:
                    r = {'Add': lambda: x + y, 'Sub': lambda: x - y, 'Mult': lambda: x * y, 'FloorDiv': lambda: x // y, 'Mod': lambda: x % y, 'Div': lambda: x / y,
                         'Pow': lambda: x ** y}[n]()
                    if not isinstance(r, str) or len(r) < 1000:
                        return [(st, const(r))]
                except Exception:
                    pass
        ca, cb = self.cls_of(a, st), self.cls_of(b, st)
        if n == 'Add':
            if ca == 'str' or cb == 'str':
                return [(st, self.mk_cat([a, b], st))]
            if a.op == 'tup' and b.op == 'tup':
                return [(st, mk('tup', *(a.args + b.args)))]
            if (a in st.colls or a.op == 'coll' or ca == 'list') and (b in st.colls or b.op == 'coll' or cb == 'list'):
                st = st.copy()
                c = self.mkcoll(st, 'list')
                self.coll_extend(st, c, a)
                self.coll_extend(st, c, b)
                return [(st, c)]
        if n == 'BitOr' and ca == cb == 'dict':
            st = st.copy()
            c = self.mkcoll(st, 'dict')
            self.coll_update(st, c, a)
            self.coll_update(st, c, b)
            return [(st, c)]
        if n == 'BitOr' and (ca in ('dict', 'set') or cb in ('dict', 'set') or a.op in ('dk', 'di') and b.op in ('dk', 'di')):
            st = st.copy()
            c = self.mkcoll(st, 'set' if a.op in ('dk', 'di') or b.op in ('dk', 'di') else ca or cb)
            self.coll_extend(st, c, a)
            self.coll_extend(st, c, b)
            return [(st, c)]
        if n in ('Sub', 'BitAnd') and (ca == 'set' or a.op == 'dk'):
            st = st.copy()
            c = self.mkcoll(st, 'set')
            return self.set_filter(st, c, a, b, n == 'BitAnd')
        if n == 'Mod' and ca == 'str' and is_const(a):
            vals = list(b.args) if b.op == 'tup' else [b]
            parts = cval(a).replace('%%', '%').split('%s')
            if len(parts) == len(vals) + 1 and '%' not in ''.join(parts):
                seq = []
                for p, v in itertools.zip_longest(parts, vals):
                    seq.append(const(p))
                    if v is not None:
                        seq.append(self.mk_str(v, st))
                return [(st, self.mk_cat(seq, st))]
        # operator overloading on package classes
        c = self.prog.classes.get(ca)
        dn = {'Add': '__add__', 'Sub': '__sub__', 'Mult': '__mul__'}.get(n)
        if c is not None and dn:
            m, k = self.prog.lookup(c, dn)
            if isinstance(m, Func):
                return self.call_func(m, [a, b], {}, st, node)
        if n in ('Add', 'Mult') and not (ca is None and cb is None) and ca in ('int', 'float', None) and cb in ('int', 'float', None) and (ca or cb) and a.order > b.order and not is_const(b):
            a, b = b, a
        return [(st, mk('bin', n, a, b))]

    def e_Compare(self, e, st):
        if len(e.ops) == 1:
            out = []
            for s, (a, b) in self.ev_many([e.left, e.comparators[0]], st):
                out += self.compare(e.ops[0], a, b, s, e)
            return out
        out = []
        for s, vs in self.ev_many([e.left] + e.comparators, st):
            pend = [s]
            for i, op in enumerate(e.ops):
                nxt = []
                for q in pend:
                    for q2, v in self.compare(op, vs[i], vs[i + 1], q, e):
                        for q3, b in self.decide(self.mk_truth(v, q2), q2):
                            if b:
                                nxt.append(q3)
                            else:
                                out.append((q3, FALSE))
                pend = nxt
            out += [(q, TRUE) for q in pend]
        return self.merge_vals(out)

    def compare(self, op, a, b, st, node):
        n = type(op).__name__
        for x, y, sw in ((a, b, 0), (b, a, 1)):
            if x.op == 'ite':
                out = []
                for s, t in self.decide(x.args[0], st):
                    z = x.args[1] if t else x.args[2]
                    out += self.compare(op, z if not sw else y, y if not sw else z, s, node)
                return out
        if n in ('Eq', 'NotEq'):
            m = self.user_cmp('__eq__' if n == 'Eq' else '__ne__', a, b, st)
            if m is not None:
                return self.call_func(m, [a, b], {}, st, node)
            r = self.mk_eq(self.fz(a, st), self.fz(b, st), st)
            return [(st, r if n == 'Eq' else mk_not(r))]
        if n in ('Is', 'IsNot'):
            r = self.mk_eq(a, b, st, identity=True)
            return [(st, r if n == 'Is' else mk_not(r))]
        if n in ('In', 'NotIn'):
            r = self.mk_in_any(a, b, st, node)
            out = []
            for s, v in r:
                out.append((s, v if n == 'In' else mk_not(v)))
            return out
        # order
        m = self.user_cmp({'Lt': '__lt__', 'Gt': '__gt__', 'LtE': '__le__', 'GtE': '__ge__'}[n], a, b, st)
        if m is not None:
            return self.call_func(m, [a, b], {}, st, node)
        if n in ('Gt', 'GtE'):
            a, b, n = b, a, {'Gt': 'Lt', 'GtE': 'LtE'}[n]
        return [(st, self.mk_lt(a, b, n == 'LtE', st))]

    inline_cmp = False

    def user_cmp(self, dunder, a, b, st):
        if not self.inline_cmp:
            return None
        c = self.prog.classes.get(self.cls_of(a, st))
        if c is None:
            return None
        m, k = self.prog.lookup(c, dunder)
        if isinstance(m, Func) and not any(f is m for f in self.stack):
            return m
        return None

    def fz(self, t, st):
        return self.freeze(t, st) if t in st.colls or t.op in ('tup',) else t

    def known_len(self, n, st):
        for a, b in st.facts.items():
            if b and a.op == 'eq' and n in a.args:
                c = a.args[0] if a.args[1] is n else a.args[1]
                if is_const(c) and isinstance(cval(c), int):
                    return cval(c)
        return None

    def mk_lt(self, a, b, le, st):
        if is_const(a) and is_const(b):
            try:
                return const(cval(a) <= cval(b) if le else cval(a) < cval(b))
            except TypeError:
                return self.unk('cmp')
        for x, y, left in ((a, b, True), (b, a, False)):
            if is_const(x) and y.op == 'len' and isinstance(cval(x), int):
                k = cval(x)
                n = self.known_len(y, st)
                if n is not None:
                    return const((k <= n if le else k < n) if left else (n <= k if le else n < k))
                ne = self.mk_nonempty(y.args[0], st)
                if left:      # k < len / k <= len
                    if (not le and k == 0) or (le and k == 1):
                        return ne
                    if (not le and k < 0) or (le and k <= 0):
                        return TRUE
                else:         # len < k / len <= k
                    if (not le and k == 1) or (le and k == 0):
                        return mk_not(ne)
                    if (not le and k <= 0) or (le and k < 0):
                        return FALSE
        if le:
            # a <= b  ==  not (b < a) for ints/len; keep canonical only for sizes
            if 'len' in (a.op, b.op) or self.cls_of(a, st) == 'int' or self.cls_of(b, st) == 'int' or a.op in ('idx',) or b.op in ('idx',):
                return mk_not(mk('lt', b, a))
            return mk('le', a, b)
        return mk('lt', a, b)

    def mk_in_any(self, a, b, st, node):
        if b.op == 'ite':
            out = []
            for s, t in self.decide(b.args[0], st):
                out += self.mk_in_any(a, b.args[1] if t else b.args[2], s, node)
            return out
        c = self.cls_of(b, st)
        if c in self.prog.classes:
            m, k = self.prog.lookup(self.prog.classes[c], '__contains__')
            if isinstance(m, Func):
                return self.call_func(m, [b, a], {}, st, node)
        if c == 'str' and is_const(b) and is_const(a):
            return [(st, const(cval(a) in cval(b)))]
        return [(st, self.mk_in(a, b, st))]

    def e_IfExp(self, e, st):
        out = []
        for s, b in self.cond(e.test, st):
            out += self.ev(e.body if b else e.orelse, s)
        return self.merge_vals(out)

    def e_Lambda(self, e, st):
        return [(st, self.closure(e, st))]

    def e_NamedExpr(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            out += [(s2, v) for s2 in self.assign(e.target, v, s)]
        return out

    def e_Starred(self, e, st):
        return self.ev(e.value, st)

    def e_Await(self, e, st):
        return self.ev(e.value, st)

    def e_Yield(self, e, st):
        out = []
        vs = self.ev(e.value, st) if e.value is not None else [(st, NONE)]
        for s, v in vs:
            s = s.copy()
            y = s.env.get('\0yield')
            if y is not None:
                self.coll_add(s, y, v)
            out.append((s, NONE))
        return out

    def e_YieldFrom(self, e, st):
        out = []
        for s, v in self.ev(e.value, st):
            s = s.copy()
            y = s.env.get('\0yield')
            if y is not None:
                self.coll_extend(s, y, v)
            out.append((s, NONE))
        return out

    def e_Subscript(self, e, st):
        out = []
        for s, o in self.ev(e.value, st):
            if isinstance(e.slice, ast.Slice):
                sl = e.slice
                parts = [x for x in (sl.lower, sl.upper, sl.step) if x is not None]
                for s2, vs in self.ev_many(parts, s):
                    it = iter(vs)
                    lo, hi, step = (next(it) if x is not None else None for x in (sl.lower, sl.upper, sl.step))
                    out.append(self.mk_slice(o, lo, hi, step, s2))
                continue
            for s2, k in self.ev(e.slice, s):
                out += self.load_item(o, k, s2, e)
        return out

    # ------------------------------------------------------------------ entry points
    def summarize(self, func, args=None, st=None, kwargs_known=None):
        """exit states of one function. args: name -> term; missing ones take their default or a symbol"""
        st = st.copy() if st is not None else St()
        args = dict(args or {})
        a = func.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            names.append(x.arg)
            if d is not None:
                defaults[x.arg] = d
        pos, kw = [], {}
        for i, nm in enumerate(names):
            if nm in args:
                kw[nm] = args[nm]
            elif i == 0 and func.cls is not None and func.kind not in ('static',):
                c = 'Graph' if self.prog.subclass('Graph', func.cls.name) else func.cls.name
                kw[nm] = mk('cls', c) if func.kind == 'class' else self.sym_self(c)
            elif nm in defaults:
                pass
            else:
                kw[nm] = sym(nm)
        extra = {k: v for k, v in args.items() if k not in names and not k.startswith('*')}
        if a.kwarg is not None:
            if '**' in args:
                pass
            kw.update(extra)
        dstar = [args['**']] if '**' in args else []
        star = args.get('*')
        for v in args.values():
            if isinstance(v, T) and v.op == 'sym' and v.args[1] in ('Node', 'Edge', self.GRAPH):
                self.nonnull_syms.add(v)
                if v.args[1] == 'Node':
                    self.member_of.setdefault(v, fld(v, self.F['graph']))
                if v.args[1] == 'Edge':
                    self.registered.add(v)
        self.raises = []
        res = self.call_func(func, [], kw, st, func.node, dstar=dstar, star=star, entry=True)
        exits = [(s, Exit('ret', v, func.node)) for s, v in res] + self.raises
        self.raises = []
        return Summary(func, exits, self)

    def sym_self(self, c):
        t = sym('self', c)
        self.nonnull_syms.add(t)
        if c == 'Node':
            self.member_of.setdefault(t, fld(t, self.F['graph']))
        if c == 'Edge':
            self.registered.add(t)
        return t
