"""Calls: the package's own functions are interpreted in place, the builtins they use are modelled,
everything else is an uninterpreted call."""
import ast
from terms import *
from state import *
from prog import Func, Prop, Cls
from colls import mk_not, mk_ite, BOOLOPS
from builtin_models import Builtins
from methods import Methods
from callmethods import CallMethods


class Models(Builtins, Methods, CallMethods):
    # ------------------------------------------------------------------ call expressions
    def e_Call(self, e, st):
        out = []
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in st.env:
            return [(st, self.super_term(e, st))]
        for s, f in self.ev(e.func, st):
            out += self.call_args(f, e, s)
        return out

    def super_term(self, e, st):
        f = self.stack[-1]
        c = f.cls
        fn = f
        for g in reversed(self.stack):
            if g.cls is not None:
                c, fn = g.cls, g
                break
        a = fn.node.args.args
        selfv = st.env.get(a[0].arg) if a else None
        if selfv is None or c is None:
            return self.unk('super')
        if len(e.args) == 2 and isinstance(e.args[0], ast.Name) and e.args[0].id in self.prog.classes:
            c = self.prog.classes[e.args[0].id]
        return mk('super', selfv, c.name)

    def call_args(self, f, e, st):
        cur = [(st, [], {}, [], [])]
        for a in e.args:
            nxt = []
            for s, pos, kw, ds, stars in cur:
                v = a.value if isinstance(a, ast.Starred) else a
                for s2, x in self.ev(v, s):
                    if isinstance(a, ast.Starred):
                        ps = self.iter_pieces(x, s2) if x.op != 'ite' else None
                        if ps is not None and all(not p[0] and not p[1] for p in ps):
                            nxt.append((s2, pos + [p[2] for p in ps], kw, ds, stars))
                        else:
                            nxt.append((s2, pos, kw, ds, stars + [x]))
                    else:
                        nxt.append((s2, pos + [x], kw, ds, stars))
            cur = nxt
        for k in e.keywords:
            nxt = []
            for s, pos, kw, ds, stars in cur:
                for s2, x in self.ev(k.value, s):
                    if k.arg is None:
                        nxt += [(s3, pos, k3, d3, stars) for s3, k3, d3 in self.spread(x, s2, dict(kw), ds)]
                    else:
                        kw2 = dict(kw)
                        kw2[k.arg] = x
                        nxt.append((s2, pos, kw2, ds, stars))
            cur = nxt
        out = []
        for s, pos, kw, ds, stars in cur:
            out += self.call_value(f, pos, kw, s, e, ds, stars)
        return out

    def spread(self, x, st, kw, ds):
        """**x in a call: list of (state, keywords, unknown mappings)"""
        if x.op == 'ite':
            out = []
            for s, b in self.decide(x.args[0], st):
                out += self.spread(x.args[1] if b else x.args[2], s, dict(kw), ds)
            return out
        if x.op == 'new' and x in st.colls or x.op == 'coll':
            ps, kind = self.pieces(x, st)
            cur = [(st, kw, list(ds))]
            for fr, gu, v, k, knd, fl in ps:
                nxt = []
                for s, kw1, ds1 in cur:
                    if knd == 'kv' and not fr and is_const(k):
                        ok = [(s, True)]
                        for a, b in gu:
                            nn = []
                            for s1, t in ok:
                                if not t:
                                    nn.append((s1, t))
                                else:
                                    nn += [(s2, r == b) for s2, r in self.decide(self.renorm(a, s1), s1)]
                            ok = nn
                        for s1, t in ok:
                            kw2 = dict(kw1)
                            if t:
                                kw2[cval(k)] = v
                            nxt.append((s1, kw2, ds1))
                    elif knd == 'kv' and len(fr) == 1 and k.op == 'ek' and v.op == 'el' and v.args[0] is k.args[0]:
                        nxt.append((s, kw1, ds1 + [v.args[0]]))
                    else:
                        nxt.append((s, kw1, ds1 + [self.freeze(x, s)]))
                cur = nxt
            return cur
        return [(st, kw, ds + [x])]

    def call_value(self, f, pos, kw, st, node, ds=(), stars=()):
        o = f.op
        if o == 'ite':
            out = []
            for s, b in self.decide(f.args[0], st):
                out += self.call_value(f.args[1] if b else f.args[2], pos, kw, s, node, ds, stars)
            return out
        if o == 'maybe':
            return self.call_value(f.args[1], pos, kw, st, node, ds, stars)
        if o == 'func':
            return self.call_func(self.clos[f], pos, kw, st, node, ds, stars)
        if o == 'clo':
            return self.call_closure(f, pos, kw, st, node, ds, stars)
        if o == 'bm':
            return self.call_bound(f, pos, kw, st, node, ds, stars)
        if o in ('cls', 'classof'):
            cn = f.args[0] if o == 'cls' else self.cls_of(f.args[0], st)
            if cn in self.prog.classes:
                return self.construct(cn, pos, kw, st, node, ds, stars)
            return [(st, self.unk('class'))]
        if o == 'ext':
            return self.call_ext(f.args[0], pos, kw, st, node, ds, stars)
        if o == 'partial':
            return self.call_value(f.args[0], list(f.args[1].args) + pos, {**{k.args[0]: k.args[1] for k in f.args[2].args}, **kw}, st, node, ds, stars)
        if o == 'fld' and f.args[1] == '__new__' and f.args[0].op in ('cls', 'classof') and len(pos) == 1 or o == 'ext' and f.args[0] in ('object.__new__', 'builtins.object.__new__') and len(pos) == 1:
            cn = pos[0].args[0] if pos[0].op == 'cls' else self.cls_of(pos[0].args[0], st) if pos[0].op == 'classof' else None
            if cn in self.prog.classes and (cn, '__new__') not in self.stops:
                st = st.copy()
                obj = mk('new', 'obj', cn, next(self._uid))
                self.effect(st, 'make', obj, const(cn), NONE, node)
                return [(st, obj)]
        if o == 'fld' and f.args[0].op == 'vars':
            return self.vars_method(f.args[0], f.args[1], pos, kw, st, node, ds)
        if o == 'fld' and self.cls_of(f.args[0], st) not in self.prog.classes:
            return self.call_unknown('.' + f.args[1], [f.args[0]] + pos, kw, st, node, ds, stars)
        c = self.cls_of(f, st)
        if c in self.prog.classes:
            m, k = self.prog.lookup(self.prog.classes[c], '__call__')
            if isinstance(m, Func):
                return self.call_func(m, [f] + pos, kw, st, node, ds, stars)
        if is_const(f):
            self.do_raise(st, 'TypeError', node, implicit=True)
            self.bad(st, 'call', f'{show(f)} is not callable', node)
            return []
        return self.call_unknown('()', [f] + pos, kw, st, node, ds, stars)

    def call_unknown(self, name, pos, kw, st, node, ds=(), stars=()):
        st = st.copy()
        args = [self.freeze(a, st) for a in pos] + [mk('star', self.freeze(a, st)) for a in stars]
        args += [mk('kw', k, self.freeze(v, st)) for k, v in sorted(kw.items())] + [mk('dstar', self.freeze(d, st)) for d in ds]
        last = name.rsplit('.', 1)[-1]
        if name[:1] not in '.(' and last[:1].isupper():
            v = mk('made', name, *args)
        else:
            v = mk('call', name, *args)
        if not (name.startswith(self.PURE) or name in self.PURE_NAMES):
            self.effect(st, 'xcall', const(name), NONE, v, node)
        return [(st, v)]

    # outside functions known to have no effect on the objects of this package
    PURE = ('re.', 'math.', 'itertools.', 'operator.', 'string.')
    PURE_NAMES = frozenset(('.items', '.keys', '.values', '.get', '.upper', '.lower', '.startswith', '.endswith', '.strip', '.lstrip', '.rstrip', '.split', '.splitlines', '.replace',
                            '.join', '.format', '.count', '.index', '.find', '.title', '.encode', '.copy', '.isdigit', '.expandtabs', '.partition', '.union', '.difference', '.intersection', '.issubset',
                            'html.escape', 'callable', 'abs', 'int', 'float', 'round', 'repr', 'type', 'divmod', 'ord', 'chr', 'bool', 'str', '.get_hexadecimal', '.get_hsl', '.get_rgb'))

    def call_bound(self, f, pos, kw, st, node, ds, stars):
        o, k, name = f.args
        if k in self.prog.classes:
            m = self.prog.classes[k].members.get(name)
            if isinstance(m, Func):
                if m.kind == 'static':
                    return self.call_func(m, pos, kw, st, node, ds, stars)
                return self.call_func(m, [o] + pos, kw, st, node, ds, stars)
        return self.method(o, name, pos, kw, st, node, ds, stars)

    def construct(self, cn, pos, kw, st, node, ds=(), stars=()):
        h = self.stops.get((cn, '__new__'))
        c = self.prog.classes[cn]
        if h:
            m, k = self.prog.lookup(c, '__init__')
            if not isinstance(m, Func):
                return h(self, st, None, dict(kw, **{str(i): p for i, p in enumerate(pos)}), node)
            st = st.copy()
            env = self.bind(m, [NONE] + list(pos), kw, st, node, list(ds), list(stars or ()))
            if env is None:
                return []
            env.pop(m.node.args.args[0].arg, None)
            if ds:
                env['**'] = mk('tup', *[self.freeze(d, st) for d in ds])
            return h(self, st, None, env, node)
        obj = mk('new', 'obj', cn, next(self._uid))
        m, k = self.prog.lookup(c, '__init__')
        st = st.copy()
        self.effect(st, 'make', obj, const(cn), NONE, node)
        if not isinstance(m, Func):
            return [(st, obj)]
        return [(s, obj) for s, v in self.call_func(m, [obj] + pos, kw, st, node, ds, stars)]

    # ------------------------------------------------------------------ closures
    clofuncs = {}

    def call_closure(self, f, pos, kw, st, node, ds, stars):
        n, env, owner = self.clos[f]
        F = self.clofuncs.get(n)
        if F is None:
            F = Func.__new__(Func)
            F.name, F.node, F.module, F.cls, F.kind = getattr(n, 'name', '<lambda>'), n, owner.module, None, 'closure'
            F.qual, F.path = owner.qual + '.' + F.name, owner.path
            from prog import walk_own
            F.isgen = any(isinstance(x, (ast.Yield, ast.YieldFrom)) for x in walk_own(n))
            self.clofuncs[n] = F
        base = dict(env)
        if self.stack and (self.stack[-1] is owner):
            base.update(st.env)
        return self.call_func(F, pos, kw, st, node, ds, stars, outer=base)

    # ------------------------------------------------------------------ binding and running a function
    def default_of(self, F, name, expr, st):
        if isinstance(expr, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or (
                isinstance(expr, ast.Call) and isinstance(expr.func, ast.Name) and expr.func.id in ('list', 'dict', 'set')):
            k = 'list' if isinstance(expr, (ast.List, ast.ListComp)) else 'dict' if isinstance(expr, (ast.Dict, ast.DictComp)) else 'set' if isinstance(expr, ast.Set) else expr.func.id
            return mk('dflt', F.qual, name, k)
        f = Func.__new__(Func)
        f.name, f.node, f.module, f.cls, f.kind, f.qual, f.isgen, f.path = F.name, expr, F.module, F.cls, 'const', F.qual, False, F.path
        env, eff = st.env, st.eff
        s = st.copy()
        s.env = {}
        self.stack.append(f)
        saved, self.raises = self.raises, []
        try:
            rs = self.ev(expr, s)
        finally:
            self.stack.pop()
            self.raises = saved
        if rs and rs[0][1] not in rs[0][0].colls:
            return rs[0][1]
        return self.unk('default')

    def bind(self, F, pos, kw, st, node, ds, stars, entry=False):
        """environment of the callee, or None after reporting a signature mismatch"""
        a = F.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        kwonly = [x.arg for x in a.kwonlyargs]
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        env = {}
        kw = dict(kw)
        given = list(pos)
        for n, v in zip(names, given):
            env[n] = v
        extra = given[len(names):]
        msg = None
        if extra and a.vararg is None:
            msg = f'{F.qual} takes {len(names)} positional arguments but {len(given)} were given'
        for k in list(kw):
            if k in names[len(a.posonlyargs):] or k in kwonly:
                if k in env:
                    msg = f'{F.qual} got multiple values for argument {k}'
                env[k] = kw.pop(k)
        if kw and a.kwarg is None:
            msg = f'{F.qual} has no parameter {sorted(kw)[0]}'
        for n in names + kwonly:
            if n not in env:
                if stars and n in names and n not in defaults:
                    env[n] = self.unk('star', *[self.freeze(x, st) for x in stars])
                elif n in defaults:
                    d = self.default_of(F, n, defaults[n], st)
                    for b in ds:
                        d = mk('kwopt', self.freeze(b, st), n, d)
                    env[n] = d
                elif ds:
                    env[n] = mk('item', self.freeze(ds[-1], st), const(n))
                else:
                    msg = msg or f'{F.qual} is called without argument {n}'
        if a.vararg is not None:
            c = self.mkcoll(st, 'list', extra)
            for x in stars:
                self.coll_extend(st, c, x)
            env[a.vararg.arg] = c
        if a.kwarg is not None:
            c = self.mkcoll(st, 'dict')
            for k, v in kw.items():
                self.coll_add(st, c, v, const(k), 'kv')
            for b in ds:
                b = self.freeze(b, st)
                it = self.fresh_it()
                C = st.colls[c]
                g = Gen('kv', mk('el', b, it), mk('ek', b, it), st.cur_frames(C.depth) + ((it, mk('dv', b)),), frozenset(), NOFLAGS, next(self._uid))
                st.colls[c] = C._replace(gens=C.gens + (g,))
            env[a.kwarg.arg] = c
        if msg:
            self.bad(st, 'signature', msg, node)
            self.do_raise(st, 'TypeError', node, implicit=True)
            return None
        return env

    def call_func(self, F, args, kwargs, st, node, dstar=(), star=None, entry=False, outer=None):
        st = st.copy()
        stars = star if isinstance(star, (list, tuple)) else ([star] if star is not None else [])
        env = self.bind(F, list(args), kwargs, st, node, list(dstar or ()), list(stars), entry)
        if env is None:
            return []
        if not entry:
            h = None
            if F.cls is not None:
                h = self.stops.get((F.cls.name, F.name)) or (self.stops.get(('*', F.name)))
                if h is None:
                    g = self.stops.get((F.cls.name, '*'))
                    if g is not None:
                        return g(self, st, args[0] if args else NONE, dict(env), node, F)
            else:
                h = self.stops.get((F.module.short, F.name)) or self.stops.get(('', F.name))
            if h is not None:
                ex = dict(env)
                if dstar:
                    ex['**'] = mk('tup', *[self.freeze(d, st) for d in dstar])
                return h(self, st, args[0] if args else NONE, ex, node)
        self.funcs_seen.add(F)
        if any(g is F for g in self.stack):
            return self.recursive(F, env, st, node)
        if len(self.stack) > self.MAXDEPTH:
            self.note('depth limit', node)
            return [(st, self.unk('depth'))]
        caller_env = st.env
        s = st
        if outer is not None:
            e2 = dict(outer)
            e2.update(env)
            env = e2
            env.pop('\0yield', None)
        s.env = env
        y = None
        if F.isgen:
            y = self.mkcoll(s, 'list')
            s.env['\0yield'] = y
        saved, self.raises = self.raises, []
        saved_catch = self.catch
        cn = self.cur_node
        self.stack.append(F)
        self.frame_starts.append(next(self._uid))
        try:
            if isinstance(F.node, ast.Lambda):
                outs = [(q, ('ret', v)) for q, v in self.ev(F.node.body, s)]
                outs = [(q, v[1], None) for q, v in outs]
                raised = self.raises
            else:
                outs, raised = [], []
                for q, o in self.block(F.node.body, s):
                    if o is None:
                        outs.append((q, NONE, None))
                    elif o.kind == 'ret':
                        outs.append((q, o.val, o))
                    elif o.kind == 'raise':
                        raised.append((q, o))
                raised += self.raises
        finally:
            self.stack.pop()
            self.frame_starts.pop()
            self.raises = saved
            self.cur_node = cn
        for q, o in raised:
            q = q.copy()
            q.env = caller_env
            self.raises.append((q, o))
        res = []
        for q, v, o in outs:
            q = q.copy()
            q.env = caller_env
            if y is not None:
                v = y
            if self.cached(F):
                self.effect(q, 'cache', mk('func', F.qual, id(F)), NONE, v, node)
            res.append((q, v))
        return self.merge_results(res, entry)

    def cached(self, F):
        if F.kind == 'cachedmethod':
            return True
        for d in getattr(F.node, 'decorator_list', ()):
            n = d.func if isinstance(d, ast.Call) else d
            nm = getattr(n, 'id', getattr(n, 'attr', ''))
            if nm in ('lru_cache', 'cache', 'cached', 'memoize', 'cached_property'):
                return True
        return False

    def merge_results(self, res, entry):
        res = self.merge_vals(res)
        if not entry and len(res) > 1:
            res = self.merge_strings(res)
        if entry or len(res) <= self.JOIN:
            return res
        self.note('joined results')
        ss = []
        for q, v in res:
            q = q.copy()
            q.env = dict(q.env)
            q.env['\0ret'] = v
            ss.append(q)
        j = self.join(ss)
        j.env = dict(j.env)
        v = j.env.pop('\0ret')
        return [(j, v)]

    def merge_strings(self, res):
        """alternative strings computed without any effect become one conditional value"""
        by = {}
        for q, v in res:
            by.setdefault((q.key_nofacts(), self.cls_of(v, q) == 'str'), []).append((q, v))
        if len(by) == len(res):
            return res
        out = []
        for (k, isstr), rs in by.items():
            if not isstr or len(rs) < 2:
                out += rs
                continue
            common = {a: b for a, b in rs[0][0].facts.items() if all(q.facts.get(a) == b for q, _ in rs)}
            val = None
            for q, v in reversed(rs):
                if val is None:
                    val = v
                else:
                    own = [(a, b) for a, b in q.facts.items() if a not in common]
                    c = (own[0][0] if own[0][1] else mk_not(own[0][0])) if len(own) == 1 else mk('and', *sorted((lit(a, b) for a, b in own), key=gkey)) if own else TRUE
                    val = v if c is TRUE or v is val else mk_ite(c, v, val)
            m = rs[0][0].copy()
            m.facts = common
            out.append((m, val))
        return out

    def recursive(self, F, env, st, node):
        st = st.copy()
        names = [x.arg for x in F.node.args.posonlyargs + F.node.args.args + F.node.args.kwonlyargs]
        raw = mk('tup', *[mk('kw', n, env[n]) for n in names if n in env])
        v = mk('rec', F.qual, self.freeze(raw, st))
        self.effect(st, 'rec', mk('func', F.qual, id(F)), NONE, raw, node)
        for n in names:
            x = env.get(n)
            if x is not None and x in st.colls and x.op == 'new' and self.param_mutated(F, n):
                self.coll_add(st, x, v, NONE, 'fuzz')
        return [(st, v)]

    def param_mutated(self, F, name):
        for n in ast.walk(F.node):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Name) and n.func.value.id == name:
                if n.func.attr in ('append', 'add', 'extend', 'update', 'insert', 'remove', 'pop', 'discard', 'clear', 'setdefault'):
                    return True
            if isinstance(n, (ast.Subscript,)) and isinstance(n.ctx, (ast.Store, ast.Del)) and isinstance(n.value, ast.Name) and n.value.id == name:
                return True
            if isinstance(n, ast.AugAssign) and isinstance(n.target, ast.Name) and n.target.id == name:
                return True
        return False
