"""Models of the builtins and library functions the package uses."""
import ast
from terms import *
from state import *
from colls import mk_not, BOOLOPS


class Builtins:
    STRFUN = {'strip', 'lstrip', 'rstrip', 'upper', 'lower', 'replace', 'startswith', 'endswith', 'title', 'capitalize', 'isdigit', 'isspace'}

    def call_ext(self, name, pos, kw, st, node, ds, stars):
        n = name[9:] if name.startswith('builtins.') else name
        m = getattr(self, 'b_' + n.replace('.', '_'), None)
        if m is not None and not stars and not ds:
            return m(pos, kw, st, node)
        if n.startswith('random.'):
            return self.rng(n, pos, kw, st, node)
        last = n.rsplit('.', 1)[-1]
        if n.startswith('object.'):
            if last in ('__init__', '__setattr__', '__init_subclass__'):
                return [(st, NONE)]
        if last in self.EXC or last.endswith('Error') or last.endswith('Exception') or last.endswith('Warning'):
            return [(st, mk('exc', last))]
        if n in ('hash', 'id', 'os.getpid', 'time.time', 'uuid.uuid4', 'uuid.uuid1', 'os.urandom', 'time.monotonic', 'time.perf_counter', 'datetime.datetime.now',
                 'datetime.now', 'os.getenv', 'os.environ.get', 'secrets.token_hex') or n.startswith('secrets.') or n.startswith('uuid.'):
            st = st.copy()
            v = mk('call', n, *[self.freeze(x, st) for x in pos])
            self.effect(st, 'impure', const(n), NONE, v, node)
            return [(st, v)]
        return self.call_unknown(n, pos, kw, st, node, ds, stars)

    def rng(self, n, pos, kw, st, node):
        st = st.copy()
        if n == 'random.Random':
            v = mk('made', 'random.Random', *[self.freeze(x, st) for x in pos], *[mk('kw', k, self.freeze(x, st)) for k, x in kw.items()])
            if not pos and not kw or pos and pos[0] is NONE:
                self.effect(st, 'rng', const(n), NONE, v, node)
            return [(st, v)]
        if n == 'random.seed':
            self.effect(st, 'rngseed', const(n), NONE, pos[0] if pos else kw.get('a', NONE), node)
            return [(st, NONE)]
        if n in ('random.shuffle',) and pos and pos[0] in st.colls:
            self.effect(st, 'rng', const(n), NONE, self.freeze(pos[0], st), node)
            self.recoll(st, pos[0], 'shuffled', mk('glob', 'random', 'global'))
            return [(st, NONE)]
        fr = [f.it for f in st.ctx]
        v = mk('call', n, *[self.freeze(x, st) for x in pos], *[mk('kw', k, self.freeze(x, st)) for k, x in sorted(kw.items())], mk('draw', next(self._uid), *fr))
        self.effect(st, 'rng', const(n), NONE, v, node)
        return [(st, v)]

    # ------------------------------------------------------------ type tests
    def class_names(self, t, st):
        if t.op == 'tup':
            return [x for a in t.args for x in self.class_names(a, st)]
        if t.op == 'ext':
            return [t.args[0]]
        if t.op == 'cls':
            return [t.args[0]]
        if t.op == 'classof':
            return [self.cls_of(t.args[0], st) or '?']
        if t in st.colls:
            return [x for g in st.colls[t].gens for x in self.class_names(g.value, st)]
        return ['?']

    def b_isinstance(self, pos, kw, st, node):
        x, t = pos[0], pos[1]
        if x.op == 'ite':
            out = []
            for s, b in self.decide(x.args[0], st):
                out += self.b_isinstance([x.args[1] if b else x.args[2], t], kw, s, node)
            return out
        parts = []
        for c in self.class_names(t, st):
            if c == '?':
                parts.append(mk('truth', self.unk('isinstance')))
                continue
            a = mk('isinst', x, c)
            k = self.known(a, st)
            if k is True:
                return [(st, TRUE)]
            if k is None:
                parts.append(a)
        return [(st, self.mk_or(parts))]

    def b_issubclass(self, pos, kw, st, node):
        return [(st, mk('truth', mk('call', 'issubclass', *pos)))]

    def b_type(self, pos, kw, st, node):
        return [(st, mk('classof', pos[0]))]

    def b_callable(self, pos, kw, st, node):
        return [(st, mk('call', 'callable', pos[0]))]

    def b_hasattr(self, pos, kw, st, node):
        o, a = pos[0], pos[1]
        if is_const(a):
            at = mk('hasattr', o, cval(a))
            k = self.known(at, st)
            if k is None and o.op == 'cls' and o.args[0] in self.prog.classes:
                c = self.prog.classes[o.args[0]]
                if self.prog.lookup(c, cval(a))[0] is not None or hasattr(object, str(cval(a))):
                    k = True
                elif all(isinstance(b, ast.Name) and self.prog.resolve(x.module, b.id) is not None or isinstance(b, ast.Name) and b.id == 'object' for x in self.prog.mro(c) for b in x.base_names):
                    k = False
            return [(st, const(k) if k is not None else at)]
        return [(st, mk('hasattr', o, self.freeze(a, st)))]

    def b_getattr(self, pos, kw, st, node):
        o, a = pos[0], pos[1]
        if o.op == 'ite' or not is_const(a):
            if not is_const(a):
                return [(st, mk('getattr', o, self.freeze(a, st)))]
        if len(pos) == 2:
            return self.load_attr(o, cval(a), st, node)
        c = self.cls_of(o, st)
        at = mk('hasattr', o, cval(a))
        out = []
        for s, b in self.decide(at, st):
            if b:
                out += self.load_attr(o, cval(a), s, node)
            else:
                out.append((s, pos[2]))
        return out

    def b_setattr(self, pos, kw, st, node):
        o, a, v = pos
        if is_const(a) and isinstance(cval(a), str):
            return [(s, NONE) for s in self.store_attr(o, cval(a), v, st, node)]
        st = st.copy()
        self.effect(st, 'setdyn', o, a, v, node)
        return [(st, NONE)]

    def b_delattr(self, pos, kw, st, node):
        st = st.copy()
        self.effect(st, 'delattr', pos[0], pos[1], NONE, node)
        return [(st, NONE)]

    def b_vars(self, pos, kw, st, node):
        return [(st, mk('vars', *pos))]

    # ------------------------------------------------------------ conversions
    def b_str(self, pos, kw, st, node):
        if not pos:
            return [(st, const(''))]
        return [(st, self.mk_str(self.freeze(pos[0], st), st))]

    def b_repr(self, pos, kw, st, node):
        return [(st, mk('call', 'repr', self.freeze(pos[0], st)))]

    def b_bool(self, pos, kw, st, node):
        if not pos:
            return [(st, FALSE)]
        a = self.mk_truth(pos[0], st)
        k = self.known(a, st)
        return [(st, const(k) if k is not None else a)]

    def b_int(self, pos, kw, st, node):
        if pos and is_const(pos[0]) and len(pos) == 1:
            try:
                return [(st, const(int(cval(pos[0]))))]
            except (TypeError, ValueError):
                self.do_raise(st, 'ValueError', node, implicit=True)
                return []
        if pos and self.cls_of(pos[0], st) == 'int' and len(pos) == 1:
            return [(st, pos[0])]
        return [(st, mk('call', 'int', *pos) if pos else const(0))]

    def b_float(self, pos, kw, st, node):
        if pos and is_const(pos[0]):
            try:
                return [(st, const(float(cval(pos[0]))))]
            except (TypeError, ValueError):
                pass
        return [(st, mk('call', 'float', *pos))]

    def b_abs(self, pos, kw, st, node):
        return [(st, mk('call', 'abs', *pos))]

    def b_len(self, pos, kw, st, node):
        x = pos[0]
        if x is NONE:
            self.do_raise(st, 'TypeError', node, implicit=True)
            return []
        c = self.cls_of(x, st)
        if c in self.prog.classes:
            m, k = self.prog.lookup(self.prog.classes[c], '__len__')
            if m is not None:
                return self.call_func(m, [x], {}, st, node)
        return [(st, self.mk_len(x, st))]

    def b_print(self, pos, kw, st, node):
        st = st.copy()
        self.effect(st, 'print', NONE, NONE, NONE, node)
        return [(st, NONE)]

    def b_warnings_warn(self, pos, kw, st, node):
        st = st.copy()
        self.effect(st, 'warn', NONE, NONE, self.freeze(pos[0], st) if pos else NONE, node)
        return [(st, NONE)]

    # ------------------------------------------------------------ collections
    def build(self, kind, pos, st, node):
        if not pos:
            st = st.copy()
            return [(st, self.mkcoll(st, kind))]
        x = pos[0]
        if x.op == 'ite':
            out = []
            for s, b in self.decide(x.args[0], st):
                out += self.build(kind, [x.args[1] if b else x.args[2]], s, node)
            return out
        if x is NONE:
            self.do_raise(st, 'TypeError', node, implicit=True)
            return []
        st = st.copy()
        c = self.mkcoll(st, kind)
        self.coll_extend(st, c, x)
        return [(st, c)]

    def b_list(self, pos, kw, st, node):
        return self.build('list', pos, st, node)

    def b_tuple(self, pos, kw, st, node):
        if pos and pos[0].op == 'tup':
            return [(st, pos[0])]
        return self.build('list', pos, st, node)

    def b_set(self, pos, kw, st, node):
        return self.build('set', pos, st, node)

    b_frozenset = b_set

    def b_dict(self, pos, kw, st, node):
        st = st.copy()
        c = self.mkcoll(st, 'dict')
        if pos:
            self.coll_update(st, c, pos[0])
        for k, v in kw.items():
            self.coll_add(st, c, v, const(k), 'kv')
        return [(st, c)]

    def b_dict_fromkeys(self, pos, kw, st, node):
        v = pos[1] if len(pos) > 1 else NONE
        ps = self.iter_pieces(pos[0], st)
        if ps is None or not (v is NONE or is_const(v)):
            return self.call_unknown('dict.fromkeys', pos, kw, st, node)
        st = st.copy()
        c = self.mkcoll(st, 'dict')
        for fr, gu, val, fl in ps:
            self.splice(st, c, 'kv', v, val, fr, gu, fl)
        return [(st, c)]

    def b_collections_OrderedDict(self, pos, kw, st, node):
        return self.b_dict(pos, kw, st, node)

    def b_collections_defaultdict(self, pos, kw, st, node):
        return self.b_dict(pos[1:], kw, st, node)

    def b_collections_deque(self, pos, kw, st, node):
        return self.build('list', pos[:1], st, node)

    def b_itertools_chain(self, pos, kw, st, node):
        st = st.copy()
        c = self.mkcoll(st, 'list')
        for x in pos:
            self.coll_extend(st, c, x)
        return [(st, c)]

    def b_sorted(self, pos, kw, st, node):
        if set(kw) <= {'reverse'} and is_const(kw.get('reverse', FALSE)) and (pos[0] in st.colls or pos[0].op in ('coll', 'tup')):
            ps, kind = self.pieces(pos[0], st)
            xs = [p[3] if kind == 'dict' else p[2] for p in ps]
            if xs and all(not p[0] and not p[1] and p[4] in ('elem', 'kv') for p in ps) and all(is_const(x) for x in xs):
                try:
                    vs = sorted((cval(x) for x in xs), reverse=bool(cval(kw.get('reverse', FALSE))))
                except TypeError:
                    vs = None
                if vs is not None:
                    st = st.copy()
                    return [(st, self.mkcoll(st, 'list', [const(v) for v in vs]))]
        return [(st, mk('sorted', self.freeze(pos[0], st), kw.get('key', NONE), kw.get('reverse', FALSE)))]

    def b_reversed(self, pos, kw, st, node):
        return [(st, mk('reversed', self.freeze(pos[0], st)))]

    def b_enumerate(self, pos, kw, st, node):
        s0 = pos[1] if len(pos) > 1 else kw.get('start', const(0))
        return [(st, mk('enumerate', pos[0], s0))]

    def b_zip(self, pos, kw, st, node):
        return [(st, mk('zip', *pos))]

    def b_range(self, pos, kw, st, node):
        lo, hi, step = const(0), None, const(1)
        if len(pos) == 1:
            hi = pos[0]
        elif len(pos) == 2:
            lo, hi = pos
        else:
            lo, hi, step = pos
        return [(st, mk('range', lo, hi, step))]

    def b_itertools_count(self, pos, kw, st, node):
        return [(st, mk('count', pos[0] if pos else kw.get('start', const(0))))]

    def b_iter(self, pos, kw, st, node):
        return [(st, pos[0])]

    def b_next(self, pos, kw, st, node):
        x = pos[0]
        f = self.freeze(x, st)
        out = []
        # an iterator that is kept does not start over
        kept = isinstance(node, ast.Call) and node.args and isinstance(node.args[0], (ast.Name, ast.Attribute))
        for s, b in self.decide(self.mk_nonempty(f, st), st):
            if b:
                out.append((s, mk('first', f) if not kept else self.unk('next')))
            elif len(pos) > 1:
                out.append((s, pos[1]))
            else:
                self.do_raise(s, 'StopIteration', node, implicit=True)
        return out

    def anyall(self, x, st, isany):
        ps = None
        if x.op != 'ite':
            ps = self.iter_pieces(x, st)
        if ps is None:
            return mk('truth', mk('call', 'any' if isany else 'all', self.freeze(x, st)))
        parts = []
        for fr, gu, v, fl in ps:
            if contains_op(v, 'ite'):
                return mk('truth', mk('call', 'any' if isany else 'all', self.freeze(x, st)))
            a = self.mk_truth(v, st)
            parts.append(self.mk_ex(fr, list(self.unwitnessed(frozenset(gu))) + [(a, isany)], st))
        r = self.mk_or(parts)
        return r if isany else mk_not(r)

    def b_any(self, pos, kw, st, node):
        return [(st, self.anyall(pos[0], st, True))]

    def b_all(self, pos, kw, st, node):
        return [(st, self.anyall(pos[0], st, False))]

    def b_sum(self, pos, kw, st, node):
        f = self.freeze(pos[0], st)
        if f.op == 'coll' and f.args[1:] and all(g.args[0] is const(1) or g.args[0] is TRUE for g in f.args[1:]) and f.args[0] == 'list' and len(pos) == 1:
            return [(st, mk('len', f))]
        return [(st, mk('call', 'sum', f, *pos[1:]))]

    def minmax(self, nm, pos, kw, st, node):
        out = [(st, None)]
        if len(pos) == 1 and 'default' not in kw:
            out = []
            f = self.freeze(pos[0], st)
            for s, b in self.decide(self.mk_nonempty(f, st), st):
                if b:
                    out.append((s, None))
                else:
                    self.do_raise(s, 'ValueError', node, implicit=True)
        args = [self.freeze(x, st) for x in pos] + [mk('kw', k, self.freeze(v, st)) for k, v in sorted(kw.items())]
        return [(s, mk('call', nm, *args)) for s, _ in out]

    def b_min(self, pos, kw, st, node):
        return self.minmax('min', pos, kw, st, node)

    def b_max(self, pos, kw, st, node):
        return self.minmax('max', pos, kw, st, node)

    def mapfilter(self, pos, st, node, ismap):
        f, xs = pos[0], pos[1]
        st = st.copy()
        c = self.mkcoll(st, 'list')
        cur = [st]
        for fr, gu, v, fl in self.iter_pieces(xs, st) or []:
            def body(q, v=v):
                res = []
                if f is NONE:
                    rs = [(q, v)]
                else:
                    saved, self.raises = self.raises, []
                    rs = self.call_value(f, [v], {}, q, node)
                    raised, self.raises = self.raises, saved
                    res += raised
                for q2, r in rs:
                    if ismap:
                        q2 = q2.copy()
                        self.coll_add(q2, c, r)
                        res.append((q2, None))
                    else:
                        for q3, b in self.decide(self.mk_truth(r, q2), q2):
                            q3 = q3.copy()
                            if b:
                                self.coll_add(q3, c, v)
                            res.append((q3, None))
                return res
            nxt = []
            for s in cur:
                for s2, o in self.run_piece(s, fr, gu, fl, body, node):
                    if o is None:
                        nxt.append(s2)
                    else:
                        self.raises.append((s2, o))
            cur = self.merge_exact(nxt)
        return [(s, c) for s in cur]

    def b_map(self, pos, kw, st, node):
        if len(pos) == 2:
            return self.mapfilter(pos, st, node, True)
        return self.call_unknown('map', pos, kw, st, node)

    def b_filter(self, pos, kw, st, node):
        return self.mapfilter(pos, st, node, False)

    def b_copy_deepcopy(self, pos, kw, st, node):
        return [(st, mk('deepcopy', self.freeze(pos[0], st)))]

    def b_copy_copy(self, pos, kw, st, node):
        x = pos[0]
        c = self.cls_of(x, st)
        if c in self.prog.classes and (c, '__new__') not in self.stops and c.endswith('Style'):
            st = st.copy()
            obj = mk('new', 'obj', c, next(self._uid))
            self.effect(st, 'make', obj, const(c), NONE, node)
            k = self.prog.classes[c]
            if self.prog.lookup(k, '__copy__')[0] is None and self.prog.lookup(k, '__reduce__')[0] is None:
                out = []
                for s, d in self.call_value(self.load_attr(x, '__getstate__', st, node)[0][1], [], {}, st, node) \
                        if self.prog.lookup(k, '__getstate__')[0] is not None else [(st, mk('vars', x))]:
                    if self.prog.lookup(k, '__setstate__')[0] is not None:
                        out += [(s2, obj) for s2, _ in self.call_value(mk('bm', obj, self.prog.lookup(k, '__setstate__')[1].name, '__setstate__'), [d], {}, s, node)]
                    else:
                        out += [(s2, obj) for s2, _ in self.vars_method(mk('vars', obj), 'update', [d], {}, s, node, ())]
                return out
        if c in ('list', 'dict', 'set'):
            return self.build(c, [x], st, node) if c != 'dict' else self.b_dict([x], {}, st, node)
        return [(st, mk('typed', mk('copyof', self.freeze(x, st)), c))]

    def b_functools_partial(self, pos, kw, st, node):
        return [(st, mk('partial', pos[0], mk('tup', *pos[1:]), mk('tup', *[mk('kw', k, v) for k, v in kw.items()])))]


def contains_op(t, op):
    return any(x.op == op for x in subterms(t))
