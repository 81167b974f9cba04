"""Method calls on containers, strings and unknown objects."""
import ast
from terms import *
from state import *
from colls import mk_not

LISTM = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'index', 'count', 'copy', 'popleft', 'appendleft', 'extendleft'}
DICTM = {'get', 'pop', 'popitem', 'setdefault', 'update', 'keys', 'values', 'items', 'clear', 'copy'}
SETM = {'add', 'discard', 'remove', 'pop', 'clear', 'update', 'union', 'intersection', 'difference', 'issubset', 'issuperset', 'copy',
        'symmetric_difference', 'difference_update', 'intersection_update', 'isdisjoint'}
MUTATORS = {'append', 'extend', 'insert', 'remove', 'pop', 'clear', 'sort', 'reverse', 'popleft', 'appendleft', 'add', 'discard', 'update',
            'setdefault', 'popitem', 'difference_update', 'intersection_update', 'extendleft'}


class CallMethods:
    def method(self, o, name, pos, kw, st, node, ds, stars):
        if o.op == 'ite':
            out = []
            for s, b in self.decide(o.args[0], st):
                out += self.method(o.args[1] if b else o.args[2], name, pos, kw, s, node, ds, stars)
            return out
        if o.op == 'vars':
            return self.vars_method(o, name, pos, kw, st, node, ds)
        c = self.cls_of(o, st)
        if o in st.colls:
            c = st.colls[o].kind
        if c == 'view':
            if name in ('isdisjoint',) or name in SETM:
                c = 'set'
        if c in ('list', 'tuple') and name in LISTM:
            return self.list_method(o, name, pos, kw, st, node)
        if c == 'dict' and name in DICTM:
            return self.dict_method(o, name, pos, kw, st, node, ds)
        if c == 'set' and name in SETM:
            return self.set_method(o, name, pos, kw, st, node)
        if c == 'str':
            return self.str_method(o, name, pos, kw, st, node, ds, stars)
        if o.op == 'made' and o.args[0] == 'random.Random':
            return self.rngobj(o, name, pos, kw, st, node)
        if c is None and name in ('keys', 'values', 'items') and not pos:
            return [(st, mk({'keys': 'dk', 'values': 'dv', 'items': 'di'}[name], o))]
        if c is None and name in MUTATORS and o.op not in ('ext',):
            st = st.copy()
            self.effect(st, 'mutate', o, const(name), mk('tup', *[self.freeze(p, st) for p in pos]), node)
            return [(st, mk('call', '.' + name, self.freeze(o, st), *[self.freeze(p, st) for p in pos]))]
        return self.call_unknown('.' + name, [o] + pos, kw, st, node, ds, stars)

    def own_fields(self, c):
        """attributes that the constructors of a class set on self"""
        out = {}
        for k in reversed(self.prog.mro(self.prog.classes[c])):
            m = k.members.get('__init__')
            if m is None or not hasattr(m, 'node'):
                continue
            me = m.node.args.args[0].arg
            for n in ast.walk(m.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and n.value.id == me:
                    p, _ = self.prog.lookup(self.prog.classes[c], n.attr)
                    if p is None or not hasattr(p, 'get'):
                        out[n.attr] = True
        return list(out)

    def vars_coll(self, v, st):
        """a dictionary of the attributes of an object of a known class (into st)"""
        o = v.args[0] if v.args else None
        c = self.cls_of(o, st) if o is not None else None
        if c not in self.prog.classes:
            return None
        d = self.mkcoll(st, 'dict')
        gens = []
        names = [k for x, k in st.heap if x is o]
        for k in dict.fromkeys((self.own_fields(c) if o.op != 'new' else []) + names):
            gens.append((k, st.heap.get((o, k), mk('fld', o, k))))
        for k, x in gens:
            self.splice(st, d, 'kv', x, const(k), (), (), frozenset())
        return d

    def vars_method(self, o, name, pos, kw, st, node, ds):
        st = st.copy()
        if name in ('get', 'keys', 'values', 'items', 'copy'):
            d = self.vars_coll(o, st)
            if d is not None:
                return self.dict_method(d, name, pos, kw, st, node, ds)
        elif name == 'update' and len(pos) < 2 and not ds:
            ps = []
            x = self.vars_coll(pos[0], st) if pos and pos[0].op == 'vars' else pos[0] if pos else None
            if x is not None and (x in st.colls or x.op == 'coll'):
                ps, kind = self.pieces(x, st)
            elif pos:
                ps = None
            if ps is not None and all(not p[0] and not p[1] and p[4] == 'kv' and is_const(p[3]) for p in ps):
                for k, v in [(p[3], p[2]) for p in ps] + [(const(k), v) for k, v in kw.items()]:
                    self.effect(st, 'set', o.args[0], k, v, node)
                    st.heap[(o.args[0], cval(k))] = v
                return [(st, NONE)]
        if name in MUTATORS:
            self.effect(st, 'setdyn', o.args[0], self.unk('vars'), NONE, node)
            st.lossy = True
            for k in [k for k in st.heap if k[0] is o.args[0]]:
                st.heap[k] = self.unk('vars')
        return self.call_unknown('.' + name, [o] + pos, kw, st, node, ds, ())

    def rngobj(self, o, name, pos, kw, st, node):
        if name == 'shuffle' and pos and pos[0] in st.colls:
            st = st.copy()
            if len(o.args) < 2 or o.args[1] is NONE:
                self.effect(st, 'rng', const('.shuffle'), NONE, o, node)
            self.recoll(st, pos[0], 'shuffled', o)
            return [(st, NONE)]
        v = mk('call', '.' + name, o, *[self.freeze(x, st) for x in pos], mk('draw', next(self._uid), *[f.it for f in st.ctx]))
        st = st.copy()
        self.effect(st, 'rngdraw', o, const(name), v, node)
        return [(st, v)]

    # ------------------------------------------------------------ lists
    def list_method(self, o, name, pos, kw, st, node):
        local = o in st.colls
        if name == 'index':
            return [(st, mk('call', '.index', self.freeze(o, st), *pos))]
        if name == 'count':
            return [(st, mk('call', '.count', self.freeze(o, st), *pos))]
        if name == 'copy':
            return self.build('list', [o], st, node)
        st = st.copy()
        if not local:
            kind = {'append': 'lappend', 'extend': 'lextend', 'insert': 'linsert', 'remove': 'lremove', 'pop': 'lpop', 'clear': 'lclear'}.get(name, 'mutate')
            self.effect(st, kind, o, const(name), pos[-1] if pos else NONE, node)
            return [(st, mk('call', '.' + name, self.freeze(o, st)) if name in ('pop', 'popleft') else NONE)]
        if 'glob' in st.colls[o].flags:
            self.effect(st, 'globmut', o, NONE, NONE, node)
        if name == 'append':
            self.coll_add(st, o, pos[0])
        elif name == 'extend':
            self.coll_extend(st, o, pos[0])
        elif name in ('insert', 'appendleft', 'extendleft'):
            if name == 'extendleft':
                self.coll_extend(st, o, pos[0])
                self.coll_add(st, o, NONE, const('order'), 'fuzz')
            else:
                self.coll_add(st, o, pos[-1], flags=frozenset({'front' if name == 'appendleft' or pos[0] is const(0) else 'inserted'}))
        elif name == 'remove':
            at = self.mk_in(pos[0], o, st)
            out = []
            if at is FALSE:
                self.do_raise(st, 'ValueError', node, implicit=True)
                return []
            k = self.known(at, st)
            if k is False:
                self.do_raise(st, 'ValueError', node, implicit=True)
                return []
            if k is None and at is not TRUE:
                # the element may be missing
                s2 = st.copy()
                self.assume(s2, at, False)
                self.do_raise(s2, 'ValueError', node, implicit=True)
                st = st.copy()
                self.assume(st, at, True)
            self.coll_add(st, o, NONE, self.freeze(pos[0], st), 'minus')
        elif name in ('pop', 'popleft'):
            C = st.colls[o]
            if not st.cur_frames(C.depth) and all(not g.frames and not g.guards and g.kind == 'elem' for g in C.gens) and C.gens and (not pos or is_const(pos[0])):
                i = cval(pos[0]) if pos else (-1 if name == 'pop' else 0)
                if -len(C.gens) <= i < len(C.gens):
                    v = C.gens[i].value
                    i %= len(C.gens)
                    st.colls[o] = C._replace(gens=C.gens[:i] + C.gens[i + 1:])
                    return [(st, v)]
            cs = {self.cls_of(g.value, st) for g in C.gens if g.kind == 'elem'}
            v = mk('typed', mk('pop', o, const(next(self._uid)), const(name if not pos else name + 'at')), cs.pop() if len(cs) == 1 else None)
            self.coll_add(st, o, NONE, const('pop'), 'minus')
            return [(st, v)]
        elif name == 'clear':
            self.coll_clear(st, o)
        elif name == 'sort':
            self.recoll(st, o, 'sorted', kw.get('key', NONE), kw.get('reverse', FALSE))
        elif name == 'reverse':
            self.recoll(st, o, 'reversed')
        return [(st, NONE)]

    def coll_clear(self, st, o):
        C = st.colls[o]
        if st.cur_guards(C.depth) or st.cur_frames(C.depth):
            self.coll_add(st, o, NONE, const('clear'), 'fuzz')
        else:
            st.colls[o] = C._replace(gens=())

    # ------------------------------------------------------------ dictionaries
    def dict_method(self, o, name, pos, kw, st, node, ds):
        local = o in st.colls
        if name in ('keys', 'values', 'items'):
            return [(st, mk({'keys': 'dk', 'values': 'dv', 'items': 'di'}[name], o))]
        if name == 'copy':
            return self.b_dict([o], {}, st, node)
        if name == 'get':
            d = pos[1] if len(pos) > 1 else kw.get('default', NONE)
            out = []
            w = self.written(o, pos[0], st) if not local else None
            if w is not None:
                return [(st, d if w == 'gone' else w)]
            for s, b in self.decide(self.mk_in(pos[0], o, st), st):
                out += self.load_item(o, pos[0], s, node) if b else [(s, d)]
            return out
        if local and 'glob' in st.colls[o].flags:
            self.effect(st, 'globmut', o, NONE, NONE, node)
        if name == 'pop':
            out = []
            for s, b in self.decide(self.mk_in(pos[0], o, st), st):
                if b:
                    for s2, v in self.load_item(o, pos[0], s, node):
                        out += [(s3, v) for s3 in self.del_item(o, pos[0], s2, node)]
                elif len(pos) > 1:
                    out.append((s, pos[1]))
                else:
                    self.do_raise(s, 'KeyError', node, implicit=True)
            return out
        if name == 'setdefault':
            v = pos[1] if len(pos) > 1 else NONE
            out = []
            for s, b in self.decide(self.mk_in(pos[0], o, st), st):
                if b:
                    out += self.load_item(o, pos[0], s, node)
                else:
                    out += [(s2, v) for s2 in self.store_item(o, pos[0], v, s, node)]
            return out
        st = st.copy()
        if name == 'update':
            if local:
                for x in pos:
                    self.coll_update(st, o, x)
                for k, v in kw.items():
                    self.coll_add(st, o, v, const(k), 'kv')
                for d in ds:
                    self.coll_update(st, o, d)
            else:
                x = pos[0] if pos else NONE
                if x is not NONE and (x in st.colls or x.op == 'coll'):
                    ps, kind = self.pieces(x, st)
                    if all(not p[0] and not p[1] and p[4] == 'kv' for p in ps):
                        for fr, gu, v, k, knd, fl in ps:
                            self.effect(st, 'dset', o, k, v, node)
                        x = NONE
                if x is not NONE:
                    self.effect(st, 'dupdate', o, NONE, x, node)
                for k, v in kw.items():
                    self.effect(st, 'dset', o, const(k), v, node)
        elif name == 'clear':
            if local:
                self.coll_clear(st, o)
            else:
                self.effect(st, 'dclear', o, NONE, NONE, node)
        elif name == 'popitem':
            self.fuzz(st, o, 'popitem', node)
            return [(st, self.unk('popitem'))]
        return [(st, NONE)]

    # ------------------------------------------------------------ sets
    def set_method(self, o, name, pos, kw, st, node):
        local = o in st.colls
        if name in ('union', 'copy'):
            st = st.copy()
            c = self.mkcoll(st, 'set')
            for x in [o] + pos:
                self.coll_extend(st, c, x)
            return [(st, c)]
        if name in ('intersection', 'difference') and len(pos) == 1:
            st = st.copy()
            c = self.mkcoll(st, 'set')
            return self.set_filter(st, c, o, pos[0], name == 'intersection')
        if name in ('issubset', 'issuperset', 'isdisjoint') and pos:
            a, b = (o, pos[0]) if name != 'issuperset' else (pos[0], o)
            if name == 'isdisjoint':
                parts = [self.mk_ex(fr, list(gu) + [(self.mk_in(v, b, st), True)], st) for fr, gu, v, fl in self.iter_pieces(a, st) or []]
            else:
                parts = [self.mk_ex(fr, list(gu) + [(self.mk_in(v, b, st), False)], st) for fr, gu, v, fl in self.iter_pieces(a, st) or []]
            return [(st, mk_not(self.mk_or(parts)))]
        st = st.copy()
        if not local:
            self.effect(st, 'mutate', o, const(name), pos[0] if pos else NONE, node)
            return [(st, NONE)]
        if name == 'add':
            self.coll_add(st, o, pos[0])
        elif name == 'update':
            for x in pos:
                self.coll_extend(st, o, x)
        elif name in ('discard', 'remove'):
            self.coll_minus(st, o, self.freeze(pos[0], st))
        elif name == 'clear':
            self.coll_clear(st, o)
        elif name == 'pop':
            cs = {self.cls_of(g.value, st) for g in st.colls[o].gens if g.kind == 'elem'}
            v = mk('typed', mk('pop', o, const(next(self._uid)), const('setpop')), cs.pop() if len(cs) == 1 else None)
            self.coll_add(st, o, NONE, const('pop'), 'minus')
            self.effect(st, 'impure', const('set.pop'), NONE, v, node)
            return [(st, v)]
        else:
            self.fuzz(st, o, name, node)
        return [(st, NONE)]

    # ------------------------------------------------------------ strings
    def str_method(self, o, name, pos, kw, st, node, ds, stars):
        if name == 'join' and len(pos) == 1:
            x = pos[0]
            ps = self.iter_pieces(x, st) if x.op != 'ite' else None
            if ps is not None and all(not p[0] and not p[1] for p in ps):
                seq = []
                for i, p in enumerate(ps):
                    if i:
                        seq.append(o)
                    seq.append(self.mk_str(p[2], st))
                return [(st, self.mk_cat(seq, st))]
            if x.op != 'new' and x.op != 'coll' and ps is not None:
                st = st.copy()
                c = self.mkcoll(st, 'list')
                self.coll_extend(st, c, x)
                x = c
            return [(st, mk('join', o, self.freeze(x, st)))]
        if is_const(o) and name in self.STRFUN and all(is_const(p) for p in pos) and not kw:
            try:
                return [(st, const(getattr(cval(o), name)(*[cval(p) for p in pos])))]
            except (TypeError, ValueError):
                pass
        if name == 'format' and is_const(o) and not ds and not stars:
            r = self.str_format(cval(o), pos, kw, st)
            if r is not None:
                return [(st, r)]
        if name == 'split' or name == 'splitlines':
            return [(st, mk('typed', mk('call', '.' + name, o, *pos), 'list'))]
        args = [self.freeze(a, st) for a in pos] + [mk('kw', k, self.freeze(v, st)) for k, v in sorted(kw.items())]
        return [(st, mk('call', '.' + name, o, *args))]

    def str_format(self, fmt, pos, kw, st):
        import string
        seq, i = [], 0
        try:
            for lit_, field, spec, conv in string.Formatter().parse(fmt):
                seq.append(const(lit_))
                if field is None:
                    continue
                if spec or conv:
                    return None
                if field == '':
                    v = pos[i]
                    i += 1
                elif field.isdigit():
                    v = pos[int(field)]
                elif field in kw:
                    v = kw[field]
                else:
                    return None
                seq.append(self.mk_str(self.freeze(v, st), st))
        except (ValueError, IndexError):
            return None
        return self.mk_cat(seq, st)
