"""Methods of containers and strings, item access and item assignment."""
import ast
from terms import *
from state import *
from colls import mk_not, BOOLOPS


class Methods:
    # ------------------------------------------------------------ filling local collections
    def splice(self, st, c, kind, val, key, fr, gu, fl):
        C = st.colls[c]
        fr2 = st.cur_frames(C.depth) + tuple((it, self.freeze(s, st)) for it, s in fr)
        gu2 = st.cur_guards(C.depth) | frozenset(gu)
        gens = C.gens
        if not fr2 and not gu2:
            if C.kind == 'set' and any(g.value is val and not g.frames and not g.guards for g in gens):
                return
            if kind == 'kv' and ground(key):
                new = self.replaced(gens, key, val, (fl - {'prior'}) | self.frame_flags(st, C.depth))
                if new is not None:
                    st.colls[c] = C._replace(gens=new)
                    return
                gens = tuple(g for g in gens if not (g.kind == 'kv' and g.key is key and not g.frames))
        g = Gen(kind, val, key, fr2, gu2, (fl - {'prior'}) | self.frame_flags(st, C.depth), next(self._uid))
        st.colls[c] = C._replace(gens=gens + (g,))

    def coll_extend(self, st, c, v):
        C = st.colls[c]
        if 'glob' in C.flags:
            self.effect(st, 'globmut', c, NONE, v)
        if C.kind == 'dict':
            return self.coll_update(st, c, v)
        if v.op == 'ite':
            for x, b in ((v.args[1], True), (v.args[2], False)):
                for fr, gu, val, fl in self.iter_pieces(x, st) or []:
                    self.splice(st, c, 'elem', val, NONE, fr, list(gu) + [(v.args[0], b)], fl)
            return
        o = v.op
        if o == 'new' and v in st.colls or o == 'coll':
            ps, kind = self.pieces(v, st)
            if kind != 'dict':
                for fr, gu, val, k, knd, fl in ps:
                    fl = fl | (frozenset({'unord'}) if kind == 'set' and C.kind != 'set' else NOFLAGS)
                    self.splice(st, c, knd, val, k, fr, gu, fl)
                return
        for fr, gu, val, fl in self.iter_pieces(v, st) or []:
            self.splice(st, c, 'elem', val, NONE, fr, gu, fl - ({'unord'} if C.kind == 'set' else set()))

    def coll_update(self, st, c, v):
        if 'glob' in st.colls[c].flags:
            self.effect(st, 'globmut', c, NONE, v)
        if v.op == 'ite':
            for x, b in ((v.args[1], True), (v.args[2], False)):
                for fr, gu, val, fl in self.iter_pieces(mk('di', x), st) or []:
                    self.splice(st, c, 'kv', val.args[1], val.args[0], fr, list(gu) + [(v.args[0], b)], fl)
            return
        if v is NONE:
            return
        if v.op == 'vars':
            v = self.vars_coll(v, st) or v
        if v.op == 'new' and v in st.colls or v.op == 'coll':
            ps, kind = self.pieces(v, st)
            for fr, gu, val, k, knd, fl in ps:
                if kind == 'dict':
                    self.splice(st, c, knd, val, k, fr, gu, fl)
                elif knd == 'elem':
                    self.splice(st, c, 'kv', self.mk_item(val, const(1), st), self.mk_item(val, const(0), st), fr, gu, fl)
                else:
                    self.splice(st, c, knd, val, k, fr, gu, fl)
            return
        if v.op in ('zip', 'enumerate', 'di'):
            for fr, gu, val, fl in self.iter_pieces(v, st) or []:
                self.splice(st, c, 'kv', self.mk_item(val, const(1), st), self.mk_item(val, const(0), st), fr, gu, fl)
            return
        for fr, gu, val, fl in self.iter_pieces(mk('di', v), st) or []:
            self.splice(st, c, 'kv', val.args[1], val.args[0], fr, gu, fl)

    def set_filter(self, st, c, a, b, keep):
        """elements of a that are (not) in b"""
        bf = self.freeze(b, st)
        for fr, gu, val, fl in self.iter_pieces(a, st) or []:
            at = self.mk_in(val, bf, st)
            if at is TRUE or at is FALSE:
                if (at is TRUE) != keep:
                    continue
                self.splice(st, c, 'elem', val, NONE, fr, gu, fl)
            else:
                x, w = (at.args[0], not keep) if at.op == 'not' else (at, keep)
                self.splice(st, c, 'elem', val, NONE, fr, list(gu) + [(x, w)], fl)
        return [(st, c)]

    def fuzz(self, st, o, why, node, v=None):
        if o in st.colls:
            if 'glob' in st.colls[o].flags:
                self.effect(st, 'globmut', o, NONE, NONE, node)
            self.coll_add(st, o, v if v is not None else NONE, const(why), 'fuzz')
        else:
            self.effect(st, 'mutate', o, const(why), v if v is not None else NONE, node)

    def recoll(self, st, c, op, *args):
        """the contents of a local collection, reordered"""
        C = st.colls[c]
        f = self.freeze(c, st)
        src = mk(op, f, *args)
        it = self.fresh_it()
        g = Gen('elem', mk('el', src, it), NONE, st.cur_frames(C.depth) + ((it, src),), st.cur_guards(C.depth), NOFLAGS, next(self._uid))
        st.colls[c] = C._replace(gens=(g,))

    # ------------------------------------------------------------ item access
    def written(self, o, k, st):
        """value stored under o[k] earlier on this path, or None; 'gone' when deleted"""
        kf = self.freeze(k, st)
        for e in reversed(st.eff):
            if e.tgt is o and e.kind in ('dset', 'ddel', 'dclear', 'lset'):
                if e.kind == 'dclear':
                    return 'gone'
                if e.key is kf and all(f in st.cur_frames() for f in e.frames) and all(st.facts.get(a) == b for a, b in e.guards):
                    return 'gone' if e.kind == 'ddel' else e.val
        return None

    def mk_item(self, o, k, st):
        F = self.F
        if o.op == 'tup' and is_const(k) and isinstance(cval(k), int) and -len(o.args) <= cval(k) < len(o.args):
            return o.args[cval(k)]
        if o.op == 'const' and isinstance(cval(o), (str, tuple)) and is_const(k):
            try:
                return const(cval(o)[cval(k)])
            except (IndexError, TypeError):
                pass
        if o.op == 'slice' and is_const(k) and isinstance(cval(k), int) and cval(k) >= 0 and is_const(o.args[1]) and isinstance(cval(o.args[1]), int) and cval(o.args[1]) >= 0 and o.args[2] is NONE and o.args[3] is NONE:
            return self.mk_item(o.args[0], const(cval(o.args[1]) + cval(k)), st)
        if o.op == 'ite':
            a, b = self.mk_item(o.args[1], k, st), self.mk_item(o.args[2], k, st)
            return a if a is b else mk('ite', o.args[0], a, b)
        if o.op == 'fld':
            if o.args[1] == F['nodes']:
                n = self.node_of_id(k, st)
                if n is not None and self.is_member(n, st) and self.graph_of(n, st) is o.args[0]:
                    return n
            if o.args[1] in (F['out'], F['inn']):
                e = self.edge_of_id(k)
                if e is not None and self.is_registered(e) and (self.start_of(e) if o.args[1] == F['out'] else self.end_of(e)) is o.args[0]:
                    return e
        if k.op == 'ek' and k.args[0] is o:
            return mk('el', o, k.args[1])
        if k.op == 'idx' and k.args[1] is const(0):
            # element number i while iterating over the positions of o
            c = o
            while c.op in ('dv',):
                break
            if o in st.colls:
                fr = [f for f in st.ctx if f.it is k.args[0]]
                ps, kind = self.pieces(o, st)
                if fr and len(ps) == 1 and len(ps[0][0]) == 1 and not ps[0][1] and ps[0][4] == 'elem' and ps[0][0][0][1] is fr[0].src:
                    return sub(ps[0][2], {ps[0][0][0][0]: k.args[0]})
            else:
                return mk('el', o, k.args[0])
        return mk('item', self.freeze(o, st), self.freeze(k, st))

    def match(self, pat, t, bvs, m):
        """one-way unification of a frozen pattern with a term"""
        if pat in bvs:
            if pat in m:
                return m[pat] is t
            m[pat] = t
            return True
        if pat is t:
            return True
        if pat.op != t.op or len(pat.args) != len(t.args):
            return False
        for a, b in zip(pat.args, t.args):
            if isinstance(a, T):
                if not isinstance(b, T) or not self.match(a, b, bvs, m):
                    return False
            elif a != b:
                return False
        return True

    def head_of(self, o, st):
        """what a local list is a plain copy of"""
        if o.op == 'coll':
            return None
        C = st.colls[o]
        if C.kind in ('list', 'tuple') and len(C.gens) == 1:
            g = C.gens[0]
            if g.kind == 'elem' and len(g.frames) == 1 and not g.guards and not g.flags and g.value is mk('el', g.frames[0][1], g.frames[0][0]):
                return g.frames[0][1]
        return None

    def load_item(self, o, k, st, node):
        if o.op == 'ite':
            out = []
            for s, b in self.decide(o.args[0], st):
                out += self.load_item(o.args[1] if b else o.args[2], k, s, node)
            return out
        if o.op == 'maybe':
            return self.load_item(o.args[1], k, st, node)
        if o is NONE:
            self.do_raise(st, 'TypeError', node, implicit=True)
            return []
        if o.op == 'vars' and is_const(k):
            return [(st, st.heap.get((o.args[0], cval(k)), mk('fld', o.args[0], cval(k))))]
        c = self.cls_of(o, st)
        if c in self.prog.classes:
            m, kk = self.prog.lookup(self.prog.classes[c], '__getitem__')
            if m is not None and not isinstance(m, ast.AST):
                return self.call_func(m, [o, k], {}, st, node)
        if o.op == 'new' and o in st.colls or o.op == 'coll':
            src = self.head_of(o, st) if is_const(k) and type(cval(k)) is int and cval(k) >= 0 else None
            if src is not None and src.op == 'slice' and src.args[1] in (NONE, const(0)) and src.args[3] is NONE and is_const(src.args[2]) and type(cval(src.args[2])) is int and cval(src.args[2]) > cval(k):
                return self.load_item(src.args[0], k, st, node)
            return self.load_local(o, k, st, node)
        if o.op == 'slice' and is_const(k) and type(cval(k)) is int and o.args[1] in (NONE, const(0)) and o.args[3] is NONE and is_const(o.args[2]) and type(cval(o.args[2])) is int and 0 <= cval(k) < cval(o.args[2]):
            return self.load_item(o.args[0], k, st, node)
        if o.op in ('tup', 'const') and is_const(k):
            return [(st, self.mk_item(o, k, st))]
        w = self.written(o, k, st)
        if w == 'gone':
            self.do_raise(st, 'KeyError', node, implicit=True)
            return []
        if w is not None:
            return [(st, w)]
        role = o.op == 'fld' and o.args[1] in (self.F['nodes'], self.F['out'], self.F['inn']) or o.op == 'rel' and o.args[0] in ('nodes_dict', 'edges_dict')
        catching = any(x in ('KeyError', 'LookupError', 'Exception', 'BaseException') for ts in self.catch for x in ts)
        if role or (catching and c in ('dict', None) and not (is_const(k) and isinstance(cval(k), int))):
            a = self.mk_in(k, o, st)
            out = []
            for s, b in self.decide(a, st):
                if b:
                    out.append((s, self.mk_item(o, k, s)))
                else:
                    self.do_raise(s, 'KeyError', node, implicit=True)
            return out
        if not (is_const(k) and isinstance(cval(k), int)):
            if st.facts.get(self.mk_in(k, o, st)) is False:
                self.do_raise(st, 'KeyError', node, implicit=True)
                return []
        return [(st, self.mk_item(o, k, st))]

    def load_local(self, o, k, st, node):
        ps, kind = self.pieces(o, st)
        if kind in ('list', 'tuple'):
            if is_const(k) and isinstance(cval(k), int) and all(not p[0] and not p[1] and p[4] == 'elem' for p in ps):
                i = cval(k)
                if -len(ps) <= i < len(ps):
                    return [(st, ps[i][2])]
                self.do_raise(st, 'IndexError', node, implicit=True)
                return []
            return [(st, self.mk_item(o, k, st))]
        odd = any(p[4] != 'kv' for p in ps)
        kf = self.freeze(k, st)
        if not odd and all(not p[0] and is_const(p[3]) for p in ps) and is_const(kf):
            cands = [p for p in ps if p[3] is kf]
            cur, out = [st], []
            for fr, gu, v, key, knd, fl in reversed(cands):
                nxt = []
                for s in cur:
                    ok = [(s, True)]
                    for a, b in gu:
                        ok = [(s3, r == b) if t else (s2, t) for s2, t in ok for s3, r in (self.decide(self.renorm(a, s2), s2) if t else [(s2, t)])]
                    for s2, t in ok:
                        (out.append((s2, v)) if t else nxt.append(s2))
                cur = nxt
            for s in cur:
                self.do_raise(s, 'KeyError', node, implicit=True)
            return out
        if not odd and 0 < len(ps) <= 8 and all(not p[0] and not p[1] and is_const(p[3]) for p in ps) and (
                kf.op in BOOLOPS or any(p[2].op in ('clo', 'func', 'bm', 'partial', 'cls', 'new', 'ext') for p in ps)):
            # a table of things to do or to fill: one case per key
            out, cur = [], [st]
            for fr, gu, v, key, knd, fl in reversed(ps):
                nxt = []
                for s in cur:
                    for s2, b in self.decide(self.mk_eq(kf, key, s), s):
                        (out.append((s2, v)) if b else nxt.append(s2))
                cur = nxt
            for s in cur:
                if any(b and a.op == 'in' and a.args[0] is kf and a.args[1].op == 'tup' and all(s.facts.get(self.mk_eq(kf, x, s)) is False for x in a.args[1].args) for a, b in s.facts.items()):
                    continue
                if kf.op not in BOOLOPS or {cval(p[3]) for p in ps} != {True, False}:
                    self.do_raise(s, 'KeyError', node, implicit=True)
            return out
        # a key just stored by this iteration
        if o in st.colls:
            for g in reversed(st.colls[o].gens):
                if g.kind == 'kv' and self.freeze(g.key, st) is kf and g.frames == st.cur_frames(st.colls[o].depth) and all(st.facts.get(a) == b for a, b in g.guards):
                    return [(st, g.value)]
                if g.kind != 'kv':
                    break
        out = []
        hits = None if odd else self.by_key(o, kf, st)
        if hits:
            # entries made under conditions that exclude or follow each other: the last one made is the one found
            cur = [st]
            for v, gu in reversed(hits):
                nxt = []
                for s in cur:
                    ok = [(s, True)]
                    for a, b in gu:
                        ok = [(s3, r == b) if t else (s2, t) for s2, t in ok for s3, r in (self.decide(self.renorm(a, s2), s2) if t else [(s2, t)])]
                    for s2, t in ok:
                        (out.append((s2, v)) if t else nxt.append(s2))
                cur = nxt
            for s in cur:
                self.do_raise(s, 'KeyError', node, implicit=True)
            return out
        at = self.mk_in(kf, o, st)
        for s, b in self.decide(at, st):
            if not b:
                self.do_raise(s, 'KeyError', node, implicit=True)
                continue
            out.append((s, self.dict_value(o, kf, s, odd)))
        return out

    def by_key(self, o, kf, st):
        """entries of a dictionary filled over one source under the key at hand, when there are several"""
        f = self.freeze(o, st)
        if f.op != 'coll' or len(f.args) < 3:
            return None
        hits = []
        for g in f.args[1:]:
            if g.op != 'gen' or g.args[2] not in ('', 'kv') or len(g.args[3].args) != 1:
                return None
            bv, src = g.args[3].args[0].args
            m = {}
            if not self.match(g.args[1], kf, {bv}, m) or set(m) != {bv} or m[bv].op not in ('it', 'bv'):
                return None
            if not any(x.op == 'el' and x.args[1] is bv and (x.args[0] is src or src.op in ('dv', 'di', 'dk') and src.args[0] is x.args[0]) for x in subterms(g.args[1])):
                return None
            hits.append((sub(g.args[0], m), [(sub(l.args[0], m), l.args[1]) for l in g.args[4].args]))
        return hits

    def dict_value(self, o, kf, st, odd):
        f = self.freeze(o, st)
        if not odd and f.op == 'coll':
            hits = []
            for g in f.args[1:]:
                bvs = {x.args[0] for x in g.args[3].args}
                m = {}
                if self.match(g.args[1], kf, bvs, m) and bvs <= set(m) | {b for b in bvs if not contains(g.args[0], b)}:
                    hits.append((g, m))
                else:
                    hits.append((g, None))
            # a later entry wins; exactly one possible entry
            if hits and sum(1 for g, m in hits if m is not None) == 1 and (len(hits) == 1):
                g, m = next((g, m) for g, m in hits if m is not None)
                return sub(g.args[0], m) if m else g.args[0]
        return mk('item', f, kf)

    def store_item(self, o, k, v, st, node):
        if o.op == 'ite':
            out = []
            for s, b in self.decide(o.args[0], st):
                out += self.store_item(o.args[1] if b else o.args[2], k, v, s, node)
            return out
        c = self.cls_of(o, st)
        if c in self.prog.classes:
            m, kk = self.prog.lookup(self.prog.classes[c], '__setitem__')
            if m is not None and not isinstance(m, ast.AST):
                return [s for s, r in self.call_func(m, [o, k, v], {}, st, node)]
        st = st.copy()
        if o.op == 'vars':
            if is_const(k) and isinstance(cval(k), str):
                self.effect(st, 'set', o.args[0], k, v, node)
                st.heap[(o.args[0], cval(k))] = v
            else:
                self.effect(st, 'setdyn', o.args[0], k, v, node)
                st.lossy = True
            return [st]
        if o in st.colls:
            if st.colls[o].kind == 'dict':
                self.coll_add(st, o, v, self.freeze(k, st), 'kv')
            else:
                self.fuzz(st, o, 'setitem', node, v)
            return [st]
        self.effect(st, 'dset', o, k, v, node)
        return [st]

    def del_item(self, o, k, st, node):
        if o.op == 'ite':
            out = []
            for s, b in self.decide(o.args[0], st):
                out += self.del_item(o.args[1] if b else o.args[2], k, s, node)
            return out
        st = st.copy()
        if o in st.colls:
            C = st.colls[o]
            if is_const(k) and C.kind == 'dict' and not st.cur_frames(C.depth) and not st.cur_guards(C.depth) and all(is_const(g.key) and g.kind == 'kv' for g in C.gens):
                st.colls[o] = C._replace(gens=tuple(g for g in C.gens if g.key is not k))
            else:
                self.coll_minus(st, o, self.freeze(k, st))
            return [st]
        w = self.written(o, k, st)
        if w == 'gone':
            self.do_raise(st, 'KeyError', node, implicit=True)
            return []
        if w is not None:
            self.effect(st, 'ddel', o, k, NONE, node)
            return [st]
        role = o.op == 'fld' and o.args[1] in (self.F['nodes'], self.F['out'], self.F['inn'])
        out = []
        for s, b in (self.decide(self.mk_in(k, o, st), st) if role else [(st, True)]):
            if b:
                s = s.copy()
                self.effect(s, 'ddel', o, k, NONE, node)
                out.append(s)
            else:
                self.do_raise(s, 'KeyError', node, implicit=True)
        return out

    def mk_slice(self, o, lo, hi, step, st):
        if lo is None and hi is None and step is None:
            c = self.cls_of(o, st)
            if c in ('list', None):
                st = st.copy()
                n = self.mkcoll(st, 'list')
                self.coll_extend(st, n, o)
                return (st, n)
            return (st, o)
        if o in st.colls and st.colls[o].kind == 'list' and all(x is None or is_const(x) for x in (lo, hi, step)):
            gens = st.colls[o].gens
            if all(not g.frames and not g.guards and g.kind == 'elem' for g in gens):
                st = st.copy()
                sl = slice(*[None if x is None else cval(x) for x in (lo, hi, step)])
                return (st, self.mkcoll(st, 'list', [g.value for g in gens][sl]))
        if is_const(o) and isinstance(cval(o), str) and all(x is None or is_const(x) for x in (lo, hi, step)):
            return (st, const(cval(o)[slice(*[None if x is None else cval(x) for x in (lo, hi, step)])]))
        n = lambda x: NONE if x is None else x
        return (st, mk('slice', self.freeze(o, st), n(lo), n(hi), n(step)))
