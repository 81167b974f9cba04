"""Collections as generators: freezing, alpha-renaming, membership, emptiness, length, iteration."""
from terms import *
from state import *


def mk_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', a)


def mk_ite(c, x, y):
    """conditional value; common leading and trailing parts of strings are taken out of it"""
    if x is y:
        return x
    if c is TRUE:
        return x
    if c is FALSE:
        return y
    if c.op == 'not':
        return mk_ite(c.args[0], y, x)
    if x.op == 'cat' or y.op == 'cat':
        def parts(t):
            return list(t.args) if t.op == 'cat' else [] if t is const('') else [t]
        px, py = parts(x), parts(y)
        pre, post = [], []
        while px and py and px[0] is py[0]:
            pre.append(px.pop(0))
            py.pop(0)
        while px and py and px[-1] is py[-1]:
            post.insert(0, px.pop())
            py.pop()
        if pre or post:
            def whole(p):
                return const('') if not p else p[0] if len(p) == 1 and p[0].op in ('str', 'join', 'ite') else p[0] if len(p) == 1 and is_const(p[0]) else mk('cat', *p)
            return mk('cat', *pre, mk('ite', c, whole(px), whole(py)), *post)
    return mk('ite', c, x, y)


BOOLOPS = {'eq', 'same', 'in', 'isnone', 'isinst', 'nonempty', 'ex', 'not', 'lt', 'le', 'truth', 'hasattr', 'inopen', 'or', 'and'}


class Colls:
    # ------------------------------------------------------------ building atoms
    def mk_isnone(self, x, st):
        if is_const(x):
            return TRUE if x is NONE else FALSE
        return mk('isnone', x)

    def edge_of_id(self, t):
        """edge e if t is the id of the registered edge e"""
        if t.op == 'tup' and len(t.args) == 3:
            r = t.args[2]
            if r.op == 'fld' and r.args[1] == self.F['rid']:
                e = r.args[0]
                if self.id_of_edge(e) is t:
                    return e
        return None

    def node_of_id(self, t, st):
        if t.op == 'fld' and t.args[1] == self.F['rid'] and self.cls_of(t.args[0], st) == 'Node':
            return t.args[0]
        return None

    def mk_same(self, x, y, st):
        if x is y:
            return TRUE
        if x is NONE or y is NONE:
            return self.mk_isnone(y if x is NONE else x, st)
        if x.order > y.order:
            x, y = y, x
        return mk('same', x, y)

    def mk_eq(self, x, y, st, identity=False):
        if x is y:
            return TRUE
        if is_const(x) and is_const(y):
            return TRUE if (cval(x) == cval(y) and (not identity or type(cval(x)) == type(cval(y)))) else FALSE
        if is_const(y):
            x, y = y, x
        if x is NONE:
            return self.mk_isnone(y, st)
        if x is TRUE and (y.op in BOOLOPS):
            return y
        if x is FALSE and (y.op in BOOLOPS):
            return mk_not(y)
        if is_const(x) and cval(x) == 0 and not isinstance(cval(x), bool) and y.op == 'len':
            return mk_not(self.mk_nonempty(y.args[0], st))
        if is_const(x) and cval(x) == '' and self.cls_of(y, st) == 'str':
            return mk_not(mk('truth', y))
        cx, cy = self.cls_of(x, st), self.cls_of(y, st)
        if cx in ('Node', 'Edge') and (cy == cx or identity):
            return self.mk_same(x, y, st)
        if identity:
            return self.mk_same(x, y, st)
        nx, ny = self.node_of_id(x, st), self.node_of_id(y, st)
        if nx is not None and ny is not None and self.is_member(nx, st) and self.is_member(ny, st) and self.graph_of(nx, st) is self.graph_of(ny, st):
            return self.mk_same(nx, ny, st)
        for n, k in ((nx, y), (ny, x)):
            # the key of a node of the graph against the id of one
            if n is not None and not is_const(k) and self.is_member(n, st):
                g = self.graph_of(n, st)
                if g is not None and st.facts.get(mk('in', k, fld(g, self.F['nodes']))) is True:
                    return self.mk_same(self.mk_item(fld(g, self.F['nodes']), k, st), n, st)
        ex, ey = self.edge_of_id(x), self.edge_of_id(y)
        if ex is not None and ey is not None and self.is_registered(ex) and self.is_registered(ey) and self.graph_of(ex, st) is self.graph_of(ey, st):
            return self.mk_same(ex, ey, st)
        if x.op == 'tup' and y.op == 'tup' and ex is None and ey is None:
            if len(x.args) != len(y.args):
                return FALSE
            return self.mk_both([self.mk_eq(p, q, st) for p, q in zip(x.args, y.args)])
        if all(t.op == 'dk' or t.op == 'new' and t in st.colls and st.colls[t].kind == 'set' or t.op == 'coll' and t.args[0] == 'set' for t in (x, y)):
            parts = []
            for a, b in ((x, y), (y, x)):
                ps = self.iter_pieces(a, st)
                if ps is None or any('unk' in fl or 'prior' in fl for fr, gu, v, fl in ps):
                    parts = None
                    break
                parts += [self.mk_ex(fr, list(gu) + [(self.mk_in(v, b, st), False)], st) for fr, gu, v, fl in ps]
            if parts is not None:
                return self.mk_both([mk_not(p) for p in parts])
        if x.order > y.order:
            x, y = y, x
        return mk('eq', x, y)

    def mk_both(self, parts):
        ls = []
        for p in parts:
            b = True
            while p.op == 'not':
                p, b = p.args[0], not b
            if p is TRUE or p is FALSE:
                if (p is TRUE) != b:
                    return FALSE
                continue
            if p.op == 'and' and b:
                ls += [l if l.op == 'lit' else lit(l, True) for l in p.args]
            else:
                ls.append(lit(p, b))
        ls = list(dict.fromkeys(ls))
        if not ls:
            return TRUE
        if len(ls) == 1:
            return ls[0].args[0] if ls[0].args[1] else mk_not(ls[0].args[0])
        return mk('and', *sorted(ls, key=gkey))

    def mk_in(self, x, c, st):
        o = c.op
        if o == 'new' and c in st.colls:
            C = st.colls[c]
            # appended earlier in this very iteration?
            for g in C.gens:
                if g.kind in ('elem', 'kv'):
                    v = g.key if g.kind == 'kv' else g.value
                    if v is x and g.frames == st.cur_frames(C.depth) and all(st.facts.get(a) == b for a, b in g.guards):
                        return TRUE
            opens = [g for g in C.gens if g.kind == 'open']
            if opens:
                if any(g.kind in ('fuzz', 'minus') for g in C.gens):
                    return mk('inopen', self.freeze(x, st), c, const('fuzzy'))
                return mk('inopen', self.freeze(x, st), c, opens[-1].key)
            c = self.freeze(c, st)
            o = c.op
        x = self.freeze(x, st)
        if o == 'coll':
            gens = c.args[1:]
            if not gens:
                return FALSE
            if any('minus' in g.args[2] or 'fuzz' in g.args[2] or 'open' in g.args[2] or 'dedupe_' in g.args[2] for g in gens):
                return mk('in', x, c)
            isdict = c.args[0] == 'dict'
            vals = [(g.args[1] if isdict else g.args[0], g.args[3], g.args[4]) for g in gens]
            if all(not f.args and not gu.args for _, f, gu in vals):
                vs = [v for v, _, _ in vals]
                if len(vs) == 1:
                    return self.mk_eq(x, vs[0], st)
                return self.mk_in(x, mk('tup', *vs), st)
            parts = []
            for v, f, gu in vals:
                if len(f.args) == 1 and not gu.args and v.op == 'ek' and v.args[1] is f.args[0].args[0]:
                    # every key of a copied table is a key of the copy
                    d, w = v.args[0], f.args[0].args[1]
                    if (w is d or w.op in ('dv', 'dk', 'di') and w.args[0] is d) and x.op == 'ek' and x.args[0] is d:
                        return TRUE
                parts.append(self.mk_ex_frozen(f, gu, [(v, x)], st))
            return self.mk_or(parts)
        if o == 'tup':
            if len(c.args) == 0:
                return FALSE
            if len(c.args) == 1:
                return self.mk_eq(x, c.args[0], st)
            if x.op in BOOLOPS and TRUE in c.args and FALSE in c.args:
                return TRUE
            vs = []
            for v in c.args:
                if v not in vs:
                    vs.append(v)
            vs.sort(key=gkey)
            return mk('in', x, mk('tup', *vs))
        if o == 'dk':
            return self.mk_in(x, c.args[0], st)
        if o in ('sorted', 'listof', 'reversed', 'setof', 'tupleof', 'shuffled'):
            return self.mk_in(x, c.args[0], st)
        if o == 'dv' and x.op in ('el', 'item') and x.args[0] is c.args[0]:
            return TRUE
        if o in ('dv', 'rel') or o == 'fld':
            if x.op == 'el' and x.args[0] is c:
                return TRUE
        return mk('in', x, c)

    def mk_or(self, parts):
        out = []
        for p in parts:
            if p is TRUE:
                return TRUE
            if p is FALSE or p in out:
                continue
            if p.op == 'or':
                out.extend(q for q in p.args if q not in out)
            else:
                out.append(p)
        if not out:
            return FALSE
        if len(out) == 1:
            return out[0]
        out.sort(key=gkey)
        return mk('or', *out)

    def mk_ex_frozen(self, frames, guards, eqs, st):
        """exists over frozen frames (tup of tup(bv,src)); eqs extra equalities (v == x)"""
        gl = [(l.args[0], l.args[1]) for l in guards.args]
        fr = [(f.args[0], f.args[1]) for f in frames.args]
        m = {}
        nf = []
        for b, s in fr:
            it = self.fresh_it()
            m[b] = it
            nf.append((it, s))
        nf = [(it, sub(s, m)) for it, s in nf]
        gl = [(sub(a, m), v) for a, v in gl]
        for v, x in eqs:
            gl.append((self.mk_eq(sub(v, m), x, st), True))
        return self.mk_ex(nf, gl, st)

    def mk_ex(self, frames, guards, st):
        """exists its: all guards hold.  frames [(it,src)], guards [(atom,bool)]"""
        gl = []
        for a, b in guards:
            while a.op == 'not':
                a, b = a.args[0], not b
            if a is TRUE or a is FALSE:
                if (a is TRUE) != b:
                    return FALSE
                continue
            if (a, b) not in gl:
                gl.append((a, b))
        fr = [(it, self.freeze(s, st)) for it, s in frames]
        gl = [(self.freeze(a, st), b) for a, b in gl]
        # drop frames that bind nothing but are needed for emptiness only when source known non-empty: keep
        if not fr:
            if not gl:
                return TRUE
            if len(gl) == 1:
                return gl[0][0] if gl[0][1] else mk_not(gl[0][0])
            return mk('and', *sorted((lit(a, b) for a, b in gl), key=gkey))
        if len(fr) == 1:
            it, s = fr[0]
            if not gl:
                return self.mk_nonempty(s, st)
            inv = [(a, b) for a, b in gl if not contains(a, it)]
            if len(gl) == 1 and gl[0][1] and not inv:
                a = gl[0][0]
                e = self.elem_term(s, it, st)
                if a.op in ('same', 'eq') and e is not None:
                    x, y = a.args
                    if y is e and not contains(x, it):
                        return self.mk_in(x, s, st)
                    if x is e and not contains(y, it):
                        return self.mk_in(y, s, st)
            if len(gl) == 1 and gl[0][1] and not inv and gl[0][0].op == 'eq' and s.op == 'dv' and s.args[0].op == 'fld' and self.elem_cls(s.args[0], st) in ('Node', 'Edge'):
                # the elements are filed under their ids
                k = self.key_of_el(s.args[0], it, st)
                x, y = gl[0][0].args
                if y is k and not contains(x, it):
                    return self.mk_in(x, s.args[0], st)
                if x is k and not contains(y, it):
                    return self.mk_in(y, s.args[0], st)
        fr, parts = self.close(fr, [a for a, b in gl])
        return mk('ex', fr, guards_t(list(zip(parts, [b for a, b in gl]))))

    def elem_term(self, src, it, st):
        """the value bound when iterating a base source"""
        if src.op in ('dv',):
            return mk('el', src.args[0], it)
        if src.op == 'dk' or (src.op == 'fld' and self.cls_of(src, st) == 'dict'):
            d = src.args[0] if src.op == 'dk' else src
            return self.key_of_el(d, it, st)
        if src.op == 'di':
            return None
        return mk('el', src, it)

    def key_of_el(self, d, it, st):
        e = mk('el', d, it)
        c = self.elem_cls(d, st)
        if c == 'Node':
            return self.id_of_node(e)
        if c == 'Edge':
            return self.id_of_edge(e)
        return mk('ek', d, it)

    def close(self, frames, parts):
        h = 0
        for it, s in frames:
            h = max(h, s.h)
        for p in parts:
            h = max(h, p.h)
        m = {}
        for i, (it, s) in enumerate(frames):
            m[it] = mk('bv', h + i)
        fr = mk('tup', *[mk('tup', m[it], sub(s, m)) for it, s in frames])
        return fr, [sub(p, m) for p in parts]

    def mk_nonempty(self, c, st):
        if c.op == 'new' and c in st.colls:
            c = self.freeze(c, st)
        if c.op in ('dk', 'dv', 'di', 'sorted', 'listof', 'reversed', 'setof', 'tupleof', 'enumerate', 'shuffled'):
            return self.mk_nonempty(c.args[0], st)
        if c.op == 'tup':
            return TRUE if c.args else FALSE
        if is_const(c):
            return TRUE if cval(c) else FALSE
        if c.op == 'slice' and is_const(c.args[1]) and isinstance(cval(c.args[1]), int) and cval(c.args[1]) > 0 and c.args[2] is NONE and c.args[3] is NONE:
            return self.mk_lt(c.args[1], self.mk_len(c.args[0], st), False, st)
        if c.op == 'coll':
            gens = c.args[1:]
            if not gens:
                return FALSE
            if any('minus' in g.args[2] or 'fuzz' in g.args[2] or 'open' in g.args[2] for g in gens):
                return mk('nonempty', c)
            return self.mk_or([self.mk_ex_frozen(g.args[3], g.args[4], [], st) for g in gens])
        if c.op == 'cat' or self.cls_of(c, st) == 'str':
            return mk('truth', c)
        if c.op == 'range' and c.args[0] is const(0) and c.args[2] is const(1) and c.args[1].op == 'len':
            return self.mk_nonempty(c.args[1].args[0], st)
        return mk('nonempty', c)

    def mk_len(self, c, st):
        c = self.freeze(c, st)
        while c.op in ('dk', 'dv', 'di', 'sorted', 'listof', 'reversed', 'tupleof', 'enumerate', 'shuffled'):
            c = c.args[0]
        if c.op == 'tup':
            return const(len(c.args))
        if is_const(c) and isinstance(cval(c), str):
            return const(len(cval(c)))
        if c.op == 'coll':
            gens = c.args[1:]
            bad = any('minus' in g.args[2] or 'fuzz' in g.args[2] or 'open' in g.args[2] for g in gens)
            if not bad and all(not g.args[3].args and not g.args[4].args for g in gens):
                if c.args[0] == 'list' or len(gens) <= 1 or all(is_const(g.args[1] if c.args[0] == 'dict' else g.args[0]) for g in gens):
                    return const(len(gens))
            if not bad and len(gens) == 1 and c.args[0] != 'set':
                g = gens[0]
                if len(g.args[3].args) == 1 and not g.args[4].args and 'dedupe' not in g.args[2] and g.args[2] in ('', 'kv'):
                    if c.args[0] == 'list':
                        return self.mk_len(g.args[3].args[0].args[1], st)
        return mk('len', c)

    def mk_truth(self, x, st):
        """truth value of a term as an atom (or TRUE/FALSE)"""
        o = x.op
        if is_const(x):
            return TRUE if cval(x) else FALSE
        if o in BOOLOPS:
            return x
        if o == 'len':
            return self.mk_nonempty(x.args[0], st)
        c = self.cls_of(x, st)
        if o == 'new' and x in st.colls or o == 'coll' or o in ('dk', 'dv', 'di', 'rel', 'sorted', 'listof', 'tup', 'setof', 'slice'):
            return self.mk_nonempty(x, st)
        if c in ('list', 'dict', 'set', 'tuple') and self.nonnull(x, st):
            return self.mk_nonempty(x, st)
        if c in self.prog.classes and not self.has_attr(c, '__bool__') and not self.has_attr(c, '__len__'):
            return mk_not(self.mk_isnone(x, st)) if not self.nonnull(x, st) else TRUE
        return mk('truth', x)

    # ------------------------------------------------------------ freezing
    def freeze(self, t, st, prog=None):
        if st is None or not isinstance(t, T):
            return t
        if t.op == 'new':
            if t in st.colls:
                return self.freeze_coll(t, st, prog or frozenset())
            return t
        if not t.args:
            return t
        m = {}
        for x in subterms(t):
            if x.op == 'new' and x in st.colls and not (t.op == 'inopen' and t.args[1] is x):
                m[x] = None
        if not m:
            return t
        if t.op == 'inopen':
            return t
        for x in list(m):
            m[x] = self.freeze_coll(x, st, prog or frozenset())
        return sub(t, m)

    def freeze_coll(self, c, st, prog):
        if c in prog:
            return mk('selfref', c)
        prog = prog | {c}
        C = st.colls[c]
        out = []
        for g in C.gens:
            out.append(self.freeze_gen(g, C.kind, st, prog))
        fl = C.flags
        r = mk('coll', C.kind, *out)
        return r

    def freeze_gen(self, g, kind, st, prog):
        flags = set(g.flags)
        if g.kind != 'elem':
            flags.add(g.kind)
        v = self.freeze(g.value, st, prog)
        k = self.freeze(g.key, st, prog)
        fr = [(it, self.freeze(s, st, prog)) for it, s in g.frames]
        gu = [(self.freeze(a, st, prog), b) for a, b in g.guards]
        if 'dedupe' in flags and len(fr) == 1:
            it, s = fr[0]
            base = s.args[0] if s.op == 'dv' else s
            u = v
            if kind != 'dict' and u.op not in ('el', 'ek'):
                n = self.node_of_id(u, st)
                u = n if n is not None else self.edge_of_id(u) or u
            if (u.op in ('el', 'ek') and u.args[1] is it) and (s.op == 'dv' or s.op == 'rel') and not self.gen_has_prior(g, kind, st):
                flags.discard('dedupe')
        fr2, parts = self.close(fr, [v, k] + [a for a, b in gu])
        return mk('gen', parts[0], parts[1], ','.join(sorted(flags)), fr2, guards_t(list(zip(parts[2:], [b for a, b in gu]))))

    def gen_has_prior(self, g, kind, st):
        return 'prior' in g.flags

    # ------------------------------------------------------------ iteration pieces
    def pieces(self, c, st, what='elem'):
        """how a collection's elements arise: list of (frames, guards, value, key, flags) with fresh iteration ids;
        None if it is a base source (iterate it by one frame)"""
        if c.op == 'new' and c in st.colls:
            C = st.colls[c]
            out = []
            for g in C.gens:
                m = {}
                fr = []
                for it, s in g.frames:
                    n = self.fresh_it()
                    m[it] = n
                    fr.append((n, sub(s, {k: v for k, v in m.items() if k is not it})))
                val, key = g.value, g.key
                if m:
                    val, key = self.clone_sub(val, m, st), self.clone_sub(key, m, st)
                gu = [(sub(a, m), b) for a, b in g.guards]
                out.append((fr, gu, val, key, g.kind, g.flags))
            return out, C.kind
        if c.op == 'coll':
            out = []
            for g in c.args[1:]:
                v, k, fl, frs, gus = g.args
                m = {}
                fr = []
                for f in frs.args:
                    n = self.fresh_it()
                    m[f.args[0]] = n
                    fr.append((n, sub(f.args[1], {a: b for a, b in m.items() if a is not f.args[0]})))
                flags = set(x for x in fl.split(',') if x)
                kind = 'elem'
                for q in ('kv', 'open', 'minus', 'fuzz'):
                    if q in flags:
                        kind = q
                        flags.discard(q)
                out.append((fr, [(sub(l.args[0], m), l.args[1]) for l in gus.args], sub(v, m), sub(k, m), kind, frozenset(flags)))
            return out, c.args[0]
        if c.op == 'tup':
            return [([], [], x, NONE, 'elem', NOFLAGS) for x in c.args], 'tuple'
        return None, None

    def clone_sub(self, t, m, st):
        """substitute iteration ids; local collections that depend on them are cloned"""
        m = dict(m)
        for x in list(subterms(t)):
            if x.op == 'new' and x in st.colls and x not in m:
                C = st.colls[x]
                dep = False
                for g in C.gens:
                    for u in [g.value, g.key] + [s for _, s in g.frames] + [a for a, _ in g.guards]:
                        if isinstance(u, T) and any(contains(u, i) for i in m if i.op == 'it'):
                            dep = True
                if dep:
                    n = self.new_coll_term(C.kind)
                    m[x] = n
                    st.colls[n] = C._replace(gens=tuple(
                        g._replace(value=self.clone_sub(g.value, m, st), key=self.clone_sub(g.key, m, st),
                                   frames=tuple((i, sub(s, m)) for i, s in g.frames),
                                   guards=frozenset((sub(a, m), b) for a, b in g.guards)) for g in C.gens))
        return sub(t, m)
