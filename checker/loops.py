"""Loop summarisation: one generic iteration is interpreted, what it changes is widened, and what it
adds becomes generators over the iterated source."""
import ast
from terms import *
from state import *
from colls import mk_not

UNORD = frozenset({'unord'})


def simplify_dnf(sets):
    """merge complementary conjunctions: {A,x},{A,not x} -> {A}; absorb"""
    sets = list({frozenset(s) for s in sets})
    ch = True
    while ch:
        ch = False
        for i in range(len(sets)):
            for j in range(len(sets)):
                if i == j:
                    continue
                a, b = sets[i], sets[j]
                if a <= b:
                    sets.pop(j)
                    ch = True
                    break
                d = a - b
                if len(d) == 1:
                    (x, v), = d
                    if (x, not v) in b and a - {(x, v)} <= b - {(x, not v)}:
                        # x|rest and not-x|rest+more  ->  drop not-x from the second
                        sets[j] = b - {(x, not v)}
                        ch = True
                        break
            if ch:
                break
    return sets


CUT = frozenset(['cut'])


class Loops:
    # ------------------------------------------------------------------ what iterating a term yields
    def iter_pieces(self, c, st):
        """list of (frames, guards, value, flags); frames [(it, src)]"""
        ps = self.iter_pieces_(c, st)
        if ps and len(ps) == 1 and 'dedupe' in ps[0][3] and len(ps[0][0]) == 1 and self.injective(ps[0][2], ps[0][0][0], st):
            ps = [ps[0][:3] + (ps[0][3] - {'dedupe'},)]
        return ps

    def iter_pieces_(self, c, st):
        o = c.op
        if o == 'new' and c in st.colls or o in ('coll', 'tup'):
            ps, kind = self.pieces(c, st)
            out = []
            for fr, gu, v, k, knd, fl in ps:
                if knd in ('minus',):
                    continue
                if knd in ('open', 'fuzz'):
                    it = self.fresh_it()
                    out.append(([(it, mk('accum', c, v))], [], mk('el', mk('accum', c, v), it), fl))
                    continue
                if out and kind == 'list' and 'dedupe' not in fl and fr:
                    fl = fl | {'more'}
                if fr and kind in ('dict', 'set'):
                    fl = fl | {'dedupe'}
                out.append((fr, gu, k if kind == 'dict' else v, fl | (UNORD if kind == 'set' and (fr or len(ps) > 1) else NOFLAGS)))
            if any(knd == 'minus' for _, _, _, _, knd, _ in ps):
                # something was taken out again: iterate the remainder as a source of its own
                it = self.fresh_it()
                src = self.freeze(c, st)
                return [([(it, src)], [], mk('el', src, it), NOFLAGS)]
            return out
        if o in ('dk', 'dv', 'di'):
            d = c.args[0]
            if d.op == 'new' and d in st.colls or d.op == 'coll':
                ps, kind = self.pieces(d, st)
                out = []
                for fr, gu, v, k, knd, fl in ps:
                    if knd != 'kv':
                        it = self.fresh_it()
                        src = mk('accum', c, v if isinstance(v, T) else NONE)
                        val = mk('el', src, it)
                        if o == 'di':
                            val = mk('tup', mk('ek', src, it), val)
                        out.append(([(it, src)], [], val, fl))
                        continue
                    out.append((fr, gu, {'dk': k, 'dv': v, 'di': mk('tup', k, v)}[o], fl))
                return out
            it = self.fresh_it()
            src = mk('dv', d)
            e = mk('el', d, it)
            k = self.key_of_el(d, it, st)
            return [([(it, src)], [], {'dk': k, 'dv': e, 'di': mk('tup', k, e)}[o], NOFLAGS)]
        if o == 'fld' and self.cls_of(c, st) == 'dict' or self.cls_of(c, st) == 'dict':
            return self.iter_pieces(mk('dk', c), st)
        if o == 'enumerate':
            ps = self.iter_pieces(c.args[0], st)
            out = []
            for fr, gu, v, fl in ps:
                if len(ps) == 1 and len(fr) == 1 and not gu and 'dedupe' not in fl:
                    ix = self.mk_idx(fr[0][0], c.args[1])
                elif all(not p[0] and not p[1] for p in ps):
                    s0 = c.args[1]
                    ix = const(cval(s0) + len(out)) if is_const(s0) else mk('bin', 'Add', s0, const(len(out)))
                else:
                    ix = mk('pos', self.freeze(c.args[0], st), v, c.args[1])
                out.append((fr, gu, mk('tup', ix, v), fl))
            return out
        if o == 'zip':
            subs = [self.iter_pieces(x, st) for x in c.args]
            if all(all(not p[0] and not p[1] for p in ps) for ps in subs) and subs:
                n = min(len(ps) for ps in subs)
                return [([], [], mk('tup', *[ps[i][2] for ps in subs]), NOFLAGS) for i in range(n)]
            it = self.fresh_it()
            vals, srcs = [], []
            for x, ps in zip(c.args, subs):
                if len(ps) == 1 and len(ps[0][0]) == 1 and not ps[0][1]:
                    j, s = ps[0][0][0]
                    vals.append(sub(ps[0][2], {j: it}))
                    if s.op not in ('range', 'count'):
                        srcs.append(s)
                else:
                    f = self.freeze(x, st)
                    vals.append(mk('el', f, it))
                    srcs.append(f)
            src = srcs[0] if len(set(srcs)) == 1 else mk('zip', *srcs)
            return [([(it, src)], [], mk('tup', *vals), NOFLAGS)]
        if o == 'range':
            it = self.fresh_it()
            lo, hi, step = c.args
            if lo is const(0) and step is const(1):
                v = mk('idx', it, const(0))
            else:
                v = mk('idx', it, lo) if step is const(1) else mk('el', c, it)
            src = c
            if lo is const(0) and step is const(1) and hi.op == 'len':
                src = hi.args[0]
                if self.elem_cls(src, st):
                    src = src if src.op == 'dv' else src
            if all(is_const(x) for x in c.args):
                r = range(cval(lo), cval(hi), cval(step))
                if len(r) <= 12:
                    return [([], [], const(i), NOFLAGS) for i in r]
            return [([(it, src)], [], v, NOFLAGS)]
        if o == 'count':
            it = self.fresh_it()
            return [([(it, c)], [], mk('idx', it, c.args[0]), NOFLAGS)]
        if o == 'ite':
            return None
        if o in ('const',) and isinstance(cval(c), str):
            return [([], [], const(x), NOFLAGS) for x in cval(c)] if len(cval(c)) <= 12 else [([(self.fresh_it(), c)], [], self.unk('char'), NOFLAGS)]
        it = self.fresh_it()
        return [([(it, c)], [], mk('el', c, it), NOFLAGS)]

    def injective(self, u, frame, st):
        """whether the elements a loop runs over give different values"""
        it, s = frame
        if u.op not in ('el', 'ek'):
            n = self.node_of_id(u, st)
            u = n if n is not None else self.edge_of_id(u) or u
        return u.op in ('el', 'ek') and u.args[1] is it and s.op in ('dv', 'dk', 'di', 'rel')

    def mk_idx(self, it, start):
        return mk('idx', it, start)

    # ------------------------------------------------------------------ for statements
    def s_For(self, n, st):
        out = []
        for s, c in self.ev(n.iter, st):
            out += self.for_over(n, c, s)
        return out

    def for_over(self, n, c, st):
        if c.op == 'ite':
            out = []
            for s, b in self.decide(c.args[0], st):
                out += self.for_over(n, c.args[1] if b else c.args[2], s)
            return out
        if c is NONE or (is_const(c) and not isinstance(cval(c), (str, tuple))):
            self.do_raise(st, 'TypeError', n, implicit=True)
            return []
        d = self.live_source(c, st)

        def body(s, v):
            res = []
            for s2 in self.assign(n.target, v, s):
                res += self.block(n.body, s2)
            if d is not None:
                self.live_iter_check(d, s, res, n)
            return res
        pieces = self.iter_pieces(c, st)
        n_roots = len(self.iter_roots)
        self.iter_roots.append(c)
        for fr, gu, v, fl in pieces:
            self.iter_roots += [v] + [x for _, x in fr] + [a for a, _ in gu]
        try:
            return self.for_pieces(n, c, pieces, body, st)
        finally:
            del self.iter_roots[n_roots:]

    def for_pieces(self, n, c, pieces, body, st):
        done = []           # states that left by break
        cur = [st]
        exits = []
        for fr, gu, v, fl in pieces:
            nxt = []
            for s in cur:
                for s2, o in self.run_piece(s, fr, gu, fl, lambda q, v=v: body(q, v), n):
                    if o is None:
                        nxt.append(s2)
                    elif o.kind == 'break':
                        done.append(s2)
                    elif o.kind == 'cont':
                        nxt.append(s2)
                    else:
                        exits.append((s2, o))
            cur = self.shrink([self.kill(n, s) for s in nxt])
        out = list(exits)
        for s in cur:
            if n.orelse:
                out += self.block(n.orelse, s)
            else:
                out.append((s, None))
        out += [(s, None) for s in done]
        return out

    def shrink(self, states):
        cur = self.merge_exact(states)
        if len(cur) > self.GATE:
            cur = self.merge_gated(cur)
        if len(cur) > self.GATE2:
            cur = self.merge_gated(cur, wide=True)
        if len(cur) > self.JOIN:
            self.note('joined states')
            cur = [self.join(cur)]
        return cur

    def kill(self, n, s):
        """forget loop variables that nothing reads after an iteration"""
        d = self.dead_names(n)
        if d.isdisjoint(s.env):
            return s
        s = s.copy()
        for k in d:
            s.env.pop(k, None)
        return s

    def dead_names(self, n):
        r = self.dead_cache.get(n)
        if r is not None:
            return r
        fn = None
        for f in self.prog.funcs:
            if any(x is n for x in ast.walk(f.node)):
                fn = f.node
                break
        if fn is None:
            r = frozenset()
        else:
            inside = {id(x) for x in ast.walk(n)}
            outside = {x.id for x in ast.walk(fn) if isinstance(x, ast.Name) and id(x) not in inside}
            outside |= {k for x in ast.walk(fn) if isinstance(x, (ast.Nonlocal, ast.Global)) for k in x.names}
            outside |= {x.id for f in ast.walk(n) if isinstance(f, (ast.FunctionDef, ast.Lambda)) for x in ast.walk(f) if isinstance(x, ast.Name)}
            cand = {x.id for x in ast.walk(n.target) if isinstance(x, ast.Name)}
            seen = {x.id for x in ast.walk(n.iter) if isinstance(x, ast.Name)}
            for st in n.body:
                if isinstance(st, ast.Assign) and len(st.targets) == 1 and isinstance(st.targets[0], ast.Name):
                    seen |= {x.id for x in ast.walk(st.value) if isinstance(x, ast.Name)}
                    if st.targets[0].id not in seen:
                        cand.add(st.targets[0].id)
                seen |= {x.id for x in ast.walk(st) if isinstance(x, ast.Name)}
            r = frozenset(cand - outside)
        self.dead_cache[n] = r
        return r

    def live_source(self, c, st):
        """the stored dictionary or set that is iterated directly, not through a copy"""
        while c.op in ('dv', 'dk', 'di', 'enumerate'):
            c = c.args[0]
        if c.op == 'fld' and self.cls_of(c, st) in ('dict', 'set'):
            return c
        return None

    def live_iter_check(self, d, before, outs, node):
        seen = {e.uid for e in before.eff}
        for s, o in outs:
            if o is not None and o.kind != 'cont':
                continue
            for e in s.eff:
                if e.uid not in seen and e.tgt is d and (e.kind in ('ddel', 'dclear') or e.kind == 'dset' and self.known(self.mk_in(e.key, d, before), before) is False):
                    self.bad(s, 'live', f'{show(d)} changes size while it is iterated', node)
                    return

    # ------------------------------------------------------------------ generic iteration
    def run_piece(self, st, frames, guards, flags, body, node):
        if not frames:
            # a single element, possibly conditional
            cur = [(st, True)]
            for a, b in guards:
                nxt = []
                for s, ok in cur:
                    if not ok:
                        nxt.append((s, ok))
                        continue
                    for s2, r in self.decide(self.renorm(a, s), s):
                        nxt.append((s2, r == b))
                cur = nxt
            out = []
            for s, ok in cur:
                if ok and 'unord' in flags:
                    out += [(self.disordered(s, x), o) for x, o in body(s)]
                elif ok:
                    out += body(s)
                else:
                    out.append((s, None))
            return out
        outs = self.one_pass(st, frames, guards, flags, body)
        env, heap, colls = self.loop_mods(st, outs, frames)
        if env or heap or colls:
            s2 = st.copy()
            opens = const(frames[-1][0].args[0])
            for nm, vals in env.items():
                pre = st.env[nm]
                if pre in st.colls and all(v in o.colls for v, o in vals):
                    c2 = self.new_coll_term(st.colls[pre].kind)
                    C = st.colls[pre]
                    s2.colls[c2] = C._replace(gens=C.gens + (Gen('open', NONE, opens, (), frozenset(), NOFLAGS, next(self._uid)),))
                    s2.env[nm] = c2
                else:
                    cs = {self.cls_of(pre, st)} | {self.cls_of(v, o) for v, o in vals}
                    nn = all(self.nonnull(v, None) for v, o in vals) and self.nonnull(pre, st)
                    s2.env[nm] = mk('lv', opens, nm, cs.pop() if len(cs) == 1 else None, bool(nn))
            for k in heap:
                s2.heap[k] = mk('lh', opens, k[0], k[1])
            for c in colls:
                C = s2.colls[c]
                s2.colls[c] = C._replace(gens=C.gens + (Gen('open', NONE, opens, (), frozenset(), NOFLAGS, next(self._uid)),))
            outs = self.one_pass(s2, frames, guards, flags, body)
            pre2 = s2
        else:
            pre2 = st
        return self.close_loop(st, pre2, outs, frames, env, heap, colls, node, flags)

    def disordered(self, before, st):
        """what an element of a set has brought about comes in the order of the set"""
        seen = {e.uid for e in before.eff}
        st = st.copy()
        st.eff = tuple(e if e.uid in seen else e._replace(flags=e.flags | UNORD) for e in st.eff)
        for c, C in list(st.colls.items()):
            if C.kind in ('list', 'dict') and c in before.colls:
                old = {g.uid for g in before.colls[c].gens}
                if any(g.uid not in old for g in C.gens):
                    st.colls[c] = C._replace(gens=tuple(g if g.uid in old else g._replace(flags=g.flags | UNORD) for g in C.gens))
        return st

    def one_pass(self, st, frames, guards, flags, body):
        s = st.copy()
        base = frozenset(s.facts)
        for it, src in frames:
            s.ctx = s.ctx + (Frame(it, self.freeze(src, s), base, flags & {'unord', 'partial', 'once', 'more'} | ({'each'} if 'dedupe' in flags else set())),)
        bad = False
        for a, b in guards:
            a = self.renorm(a, s)
            k = self.known(a, s)
            if k is not None and k != b:
                bad = True
                break
            if k is None:
                self.assume(s, a, b)
        if bad:
            return []
        outs = body(s)
        if len(outs) > self.MAXSTATES:
            self.note('too many loop states')
            outs = outs[:self.MAXSTATES]
        return outs

    def loop_mods(self, st, outs, frames):
        env, heap, colls = {}, set(), set()
        its = {it for it, _ in frames}
        for s, o in outs:
            if o is not None and o.kind in ('ret', 'raise', 'break'):
                # nothing carried to a next iteration
                continue
            for nm, v in st.env.items():
                w = s.env.get(nm)
                if w is not v and w is not None:
                    env.setdefault(nm, []).append((w, s))
            for k, v in s.heap.items():
                if st.heap.get(k) is not v and not any(contains(k[0], it) for it in its):
                    if k[0].op == 'new' and k[0] not in self.alive(st):
                        continue
                    heap.add(k)
            for c, C in st.colls.items():
                if s.colls.get(c) != C:
                    colls.add(c)
        return env, heap, colls

    def alive(self, st):
        r = set()
        for (o, a), v in st.heap.items():
            r.add(o)
        return r

    def close_loop(self, st, pre2, outs, frames, env, heap, colls, node, flags):
        opens = const(frames[-1][0].args[0])
        depth0 = len(st.ctx)
        normal, exits = [], []
        for s, o in outs:
            (exits if o is not None and o.kind in ('ret', 'raise', 'break') else normal).append((s, o))
        # ---- elements and effects of complete iterations
        base_uids = {e.uid for e in pre2.eff}
        new_eff = {}
        for s, o in normal:
            for e in s.eff:
                if e.uid not in base_uids:
                    new_eff[e.uid] = e
        gen_sets = {}
        for c in pre2.colls:
            known = {g.uid for g in pre2.colls[c].gens}
            add = {}
            gone = set()
            for s, o in normal:
                C = s.colls.get(c)
                if C is None:
                    continue
                for g in C.gens:
                    if g.uid not in known:
                        was = add.get(g.uid)
                        add[g.uid] = g._replace(flags=g.flags | was.flags & CUT) if was is not None else g
                have = {g.uid for g in C.gens}
                for g in pre2.colls[c].gens:
                    if g.uid not in have:
                        gone.add(g.uid)
            if add or gone:
                gen_sets[c] = (add, gone)
        res_eff = [self.resolve_guards(e, gen_sets, opens, st, pre2) for u, e in sorted(new_eff.items())]

        def finish(partial, why=frozenset()):
            s = st.copy()
            for c, (add, gone) in gen_sets.items():
                C = pre2.colls[c]
                pre = [g for g in C.gens if not (g.kind == 'open' and g.key is opens) and g.uid not in gone]
                new = [self.resolve_gen(g, c, gen_sets, opens, st, pre2) for u, g in sorted(add.items())]
                if partial:
                    new = [g._replace(flags=g.flags | {'partial'} | why) for g in new]
                if gone:
                    pre.append(Gen('fuzz', NONE, NONE, (), frozenset(), NOFLAGS, next(self._uid)))
                if c in st.colls:
                    s.colls[c] = st.colls[c]._replace(gens=tuple(pre + new))
            # collections created inside the loop stay reachable through elements
            for q, o in normal + exits:
                for c, C in q.colls.items():
                    if c not in s.colls:
                        s.colls[c] = C
            for k in heap:
                vals = {q.heap.get(k) for q, o in normal}
                s.heap[k] = mk('phi', opens, k[0], k[1])
            for q, o in normal:
                for k, v in q.heap.items():
                    if k not in s.heap and k not in heap and k[0].op == 'new':
                        s.heap[k] = v
            ee = res_eff if not partial else [e._replace(flags=e.flags | {'partial'}) for e in res_eff]
            s.eff = st.eff + tuple(ee)
            return s
        # ---- early exits
        results = []
        exfacts = []
        exit_guards = []
        for s, o in exits:
            gu = [(a, b) for a, b in s.facts.items() if st.facts.get(a) != b]
            exit_guards.append(frozenset(gu))
        for (s, o), gu in zip(exits, exit_guards):
            its = {it for it, _ in frames}
            f = finish(partial=True, why=CUT if o.kind == 'break' and gu and all(a.op in ('in', 'inopen', 'same', 'eq', 'isnone') and any(x in its for x in subterms(a)) for a, b in gu) else NOFLAGS)
            f2 = s.copy()
            f2.ctx = st.ctx
            # effects: earlier iterations (partial) + this iteration up to the exit (once)
            done = {e.uid for e in f.eff}
            own = [e._replace(flags=e.flags | {'once'}) for e in s.eff if e.uid not in done and e.uid not in base_uids]
            own = [self.resolve_guards(e, gen_sets, opens, st, pre2) for e in own]
            f2.eff = f.eff + tuple(own)
            for c, C in f.colls.items():
                if c in st.colls and c in s.colls:
                    have = {g.uid for g in C.gens}
                    extra = [self.resolve_gen(g, c, gen_sets, opens, st, pre2)._replace() for g in s.colls[c].gens if g.uid not in have and g.kind != 'open']
                    extra = [g._replace(flags=g.flags | {'once'}) for g in extra]
                    f2.colls[c] = C._replace(gens=C.gens + tuple(extra))
                elif c not in f2.colls:
                    f2.colls[c] = C
            for nm in list(f2.env):
                v = f2.env[nm]
                if nm in env and nm in pre2.env and v is pre2.env[nm]:
                    f2.env[nm] = st.env[nm] if v.op != 'lv' else mk('phi', opens, nm, v.args[2], v.args[3])
            ex = self.mk_ex(frames, [(a, b) for a, b in gu if not self.is_open_atom(a)], f2)
            if not any(self.is_open_atom(a) for a, b in gu):
                if ex is FALSE or self.known(ex, st) is False:
                    continue
                self.assume(f2, ex, True)
                its = {it for it, _ in frames}
                self.witness.setdefault(ex, []).append(frozenset((a, b) for a, b in gu if any(x in its for x in subterms(a))))
            if o.kind == 'break':
                results.append((f2, Exit_('break')))
            else:
                results.append((f2, o))
        # ---- normal completion
        if not outs:
            return [(st, None)]
        s = finish(partial=False)
        for gset in simplify_dnf([self.unwitnessed(g) for g in exit_guards]):
            if any(self.is_open_atom(a) for a, b in gset):
                continue
            ex = self.mk_ex(frames, list(gset), s)
            if ex is TRUE:
                s = None
                break
            if ex is not FALSE:
                self.assume(s, ex, False)
        if s is None or (not normal and not exits):
            return results
        if not normal and exits:
            # every iteration leaves: completing normally means there was none
            pass
        finals = self.carry_env(st, pre2, s, normal, frames, env, opens)
        return results + [(q, None) for q in finals]

    witness = {}
    by_other = []     # what is collected once for each of something else

    def unwitnessed(self, gset):
        """leave out what is said about an element that a statement 'there is such an element' already says"""
        for a, b in gset:
            if b and a.op == 'ex':
                for w in self.witness.get(a, ()):
                    if w and w <= gset and (a, b) not in w:
                        gset = gset - w
                if len(a.args[0].args) != 1:
                    continue
                v = a.args[0].args[0].args[0]
                for it in {x for y, _ in gset for x in subterms(y) if x.op == 'it'}:
                    about = frozenset(l for l in gset if any(x is it for x in subterms(l[0])))
                    if (a, b) not in about and about <= {(sub(l.args[0], {v: it}), l.args[1]) for l in a.args[1].args}:
                        gset = gset - about
        return gset

    def is_open_atom(self, a):
        return any(x.op in ('inopen', 'lv', 'lh') for x in subterms(a))

    # ------------------------------------------------------------------ loop-carried variables
    def carry_env(self, st, pre2, s, normal, frames, env, opens):
        finals = [s]
        # names first bound inside the loop: value of some iteration
        for q, o in normal:
            for nm, v in q.env.items():
                if nm not in st.env and not nm.startswith('\0'):
                    for f in finals:
                        if nm not in f.env:
                            f.env[nm] = mk('maybe', NONE, mk('last', opens, nm, v)) if v.hasit else mk('maybe', NONE, v)
        for nm in env:
            pre, lv = st.env[nm], pre2.env[nm]
            vals = [(q.env.get(nm), q) for q, o in normal]
            vals = [(v, q) for v, q in vals if v is not None]
            if pre in st.colls and lv in pre2.colls:
                gens, ok = {}, True
                for v, q in vals:
                    C = q.colls.get(v)
                    if C is None:
                        ok = False
                        break
                    ks = [i for i, g in enumerate(C.gens) if g.kind == 'open' and g.key is opens]
                    if not ks:
                        ok = False
                        break
                    for g in C.gens[ks[-1] + 1:]:
                        if g.kind != 'open':
                            # created inside the loop: add the frames of this loop
                            if len(g.frames) < len(frames) or g.frames[:len(frames)] != tuple(frames):
                                gu = frozenset((a, b) for a, b in q.facts.items() if st.facts.get(a) != b)
                                g = g._replace(frames=tuple((it, self.freeze(x, q)) for it, x in frames) + g.frames, guards=g.guards | gu)
                            gens[g.uid] = g
                for f in finals:
                    c = self.new_coll_term(st.colls[pre].kind)
                    C = st.colls[pre]
                    gg = tuple(self.resolve_gen(g, lv, {lv: (gens, set())}, opens, st, pre2) for u, g in sorted(gens.items()))
                    if not ok:
                        gg += (Gen('fuzz', NONE, NONE, (), frozenset(), NOFLAGS, next(self._uid)),)
                    f.colls[c] = C._replace(gens=C.gens + gg, depth=len(st.ctx))
                    f.env[nm] = c
                continue
            changed = [(v, q) for v, q in vals if v is not lv]
            if not changed:
                for f in finals:
                    f.env[nm] = pre
                continue
            inv = {v for v, q in changed}
            if len(inv) == 1 and not any(x.op in ('it', 'lv', 'lh', 'new', 'unk') for v in inv for x in subterms(v)):
                w = inv.pop()
                conds = simplify_dnf([frozenset((a, b) for a, b in q.facts.items() if st.facts.get(a) != b and not contains(a, lv)) for v, q in changed])
                if not any(self.is_open_atom(a) for c in conds for a, b in c):
                    atom = self.mk_or([self.mk_ex(frames, list(c), s) for c in conds])
                    nf = []
                    for f in finals:
                        for f2, b in self.decide(atom, f):
                            f2 = f2.copy()
                            f2.env[nm] = w if b else pre
                            nf.append(f2)
                    finals = nf
                    continue
            # accumulating text
            if all(v is lv or (v.op == 'cat' and v.args[0] is lv) for v, q in vals) and self.cls_of(pre, st) == 'str':
                self.accumulate(st, s, finals, nm, pre, lv, changed, frames, 'str')
                continue
            # counting
            if all(v is lv or (v.op == 'bin' and v.args[0] == 'Add' and lv in v.args[1:]) for v, q in vals):
                steps = {v.args[2] if v.args[1] is lv else v.args[1] for v, q in changed}
                if steps == {const(1)}:
                    self.accumulate(st, s, finals, nm, pre, lv, changed, frames, 'int')
                    continue
            for f in finals:
                cs = lv.args[2] if lv.op == 'lv' else None
                f.env[nm] = mk('phi', opens, nm, cs, bool(lv.op == 'lv' and lv.args[3]), *sorted({self.freeze(v, q) for v, q in changed} | {pre}, key=gkey))
        return finals

    def accumulate(self, st, s, finals, nm, pre, lv, changed, frames, kind):
        gens = []
        each = frozenset(['each']) if any('each' in q.ctx[-1].partial for v, q in changed if len(q.ctx) > len(st.ctx)) else NOFLAGS
        for v, q in changed:
            gu = frozenset((a, b) for a, b in q.facts.items() if st.facts.get(a) != b)
            if kind == 'str':
                val = self.mk_cat(list(v.args[1:]), q)
                val = self.freeze(val, q)
            else:
                val = const(1)
            gens.append((val, gu))
        by = {}
        for v, gu in gens:
            by.setdefault(v, []).append(gu)
        for f in finals:
            c = self.new_coll_term('list')
            gg = []
            for v, gs in by.items():
                for gu in simplify_dnf(gs):
                    gg.append(Gen('elem', v, NONE, tuple((it, self.freeze(x, f)) for it, x in frames), frozenset(gu), each, next(self._uid)))
            f.colls[c] = Coll('list', tuple(gg), len(st.ctx), NOFLAGS)
            if kind == 'str':
                j = mk('join', const(''), self.freeze(c, f))
                f.env[nm] = self.mk_cat([pre, j], f)
            else:
                n = self.mk_len(c, f)
                f.env[nm] = n if pre is const(0) else mk('bin', 'Add', pre, n)

    # ------------------------------------------------------------------ membership guards on accumulators
    def same_name(self, k, v, st):
        return v is not None and (self.cls_of(v, st) == 'Node' and self.id_of_node(v) is k or self.cls_of(v, st) == 'Edge' and self.id_of_edge(v) is k)

    def determines(self, k, v, st, frames):
        if k is v:
            return True
        if self.cls_of(v, st) == 'Node' and self.id_of_node(v) is k:
            return True
        if self.cls_of(v, st) == 'Edge' and self.id_of_edge(v) is k:
            return True
        its = {it for it, _ in frames}
        for it, src in frames:
            # elements of what k determines are all there when k is met first
            src = sub(src, {k: const('\0k')})
            if not any(contains(src, i) for i in its) and it is not k and not contains(k, it):
                its = its - {it}
        r = sub(v, {k: const('\0k')})
        if not any(contains(r, it) for it in its):
            return True
        # v names the same element that k identifies
        for x in subterms(v):
            if x is not v and self.cls_of(x, st) == 'Node' and self.id_of_node(x) is k:
                r = sub(v, {x: const('\0k')})
                if not any(contains(r, it) for it in its):
                    return True
        return False

    def resolve_set(self, guards, own, value, frames, gen_sets, opens, st, pre2, kind='elem'):
        """translate 'not among what was collected so far' guards"""
        out, flags = set(), set()
        for a, b in guards:
            if a.op == 'inopen' and a.args[2] is opens and not b:
                k, c2 = a.args[0], a.args[1]
                adds = list(gen_sets.get(c2, ({}, set()))[0].values())
                C2 = pre2.colls.get(c2)
                match, others = False, False
                for g in adds:
                    gv = g.key if g.kind == 'kv' else g.value
                    if g.kind in ('elem', 'kv') and isinstance(gv, T) and self.freeze(gv, pre2) is k:
                        match = True
                    elif 'again' not in g.flags:
                        others = True
                if match:
                    own_key = c2 is own and value is not None and value is k
                    if value is not None and value is not k:
                        self.by_other.append(value)
                    by = value is None or self.determines(k, value, st, frames)
                    # with other things collected as well, being among them need not mean that this was done before
                    flags.add('dedupe' if own_key or by and (not others or self.same_name(k, value, st)) else 'dedupe_odd' if others else 'dedupe_by')
                elif c2 == own or adds:
                    flags.add('dedupe_odd' if adds else 'nodedupe')
                pre = [g for g in (C2.gens if C2 else ()) if not (g.kind == 'open' and g.key is opens)]
                outer = [g for g in pre if g.kind == 'open']
                if outer:
                    out.add((mk('inopen', k, c2, outer[-1].key), False))
                elif pre:
                    if c2 is own:
                        flags.add('prior')
                    else:
                        fz = mk('coll', C2.kind, *[self.freeze_gen(g, C2.kind, pre2, frozenset()) for g in pre])
                        at = self.mk_in(k, fz, pre2)
                        kk = self.known(at, st)
                        if at.op == 'or':
                            for p in at.args:
                                out.add((p, False))
                        elif at.op == 'in' and at.args[1].op == 'tup':
                            for y in at.args[1].args:
                                q = self.mk_eq(at.args[0], y, pre2)
                                if q not in (TRUE, FALSE):
                                    out.add((q, False))
                        elif at not in (TRUE, FALSE):
                            if at.op == 'not':
                                out.add((at.args[0], True))
                            else:
                                out.add((at, False))
                elif not match and not adds:
                    flags.discard('nodedupe')      # nothing ever collected: always true
            elif a.op == 'inopen' and b and (a.args[2] is opens or 'again' in flags):
                # added only when it is there already: a repetition
                k, c2 = a.args[0], a.args[1]
                if c2 is own and value is not None and (self.determines(k, value, st, frames) if kind != 'minus' else k is value or self.same_name(k, value, st)):
                    flags.add('again')
                else:
                    out.add((a, b))
            else:
                out.add((a, b))
        return frozenset(out), frozenset(flags)

    def resolve_gen(self, g, c, gen_sets, opens, st, pre2):
        if not any(a.op == 'inopen' for a, b in g.guards):
            return g
        val = g.key if g.kind in ('kv', 'minus') else g.value
        gu, fl = self.resolve_set(g.guards, c, self.freeze(val, pre2) if isinstance(val, T) else None, g.frames, gen_sets, opens, st, pre2, g.kind)
        return g._replace(guards=gu, flags=g.flags | fl)

    def resolve_guards(self, e, gen_sets, opens, st, pre2):
        if not any(a.op == 'inopen' for a, b in e.guards):
            return e
        gu, fl = self.resolve_set(e.guards, None, None, e.frames, gen_sets, opens, st, pre2)
        return e._replace(guards=gu, flags=e.flags | fl)

    # ------------------------------------------------------------------ comprehensions
    def comp(self, gens, st, emit):
        """emit(state) adds the element; returns list of states"""
        def level(i, s):
            if i == len(gens):
                return [(x, None) for x in emit(s)]
            g = gens[i]
            out = []
            for s1, c in self.ev(g.iter, s):
                out += self.comp_over(g, c, s1, i, level)
            return out
        saved, self.raises = self.raises, []
        res = level(0, st)
        raised, self.raises = self.raises, saved
        self.raises += raised
        return [s for s, o in res if o is None]

    def comp_over(self, g, c, s1, i, level):
        if c.op == 'ite':
            out = []
            for s, b in self.decide(c.args[0], s1):
                out += self.comp_over(g, c.args[1] if b else c.args[2], s, i, level)
            return out
        if c is NONE:
            self.do_raise(s1, 'TypeError', None, implicit=True)
            return []

        def body(q, v):
            res = []
            saved, self.raises = self.raises, []
            for q2 in self.assign(g.target, v, q):
                cur = [(q2, True)]
                for cnd in g.ifs:
                    nxt = []
                    for q3, ok in cur:
                        if not ok:
                            nxt.append((q3, False))
                            continue
                        nxt += self.cond(cnd, q3)
                    cur = nxt
                for q3, ok in cur:
                    if ok:
                        res += level(i + 1, q3)
                    else:
                        res.append((q3, None))
            raised, self.raises = self.raises, saved
            return res + raised
        cur = [s1]
        out = []
        for fr, gu, v, fl in self.iter_pieces(c, s1):
            nxt = []
            for s in cur:
                for s2, o in self.run_piece(s, fr, gu, fl, lambda q, v=v: body(q, v), None):
                    if o is None or o.kind == 'cont':
                        nxt.append(s2)
                    else:
                        self.raises.append((s2, o))
            names = {x.id for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for j, s in enumerate(nxt):
                if not names.isdisjoint(s.env):
                    nxt[j] = s = s.copy()
                    for k in names:
                        s.env.pop(k, None)
                        if k in s1.env:
                            s.env[k] = s1.env[k]
            cur = self.shrink(nxt)
        return [(s, None) for s in cur]

    def comp_expr(self, e, st, kind, elt):
        s = st.copy()
        env = s.env
        s.env = dict(env)
        c = self.mkcoll(s, kind)

        def emit(q):
            out = []
            if kind == 'dict':
                for q2, (k, v) in self.ev_many([e.key, e.value], q):
                    q2 = q2.copy()
                    self.coll_add(q2, c, v, k, 'kv')
                    out.append(q2)
            else:
                for q2, v in self.ev(elt, q):
                    q2 = q2.copy()
                    self.coll_add(q2, c, v)
                    out.append(q2)
            return out
        out = []
        for q in self.comp(e.generators, s, emit):
            q = q.copy()
            q.env = dict(env)
            out.append((q, c))
        return out

    def e_ListComp(self, e, st):
        return self.comp_expr(e, st, 'list', e.elt)

    def e_GeneratorExp(self, e, st):
        return self.comp_expr(e, st, 'list', e.elt)

    def e_SetComp(self, e, st):
        return self.comp_expr(e, st, 'set', e.elt)

    def e_DictComp(self, e, st):
        return self.comp_expr(e, st, 'dict', None)

    # ------------------------------------------------------------------ while loops
    def s_While(self, n, st):
        r = self.while_index(n, st)
        if r is not None:
            return r
        it = self.fresh_it()
        src = mk('while', id(n))

        def body(s):
            out = []
            for s2, b in self.cond(n.test, s):
                if b:
                    for s3, o in self.block(n.body, s2):
                        out.append((s3, o))
                else:
                    out.append((s2, EndLoop))
            return out
        outs = []
        frames = [(it, src)]
        # conditions that hold before the first test
        pre = self.one_pass(st, frames, [], NOFLAGS, lambda s: [(x, o) for x, o in body(s) if o is not EndLoop])
        env, heap, colls = self.loop_mods(st, pre, frames)
        s2 = st.copy()
        opens = const(it.args[0])
        for nm, vals in env.items():
            p = st.env[nm]
            if p in st.colls and all(v in o.colls for v, o in vals):
                c2 = self.new_coll_term(st.colls[p].kind)
                C = st.colls[p]
                s2.colls[c2] = C._replace(gens=C.gens + (Gen('open', NONE, opens, (), frozenset(), NOFLAGS, next(self._uid)),))
                s2.env[nm] = c2
            else:
                cs = {self.cls_of(p, st)} | {self.cls_of(v, o) for v, o in vals}
                s2.env[nm] = mk('lv', opens, nm, cs.pop() if len(cs) == 1 else None, False)
        for k in heap:
            s2.heap[k] = mk('lh', opens, k[0], k[1])
        for c in colls:
            C = s2.colls[c]
            s2.colls[c] = C._replace(gens=C.gens + (Gen('open', NONE, opens, (), frozenset(), NOFLAGS, next(self._uid)),))
        outs = self.one_pass(s2, frames, [], NOFLAGS, body)
        self.while_info[id(n)] = (n, frames, st, s2, outs)
        loopouts = [(s, o) for s, o in outs if o is not EndLoop]
        res = self.close_loop(st, s2, loopouts, frames, env, heap, colls, n, NOFLAGS)
        final = []
        for s, o in res:
            if o is None:
                s = s.copy()
                # widened variables stay unknown after the loop
                final += self.block(n.orelse, s) if n.orelse else [(s, None)]
            elif o.kind == 'break':
                final.append((s, None))
            else:
                final.append((s, o))
        if not loopouts:
            final = [(st, None)]
        return final

    while_info = {}

    def while_index(self, n, st):
        """while i < len(c): ...; i += 1  with i used as an index of c only"""
        t = n.test
        if not (isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.ops[0], (ast.Lt, ast.NotEq)) and isinstance(t.left, ast.Name)):
            return None
        r = t.comparators[0]
        var = t.left.id
        if not (isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == 'len' and len(r.args) == 1) and not isinstance(r, ast.Name):
            return None
        if st.env.get(var) is not const(0) or not n.body:
            return None
        last = n.body[-1]
        if not (isinstance(last, ast.AugAssign) and isinstance(last.target, ast.Name) and last.target.id == var and isinstance(last.op, ast.Add)
                and isinstance(last.value, ast.Constant) and last.value.value == 1):
            return None
        for b in n.body[:-1]:
            for x in ast.walk(b):
                if isinstance(x, ast.Name) and x.id == var and isinstance(x.ctx, ast.Store):
                    return None
                if isinstance(x, ast.Continue):
                    return None
        rng = ast.copy_location(ast.Call(ast.Name('range', ast.Load()), [r], []), n)
        f = ast.copy_location(ast.For(ast.Name(var, ast.Store()), rng, n.body[:-1] or [ast.Pass()], n.orelse), n)
        ast.fix_missing_locations(f)
        out = []
        for s, o in self.stmt(f, st):
            if o is None:
                s = s.copy()
                s.env[var] = self.unk('index')
            out.append((s, o))
        return out


class Exit_:
    def __init__(self, kind):
        self.kind, self.val, self.node, self.implicit, self.func = kind, None, None, False, None


class _End:
    kind = 'end'


EndLoop = _End()
