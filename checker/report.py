"""What a rule found: obligations with their outcome, violations with the construct at fault."""
import contextlib
import os
import signal
import time
from analysis import *
from compare import compare, spec_func, Mismatch


class OutOfTime(BaseException):
    pass


@contextlib.contextmanager
def limit(seconds):
    """stop what runs inside after some seconds, within any limit outside"""
    def ring(*_):
        raise OutOfTime
    left, _ = signal.getitimer(signal.ITIMER_REAL)
    old = signal.signal(signal.SIGALRM, ring)
    t0 = time.time()
    inner = not left or seconds < left
    if inner:
        signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        yield
    finally:
        if inner:
            signal.setitimer(signal.ITIMER_REAL, max(left - (time.time() - t0), 0.1) if left else 0)
        signal.signal(signal.SIGALRM, old)


class Report:
    def __init__(self, ctx, prop):
        self.ctx, self.prop = ctx, prop
        self.obligations = []      # (name, outcome, detail)
        self.violations = []       # (where, rule, message)
        self.units = 0             # compared exits, call sites, ... per property
        self.required = 0

    def loc(self, func, node=None):
        path = os.path.relpath(func.path, self.ctx.repo) if os.path.isabs(func.path) else func.path
        line = getattr(node, 'lineno', None) or getattr(func.node, 'lineno', 0)
        return f'{path}:{line} in {func.qual}'

    def violate(self, rule, func, node, msg):
        w = self.loc(func, node) if isinstance(func, Func) else str(func)
        if (w, rule, msg) not in self.violations:
            self.violations.append((w, rule, msg))

    def done(self, name, ok=True, detail='', n=1):
        self.obligations.append((name, 'holds' if ok is True else 'undecided' if ok is None else 'violated', detail))
        self.units += n

    def given(self, cls, cond, args, static=False, stops=None):
        """start state in which a condition, written as source, holds"""
        names = [n for n in args if not n.startswith('*') and n != 'self']
        src = f'def g({", ".join(([] if static else ["self"]) + names)}):\n    if {cond}:\n        return 1\n    raise ValueError(0)'
        f = spec_func(self.ctx, cls, src, kind='static' if static else 'method')
        S = self.ctx.summary(f, args={k: v for k, v in args.items() if not k.startswith('*')}, stops=stops)
        out = []
        for s, o in (S.rets() if S is not None else ()):
            if True:
                st = St()
                st.facts = dict(s.facts)
                out.append(st)
        if len(out) > 1:
            # what is common to all ways of satisfying it
            st = St()
            st.facts = {a: b for a, b in out[0].facts.items() if all(q.facts.get(a) == b for q in out)}
            out = [st]
        if not out:
            raise AnalysisBroken(f'condition {cond} cannot be established')
        return out[0]

    def against(self, f, spec, mode='list', stops=None, args=None, rule=None, name=None, spec_stops=None, cases=None, cls=None, **kw):
        """compare function f with the specification function; cases: conditions to assume one after the other"""
        name = name or f.qual
        args = dict(args) if args is not None else {n: sym(n) for n in self.ctx.params(f)}
        bad, und, n = [], [], 0
        for c in cases or [None]:
            st = self.given(cls or spec.cls.name, c, args, static=f.kind == 'static', stops=stops) if c else None
            S = self.ctx.summary(f, args=args, stops=stops, st=st)
            R = self.ctx.summary(spec, args=args, stops=spec_stops if spec_stops is not None else stops, st=st)
            b, u, k = compare(self.ctx, S, R, mode, **kw)
            if k == 0 and not u:
                u = ['no comparable exit' + (f' when {c}' if c else '')]
            bad, und, n = bad + b, und + u, n + k
        for m in bad:
            self.violate(rule or 'differs from its specification', f, m.node, m.text())
        self.done(name, False if bad else None if und else True, '; '.join(map(str, und[:3]))[:400], n)
        return not bad

    def spec(self, cls, member, src, mode='list', **kw):
        f = kw.pop('fn', None) or self.ctx.fn(cls, member)
        r = spec_func(self.ctx, kw.pop('spec_cls', None) or cls, src, kind=f.kind)
        names = self.ctx.params(f)
        wanted = self.ctx.params(r)
        args = {n: sym(n) for n in wanted}
        args.update(kw.pop('args', None) or {})
        types = kw.pop('types', {})
        for n, c in types.items():
            args[n] = sym(n, c)
        if f.cls is not None and f.kind not in ('static', 'class'):
            me = f.node.args.args[0].arg
            args[me] = args['self'] = sym('self', 'Graph' if self.ctx.prog.subclass('Graph', cls) else cls)
        if f.node.args.kwarg is not None and r.node.args.kwarg is not None and '**' not in args:
            args['**'] = sym('extra', 'dict')
        if f.node.args.kwarg is None:
            missing = [n for n in wanted if n not in names]
            if missing:
                self.violate('signature', f, f.node, f'parameter {missing[0]} of {cls}.{member} is gone')
                self.done(f.qual, False)
                return False
        for c in self.ctx.prog.mro(self.ctx.prog.need_class(cls)):
            g = c.members.get(member)
            g = g.get if isinstance(g, Prop) else g
            if isinstance(g, Func):
                self.signature(g, r, cls, member)
                if g.node.args.kwarg is None or member == '__init__':
                    break
        kw.setdefault('name', f'{cls}.{member}')
        return self.against(f, r, mode, args=args, cls=cls, **kw)

    def signature(self, f, r, cls, member):
        """defaults and order of the parameters the specification names"""
        def defaults(n):
            a = n.args
            ps = a.posonlyargs + a.args
            d = dict(zip([x.arg for x in ps[len(ps) - len(a.defaults):]], a.defaults))
            d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
            return d
        df, dr = defaults(f.node), defaults(r.node)
        for n, v in dr.items():
            w = df.get(n)
            if w is None and n in self.ctx.params(f):
                self.violate('signature', f, f.node, f'parameter {n} of {cls}.{member} has lost its default')
            if isinstance(v, ast.Constant) and isinstance(w, ast.Constant) and (v.value != w.value or type(v.value) is not type(w.value)):
                self.violate('signature', f, f.node, f'default of {n} in {cls}.{member} is {w.value!r}, documented as {v.value!r}')
        pf = [x.arg for x in f.node.args.posonlyargs + f.node.args.args]
        pr = [x.arg for x in r.node.args.posonlyargs + r.node.args.args]
        common = [n for n in pr if n in pf]
        if common != [n for n in pf if n in pr]:
            self.violate('signature', f, f.node, f'parameters of {cls}.{member} are in another order')
