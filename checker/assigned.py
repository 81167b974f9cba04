"""Definite assignment of local variables (a dataflow analysis that keeps what the conditions on the way there say, to leave out
ways that cannot be taken) and of instance attributes by the constructors."""
import ast
from prog import Func, Prop
from wellformed import bound_names, params_of

LIMIT = 96


class Way:
    """assigned: names with a value; facts: what the conditions taken say"""
    __slots__ = ('assigned', 'facts', '_h')

    def __init__(self, assigned, facts):
        self.assigned, self.facts = assigned, facts
        self._h = hash((assigned, facts))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self.assigned == o.assigned and self.facts == o.facts


def key(n):
    return ast.unparse(n)


def unwrap(n):
    """what has to hold an element for this to yield one"""
    while True:
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('enumerate', 'list', 'sorted', 'reversed', 'tuple', 'set', 'iter') and n.args:
            n = n.args[0]
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ('items', 'keys', 'values', 'copy') and not n.args:
            n = n.func.value
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'range' and len(n.args) == 1 and isinstance(n.args[0], ast.Call) and getattr(n.args[0].func, 'id', '') == 'len':
            n = n.args[0].args[0]
        else:
            return n


def literals(test, truth):
    """the ways a condition can come out so: a list of lists of facts"""
    if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
        return literals(test.operand, not truth)
    if isinstance(test, ast.BoolOp):
        if isinstance(test.op, ast.And) == truth:
            out = [[]]
            for v in test.values:
                out = [a + c for a in out for c in literals(v, truth)]
            return out[:8]
        out, before = [], [[]]
        for v in test.values:
            out += [a + c for a in before for c in literals(v, truth)]
            before = [a + c for a in before for c in literals(v, not truth)]
        return out[:8]
    if isinstance(test, ast.Constant):
        return [[]] if bool(test.value) == truth else []
    if isinstance(test, ast.NamedExpr):
        return literals(test.target, truth)
    if isinstance(test, ast.Compare) and len(test.ops) == 1:
        op, l, r = test.ops[0], test.left, test.comparators[0]
        flip = isinstance(op, (ast.NotEq, ast.IsNot, ast.NotIn))
        t = truth != flip
        if isinstance(l, ast.Constant) and not isinstance(r, ast.Constant):
            l, r = r, l
            op = {ast.Lt: ast.Gt(), ast.Gt: ast.Lt(), ast.LtE: ast.GtE(), ast.GtE: ast.LtE()}.get(type(op), op)
        if isinstance(l, ast.Call) and getattr(l.func, 'id', '') == 'len' and len(l.args) == 1 and isinstance(r, ast.Constant) and type(r.value) is int:
            x = key(unwrap(l.args[0]))
            empty = {(ast.Eq, 0): t, (ast.NotEq, 0): t, (ast.Gt, 0): not truth, (ast.GtE, 1): not truth, (ast.Lt, 1): truth, (ast.LtE, 0): truth}.get((type(op), r.value))
            if empty is not None:
                return [[(('empty', x), empty)]]
            if isinstance(op, (ast.Gt, ast.GtE)) and truth and r.value >= 1 or isinstance(op, (ast.Lt, ast.LtE)) and not truth and r.value >= 1:
                return [[(('empty', x), False), (('test', key(test)), truth)]]
            if isinstance(op, (ast.Eq, ast.NotEq)) and t and r.value > 0:
                return [[(('empty', x), False), (('eq', key(l), repr(r.value)), True)]]
        if isinstance(op, (ast.Eq, ast.NotEq, ast.Is, ast.IsNot)) and isinstance(r, ast.Constant):
            out = [(('eq', key(l), repr(r.value)), t)]
            if t:
                out.append((('empty', key(l)), not r.value))
            return [out]
        if isinstance(op, (ast.In, ast.NotIn)) and isinstance(r, (ast.Tuple, ast.List, ast.Set)) and all(isinstance(e, ast.Constant) for e in r.elts):
            if t:
                return [[(('eq', key(l), repr(e.value)), True)] for e in r.elts][:8]
            return [[(('eq', key(l), repr(e.value)), False) for e in r.elts]]
        if flip:
            op = {ast.NotEq: ast.Eq, ast.IsNot: ast.Is, ast.NotIn: ast.In}[type(op)]()
        return [[(('test', key(ast.Compare(l, [op], [r]))), t)]]
    if isinstance(test, (ast.Name, ast.Attribute, ast.Subscript)) or isinstance(test, ast.Call) and getattr(test.func, 'id', '') in ('len', 'list', 'bool'):
        if isinstance(test, ast.Call) and getattr(test.func, 'id', '') in ('len', 'bool') and test.args:
            test = test.args[0]
        x = key(unwrap(test))
        out = [(('empty', x), not truth)]
        if truth:
            out.append((('eq', x, 'None'), False))
        return [out]
    return [[(('test', key(test)), truth)]]


def add(facts, new):
    """facts with more of them; None when they contradict"""
    d = dict(facts)
    for k, v in new:
        if d.get(k, v) != v:
            return None
        if k[0] == 'eq' and v and any(q[0] == 'eq' and q[1] == k[1] and q[2] != k[2] and w for q, w in d.items()):
            return None
        d[k] = v
        if k[0] == 'empty' and not v:
            q = ('eq', k[1], 'None')
            if d.get(q):
                return None
            d[q] = False
    return frozenset(d.items())


def words(text):
    import re
    return set(re.findall(r'[A-Za-z_]\w*', text))


class Locals:
    def __init__(self, f):
        self.f = f
        self.own = bound_names(f.node)
        self.found = {}
        self.capped = False
        self.exc = []
        self.uses = 0

    def run(self):
        start = Way(frozenset(params_of(self.f.node)), frozenset())
        self.glob = {x for n in ast.walk(self.f.node) if isinstance(n, (ast.Global, ast.Nonlocal)) for x in n.names}
        self.loops = []
        self.block(self.f.node.body, {start})
        return self.found

    def cap(self, ways):
        if len(ways) <= LIMIT:
            return ways
        # the facts about what is assigned matter most: forget the rest
        out = {Way(w.assigned, frozenset(x for x in w.facts if x[0][0] != 'test')) for w in ways}
        if len(out) > LIMIT:
            out = {Way(w.assigned, frozenset()) for w in ways}
            self.capped = True
        return out

    def kill(self, ways, names, touched=()):
        if not names and not touched:
            return ways
        out = set()
        for w in ways:
            facts = frozenset(x for x in w.facts if not (words(' '.join(x[0][1:2])) & names) and not (x[0][0] == 'empty' or 'len(' in x[0][1] or '.' in x[0][1] or '[' in x[0][1]) & bool(words(x[0][1]) & set(touched)))
            out.add(w if facts == w.facts else Way(w.assigned, facts))
        return out

    def cond(self, ways, test, truth):
        out = set()
        ls = literals(test, truth)
        for w in ways:
            for l in ls:
                f = add(w.facts, l)
                if f is not None:
                    out.add(Way(w.assigned, f))
        return self.cap(out)

    # ------------------------------------------------------------------ uses
    def use(self, n, ways):
        """the names an expression takes, in the order it takes them (short circuits heeded)"""
        if n is None:
            return ways
        if isinstance(n, ast.Name):
            if isinstance(n.ctx, ast.Load) and n.id in self.own and n.id not in self.glob:
                self.uses += 1
                bad = [w for w in ways if n.id not in w.assigned]
                if bad:
                    self.found.setdefault((n.id, n.lineno), (n, len(bad) == len(ways)))
                    ways = {Way(w.assigned | {n.id}, w.facts) for w in ways}
            return ways
        if isinstance(n, ast.BoolOp):
            done, left = set(), ways
            for i, v in enumerate(n.values):
                left = self.use(v, left)
                if i < len(n.values) - 1:
                    done |= self.cond(left, v, isinstance(n.op, ast.Or))
                    left = self.cond(left, v, isinstance(n.op, ast.And))
            base = self.drop(done) | left
            return self.cap(base or ways)
        if isinstance(n, ast.IfExp):
            ways = self.use(n.test, ways)
            return self.cap(self.use(n.body, self.cond(ways, n.test, True)) | self.use(n.orelse, self.cond(ways, n.test, False)))
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            inner = {x.id for g in n.generators for x in ast.walk(g.target) if isinstance(x, ast.Name)}
            for i, g in enumerate(n.generators):
                if i == 0:
                    ways = self.use(g.iter, ways)
            shadow = {Way(w.assigned | inner, w.facts) for w in ways}
            for i, g in enumerate(n.generators):
                if i:
                    shadow = self.use(g.iter, shadow)
                for c in g.ifs:
                    shadow = self.cond(self.use(c, shadow), c, True)
            for x in ([n.key, n.value] if isinstance(n, ast.DictComp) else [n.elt]):
                shadow = self.use(x, shadow)
            return ways
        if isinstance(n, ast.Lambda):
            return ways
        if isinstance(n, ast.NamedExpr):
            ways = self.use(n.value, ways)
            return {Way(w.assigned | {n.target.id}, w.facts) for w in self.kill(ways, {n.target.id})}
        for x in ast.iter_child_nodes(n):
            if isinstance(x, (ast.expr, ast.keyword, ast.FormattedValue)):
                ways = self.use(x.value if isinstance(x, ast.keyword) else x, ways)
        return ways

    def drop(self, ways):
        return ways

    def touched(self, n):
        """names whose contents a statement can change"""
        out = set()
        for x in ast.walk(n):
            if isinstance(x, ast.Call):
                if isinstance(x.func, ast.Name) and x.func.id in ('len', 'isinstance', 'str', 'list', 'sorted', 'enumerate', 'print', 'hasattr', 'getattr', 'type', 'repr', 'tuple', 'set', 'range'):
                    continue
                if isinstance(x.func, ast.Attribute):
                    out |= {y.id for y in ast.walk(x.func.value) if isinstance(y, ast.Name)}
                for a in list(x.args) + [k.value for k in x.keywords]:
                    out |= {y.id for y in ast.walk(a) if isinstance(y, ast.Name)}
            elif isinstance(x, (ast.Attribute, ast.Subscript)) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out |= {y.id for y in ast.walk(x.value) if isinstance(y, ast.Name)}
        return out

    def bind(self, target, ways, value=None):
        ns = {x.id for x in ast.walk(target) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        for x in ast.walk(target):
            if isinstance(x, (ast.Attribute, ast.Subscript)):
                for y in ast.iter_child_nodes(x):
                    if isinstance(y, ast.expr):
                        ways = self.use(y, ways)
                break
        ways = {Way(w.assigned | ns, w.facts) for w in self.kill(ways, ns)}
        if isinstance(target, ast.Name) and value is not None:
            new = None
            if isinstance(value, ast.Constant):
                new = [(('eq', target.id, repr(value.value)), True), (('empty', target.id), not value.value)]
            elif isinstance(value, (ast.List, ast.Dict, ast.Tuple, ast.Set)):
                n = len(value.keys if isinstance(value, ast.Dict) else value.elts)
                if not n:
                    new = [(('empty', target.id), True), (('eq', target.id, 'None'), False)]
            elif isinstance(value, ast.Name) and value.id != target.id:
                # what is known of the one is known of the other
                out = set()
                for w in ways:
                    f = add(w.facts, [((k[0], target.id) + k[2:], v) for k, v in w.facts if k[0] in ('eq', 'empty') and k[1] == value.id])
                    out.add(Way(w.assigned, f if f is not None else w.facts))
                return out
            if new:
                ways = {Way(w.assigned, add(w.facts, new) or w.facts) for w in ways}
        return ways

    # ------------------------------------------------------------------ statements
    def block(self, body, ways):
        for n in body:
            if not ways:
                return ways
            ways = self.cap(ways)
            for e in self.exc:
                e |= ways
            ways = self.stmt(n, ways)
        return ways

    def stmt(self, n, ways):
        if isinstance(n, ast.Assign):
            ways = self.kill(self.use(n.value, ways), set(), self.touched(n))
            for t in n.targets:
                ways = self.bind(t, ways, n.value)
            return ways
        if isinstance(n, ast.AnnAssign):
            if n.value is None:
                return ways
            return self.bind(n.target, self.kill(self.use(n.value, ways), set(), self.touched(n)), n.value)
        if isinstance(n, ast.AugAssign):
            ways = self.use(n.value, ways)
            if isinstance(n.target, ast.Name):
                ways = self.use(ast.copy_location(ast.Name(n.target.id, ast.Load()), n.target), ways)
            return self.bind(n.target, self.kill(ways, set(), self.touched(n)))
        if isinstance(n, ast.Expr):
            return self.kill(self.use(n.value, ways), set(), self.touched(n))
        if isinstance(n, ast.Return):
            self.use(n.value, ways)
            return set()
        if isinstance(n, ast.Raise):
            self.use(n.cause, self.use(n.exc, ways))
            return set()
        if isinstance(n, ast.If):
            ways = self.use(n.test, ways)
            return self.cap(self.block(n.body, self.cond(ways, n.test, True)) | self.block(n.orelse, self.cond(ways, n.test, False)))
        if isinstance(n, (ast.For, ast.AsyncFor, ast.While)):
            isfor = not isinstance(n, ast.While)
            if isfor:
                ways = self.use(n.iter, ways)
            stored = {x.id for y in n.body for x in ast.walk(y) if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del))}
            if isfor:
                x = ('empty', key(unwrap(n.iter)))
                static = unwrap(n.iter)
                some = isinstance(static, (ast.List, ast.Tuple, ast.Set)) and static.elts or isinstance(static, ast.Constant) and isinstance(static.value, str) and static.value
                nothing = set() if some else {Way(w.assigned, f) for w in ways for f in [add(w.facts, [(x, True)])] if f is not None}
                entry = {Way(w.assigned, f) for w in ways for f in [add(w.facts, [(x, False)])] if f is not None}
            else:
                ways = self.use(n.test, ways)
                nothing, entry = self.cond(ways, n.test, False), self.cond(ways, n.test, True)
            seen, ends, breaks = set(), set(), set()
            for _ in range(12):
                new = entry - seen
                if not new:
                    break
                seen |= new
                self.loops.append((set(), set()))
                if isfor:
                    new = self.bind(n.target, new)
                out = self.block(n.body, new)
                br, co = self.loops.pop()
                out = self.cap(out | co)
                breaks |= br
                if isfor:
                    ends |= out
                    entry = self.cap(out)
                else:
                    out = self.use(n.test, out)
                    ends |= self.cond(out, n.test, False)
                    entry = self.cond(out, n.test, True)
            else:
                self.capped = True
            after = self.cap(nothing | ends)
            after = self.block(n.orelse, after) if n.orelse else after
            return self.cap(after | breaks)
        if isinstance(n, ast.Break):
            if self.loops:
                self.loops[-1][0].update(ways)
            return set()
        if isinstance(n, ast.Continue):
            if self.loops:
                self.loops[-1][1].update(ways)
            return set()
        if isinstance(n, (ast.With, ast.AsyncWith)):
            skip = set()
            for i in n.items:
                ways = self.use(i.context_expr, ways)
                if i.optional_vars is not None:
                    ways = self.bind(i.optional_vars, ways)
            if any('suppress' in key(i.context_expr) for i in n.items):
                self.exc.append(set())
                out = self.block(n.body, ways)
                return self.cap(out | self.exc.pop())
            return self.block(n.body, ways)
        if isinstance(n, ast.Try):
            self.exc.append(set())
            out = self.block(n.body, ways)
            mid = self.cap(self.exc.pop())
            if n.orelse:
                out = self.block(n.orelse, out)
            res = set(out)
            for h in n.handlers:
                w = self.use(h.type, mid) if h.type is not None else mid
                if h.name:
                    w = {Way(x.assigned | {h.name}, x.facts) for x in w}
                w = self.block(h.body, w)
                if h.name:
                    w = {Way(x.assigned - {h.name}, x.facts) for x in w}
                res |= w
            if n.finalbody:
                self.block(n.finalbody, mid | res)
                return self.block(n.finalbody, self.cap(res)) if res else set()
            return self.cap(res)
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for d in getattr(getattr(n, 'args', None), 'defaults', []):
                ways = self.use(d, ways)
            return {Way(w.assigned | {n.name}, w.facts) for w in ways}
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            ns = {a.asname or a.name.split('.')[0] for a in n.names}
            return {Way(w.assigned | ns, w.facts) for w in ways}
        if isinstance(n, ast.Delete):
            ns = set()
            for t in n.targets:
                if isinstance(t, ast.Name):
                    ways = self.use(ast.copy_location(ast.Name(t.id, ast.Load()), t), ways)
                    ns.add(t.id)
                else:
                    ways = self.use(t, ways)
            return {Way(w.assigned - ns, w.facts) for w in self.kill(ways, ns, self.touched(n))}
        if isinstance(n, ast.Assert):
            ways = self.use(n.test, ways)
            self.use(n.msg, self.cond(ways, n.test, False))
            return self.cond(ways, n.test, True)
        if isinstance(n, ast.Match):
            ways = self.use(n.subject, ways)
            res, rest = set(), ways
            for c in n.cases:
                ns = {getattr(x, k) for x in ast.walk(c.pattern) for k in ('name', 'rest') if getattr(x, k, None)}
                w = {Way(x.assigned | ns, x.facts) for x in rest}
                if c.guard is not None:
                    w = self.cond(self.use(c.guard, w), c.guard, True)
                res |= self.block(c.body, w)
                if c.guard is None and isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None:
                    rest = set()
            return self.cap(res | rest)
        return ways


# ---------------------------------------------------------------------- instance attributes
class Init:
    """which attributes of self have a value after a method, on every way through it"""

    def __init__(self, T, cls):
        self.T, self.cls, self.prog = T, cls, T.prog
        self.early = []         # (function, node, attribute, certain)
        self.depth = 0
        self.stack = []
        self.members = {n for k in self.prog.mro(cls) for n in k.members}

    def after(self, f, have):
        if f in self.stack or len(self.stack) > 5 or f.kind in ('static', 'class'):
            return have
        self.stack.append(f)
        keep = self.depth
        a = f.node.args.posonlyargs + f.node.args.args
        me, self.me = getattr(self, 'me', None), a[0].arg if a else None
        fs, self.f = getattr(self, 'f', None), f
        outs, self.outs = getattr(self, 'outs', None), []
        end = self.block(f.node.body, have)
        if end is not None:
            self.outs.append(end)
        res = frozenset.intersection(*self.outs) if self.outs else None
        self.me, self.f, self.outs, self.depth = me, fs, outs, keep
        self.stack.pop()
        return res if res is not None else have | {'*'}

    def meet(self, a, c):
        return c if a is None else a if c is None else a & c

    def block(self, body, have):
        for n in body:
            if have is None:
                return None
            have = self.stmt(n, have)
        return have

    def expr(self, n, have):
        """attributes read and set by an expression, in order"""
        if n is None or isinstance(n, (ast.Lambda, ast.Constant)):
            return have
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == self.me and isinstance(n.ctx, ast.Load):
            m, _ = self.prog.lookup(self.cls, n.attr)
            if isinstance(m, Prop) and m.get is not None:
                return self.after(m.get, have)
            if m is None and n.attr not in have and '*' not in have and '__' not in n.attr[:2]:
                self.early.append((self.f, n, n.attr, self.depth == 0))
            return have
        if isinstance(n, ast.Call):
            for x in list(n.args) + [k.value for k in n.keywords]:
                have = self.expr(x.value if isinstance(x, ast.Starred) else x, have)
            f = n.func
            if isinstance(f, ast.Attribute):
                r = f.value
                if isinstance(r, ast.Call) and getattr(r.func, 'id', '') == 'super':
                    m, _ = self.prog.lookup(self.cls, f.attr, after=self.f.cls)
                    return self.after(m, have) if isinstance(m, Func) else have
                if isinstance(r, ast.Name) and r.id == self.me:
                    m, _ = self.prog.lookup(self.cls, f.attr)
                    if isinstance(m, Func):
                        return self.after(m, have) if m.kind == 'method' else have
                    return self.expr(f, have)
                if isinstance(r, ast.Name) and r.id in self.prog.classes and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == self.me:
                    m, _ = self.prog.lookup(self.prog.classes[r.id], f.attr)
                    return self.after(m, have) if isinstance(m, Func) else have
                if f.attr == 'update' and isinstance(r, ast.Attribute) and r.attr == '__dict__':
                    return have | {'*'}
                return self.expr(r, have)
            if isinstance(f, ast.Name) and f.id == 'setattr' and n.args and isinstance(n.args[0], ast.Name) and n.args[0].id == self.me:
                if isinstance(n.args[1], ast.Constant):
                    return have | {n.args[1].value}
                return have | {'*'}
            if isinstance(f, ast.Name) and f.id == 'vars':
                return have | {'*'}
            return self.expr(f, have)
        if isinstance(n, (ast.BoolOp, ast.IfExp, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            kids = [x for x in ast.iter_child_nodes(n) if isinstance(x, ast.expr)]
            first = n.values[0] if isinstance(n, ast.BoolOp) else n.test if isinstance(n, ast.IfExp) else n.generators[0].iter
            have = self.expr(first, have)
            self.depth += 1
            for x in kids + [y for g in getattr(n, 'generators', []) for y in [g.iter] + g.ifs]:
                if x is not first:
                    self.expr(x, have)
            self.depth -= 1
            return have
        for x in ast.iter_child_nodes(n):
            if isinstance(x, (ast.expr, ast.FormattedValue)):
                have = self.expr(x, have)
        return have

    def assign(self, t, have):
        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.me:
            m, _ = self.prog.lookup(self.cls, t.attr)
            if isinstance(m, Prop):
                return self.after(m.set, have) if m.set is not None else have
            if t.attr == '__dict__':
                return have | {'*'}
            return have | {t.attr}
        if isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                have = self.assign(x, have)
            return have
        if isinstance(t, (ast.Subscript, ast.Attribute)):
            return self.expr(t.value, have)
        return have

    def branch(self, body, have):
        self.depth += 1
        out = self.block(body, have)
        self.depth -= 1
        return out

    def stmt(self, n, have):
        if isinstance(n, ast.Assign):
            have = self.expr(n.value, have)
            for t in n.targets:
                have = self.assign(t, have)
            return have
        if isinstance(n, ast.AnnAssign):
            return self.assign(n.target, self.expr(n.value, have)) if n.value is not None else have
        if isinstance(n, ast.AugAssign):
            import copy
            t = copy.copy(n.target)
            t.ctx = ast.Load()
            return self.assign(n.target, self.expr(n.value, self.expr(t, have)))
        if isinstance(n, ast.Expr):
            return self.expr(n.value, have)
        if isinstance(n, ast.Return):
            self.outs.append(self.expr(n.value, have))
            return None
        if isinstance(n, ast.Raise):
            return None
        if isinstance(n, ast.If):
            have = self.expr(n.test, have)
            return self.meet(self.branch(n.body, have), self.branch(n.orelse, have))
        if isinstance(n, (ast.For, ast.While)):
            have = self.expr(n.iter if isinstance(n, ast.For) else n.test, have)
            # names set one after the other by a literal list of names
            if isinstance(n, ast.For) and any(isinstance(x, ast.Call) and getattr(x.func, 'id', '') == 'setattr' for y in n.body for x in ast.walk(y)):
                return have | {'*'}
            self.branch(n.body, have)
            return self.block(n.orelse, have) if n.orelse else have
        if isinstance(n, ast.With):
            for i in n.items:
                have = self.expr(i.context_expr, have)
            return self.block(n.body, have)
        if isinstance(n, ast.Try):
            out = self.branch(n.body, have)
            if out is not None and n.orelse:
                out = self.block(n.orelse, out)
            for h in n.handlers:
                out = self.meet(out, self.branch(h.body, have))
            if n.finalbody:
                fin = self.block(n.finalbody, have)
                return None if out is None else out | (fin or have)
            return out
        if isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == self.me:
                    have = have - {t.attr}
            return have
        return have
