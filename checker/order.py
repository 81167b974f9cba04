"""Order and chance: a flow-sensitive, interprocedural taint analysis over the syntax trees.

Every expression gets an abstract value: what kind of container it is, where its order was left to chance (O: taken from a set,
whose order depends on hashes and addresses), where the value itself was left to chance (V: global random generator, clock, environment,
id, hash), and the same for its elements. Within a loop over a set the loop variable is pending: which element comes when is left to chance,
their collection is not; what a list, a dict or a text gathers there has no fixed order, a set or a sum does not mind."""
import ast
from prog import Func, Prop

EMPTY = frozenset()
DEPTH = 4


def one(flags):
    """one origin is enough to tell"""
    if len(flags) < 2:
        return flags
    real = [x for x in flags if x[0] not in SOFT]
    if len(real) < 2:
        return flags
    keep = min(real, key=lambda o: (o[0].path, o[1], o[2]))
    return frozenset(x for x in flags if x is keep or x[0] in SOFT)


class AV:
    __slots__ = ('kind', 'O', 'V', 'C', 'elem', 'keys', 'fields', 'null', 'fn', 'lvl', '_h')

    def __init__(self, kind=None, O=EMPTY, V=EMPTY, C=EMPTY, elem=None, keys=None, fields=(), null=None, fn=None, lvl=0):
        O, V, C = one(O), one(V), one(C)
        self.kind, self.O, self.V, self.C, self.elem, self.keys, self.null, self.fn, self.lvl = kind, O, V, C, elem, keys, null, fn, lvl
        self.fields = tuple(sorted(fields.items(), key=lambda p: repr(p[0]))) if isinstance(fields, dict) else fields
        self._h = hash((kind, O, V, C, elem, keys, self.fields, null, fn, lvl))

    def key(self):
        return (self.kind, self.O, self.V, self.C, self.elem, self.keys, self.fields, self.null, self.fn, self.lvl)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or isinstance(o, AV) and self._h == o._h and self.key() == o.key()

    def but(self, **kw):
        d = dict(kind=self.kind, O=self.O, V=self.V, C=self.C, elem=self.elem, keys=self.keys, fields=self.fields, null=self.null, fn=self.fn, lvl=self.lvl)
        d.update(kw)
        return AV(**d)

    def field(self, k):
        for a, b in self.fields:
            if a == k and type(a) is type(k):
                return b
        return None

    def at(self, k=None):
        """the element under a constant key, or any element"""
        if k is not None:
            f = self.field(k)
            if f is not None:
                return f
        out = self.elem
        if k is None:
            for _, b in self.fields:
                out = join(out, b)
        return out or ANY


ANY = AV()
NUM = AV('num', null='no')
BOOL = AV('bool', null='no')
STR = AV('str', null='no')
NONE_ = AV('none', null='yes')


def join(a, b, d=0):
    if a is None or a is b:
        return b
    if b is None or a == b:
        return a
    if a.kind == b.kind:
        kind = a.kind
    elif 'set' in (a.kind, b.kind):
        kind = 'set'
    elif a.kind == 'none':
        kind = b.kind
    elif b.kind == 'none':
        kind = a.kind
    else:
        kind = None
    V = a.V | b.V
    if d >= DEPTH:
        return AV(kind, a.O | b.O, V, a.C | b.C, lvl=min(a.lvl, b.lvl))
    fa, fb = dict(a.fields), dict(b.fields)
    fields = {}
    for k in list(fa) + [k for k in fb if k not in fa]:
        if k in fa and k in fb:
            fields[k] = join(fa[k], fb[k], d + 1)
        elif (b if k in fa else a).kind in ('dict', 'tuple', 'list') or (b if k in fa else a).elem is None:
            # missing on the other side
            fields[k] = join((fa if k in fa else fb)[k], (b if k in fa else a).elem, d + 1)
    elem = join(a.elem, b.elem, d + 1)
    for k, v in list(fa.items()) + list(fb.items()):
        if k not in fields:
            elem = join(elem, v, d + 1)
    return AV(kind, a.O | b.O, V, a.C | b.C, elem, join(a.keys, b.keys, d + 1), fields,
              a.null if a.null == b.null else None, a.fn if a.fn == b.fn else None, min(a.lvl, b.lvl))


def cut(a, d=0):
    """no deeper than DEPTH"""
    if a is None:
        return None
    if d >= DEPTH:
        return AV(a.kind, a.O, deep(a, 'V'), a.C, lvl=a.lvl) if a.elem is not None or a.fields or a.keys is not None else a
    if a.elem is None and not a.fields and a.keys is None:
        return a
    return a.but(elem=cut(a.elem, d + 1), keys=cut(a.keys, d + 1), fields={k: cut(v, d + 1) for k, v in a.fields})


def deep(a, what, seen=0):
    """every flag of the kind anywhere within"""
    if a is None or seen > DEPTH + 2:
        return EMPTY
    out = getattr(a, what)
    for x in [a.elem, a.keys] + [v for _, v in a.fields]:
        if x is not None:
            out = out | deep(x, what, seen + 1)
    return out


def remap(a, f, d=0):
    """V of a value and of all it holds through f"""
    if a is None:
        return None
    V = f(a.V)
    e, k, fs = remap(a.elem, f, d + 1), remap(a.keys, f, d + 1), {x: remap(v, f, d + 1) for x, v in a.fields}
    return a if V == a.V and e is a.elem and k is a.keys and all(fs[x] is v for x, v in a.fields) else a.but(V=V, elem=e, keys=k, fields=fs)


def relevel(a, f):
    return a if a is None or f(a.lvl) == a.lvl else a.but(lvl=f(a.lvl))


BUILTIN = {'dict': dict, 'list': list, 'tuple': tuple, 'str': str}


TOKENS = ('id', 'hash')       # different for different things, otherwise left to chance
SOFT = ('p', 'id', 'hash')


class Ext:
    """something of another library"""
    def __init__(self, name):
        self.name, self.env, self.node = name, None, None

    def __hash__(self):
        return hash(self.name)

    def __eq__(self, o):
        return isinstance(o, Ext) and self.name == o.name


class Dead(Exception):
    """what follows is not reached"""


class Loop:
    __slots__ = ('id', 'origin')

    def __init__(self, i, origin):
        self.id, self.origin = i, origin


class Frame_:
    """one activation"""
    def __init__(self, f, module, env, loops):
        self.f, self.module, self.env, self.loops = f, module, env, loops
        self.ret = None
        self.ctl = EMPTY
        self.mutated = set()
        self.base = len(loops)
        self.yields = None
        self.popped = False


MUTATORS = {'append', 'extend', 'insert', 'update', 'add', 'discard', 'remove', 'pop', 'popitem', 'clear', 'setdefault', 'sort', 'reverse', 'shuffle',
            'appendleft', 'extendleft', 'intersection_update', 'difference_update', 'symmetric_difference_update', '__setitem__'}
SETOPS = {'union', 'intersection', 'difference', 'symmetric_difference'}
COLLS = {'list', 'tuple', 'set', 'dict', 'gen', 'view', 'str'}
CHANCE = ('random.', 'secrets.', 'uuid.', 'time.', 'datetime.', 'os.environ', 'os.getenv', 'os.getpid', 'os.urandom', 'os.times', 'os.getcwd',
          'os.listdir', 'os.scandir', 'glob.', 'tempfile.', 'socket.', 'platform.', 'getpass.', 'threading.get', 'gc.', 'sys.argv', 'numpy.random')


class Analysis:
    def __init__(self, prog, relpath=None):
        self.prog = prog
        self.attrs = {}            # attribute name -> AV
        self.memo = {}
        self.before = {}
        self.stack = []
        self.members = {}          # name -> [Func] of methods; properties
        self.props = {}
        self.setters = {}
        self.consts = {}
        self.sites = 0
        self.iters = set()
        self.busy = set()
        self.changed = False
        for c in prog.classes.values():
            for n, m in c.members.items():
                if isinstance(m, Func):
                    self.members.setdefault(n, []).append(m)
                elif isinstance(m, Prop):
                    if m.get:
                        self.props.setdefault(n, []).append(m.get)
                    if m.set:
                        self.setters.setdefault(n, []).append(m.set)
                elif isinstance(m, ast.AST):
                    self.consts.setdefault(n, []).append((m, c.module))

    # -- places
    def origin(self, fr, node, what):
        return (fr.f, getattr(node, 'lineno', 0), what)

    def chance(self, fr, node, what):
        return frozenset([self.origin(fr, node, what)])

    # -- entry
    def entry(self, f):
        """result of a call from outside"""
        a = f.node.args
        args = {}
        pos = a.posonlyargs + a.args
        defaults = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        for x in pos + a.kwonlyargs:
            args[x.arg] = ANY
            if x.arg == 'seed':
                args[x.arg] = AV(null='no')
        if f.kind not in ('func', 'static') and pos:
            args[pos[0].arg] = AV('cls', null='no') if f.kind == 'class' else AV('obj', null='no')
        if a.vararg:
            args[a.vararg.arg] = AV('tuple', elem=ANY)
        if a.kwarg:
            args[a.kwarg.arg] = AV('dict')
        return self.call(f, args, (), False)[0]

    def call(self, f, args, loops, seeded, ctl=EMPTY):
        """(result, final parameter values, mutated parameters, seeded); the loops around the call are one to what is called"""
        if not loops:
            return self.call_(f, {k: cut(v) for k, v in args.items()}, (), seeded, one(ctl))
        here = {('p', l.id) for l in loops}
        origin = EMPTY
        for l in loops:
            origin = origin | l.origin
        outer = Loop('outer', one(origin))
        seen = set()
        def inward(V):
            seen.update(V & here)
            return (V - here) | {('p', 'outer')} if V & here else V
        args = {k: cut(relevel(remap(v, inward), lambda n: 1 if n >= len(loops) else 0)) for k, v in args.items()}
        ret, out, mut, seed = self.call_(f, args, (outer,), seeded, one(ctl))
        back = frozenset(seen or {('p', loops[-1].id)})
        def outward(V):
            return (V - {('p', 'outer')}) | back if ('p', 'outer') in V else V
        def level(n):
            return len(loops) if n >= 1 else 0
        return relevel(remap(ret, outward), level), {k: relevel(remap(v, outward), level) for k, v in out.items()}, mut, seed

    def call_(self, f, args, loops, seeded, ctl):
        key = (f if isinstance(f, Func) else id(f), tuple(sorted(args.items())), tuple(l.origin for l in loops), seeded, ctl)
        if key in self.memo:
            return self.memo[key]
        if len(self.stack) > 60:
            return ANY, args, set(), seeded
        self.memo[key] = self.before.get(key) or (None, dict(args), set(), seeded)
        for _ in range(4):
            r = self.run(f, args, loops, seeded, None, ctl)
            if r[0] == self.memo[key][0] and r[1] == self.memo[key][1]:
                self.memo[key] = r
                break
            self.memo[key] = r
        return self.memo[key]

    def run(self, f, args, loops, seeded, env0, ctl=EMPTY):
        node = f.node if isinstance(f, Func) else f.node
        env = dict(env0 or {})
        env.update(args)
        env['#seeded'] = seeded
        fr = Frame_(f, f.module, env, tuple(loops))
        fr.ctl = ctl
        self.stack.append(f)
        try:
            if isinstance(node, ast.Lambda):
                try:
                    fr.ret = self.ev(fr, node.body)
                except Dead:
                    pass
            else:
                if getattr(f, 'isgen', False):
                    fr.yields = AV('gen', lvl=len(fr.loops))
                done = self.block(fr, node.body)
                if not done:
                    fr.ret = join(fr.ret, NONE_)
                if fr.yields is not None:
                    fr.ret = fr.yields
        finally:
            self.stack.pop()
        out = {k: fr.env.get(k, v) for k, v in args.items()} if fr.env is not None else dict(args)
        # a parameter that was assigned is another thing
        stores = {n.id for n in ast.walk(node) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
        mut = {n for n in fr.mutated if n in args and n not in stores}
        out = {k: (v if k not in stores else args[k]) for k, v in out.items()}
        return fr.ret, out, mut, bool(fr.env.get('#seeded')) if fr.env is not None else seeded

    # -- statements
    def block(self, fr, body):
        """True when control never leaves at the end"""
        old = fr.ctl
        for s in body:
            if self.stmt(fr, s):
                return True
        return False

    def merge(self, fr, envs):
        envs = [e for e in envs if e is not None]
        if not envs:
            return
        out = envs[0]
        for e in envs[1:]:
            m = {}
            for k in list(out) + [k for k in e if k not in out]:
                if k == '#seeded':
                    m[k] = bool(out.get(k)) and bool(e.get(k))
                else:
                    m[k] = join(out.get(k), e.get(k))
            out = m
        fr.env = out

    def stmt(self, fr, s):
        loops, ctl = fr.loops, fr.ctl
        try:
            return self.stmt_(fr, s)
        except Dead:
            fr.loops, fr.ctl = loops, ctl
            return True

    def stmt_(self, fr, s):
        if isinstance(s, ast.Expr):
            self.ev(fr, s.value)
        elif isinstance(s, ast.Assign):
            v = self.ev(fr, s.value)
            for t in s.targets:
                self.assign(fr, t, v, s)
        elif isinstance(s, ast.AnnAssign):
            if s.value is not None:
                self.assign(fr, s.target, self.ev(fr, s.value), s)
        elif isinstance(s, ast.AugAssign):
            self.aug(fr, s)
        elif isinstance(s, ast.Return):
            v = self.ev(fr, s.value) if s.value is not None else NONE_
            fr.ret = join(fr.ret, self.leave(fr, v.but(V=v.V | fr.ctl)))
            return True
        elif isinstance(s, ast.Raise):
            return True
        elif isinstance(s, (ast.Break, ast.Continue)):
            return True
        elif isinstance(s, ast.If):
            return self.branch(fr, s)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.loop(fr, s)
        elif isinstance(s, ast.While):
            self.whileloop(fr, s)
        elif isinstance(s, ast.Try):
            before = dict(fr.env)
            done = self.block(fr, s.body)
            if not done:
                done = self.block(fr, s.orelse)
            envs = [None if done else fr.env]
            mid = fr.env
            for h in s.handlers:
                self.merge(fr, [dict(before), dict(mid)])
                if h.name:
                    fr.env[h.name] = ANY
                if not self.block(fr, h.body):
                    envs.append(fr.env)
            live = [e for e in envs if e is not None]
            if live:
                self.merge(fr, live)
            d = self.block(fr, s.finalbody)
            return d or not live
        elif isinstance(s, ast.With):
            for i in s.items:
                v = self.ev(fr, i.context_expr)
                if i.optional_vars is not None:
                    self.assign(fr, i.optional_vars, v, s)
            return self.block(fr, s.body)
        elif isinstance(s, ast.FunctionDef):
            fr.env[s.name] = AV('func', null='no', fn=Local(s, fr.module, self, fr.env, fr.f))
        elif isinstance(s, ast.Delete):
            for t in s.targets:
                if isinstance(t, ast.Subscript):
                    self.ev(fr, t.slice)
        elif isinstance(s, ast.Match):
            self.ev(fr, s.subject)
            envs, before = [dict(fr.env)], dict(fr.env)
            for c in s.cases:
                fr.env = dict(before)
                for n in ast.walk(c.pattern):
                    if getattr(n, 'name', None):
                        fr.env[n.name] = ANY
                if not self.block(fr, c.body):
                    envs.append(fr.env)
            self.merge(fr, envs)
        elif isinstance(s, ast.Assert):
            self.ev(fr, s.test)
        return False

    def truth(self, fr, t):
        """True/False/None of a test, as far as Noneness tells"""
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            r = self.truth(fr, t.operand)
            return None if r is None else not r
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.comparators[0], ast.Constant) and t.comparators[0].value is None:
            v = self.ev(fr, t.left)
            if v.null is not None and isinstance(t.ops[0], (ast.Is, ast.Eq)):
                return v.null == 'yes'
            if v.null is not None and isinstance(t.ops[0], (ast.IsNot, ast.NotEq)):
                return v.null == 'no'
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'isinstance' and len(t.args) == 2:
            v = self.ev(fr, t.args[0])
            ks = t.args[1].elts if isinstance(t.args[1], ast.Tuple) else [t.args[1]]
            names = {k.id for k in ks if isinstance(k, ast.Name)}
            known = {'dict': {'dict', 'OrderedDict', 'Mapping'}, 'list': {'list', 'Iterable', 'Sequence'}, 'tuple': {'tuple', 'Iterable', 'Sequence'}, 'str': {'str'}}
            def ours(k):
                if isinstance(k, ast.Attribute):
                    return k.attr == '__class__'
                return isinstance(k, ast.Name) and k.id not in fr.env and (self.prog.resolve(fr.module, k.id) or ' ')[0] == 'cls'
            if v.kind in known and ks and all(ours(k) for k in ks):
                return False
            if v.kind in known and len(names) == len(ks) and not names & known[v.kind] and names <= {'dict', 'list', 'tuple', 'str', 'int', 'float', 'bool', 'set', 'frozenset'}:
                return False
        return None

    def real(self, fr, V):
        return frozenset(x for x in V if x[0] not in SOFT)

    def branch(self, fr, s):
        c = self.ev(fr, s.test)
        known = self.truth(fr, s.test)
        ctl = fr.ctl
        hit = self.real(fr, c.V)
        fr.ctl = ctl | hit
        names = {n.id for n in ast.walk(s.test) if isinstance(n, ast.Name)}
        before = fr.env
        fr.guard = getattr(fr, 'guard', ()) + (names,)
        envs, ends = [], []
        for want, part in ((True, s.body), (False, s.orelse)):
            if known is not None and known is not want:
                continue
            fr.env = dict(before)
            self.narrow(fr, s.test, want)
            d = self.block(fr, part)
            ends.append(d)
            if not d:
                envs.append(fr.env)
        fr.guard = fr.guard[:-1]
        fr.ctl = ctl
        if hit and any(ends) and not all(ends):
            fr.ctl = ctl | hit     # what follows happens or not
        if envs:
            self.merge(fr, envs)
        else:
            fr.env = before
        return not envs

    def narrow(self, fr, t, want):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.narrow(fr, t.operand, not want)
        if isinstance(t, ast.BoolOp) and isinstance(t.op, ast.And) is want:
            for x in t.values:
                self.narrow(fr, x, want)
        if isinstance(t, ast.Compare) and len(t.ops) == 1 and isinstance(t.left, ast.Name) and isinstance(t.comparators[0], ast.Constant) \
                and t.comparators[0].value is None and isinstance(t.ops[0], (ast.Is, ast.IsNot)) and t.left.id in fr.env:
            null = 'yes' if isinstance(t.ops[0], ast.Is) is want else 'no'
            fr.env[t.left.id] = fr.env[t.left.id].but(null=null)
        if isinstance(t, ast.Call) and isinstance(t.func, ast.Name) and t.func.id == 'isinstance' and len(t.args) == 2 and want \
                and isinstance(t.args[0], ast.Name) and t.args[0].id in fr.env and fr.env[t.args[0].id].kind is None:
            k = t.args[1]
            if isinstance(k, ast.Name) and k.id in ('list', 'tuple', 'dict', 'str'):
                fr.env[t.args[0].id] = fr.env[t.args[0].id].but(kind=k.id)

    def loop(self, fr, s):
        it = self.ev(fr, s.iter)
        O, el = self.take(fr, it, s.iter)
        V = frozenset(x for x in it.V)
        el = el.but(V=el.V | V)
        ctl = fr.ctl
        fr.ctl = ctl | self.real(fr, it.V)
        self.repeat(fr, s, O, lambda: self.assign(fr, s.target, self.pend(fr, el, bool(O)), s, quiet=True))
        fr.ctl = ctl
        if s.orelse:
            self.block(fr, s.orelse)

    def whileloop(self, fr, s):
        c = self.ev(fr, s.test)
        ctl = fr.ctl
        fr.ctl = ctl | self.real(fr, c.V)
        old, fr.popped = fr.popped, None
        before = fr.env
        fr.env = dict(before)
        mut, fr.mutated = fr.mutated, set()
        self.block(fr, s.body)       # a first look
        popped = fr.popped
        fr.mutated = mut
        fr.env = dict(before)
        self.repeat(fr, s, popped or EMPTY, lambda: self.ev(fr, s.test))
        fr.popped = old or popped
        fr.ctl = ctl
        if s.orelse:
            self.block(fr, s.orelse)

    def pend(self, fr, v, on):
        if not on or not fr.loops:
            return v
        return v.but(V=v.V | {('p', fr.loops[-1].id)})

    def repeat(self, fr, s, O, head):
        before = dict(fr.env)
        if O:
            self.iters.add((fr.f, getattr(s, 'lineno', 0)))
            fr.loops = fr.loops + (Loop((id(s), len(fr.loops)), frozenset(O)),)
            mut, fr.mutated = fr.mutated, set()
            fr.env = dict(before)
            head()
            self.block(fr, s.body)
            carried = {n for n in fr.mutated if n in before}
            mut |= fr.mutated
            fr.mutated = mut
            fr.env = dict(before)
            for n in carried:
                fr.env[n] = fr.env[n].but(C=fr.env[n].C | O)
        for _ in range(2):
            start = dict(fr.env)
            head()
            self.block(fr, s.body)
            self.merge(fr, [start, fr.env])
        if O:
            l = fr.loops[-1]
            fr.loops = fr.loops[:-1]
            for k, v in list(fr.env.items()):
                if k == '#seeded':
                    continue
                w = remap(v, lambda V: self.settle(V, l))
                C = before[k].C if k in before else w.C - O
                if w is not v or w.C != C or w.lvl > len(fr.loops):
                    fr.env[k] = w.but(C=C, lvl=min(w.lvl, len(fr.loops)))

    def settle(self, V, l):
        if ('p', l.id) in V:
            return (V - {('p', l.id)}) | l.origin
        return V

    def leave(self, fr, v):
        """out of the function, from within its own loops"""
        for l in fr.loops[fr.base:]:
            v = remap(v, lambda V: self.settle(V, l))
        return v if v.lvl <= fr.base or True else v

    def strip(self, fr, v, lvl):
        ids = {('p', l.id) for l in fr.loops[lvl:]}
        return remap(v, lambda V: V - ids) if ids else v

    def order(self, fr, lvl):
        out = EMPTY
        for l in fr.loops[lvl:]:
            out = out | l.origin
        return out

    # -- assignment
    def assign(self, fr, t, v, s, quiet=False):
        if isinstance(t, ast.Name):
            if t.id in ('_',):
                pass
            if any(t.id in g for g in getattr(fr, 'guard', ())) and not quiet:
                # chosen by comparison with what it was: best so far
                v = self.strip(fr, v, 0)
            fr.env[t.id] = v.but(V=v.V | fr.ctl) if fr.ctl else v
        elif isinstance(t, (ast.Tuple, ast.List)):
            O, el = self.take(fr, v, t)
            n = len(t.elts)
            star = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            for i, e in enumerate(t.elts):
                if isinstance(e, ast.Starred):
                    self.assign(fr, e.value, AV('list', O, v.V, elem=el, lvl=len(fr.loops)), s, quiet)
                    continue
                k = i if not star or i < star[0] else i - n
                x = v.field(k) if v.field(k) is not None else el
                if O and n > 1:
                    x = x.but(V=x.V | O)
                self.assign(fr, e, x.but(V=x.V | v.V), s, quiet)
        elif isinstance(t, ast.Attribute):
            o = self.ev(fr, t.value)
            for g in self.setters.get(t.attr, ()):
                ps = [x.arg for x in g.node.args.args]
                self.call(g, {ps[0]: self.me(o), ps[1]: v}, fr.loops, bool(fr.env.get('#seeded')), fr.ctl)
            mine = {x for x in o.V if x[0] == 'p'}
            if mine:
                v = remap(v, lambda V: V - mine)
            for l in fr.loops[o.lvl:]:
                v = remap(v, lambda V: self.settle(V, l))
            self.setattr_(t.attr, v.but(V=v.V | fr.ctl | self.real(fr, o.V), C=EMPTY, lvl=0))
        elif isinstance(t, ast.Subscript):
            k = self.ev(fr, t.slice)
            self.mutate(fr, t.value, lambda c: self.store(fr, c, t.slice, k, v))
        elif isinstance(t, ast.Starred):
            self.assign(fr, t.value, v, s, quiet)

    def setattr_(self, name, v):
        v = remap(v, lambda V: frozenset(x for x in V if x[0] not in ('p', 'hash')))
        v = cut(v)
        old = self.attrs.get(name)
        new = join(old, v)
        if new != old:
            self.attrs[name] = new
            self.changed = True

    def store(self, fr, c, node, k, v):
        O = self.order(fr, c.lvl)
        pend = any(('p', l.id) in k.V for l in fr.loops[c.lvl:])
        if O and pend:
            v = self.strip(fr, v, c.lvl)
        else:
            for l in fr.loops[c.lvl:]:
                v = remap(v, lambda V: self.settle(V, l))
            if c.kind == 'dict' or not pend:
                # the same places are written each time, in an order that does not matter
                O = O if pend else EMPTY
        O = O | fr.ctl
        if isinstance(node, ast.Constant) and isinstance(node.value, (str, int)):
            fields = dict(c.fields)
            fields[node.value] = v if not fr.loops[c.lvl:] and not fr.ctl else join(fields.get(node.value), v)
            return c.but(O=c.O | O, fields=fields, keys=join(c.keys, STR))
        if isinstance(node, ast.Slice):
            v = v.at()
        kk = self.strip(fr, k, c.lvl)
        if pend or c.kind != 'dict':
            pass
        return c.but(O=c.O | O | (self.real(fr, kk.V) if c.kind == 'list' else EMPTY), elem=join(c.elem, v.but(V=v.V | fr.ctl)), keys=join(c.keys, kk.but(C=EMPTY)))

    def mutate(self, fr, e, f):
        """the value at a place is replaced by f of it"""
        if isinstance(e, ast.Name):
            fr.mutated.add(e.id)
            old = fr.env.get(e.id)
            if old is None:
                return
            fr.env[e.id] = cut(f(old))
        elif isinstance(e, ast.Attribute):
            o = self.ev(fr, e.value)
            for name in self.behind(e.attr):
                v = (self.attrs.get(name) or ANY).but(lvl=o.lvl)
                if {x for x in o.V if x[0] == 'p'}:
                    v = v.but(lvl=len(fr.loops))      # each its own
                w = f(v)
                if w is not None:
                    self.setattr_(name, w.but(lvl=0, C=EMPTY))
        elif isinstance(e, ast.Subscript):
            k = self.ev(fr, e.slice)
            key = e.slice.value if isinstance(e.slice, ast.Constant) else None
            self.inner(fr, e.value, key, k, f)
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ('setdefault', 'get') and e.args:
            k = self.ev(fr, e.args[0])
            self.inner(fr, e.func.value, None, k, f)
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            pass

    def behind(self, name, seen=()):
        """the attributes a property hands out"""
        out = []
        for g in self.props.get(name, ()):
            for n in ast.walk(g.node):
                if isinstance(n, ast.Return) and isinstance(n.value, ast.Attribute) and n.value.attr not in seen:
                    out += self.behind(n.value.attr, seen + (name,))
        return out or [name]

    def inner(self, fr, base, key, k, f):
        mine = {x for x in k.V if x[0] == 'p'}
        def go(c):
            old = c.at(key)
            new = f(old.but(lvl=c.lvl))
            if key is not None and c.field(key) is not None:
                fields = dict(c.fields)
                fields[key] = new
                return c.but(fields=fields)
            return c.but(elem=join(c.elem, new))
        self.mutate(fr, base, go)

    def aug(self, fr, s):
        v = self.ev(fr, s.value)
        t = s.target
        if isinstance(t, ast.Name):
            c = fr.env.get(t.id, ANY)
            fr.mutated.add(t.id)
            fr.env[t.id] = self.augment(fr, c, v, s)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            if isinstance(t, ast.Attribute) and t.attr in self.setters:
                self.assign(fr, t, self.augment(fr, self.ev(fr, t), v, s), s)
            else:
                self.mutate(fr, t, lambda c: self.augment(fr, c, v, s))

    def augment(self, fr, c, v, s):
        if c.kind == 'set' or v.kind == 'set' and isinstance(s.op, (ast.BitOr, ast.BitAnd, ast.Sub, ast.BitXor)):
            return c.but(kind='set', elem=join(c.elem, self.strip(fr, v.at(), c.lvl)), V=c.V | self.real(fr, v.V))
        if c.kind in ('str', 'list', 'tuple') or v.kind in ('str', 'list', 'tuple'):
            O, el = self.take(fr, v, s) if v.kind != 'str' else (EMPTY, ANY)
            O = O | self.order(fr, c.lvl) | fr.ctl
            if (c.kind or v.kind) == 'str':
                return c.but(V=self.strip(fr, c.but(V=c.V | v.V), c.lvl).V | O, lvl=c.lvl)
            return c.but(O=c.O | O, V=c.V | self.real(fr, v.V), elem=join(c.elem, self.strip(fr, el, c.lvl)))
        if isinstance(s.op, (ast.Add, ast.Sub, ast.Mult, ast.BitOr, ast.BitAnd, ast.BitXor)):
            V = self.strip(fr, v, c.lvl).V
        else:
            V = v.V
        return c.but(V=c.V | V | fr.ctl)

    # -- expressions
    def take(self, fr, v, node):
        """(order flags, element) of going through an iterable"""
        O = v.O | v.C
        if v.kind == 'set':
            O = O | self.chance(fr, node, 'the elements of a set are taken in no fixed order')
        if v.kind == 'dict' or v.kind == 'view':
            el = v.keys or ANY
        elif v.kind == 'str':
            el = STR
        else:
            el = v.at()
        return O, el

    def ev(self, fr, e):
        m = getattr(self, 'x_' + type(e).__name__, None)
        if m is None:
            V = EMPTY
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    V = V | self.ev(fr, c).V
            return AV(V=V)
        r = m(fr, e)
        return r if r is not None else AV('none', lvl=len(fr.loops))

    def x_Constant(self, fr, e):
        v = e.value
        if v is None:
            return NONE_
        return AV({bool: 'bool', int: 'num', float: 'num', str: 'str'}.get(type(v)), null='no', lvl=len(fr.loops))

    def x_Name(self, fr, e):
        if e.id in fr.env:
            v = fr.env[e.id]
            if v.C and v.kind in ('num', 'bool', 'str', None) and v.elem is None and not v.fields:
                return v.but(V=v.V | v.C)
            return v
        r = self.prog.resolve(fr.module, e.id)
        if r is not None and r[0] == 'ext':
            return AV('func', fn=Ext(r[1]), null='no')
        if r is not None and r[0] == 'expr':
            sub = Frame_(fr.f, r[2], {'#seeded': False}, ())
            if len(self.stack) < 60:
                self.stack.append(None)
                try:
                    return self.ev(sub, r[1])
                finally:
                    self.stack.pop()
        return ANY

    def x_JoinedStr(self, fr, e):
        V = EMPTY
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                V = V | self.text(fr, self.ev(fr, x.value), x)
        return AV('str', V=V, null='no', lvl=len(fr.loops))

    def text(self, fr, v, node):
        V = deep(v, 'V') | deep(v, 'O') | v.C
        if self.anyset(v):
            V = V | self.chance(fr, node, 'the text of a set shows its elements in no fixed order')
        return V

    def anyset(self, v, d=0):
        return v is not None and d < 6 and (v.kind == 'set' or self.anyset(v.elem, d + 1) or any(self.anyset(x, d + 1) for _, x in v.fields))

    def x_Lambda(self, fr, e):
        return AV('func', null='no', fn=Local(e, fr.module, self, fr.env, fr.f))

    def items_(self, fr, elts, kind):
        O, V, elem, fields = EMPTY, EMPTY, None, {}
        plain = True
        for i, x in enumerate(elts):
            if isinstance(x, ast.Starred):
                v = self.ev(fr, x.value)
                o, el = self.take(fr, v, x)
                O, V, elem, plain = O | o, V | v.V, join(elem, el), False
            else:
                v = self.ev(fr, x)
                if plain and kind == 'tuple':
                    fields[i] = v
                else:
                    elem = join(elem, v)
        return AV(kind, O, V, elem=elem, fields=fields, null='no', lvl=len(fr.loops))

    def x_Tuple(self, fr, e):
        return self.items_(fr, e.elts, 'tuple')

    def x_List(self, fr, e):
        return self.items_(fr, e.elts, 'list')

    def x_Set(self, fr, e):
        return self.items_(fr, e.elts, 'set').but(O=EMPTY)

    def x_Dict(self, fr, e):
        out = AV('dict', null='no', lvl=len(fr.loops))
        fields, O, V, elem, keys = {}, EMPTY, EMPTY, None, None
        for k, x in zip(e.keys, e.values):
            v = self.ev(fr, x)
            if k is None:
                O, V, elem, keys = O | v.O, V | v.V, join(elem, v.elem), join(keys, v.keys)
                for a, b in v.fields:
                    fields[a] = b
            elif isinstance(k, ast.Constant) and isinstance(k.value, (str, int)):
                fields[k.value] = v
                keys = join(keys, STR)
            else:
                keys = join(keys, self.ev(fr, k))
                elem = join(elem, v)
        return out.but(O=O, V=V, elem=elem, keys=keys, fields=fields)

    def comp(self, fr, e, kind):
        env, loops = fr.env, fr.loops
        fr.env = dict(env)
        O = EMPTY
        V = EMPTY
        ls = []
        for g in e.generators:
            it = self.ev(fr, g.iter)
            o, el = self.take(fr, it, g.iter)
            V = V | self.real(fr, it.V)
            el = el.but(V=el.V | it.V)
            if o:
                self.iters.add((fr.f, e.lineno))
                l = Loop((id(g), len(fr.loops)), o)
                ls.append(l)
                fr.loops = fr.loops + (l,)
                el = el.but(V=el.V | {('p', l.id)})
            O = O | o
            self.assign(fr, g.target, el, e, quiet=True)
            for c in g.ifs:
                V = V | self.real(fr, self.ev(fr, c).V)
        if kind == 'dict':
            k, v = self.ev(fr, e.key), self.ev(fr, e.value)
        else:
            k, v = None, self.ev(fr, e.elt)
        ids = {('p', l.id) for l in ls}
        if kind == 'dict' and ids and not (ids & k.V):
            V = V | O & O if v.V & ids else V
            if v.V & ids:
                V = V | O          # one key, whichever comes last
        v = remap(v, lambda W: W - ids)
        k = remap(k, lambda W: W - ids)
        mut = fr.mutated
        new = {n: x for n, x in fr.env.items() if n in env and n in mut}
        fr.env, fr.loops = env, loops
        for n, x in new.items():
            fr.env[n] = x
        return AV(kind, EMPTY if kind == 'set' else O, V, elem=v, keys=k, null='no', lvl=len(loops))

    def x_ListComp(self, fr, e):
        return self.comp(fr, e, 'list')

    def x_SetComp(self, fr, e):
        return self.comp(fr, e, 'set')

    def x_GeneratorExp(self, fr, e):
        return self.comp(fr, e, 'gen')

    def x_DictComp(self, fr, e):
        return self.comp(fr, e, 'dict')

    def x_IfExp(self, fr, e):
        c = self.ev(fr, e.test)
        k = self.truth(fr, e.test)
        parts = ([e.body] if k is not False else []) + ([e.orelse] if k is not True else [])
        out = None
        for p in parts:
            out = join(out, self.ev(fr, p))
        return out.but(V=out.V | self.real(fr, c.V))

    def x_BoolOp(self, fr, e):
        out, V = None, EMPTY
        for x in e.values:
            v = self.ev(fr, x)
            V = V | v.V
            out = join(out, v)
        return out.but(V=out.V | V)

    def x_UnaryOp(self, fr, e):
        v = self.ev(fr, e.operand)
        return AV('bool' if isinstance(e.op, ast.Not) else v.kind, V=v.V, null='no', lvl=len(fr.loops))

    def x_Compare(self, fr, e):
        vs = [self.ev(fr, e.left)] + [self.ev(fr, c) for c in e.comparators]
        V = EMPTY
        for op, a, b in zip(e.ops, vs, vs[1:]):
            if isinstance(op, (ast.In, ast.NotIn)):
                V = V | frozenset(x for x in a.V | b.V if x[0] not in TOKENS)
                # which chance decided what is in it
            elif isinstance(op, (ast.Is, ast.IsNot)):
                V = V | frozenset(x for x in a.V | b.V if x[0] not in TOKENS)
            else:
                W = a.V | b.V
                if isinstance(op, (ast.Eq, ast.NotEq)):
                    W = frozenset(x for x in W if x[0] not in TOKENS)
                else:
                    W = frozenset(x[1] if x[0] in TOKENS else x for x in W)
                V = V | W
                for x in (a, b):
                    if x.kind in ('list', 'tuple', 'gen', 'str'):
                        V = V | x.O | x.C
        return AV('bool', V=V, null='no', lvl=len(fr.loops))

    def x_BinOp(self, fr, e):
        a, b = self.ev(fr, e.left), self.ev(fr, e.right)
        V = frozenset(x[1] if x[0] in TOKENS else x for x in a.V | b.V) if a.kind == 'num' or b.kind == 'num' else a.V | b.V
        if isinstance(e.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)) and ({'set', 'view'} & {a.kind, b.kind}):
            return AV('set', V=V, elem=join(a.keys if a.kind == 'view' else a.elem, b.keys if b.kind == 'view' else b.elem), null='no', lvl=len(fr.loops))
        if isinstance(e.op, ast.Mod) and a.kind == 'str':
            return AV('str', V=V | self.text(fr, b, e), null='no', lvl=len(fr.loops))
        kind = a.kind if a.kind == b.kind else (a.kind or b.kind)
        if isinstance(e.op, ast.Mult) and 'str' in (a.kind, b.kind):
            kind = 'str'
        return AV(kind, O=a.O | b.O, V=V, C=a.C | b.C, elem=join(a.at() if a.fields else a.elem, b.at() if b.fields else b.elem),
                  keys=join(a.keys, b.keys), fields=b.fields if kind == 'dict' else (), null='no', lvl=len(fr.loops))

    def x_NamedExpr(self, fr, e):
        v = self.ev(fr, e.value)
        self.assign(fr, e.target, v, e)
        return v

    def x_Starred(self, fr, e):
        return self.ev(fr, e.value)

    def x_Yield(self, fr, e):
        v = self.ev(fr, e.value) if e.value is not None else NONE_
        fr.yields = self.gather(fr, fr.yields, v)
        return ANY

    def x_YieldFrom(self, fr, e):
        v = self.ev(fr, e.value)
        O, el = self.take(fr, v, e)
        fr.yields = self.gather(fr, fr.yields, el, O)
        return ANY

    def x_Await(self, fr, e):
        return self.ev(fr, e.value)

    def gather(self, fr, c, v, O=EMPTY):
        """appended to a list"""
        v = self.strip(fr, v, c.lvl)
        return c.but(O=c.O | O | self.order(fr, c.lvl) | fr.ctl, elem=join(c.elem, v.but(C=EMPTY)))

    def x_Attribute(self, fr, e):
        d = self.dotted(fr, e)
        if d in ('os.environ', 'sys.argv'):
            return AV(V=self.chance(fr, e, f'{d} is left to the environment'))
        if d:
            return AV('func', fn=Ext(d), null='no')
        o = self.ev(fr, e.value)
        if isinstance(o.fn, Ext):
            return AV('func', fn=Ext(o.fn.name + '.' + e.attr), null='no')
        if e.attr == '__dict__':
            return AV('dict', V=o.V)
        out = None
        for g in self.props.get(e.attr, ()):
            ps = g.node.args.args
            r = self.call(g, {ps[0].arg: self.me(o)} if ps else {}, fr.loops, bool(fr.env.get('#seeded')), fr.ctl)[0]
            out = join(out, r)
        if e.attr in self.attrs:
            out = join(out, self.attrs[e.attr])
        for x, m in self.consts.get(e.attr, ()):
            if id(x) not in self.busy:
                self.busy.add(id(x))
                out = join(out, self.ev(Frame_(fr.f, m, {'#seeded': False}, ()), x))
                self.busy.discard(id(x))
        out = out or ANY
        V = o.V
        return out.but(V=out.V | V, null=None, lvl=o.lvl if e.attr in self.attrs else out.lvl)

    def x_Subscript(self, fr, e):
        c = self.ev(fr, e.value)
        k = self.ev(fr, e.slice)
        if isinstance(e.slice, ast.Slice):
            return c.but(V=c.V | k.V | (c.O | c.C if c.kind != 'dict' else EMPTY))
        x = c.at(e.slice.value if isinstance(e.slice, ast.Constant) else None)
        if isinstance(e.slice, ast.UnaryOp) and isinstance(e.slice.operand, ast.Constant):
            x = c.at()
        V = x.V | c.V | frozenset(y for y in k.V if y[0] not in TOKENS)
        if c.kind in ('list', 'tuple', 'gen', 'str', None) and not (isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, str)):
            V = V | c.O | c.C
        elif c.C and not any(y[0] == 'p' for y in k.V):
            V = V | c.C
        return x.but(V=V, null=None, lvl=c.lvl)

    def x_Slice(self, fr, e):
        V = EMPTY
        for x in (e.lower, e.upper, e.step):
            if x is not None:
                V = V | self.ev(fr, x).V
        return AV(V=V)

    def dotted(self, fr, e):
        parts = []
        while isinstance(e, ast.Attribute):
            parts.append(e.attr)
            e = e.value
        if isinstance(e, ast.Name) and e.id not in fr.env:
            r = self.prog.resolve(fr.module, e.id)
            if r is not None and r[0] == 'ext':
                return '.'.join([r[1]] + parts[::-1])
        return None

    # -- calls
    def x_Call(self, fr, e):
        self.sites += 1
        f = e.func
        pos, kws, star = [], {}, None
        O_ = EMPTY
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.ev(fr, a.value)
                if v.kind == 'tuple' and v.elem is None and not v.fields:
                    continue
                o, el = self.take(fr, v, a)
                pos.append((None, el.but(V=el.V | o)))
                star = True
            else:
                pos.append((a, self.ev(fr, a)))
        extra = None
        for k in e.keywords:
            if k.arg is None:
                extra = join(extra, self.ev(fr, k.value))
            else:
                kws[k.arg] = (k.value, self.ev(fr, k.value))
        seeded = bool(fr.env.get('#seeded'))
        every = [v for _, v in pos] + [v for _, v in kws.values()] + ([extra] if extra is not None else [])
        V = EMPTY
        for v in every:
            V = V | v.V
        d = self.dotted(fr, f)
        if d:
            return self.external(fr, e, d, pos, kws, every, V)
        if isinstance(f, ast.Name):
            if f.id in fr.env:
                v = fr.env[f.id]
                if isinstance(v.fn, Ext):
                    return self.external(fr, e, v.fn.name, pos, kws, every, V)
                if v.fn is not None:
                    return self.invoke(fr, v.fn, None, pos, kws, extra, seeded, v.fn.env)
                return AV(V=V | v.V, lvl=len(fr.loops))
            r = self.prog.resolve(fr.module, f.id)
            if r is not None and r[0] == 'func':
                return self.invoke(fr, r[1], None, pos, kws, extra, seeded)
            if r is not None and r[0] == 'cls':
                return self.construct(fr, [r[1]], pos, kws, extra, seeded)
            if f.id == 'cls' or r is None:
                return self.builtin(fr, e, f.id, pos, kws, every, V)
            return AV(V=V)
        if isinstance(f, ast.Attribute):
            return self.method(fr, e, f, pos, kws, extra, seeded, every, V)
        v = self.ev(fr, f)
        if isinstance(v.fn, Ext):
            return self.external(fr, e, v.fn.name, pos, kws, every, V)
        if v.fn is not None:
            return self.invoke(fr, v.fn, None, pos, kws, extra, seeded, v.fn.env)
        if isinstance(f, ast.Call) and isinstance(f.func, ast.Name) and f.func.id == 'type' and fr.f is not None and fr.f.cls is not None:
            return self.construct(fr, self.family(fr.f.cls), pos, kws, extra, seeded)
        return AV(V=V | v.V)

    def family(self, c):
        return [k for k in self.prog.classes.values() if c in self.prog.mro(k)]

    def construct(self, fr, classes, pos, kws, extra, seeded):
        me = AV('obj', null='no', lvl=len(fr.loops))
        V = EMPTY
        for c in classes:
            m, _ = self.prog.lookup(c, '__init__')
            if isinstance(m, Func):
                self.invoke(fr, m, me, pos, kws, extra, seeded)
        return me

    def me(self, o):
        """an object as the receiver of a call: which one it is shows in the result, what it holds is found under its attributes"""
        return AV('obj', V=frozenset(x for x in o.V if x[0] == 'p'), null='no', lvl=o.lvl)

    def invoke(self, fr, f, me, pos, kws, extra, seeded, env0=None):
        # a hash handed on as a name is what the caller's object says it is
        def named(v):
            return remap(v, lambda V: frozenset(x for x in V if x[0] != 'hash'))
        pos = [(n, named(v)) for n, v in pos]
        kws = {k: (n, named(v)) for k, (n, v) in kws.items()}
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        args, places = {}, {}
        i = 0
        if me is not None and names:
            args[names[0]] = me
            i = 1
        rest = None
        for node, v in pos:
            if node is None:
                for n in names[i:]:
                    args[n] = join(args.get(n), v)
                rest = join(rest, v)
            elif i < len(names):
                args[names[i]] = join(args.get(names[i]), v)
                places[names[i]] = node
                i += 1
            else:
                rest = join(rest, v)
        allnames = names + [x.arg for x in a.kwonlyargs]
        more = {}
        for k, (node, v) in kws.items():
            if k in allnames:
                args[k] = join(args.get(k), v)
                places[k] = node
            else:
                more[k] = v
        O = EMPTY
        if extra is not None:
            for n in allnames:
                x = extra.field(n)
                if x is None and (n not in args):
                    x = extra.elem
                if x is not None:
                    args[n] = join(args.get(n), x)
            for k, v in extra.fields:
                if k not in allnames:
                    more[k] = v
        defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        defaults.update({x.arg: d for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None})
        sub = Frame_(fr.f, f.module, {'#seeded': False}, ())
        for n in allnames:
            if n not in args:
                args[n] = self.ev(sub, defaults[n]) if n in defaults else ANY
            elif extra is not None and n in defaults and n not in places and extra.field(n) is None:
                args[n] = join(args[n], self.ev(sub, defaults[n]))
        if a.vararg:
            args[a.vararg.arg] = AV('tuple', elem=rest, lvl=len(fr.loops))
        if a.kwarg:
            args[a.kwarg.arg] = AV('dict', O=O, elem=extra.elem if extra is not None else None, fields=more, keys=STR, lvl=len(fr.loops))
        args = {k: v for k, v in args.items()}
        local = None
        if env0 is not None:
            local = {k: v for k, v in env0.items() if k not in args}
        ret, out, mut, seed = self.call(f, args, fr.loops, seeded, fr.ctl) if local is None else self.closure(f, args, fr, seeded, local)
        for n in mut:
            if n in places:
                self.mutate(fr, places[n], lambda c, n=n: out[n].but(C=c.C, lvl=c.lvl))
        fr.env['#seeded'] = seed
        ret = ret if ret is not None else AV('none', lvl=len(fr.loops))
        return ret.but(V=ret.V | fr.ctl)

    def closure(self, f, args, fr, seeded, local):
        if len(self.stack) > 25 or self.stack.count(f) > 1:
            return ANY, args, set(), seeded
        r = self.run(f, args, fr.loops, seeded, local, fr.ctl)
        # what it changes of the enclosing function's variables
        return r

    def external(self, fr, e, d, pos, kws, every, V):
        lvl = len(fr.loops)
        if d in ('random.Random', 'random.SystemRandom'):
            arg = pos[0][1] if pos else kws['x'][1] if 'x' in kws else None
            if arg is None or arg.null == 'yes' or d.endswith('SystemRandom'):
                return AV('rng', V=self.chance(fr, e, 'a random generator without a seed'))
            return AV('rng', V=V, lvl=lvl, null='no')
        if d == 'random.seed':
            arg = pos[0][1] if pos else kws['a'][1] if 'a' in kws else None
            fr.env['#seeded'] = arg is not None and arg.null != 'yes' and not self.real(fr, arg.V)
            return NONE_
        if d.startswith('random.'):
            W = V
            if not fr.env.get('#seeded'):
                W = W | self.chance(fr, e, f'{d} of the unseeded global generator')
            for l in fr.loops:
                W = W | l.origin
            if d == 'random.shuffle' and e.args:
                self.mutate(fr, e.args[0], lambda c: c.but(O=c.O | W))
                return NONE_
            for v in every:
                o, el = self.take(fr, v, e)
                W = W | o
            if d in ('random.sample', 'random.choices'):
                return AV('list', O=W, elem=every[0].at() if every else None, lvl=lvl)
            return AV(V=W, lvl=lvl)
        if d.startswith('copy.') and every:
            return every[0].but(lvl=lvl)
        if d in ('collections.OrderedDict', 'collections.Counter', 'collections.deque', 'collections.defaultdict'):
            return self.builtin(fr, e, 'list' if d.endswith('deque') else 'dict', pos if not d.endswith('defaultdict') else [], kws, every, V)
        if any(d.startswith(c) or d + '.' == c for c in CHANCE):
            return AV(V=V | self.chance(fr, e, f'{d} is left to the environment'))
        if d.startswith('itertools.') or d.startswith('functools.reduce'):
            O, el = EMPTY, None
            for v in every:
                o, x = self.take(fr, v, e)
                O, el = O | o, join(el, x)
            if d.startswith('functools'):
                return AV(V=V | (O if len(every) < 1 else EMPTY))
            if d in ('itertools.chain', 'itertools.chain.from_iterable'):
                if d.endswith('from_iterable') and el is not None:
                    o, el = self.take(fr, el, e)
                    O = O | o
                return AV('gen', O, V, elem=el, lvl=lvl)
            return AV('gen', O, V, elem=AV('tuple', elem=el), lvl=lvl)
        W = V
        for v in every:
            W = W | deep(v, 'O') if v.kind != 'dict' else W
        return AV(V=W, lvl=lvl)

    def injective(self, fr, key):
        """does the sort key tell elements apart whose order was left to chance?"""
        if key is None:
            return True
        if isinstance(key, ast.Name) and key.id in ('str', 'repr', 'tuple', 'int', 'float'):
            return True
        if isinstance(key, ast.Lambda):
            p = [x.arg for x in key.args.args]
            def whole(b):
                if isinstance(b, ast.Name):
                    return b.id in p
                if isinstance(b, ast.Tuple):
                    return any(whole(x) for x in b.elts)
                if isinstance(b, ast.Attribute):
                    return whole(b.value) and b.attr in ('id', 'name', 'index', '_id', '_name', '_index', 'raw_id', '_raw_id')
                if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id in ('str', 'repr', 'int'):
                    return any(whole(x) for x in b.args)
                if isinstance(b, ast.Subscript) and isinstance(b.slice, ast.Constant):
                    return None if whole(b.value) else False
                if isinstance(b, ast.JoinedStr):
                    return any(isinstance(x, ast.FormattedValue) and whole(x.value) for x in b.values)
                if isinstance(b, ast.Call) and isinstance(b.func, ast.Name) and b.func.id == 'len':
                    return False
                if isinstance(b, ast.UnaryOp):
                    return whole(b.operand)
                return None
            r = whole(key.body)
            return r is not False
        if isinstance(key, ast.Name) and key.id in ('len', 'type'):
            return False
        if isinstance(key, ast.Attribute) and key.attr in ('get', '__getitem__'):
            return False
        return True

    def builtin(self, fr, e, n, pos, kws, every, V):
        lvl = len(fr.loops)
        a = pos[0][1] if pos else None
        real = self.real(fr, V)
        if n == 'cls' and fr.f is not None and fr.f.cls is not None:
            return self.construct(fr, self.family(fr.f.cls), pos, kws, None, bool(fr.env.get('#seeded')))
        if n in ('set', 'frozenset'):
            if a is None:
                return AV('set', null='no', lvl=lvl)
            O, el = self.take(fr, a, e)
            return AV('set', V=a.V, elem=el, null='no', lvl=lvl)
        if n in ('list', 'tuple', 'iter', 'reversed'):
            if a is None:
                return AV('list' if n == 'list' else 'tuple', null='no', lvl=lvl)
            O, el = self.take(fr, a, e)
            fields = a.fields if a.kind in ('list', 'tuple') and n != 'reversed' else ()
            return AV({'list': 'list', 'tuple': 'tuple'}.get(n, 'gen'), O, a.V, a.C, a.elem if fields else el, None, fields, 'no', None, lvl)
        if n == 'dict':
            if a is None:
                return AV('dict', fields={k: v for k, (_, v) in kws.items()}, keys=STR, null='no', lvl=lvl)
            if a.kind in ('dict', None):
                return AV('dict', a.O, a.V, elem=a.elem, keys=a.keys, fields=a.fields, null='no', lvl=lvl)
            O, el = self.take(fr, a, e)
            return AV('dict', O, a.V, elem=el.field(1) or el.at(), keys=el.field(0) or el.at(), null='no', lvl=lvl)
        if n == 'sorted' or n in ('min', 'max'):
            key = kws['key'][0] if 'key' in kws else None
            keyv = kws['key'][1] if 'key' in kws else None
            O, el, W = EMPTY, None, real
            if n == 'sorted' or len(pos) == 1:
                if a is not None:
                    O, el = self.take(fr, a, e)
                    el = el.but(V=el.V | a.V)
            else:
                for _, v in pos:
                    el = join(el, v)
            by = EMPTY
            if keyv is not None and keyv.fn is not None and not isinstance(keyv.fn, Ext):
                by = self.call_key(fr, keyv.fn, el or ANY)
            elif isinstance(key, ast.Name) and key.id in ('id', 'hash'):
                by = self.chance(fr, e, f'ordered by {key.id}')
            by = frozenset(x for x in by if x[0] != 'p')
            keyC = keyv.C if keyv is not None else EMPTY
            if isinstance(key, ast.Attribute) and key.attr in ('get', '__getitem__'):
                w = self.ev(fr, key.value)
                by = by | w.C | self.real(fr, w.V)
            left = by if self.injective(fr, key) else by | O
            if n == 'sorted':
                return AV('list', left, self.real(fr, a.V) if a is not None else EMPTY, a.C if a is not None else EMPTY, elem=el, null='no', lvl=lvl)
            C = a.C if a is not None and len(pos) == 1 else EMPTY
            el = el or ANY
            return el.but(V=(el.V if len(pos) > 1 else self.real(fr, el.V)) | left | C, lvl=lvl)
        if n in ('len', 'sum', 'any', 'all'):
            W = V
            for v in every:
                if n != 'len':
                    W = W | self.real(fr, deep(v, 'V'))
                W = W | v.C
            if n == 'sum' and a is not None and len(pos) + len(kws) > 1 and (pos[1][1] if len(pos) > 1 else kws.get('start', (0, ANY))[1]).kind in ('list', 'tuple'):
                O, el = self.take(fr, a, e)
                o, x = self.take(fr, el, e)
                return AV('list', O | o, W, elem=x, lvl=lvl)
            return AV('num' if n in ('len', 'sum') else 'bool', V=W, null='no', lvl=lvl)
        if n == 'enumerate' and a is not None:
            O, el = self.take(fr, a, e)
            return AV('gen', O, a.V, elem=AV('tuple', fields={0: NUM.but(V=O), 1: el}), lvl=lvl)
        if n == 'zip':
            O, fields = EMPTY, {}
            for i, v in enumerate(every):
                o, el = self.take(fr, v, e)
                O = O | o
                fields[i] = el.but(V=el.V | (o if len(every) > 1 else EMPTY))
            return AV('gen', O, V, elem=AV('tuple', fields=fields), lvl=lvl)
        if n in ('map', 'filter') and len(pos) > 1:
            O, el = self.take(fr, pos[1][1], e)
            fn = pos[0][1].fn
            if isinstance(fn, Ext):
                fn = None
            if n == 'map':
                el = self.apply(fr, fn, el) if fn is not None else AV(V=el.V)
            return AV('gen', O, pos[1][1].V, elem=el, lvl=lvl)
        if n == 'next' and a is not None:
            O, el = self.take(fr, a, e)
            if O and self.only(fr, e.args[0]):
                O = EMPTY
            return el.but(V=el.V | O | a.V, lvl=lvl)
        if n in ('str', 'repr', 'format', 'ascii'):
            W = V
            for v in every:
                W = W | self.text(fr, v, e)
            return AV('str', V=W, null='no', lvl=lvl)
        if n in ('id', 'hash'):
            if fr.f is not None and fr.f.name == '__hash__':
                return NUM
            return AV('num', V=V | {(n, self.origin(fr, e, f'{n} depends on the process'))}, null='no', lvl=lvl)
        if n in ('isinstance', 'issubclass', 'hasattr', 'callable', 'type', 'bool', 'int', 'float', 'abs', 'round', 'ord', 'chr', 'pow', 'divmod', 'range'):
            k = {'range': 'list', 'bool': 'bool', 'isinstance': 'bool', 'hasattr': 'bool', 'callable': 'bool', 'chr': 'str'}.get(n, 'num')
            W = V
            for v in every:
                W = W | v.C if n not in ('isinstance', 'hasattr') else W
            return AV(k, V=W, null='no', lvl=lvl)
        if n in ('getattr',):
            name = pos[1][0].value if len(pos) > 1 and isinstance(pos[1][0], ast.Constant) else None
            if name is not None:
                return self.x_Attribute(fr, ast.copy_location(ast.Attribute(value=e.args[0], attr=name, ctx=ast.Load()), e))
            return AV(V=V, lvl=a.lvl if a is not None else 0)
        if n == 'setattr' and len(pos) > 2:
            if isinstance(pos[1][0], ast.Constant):
                self.assign(fr, ast.Attribute(value=e.args[0], attr=pos[1][0].value, ctx=ast.Store()), pos[2][1], e)
            return NONE_
        if n == 'object' and not every:
            return AV('obj', lvl=lvl)
        if n in ('vars', 'dir'):
            return AV('dict' if n == 'vars' else 'list', V=V, lvl=lvl)
        if n == 'print':
            return NONE_
        W = V
        for v in every:
            W = W | v.O
        return AV(V=W, lvl=lvl)

    def only(self, fr, e):
        """the one element of something known to hold one"""
        return False

    def call_key(self, fr, fn, el):
        r = self.apply(fr, fn, el)
        return frozenset(x if x[0] not in TOKENS else x[1] for x in deep(r, 'V')) | deep(r, 'C')

    def apply(self, fr, fn, el):
        names = [x.arg for x in fn.node.args.args]
        if not names:
            return ANY
        r = self.invoke(fr, fn, None, [(ast.Constant(value=0), el)], {}, None, bool(fr.env.get('#seeded')), fn.env)
        return r

    def method(self, fr, e, f, pos, kws, extra, seeded, every, V):
        lvl = len(fr.loops)
        n = f.attr
        # super().x(..) and Class.x(self, ..)
        if isinstance(f.value, ast.Name) and f.value.id not in fr.env:
            r = self.prog.resolve(fr.module, f.value.id)
            if r is not None and r[0] == 'cls':
                m, _ = self.prog.lookup(r[1], n)
                if isinstance(m, Func):
                    if m.kind == 'class':
                        return self.invoke(fr, m, AV('cls', null='no'), pos, kws, extra, seeded)
                    return self.invoke(fr, m, None, pos, kws, extra, seeded)
            if r is not None and r[0] == 'mod' and n in r[1].names:
                q = self.prog.resolve(r[1], n)
                if q and q[0] == 'func':
                    return self.invoke(fr, q[1], None, pos, kws, extra, seeded)
            if r is None and f.value.id == 'dict' and n == 'fromkeys' and pos:
                O, el = self.take(fr, pos[0][1], e)
                return AV('dict', O, pos[0][1].V, elem=pos[1][1] if len(pos) > 1 else NONE_, keys=el, null='no', lvl=lvl)
            if r is None and f.value.id in ('set', 'frozenset') and n in SETOPS:
                el = None
                for v in every:
                    el = join(el, self.take(fr, v, e)[1])
                return AV('set', V=V, elem=el, lvl=lvl)
        if n == '__class__' and fr.f is not None and fr.f.cls is not None:
            return self.construct(fr, self.family(fr.f.cls), pos, kws, extra, seeded)
        if isinstance(f.value, ast.Call) and isinstance(f.value.func, ast.Name) and f.value.func.id == 'super' and fr.f is not None and fr.f.cls is not None:
            m, _ = self.prog.lookup(fr.f.cls, n, after=fr.f.cls)
            me = fr.env.get(fr.f.node.args.args[0].arg, ANY) if isinstance(fr.f.node, ast.FunctionDef) and fr.f.node.args.args else ANY
            if isinstance(m, Func):
                return self.invoke(fr, m, me, pos, kws, extra, seeded)
            return AV(V=V)
        o = self.ev(fr, f.value)
        if isinstance(o.fn, Ext):
            return self.external(fr, e, o.fn.name + '.' + n, pos, kws, every, V)
        if o.kind == 'rng':
            W = V | self.real(fr, o.V)
            for l in fr.loops[o.lvl:]:
                W = W | l.origin
            if n == 'shuffle' and e.args:
                self.mutate(fr, e.args[0], lambda c: c.but(O=(c.O | W) | (self.take(fr, c, e)[0] if c.kind == 'set' else EMPTY)))
                return NONE_
            O, el = EMPTY, None
            for v in every:
                o2, el2 = self.take(fr, v, e)
                O, el = O | o2, join(el, el2)
            if n in ('sample', 'choices'):
                return AV('list', O=W | O, elem=el, lvl=lvl)
            return AV(V=W | O, lvl=lvl)
        known = o.kind in COLLS
        if o.kind in BUILTIN and o.null == 'no' and not hasattr(BUILTIN[o.kind], n):
            raise Dead      # an AttributeError
        if not known and n in self.members:
            out = None
            ctl, fr.ctl = fr.ctl, fr.ctl | self.real(fr, o.V)
            for m in self.members[n]:
                ps = m.node.args.args
                if m.kind == 'static':
                    r = self.invoke(fr, m, None, pos, kws, extra, seeded)
                else:
                    r = self.invoke(fr, m, self.me(o), pos, kws, extra, seeded)
                out = join(out, r)
            fr.ctl = ctl
            out = out.but(V=out.V | o.V)
            if o.kind is None and n in MUTATORS and n not in ('add',) and not isinstance(f.value, ast.Name):
                self.collection(fr, e, f, n, o, pos, kws, every, V)
            return out
        return self.collection(fr, e, f, n, o, pos, kws, every, V)

    def collection(self, fr, e, f, n, o, pos, kws, every, V):
        lvl = len(fr.loops)
        a = pos[0][1] if pos else None
        W = o.V | V
        if n in ('append', 'appendleft', 'add') and a is not None:
            if o.kind == 'set' or n == 'add':
                self.mutate(fr, f.value, lambda c: c.but(kind='set' if n == 'add' else c.kind, elem=join(c.elem, self.strip(fr, a.but(C=EMPTY), c.lvl)), V=c.V | fr.ctl))
            else:
                self.mutate(fr, f.value, lambda c: self.gather(fr, c, a))
            return NONE_
        if n == 'insert' and len(pos) > 1:
            self.mutate(fr, f.value, lambda c: self.gather(fr, c, pos[1][1], self.real(fr, a.V)))
            return NONE_
        if n in ('extend', 'extendleft') and a is not None:
            O, el = self.take(fr, a, e)
            self.mutate(fr, f.value, lambda c: self.gather(fr, c, el.but(V=el.V | a.V), O))
            return NONE_
        if n in ('update', '__or__', 'intersection_update', 'difference_update', 'symmetric_difference_update'):
            if o.kind == 'set':
                for v in every:
                    el = self.take(fr, v, e)[1]
                    self.mutate(fr, f.value, lambda c: c.but(elem=join(c.elem, self.strip(fr, el, c.lvl)), V=c.V | self.real(fr, v.V)))
                return NONE_
            for v in [x for _, x in pos]:
                if v.kind in ('list', 'tuple', 'gen', 'set'):
                    O, el = self.take(fr, v, e)
                    v = AV('dict', O, elem=el.field(1) or el.at(), keys=el.field(0) or el.at(), V=v.V)
                def put(c, v=v):
                    fields = dict(c.fields)
                    for k, x in v.fields:
                        fields[k] = join(fields.get(k), self.strip(fr, x, c.lvl))
                    pend = deep(v, 'V')
                    return c.but(O=c.O | v.O | self.order(fr, c.lvl) | fr.ctl, elem=join(c.elem, self.strip(fr, v.elem, c.lvl)), keys=join(c.keys, self.strip(fr, v.keys, c.lvl)), fields=fields)
                self.mutate(fr, f.value, put)
            for k, (_, v) in kws.items():
                self.mutate(fr, f.value, lambda c: self.store(fr, c, ast.Constant(value=k), STR, v))
            return NONE_
        if n in ('remove', 'discard', 'clear', 'reverse'):
            if n == 'clear':
                self.mutate(fr, f.value, lambda c: c.but(O=EMPTY, elem=None, keys=None, fields=()))
            else:
                self.mutate(fr, f.value, lambda c: c)
            return NONE_
        if n == 'sort':
            key = kws['key'][0] if 'key' in kws else None
            keyv = kws['key'][1] if 'key' in kws else None
            by = self.call_key(fr, keyv.fn, o.at()) if keyv is not None and keyv.fn is not None and not isinstance(keyv.fn, Ext) else EMPTY
            if isinstance(key, ast.Name) and key.id in ('id', 'hash'):
                by = self.chance(fr, e, f'ordered by {key.id}')
            by = frozenset(x for x in by if x[0] != 'p')
            inj = self.injective(fr, key)
            self.mutate(fr, f.value, lambda c: c.but(O=by if inj else c.O | by))
            return NONE_
        if n in ('pop', 'popitem', 'popleft'):
            if o.kind == 'set':
                O = self.chance(fr, e, 'set.pop takes any element')
                self.mutate(fr, f.value, lambda c: c)
                if fr.popped is None:
                    fr.popped = EMPTY
                fr.popped = (fr.popped or EMPTY) | O
                if fr.loops and self.inwhile(fr, e):
                    return o.at().but(V=o.V | {('p', fr.loops[-1].id)})
                return o.at().but(V=o.at().V | O)
            self.mutate(fr, f.value, lambda c: c)
            if o.kind == 'dict' and n == 'pop':
                r = o.at(e.args[0].value if e.args and isinstance(e.args[0], ast.Constant) else None)
                if len(pos) > 1:
                    r = join(r, pos[1][1])
                return r.but(V=r.V | frozenset(x for x in W if x[0] not in TOKENS), null=None)
            r = o.at()
            if n == 'popitem':
                return AV('tuple', fields={0: (o.keys or ANY).but(V=o.O), 1: r.but(V=r.V | o.O)})
            # a list used as a stack holds the same things whatever the order it was filled in
            return r.but(V=r.V | W | o.O, null=None, lvl=o.lvl)
        if n == 'setdefault' and a is not None:
            v = pos[1][1] if len(pos) > 1 else NONE_
            self.mutate(fr, f.value, lambda c: self.store(fr, c, e.args[0], a, v))
            r = join(o.at(e.args[0].value if isinstance(e.args[0], ast.Constant) else None) if o.elem is not None or o.fields else None, v)
            return r.but(V=r.V | o.V, null=None)
        if n == 'get' and o.kind in ('dict', None) and a is not None:
            r = o.at(e.args[0].value if isinstance(e.args[0], ast.Constant) else None)
            r = join(r, pos[1][1] if len(pos) > 1 else NONE_)
            C = o.C if not any(y[0] == 'p' for y in a.V) else EMPTY
            return r.but(V=r.V | frozenset(x for x in W if x[0] not in TOKENS) | C, null=None)
        if n == 'keys':
            return AV('view', o.O, o.V, o.C, keys=o.keys, elem=o.keys, null='no', lvl=lvl)
        if n == 'values':
            return AV('list', o.O, o.V, o.C, elem=o.at(), null='no', lvl=lvl)
        if n == 'items':
            return AV('list', o.O, o.V, o.C, elem=AV('tuple', fields={0: o.keys or ANY, 1: o.at()}), null='no', lvl=lvl)
        if n == 'copy':
            return o.but(lvl=lvl)
        if o.kind in ('set', 'view') and n in SETOPS or n in SETOPS and o.kind is None:
            el = o.elem
            for v in every:
                el = join(el, self.take(fr, v, e)[1])
            return AV('set', V=W, elem=el, null='no', lvl=lvl)
        if n == 'join' and a is not None:
            O, el = self.take(fr, a, e)
            return AV('str', V=W | O | deep(el, 'V'), null='no', lvl=lvl)
        if n == 'format':
            X = W
            for v in every:
                X = X | self.text(fr, v, e)
            return AV('str', V=X, null='no', lvl=lvl)
        if n == 'index' and o.kind in ('list', 'tuple', 'str'):
            return AV('num', V=W | o.O | o.C, null='no', lvl=lvl)
        if n == 'count':
            return AV('num', V=W, null='no', lvl=lvl)
        if n in ('split', 'splitlines', 'rsplit'):
            return AV('list', V=W, elem=STR.but(V=W), lvl=lvl)
        if o.kind == 'str':
            return AV('str' if not n.startswith(('is', 'starts', 'ends', 'find')) else 'bool', V=W, null='no', lvl=lvl)
        if o.kind == 'set' and n.startswith('is'):
            return AV('bool', V=W, null='no', lvl=lvl)
        if o.fn is not None:
            pass
        v = self.attrs.get(n)
        if n == '__class__':
            return ANY
        X = W
        for v in every:
            if v.kind not in ('dict', 'set'):
                X = X | v.O
        return AV(V=X, lvl=lvl)

    def inwhile(self, fr, e):
        return bool(fr.loops[fr.base:])


class Local:
    """a function within a function"""
    def __init__(self, node, module, an, env, f):
        self.node, self.module, self.env = node, module, env
        self.name = getattr(node, 'name', '<lambda>')
        self.cls = f.cls if f is not None else None
        self.kind = 'func'
        self.qual = (f.qual + '.' if f is not None else '') + self.name
        self.path = f.path if f is not None else module.path
        self.isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node))

    def __hash__(self):
        return id(self.node)

    def __eq__(self, o):
        return isinstance(o, Local) and self.node is o.node
