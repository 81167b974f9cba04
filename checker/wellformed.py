"""Well-formedness: a whole-program type inference over the syntax trees (flow-sensitive within a function, fixpoint over
attributes and return values) that asks of every attribute, call, subscript, loop and raise whether any value that can be there supports it;
a path-sensitive definite-assignment analysis of local variables; and a definite-initialisation analysis of instance attributes."""
import ast
import builtins
import glob
import importlib
import inspect
import os
import string
import sys
from prog import Func, Prop, Cls, Program

ANY = frozenset([('any',)])
NONE = frozenset([('none',)])
NOTHING = frozenset()
DEPTH = 3


def b(name):
    return frozenset([('b', name)])


STR, INT, FLOAT, BOOL, BYTES = b('str'), b('int'), b('float'), b('bool'), b('bytes')
PY = {'str': str, 'int': int, 'float': float, 'bool': bool, 'bytes': bytes, 'list': list, 'dict': dict, 'tup': tuple, 'set': set, 'gen': type(x for x in ()), 'none': type(None),
      'bound': type([].append), 'func': type(lambda: 0)}
EXT = frozenset([('x',)])     # a value from outside the package, of which nothing is known


def cut(t, d=0):
    out = set()
    for a in t:
        if a[0] in ('list', 'set', 'gen', 'dict', 'tup') and d >= DEPTH:
            return ANY
        if a[0] in ('list', 'set', 'gen'):
            out.add((a[0], cut(a[1], d + 1)))
        elif a[0] == 'dict':
            out.add((a[0], cut(a[1], d + 1), cut(a[2], d + 1)))
        elif a[0] == 'tup':
            out.add((a[0], tuple(cut(x, d + 1) for x in a[1])))
        else:
            out.add(a)
    return frozenset(out)


def join(*ts):
    out = frozenset().union(*ts)
    # containers of the same kind become one
    for k in ('list', 'set', 'gen', 'dict'):
        same = [a for a in out if a[0] == k]
        if len(same) > 1:
            out = frozenset(a for a in out if a[0] != k) | {(k,) + tuple(join(*[a[i] for a in same]) for i in range(1, len(same[0])))}
    tups = [a for a in out if a[0] == 'tup']
    for n in {len(a[1]) for a in tups}:
        same = [a for a in tups if len(a[1]) == n]
        if len(same) > 1:
            out = frozenset(a for a in out if a not in same) | {('tup', tuple(join(*[a[1][i] for a in same]) for i in range(n)))}
    return cut(out) if len(out) < 12 else ANY


def known(t):
    """every value it can be (but None) is one we know all about"""
    return bool(t) and all(a[0] not in ('any', 'x', 'ext') for a in t) and any(a[0] != 'none' for a in t)


def names_of(t):
    out = []
    for a in sorted(t, key=repr):
        out.append(a[1].name if a[0] in ('obj', 'cls', 'func', 'bound') else a[1] if a[0] == 'b' else {'tup': 'tuple', 'gen': 'iterator', 'none': 'None'}.get(a[0], a[0]))
    return '/'.join(dict.fromkeys(out))


PURE_RESULT = {
    'str': {**{n: STR for n in 'strip lstrip rstrip replace join lower upper title capitalize format ljust rjust center zfill expandtabs swapcase casefold translate removeprefix removesuffix'.split()},
            **{n: BOOL for n in 'startswith endswith isdigit isalpha isspace isupper islower isnumeric isalnum isidentifier isdecimal'.split()},
            **{n: INT for n in 'find rfind index rindex count'.split()},
            **{n: frozenset([('list', STR)]) for n in 'split rsplit splitlines'.split()},
            'partition': frozenset([('tup', (STR, STR, STR))]), 'rpartition': frozenset([('tup', (STR, STR, STR))]), 'encode': BYTES},
    'list': {**{n: NONE for n in 'append extend insert remove clear sort reverse'.split()}, 'index': INT, 'count': INT},
    'set': {**{n: NONE for n in 'add discard remove clear update'.split()}},
    'dict': {'clear': NONE, 'update': NONE},
    'tup': {'index': INT, 'count': INT},
}

EXCEPTIONS = {n for n in dir(builtins) if isinstance(getattr(builtins, n), type) and issubclass(getattr(builtins, n), BaseException)}
VOCABULARY = set()
for _t in (str, int, float, bytes, list, dict, tuple, set, frozenset, type, type(None), range, property, Exception, SyntaxError, ImportError, OSError, UnicodeDecodeError, StopIteration, slice, complex,
           type(lambda: 0), type(x for x in ()), type([].append)):
    VOCABULARY |= set(dir(_t))
for _m in ('re', 'datetime', 'collections', 'io', 'pathlib', 'hashlib', 'types', 'enum', 'functools', 'queue', 'random', 'subprocess'):
    _mod = importlib.import_module(_m)
    VOCABULARY |= set(dir(_mod))
    for _n in dir(_mod):
        if isinstance(getattr(_mod, _n), type):
            VOCABULARY |= set(dir(getattr(_mod, _n)))
VOCABULARY |= {n for o in (importlib.import_module('hashlib').md5(),) for n in dir(o)}


def stdlib(dotted):
    """the object of the standard library behind a dotted name: (found, object); None when not of the standard library"""
    parts = dotted.split('.')
    if parts[0] not in sys.stdlib_module_names or parts[0] in ('antigravity', 'this', 'idlelib', 'turtle', 'tkinter'):
        return None
    obj = None
    for i in range(len(parts), 0, -1):
        try:
            obj = importlib.import_module('.'.join(parts[:i]))
            break
        except ImportError:
            continue
    if obj is None:
        return False, None
    for p in parts[i:]:
        if not hasattr(obj, p):
            return False, None
        obj = getattr(obj, p)
    return True, obj


class Finding:
    def __init__(self, rule, func, node, msg):
        self.rule, self.func, self.node, self.msg = rule, func, node, msg


class Types:
    def __init__(self, prog):
        self.prog = prog
        self.rets = {}          # Func -> type
        self.given = self.new_given = {}    # (function, parameter) -> what the package passes it
        self.new_attrs = {}
        self.attrs = {}         # (class name, attribute) -> type
        self.found = {}
        self.report = False
        self.counts = {}
        self.family = {}
        self.vocabulary = set(VOCABULARY)
        self.methods = {}       # name -> the functions of that name in the package
        self.assigned = {}      # class -> attributes assigned on self anywhere
        for f in prog.funcs:
            self.methods.setdefault(f.name, []).append(f)
            self.vocabulary.add(f.name)
        for c in prog.classes.values():
            self.vocabulary |= set(c.members)
        loose = self.loose = set()
        self.raised = {getattr(n.exc.func, 'attr', getattr(n.exc.func, 'id', None)) for m in prog.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Raise) and isinstance(n.exc, ast.Call)}
        for m in prog.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                    self.vocabulary.add(n.attr)
                    if not (isinstance(n.value, ast.Name) and n.value.id == 'self'):
                        loose.add(n.attr)
                elif isinstance(n, ast.Call) and getattr(n.func, 'id', '') == 'setattr' and len(n.args) > 1:
                    if isinstance(n.args[1], ast.Constant):
                        self.vocabulary.add(n.args[1].value)
                        loose.add(n.args[1].value)
        for f in prog.funcs:
            if f.cls is None:
                continue
            own = self.assigned.setdefault(f.cls, set())
            first = (f.node.args.posonlyargs + f.node.args.args)[:1]
            for n in ast.walk(f.node):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store) and isinstance(n.value, ast.Name) and first and n.value.id == first[0].arg:
                    own.add(n.attr)
        for c in prog.classes.values():
            for n in c.node.body:
                for x in ast.walk(n) if not isinstance(n, (ast.FunctionDef, ast.ClassDef)) else ():
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        self.assigned.setdefault(c, set()).add(x.id)
                if isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name):
                    self.assigned.setdefault(c, set()).add(n.target.id)
        self.external_base = {c for c in prog.classes.values() if any(prog.resolve_expr(c.module, x) is None or prog.resolve_expr(c.module, x)[0] != 'cls' for x in c.base_names if not (isinstance(x, ast.Name) and x.id == 'object'))}

        self.outside()

    def outside(self):
        """what the packages it depends on offer, from their sources; strict: all of it is known"""
        self.strict = True
        self.foreign = {}
        roots = set()
        for m in self.prog.modules.values():
            for n in m.tree.body:
                if isinstance(n, ast.Import):
                    roots |= {a.name.split('.')[0] for a in n.names}
                elif isinstance(n, ast.ImportFrom) and self.prog._rel(m, n) is None:
                    roots.add(n.module.split('.')[0])
        places = sorted(glob.glob('/opt/venv/lib/python3*/site-packages')) + [x for x in sys.path if x.endswith('site-packages')]
        for r in sorted(roots - set(sys.stdlib_module_names) - {self.prog.PKG}):
            files = []
            for d in places:
                if os.path.isdir(os.path.join(d, r)):
                    files = glob.glob(os.path.join(d, r, '**', '*.py'), recursive=True)
                elif os.path.isfile(os.path.join(d, r + '.py')):
                    files = [os.path.join(d, r + '.py')]
                if files:
                    break
            if not files:
                self.strict = False
            for p in files:
                try:
                    with open(p, encoding='utf-8') as fh:
                        tree = ast.parse(fh.read())
                except (SyntaxError, ValueError, OSError):
                    self.strict = False
                    continue
                for n in ast.walk(tree):
                    if isinstance(n, ast.Attribute):
                        self.vocabulary.add(n.attr)
                    elif isinstance(n, ast.ClassDef):
                        for x in n.body:
                            if isinstance(x, ast.FunctionDef) and not x.decorator_list:
                                self.foreign.setdefault(x.name, []).append(x)
                            elif isinstance(x, ast.FunctionDef):
                                self.foreign.setdefault(x.name, []).append(None)
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                        self.vocabulary.add(n.name)
                    elif isinstance(n, ast.Name):
                        self.vocabulary.add(n.id)

    # ------------------------------------------------------------------ classes
    def related(self, c):
        """the classes an instance said to be of class c can be of, and those they inherit from"""
        if c not in self.family:
            out = list(self.prog.mro(c))
            for k in self.prog.classes.values():
                if c in self.prog.mro(k):
                    out += [x for x in self.prog.mro(k) if x not in out]
            self.family[c] = out
        return self.family[c]

    def open_class(self, c):
        return any(k in self.external_base or '__getattr__' in k.members or '__getattribute__' in k.members for k in self.related(c))

    def has(self, c, attr):
        if hasattr(object, attr) or attr in ('__dict__', '__name__', '__qualname__', '__weakref__', '__mro__', '__bases__', '__module__') or attr in self.loose:
            return True
        return any(attr in k.members or attr in self.assigned.get(k, ()) for k in self.related(c)) or self.open_class(c)

    def member(self, c, attr):
        """members of that name an instance can have"""
        m, k = self.prog.lookup(c, attr)
        if m is not None:
            out = [m]
        else:
            out = []
        for k in self.related(c):
            x = k.members.get(attr)
            if x is not None and x not in out and (m is None or c in self.prog.mro(k)):
                out.append(x)
        return out

    # ------------------------------------------------------------------ annotations and docstrings
    def annotation(self, f, n):
        if n is None:
            return ANY
        if isinstance(n, ast.Constant):
            if n.value is None:
                return NONE
            if isinstance(n.value, str):
                try:
                    return self.annotation(f, ast.parse(n.value, mode='eval').body)
                except SyntaxError:
                    return ANY
            return ANY
        if isinstance(n, ast.Name):
            if n.id in ('str', 'int', 'float', 'bool', 'bytes'):
                return b(n.id)
            if n.id in ('list', 'List', 'Iterable', 'Sequence'):
                return frozenset([('list', ANY)]) if n.id in ('list', 'List') else ANY
            if n.id in ('dict', 'Dict'):
                return frozenset([('dict', ANY, ANY)])
            if n.id in ('set', 'Set'):
                return frozenset([('set', ANY)])
            c = self.prog.classes.get(n.id)
            return frozenset([('obj', c)]) if c is not None else ANY
        if isinstance(n, ast.BinOp) and isinstance(n.op, ast.BitOr):
            return join(self.annotation(f, n.left), self.annotation(f, n.right))
        if isinstance(n, ast.Subscript):
            k = getattr(n.value, 'id', getattr(n.value, 'attr', ''))
            args = n.slice.elts if isinstance(n.slice, ast.Tuple) else [n.slice]
            if k == 'Optional':
                return join(NONE, self.annotation(f, args[0]))
            if k == 'Union':
                return join(*[self.annotation(f, a) for a in args])
            if k in ('List', 'list'):
                return frozenset([('list', self.annotation(f, args[0]))])
            if k in ('Set', 'set'):
                return frozenset([('set', self.annotation(f, args[0]))])
            if k in ('Dict', 'dict') and len(args) == 2:
                return frozenset([('dict', self.annotation(f, args[0]), self.annotation(f, args[1]))])
            if k in ('Generator', 'Iterator') and args:
                return frozenset([('gen', self.annotation(f, args[0]))])
            if k in ('Tuple', 'tuple') and not any(isinstance(a, ast.Constant) and a.value is Ellipsis for a in args):
                return frozenset([('tup', tuple(self.annotation(f, a) for a in args))])
        return ANY

    def said(self, text):
        """a type as docstrings have it: 'Node or str', 'list[Node]', 'dict[int,list[Node]]', 'NoneType or Colour'"""
        try:
            n = ast.parse(text.strip().replace('NoneType', 'None').replace(' or ', '|'), mode='eval').body
        except (SyntaxError, ValueError):
            return ANY
        return self.annotation(None, n)

    def documented(self, f):
        doc = ast.get_docstring(f.node) or ''
        out = {}
        for line in doc.split('\n'):
            line = line.strip()
            if line.startswith(':type ') and ':' in line[6:]:
                n, t = line[6:].split(':', 1)
                out[n.strip()] = self.said(t)
            elif line.startswith(':param ') and ':' in line[7:]:
                w = line[7:].split(':', 1)[0].rsplit(' ', 1)
                if len(w) == 2:
                    out[w[1].strip()] = self.said(w[0])
            elif line.startswith(':rtype:'):
                out['return'] = self.said(line[7:])
        return out

    # ------------------------------------------------------------------ functions
    def ret(self, f):
        """what a function returns"""
        t = self.rets.get(f, NOTHING)
        said = self.annotation(f, f.node.returns) if f.node.returns is not None else self.documented(f).get('return', ANY)
        if not t or ('any',) in t or ('x',) in t:
            if ('any',) in said and any(a[0] == 'obj' for a in t) and ('x',) not in t and isinstance(getattr(f, 'node', None), ast.FunctionDef) and f.kind == 'getter':
                return frozenset(a for a in t if a[0] != 'any')
            return said if ('any',) not in said or not t else t
        return t

    def params(self, f):
        a = f.node.args
        doc = self.documented(f)
        env = {}
        allp = a.posonlyargs + a.args + a.kwonlyargs
        for i, p in enumerate(allp):
            t = self.annotation(f, p.annotation) if p.annotation is not None else doc.get(p.arg, ANY)
            if p.annotation is None and ('any',) in t:
                t = ANY
            env[p.arg] = self.refined(f, p.arg, t)
        # a parameter with a default can be that
        pos = a.posonlyargs + a.args
        for p, d in list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [(p, d) for p, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]:
            if isinstance(d, ast.Constant) and d.value is None:
                env[p.arg] = join(env[p.arg], NONE)
        if f.cls is not None and f.kind != 'static' and pos:
            env[pos[0].arg] = frozenset([('cls' if f.kind == 'class' else 'obj', f.cls)])
        if a.vararg:
            env[a.vararg.arg] = ANY
        if a.kwarg:
            env[a.kwarg.arg] = frozenset([('dict', STR, ANY)])
        return env

    def refined(self, f, name, t):
        """of what a parameter is said to be (a base class, or nothing at all for a private function), what the package passes"""
        g = self.given.get((f, name))
        if g is None or not known(g):
            return t
        if t == ANY and f.name.startswith('_') and not f.name.startswith('__'):
            return g
        out = set()
        for a in t:
            if a[0] == 'obj':
                below = [x for x in g if x[0] == 'obj' and x[1] is not a[1] and a[1] in self.prog.mro(x[1])]
                if below and all(x in below or x[0] != 'obj' for x in g):
                    out |= set(below)
                    continue
            out.add(a)
        return frozenset(out)

    def pass_on(self, f, drop, call, args):
        a = f.node.args
        pos = [x.arg for x in a.posonlyargs + a.args][drop:]
        if any(isinstance(x, ast.Starred) for x in call.args):
            for n in pos:
                self.new_given[f, n] = ANY
            return
        for n, t in zip(pos, args):
            self.new_given[f, n] = join(self.new_given.get((f, n), NOTHING), t)
        for k, t in zip(call.keywords, args[len(call.args):]):
            if k.arg is not None:
                self.new_given[f, k.arg] = join(self.new_given.get((f, k.arg), NOTHING), t)
            else:
                for n in pos:
                    self.new_given[f, n] = ANY

    def solve(self, rounds=8):
        for i in range(rounds):
            before = (dict(self.rets), self.attrs, self.given)
            self.new_attrs, self.new_given = {}, {}
            for f in self.prog.funcs:
                Body(self, f).run()
            self.attrs, self.given = self.new_attrs, self.new_given
            if before == (self.rets, self.attrs, self.given):
                break
        self.report = True
        for f in self.prog.funcs:
            Body(self, f).run()
        return list(self.found.values())

    def attr_type(self, c, attr):
        ts = [self.attrs[k.name, attr] for k in self.related(c) if (k.name, attr) in self.attrs]
        t = join(*ts) if ts else ANY
        # what is stored elsewhere without a known type is taken to be no stranger
        return frozenset(a for a in t if a[0] != 'any') if any(a[0] == 'obj' for a in t) else t

    def learn(self, c, attr, t):
        k = (c.name, attr)
        self.new_attrs[k] = join(self.new_attrs.get(k, NOTHING), t)


def signature(f, drop):
    """positional names, required ones, keyword-only ones, *args, **kwargs"""
    a = f.node.args
    pos = [x.arg for x in a.posonlyargs + a.args]
    need = pos[:len(pos) - len(a.defaults)]
    only = [x.arg for x in a.posonlyargs]
    kwo = [x.arg for x in a.kwonlyargs]
    needk = [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
    return pos[drop:], [n for n in need if n in pos[drop:]], kwo, needk, a.vararg is not None, a.kwarg is not None, only


def refuses(f, drop, call):
    """why a function does not accept the arguments of a call; None when it does"""
    pos, need, kwo, needk, va, ka, only = signature(f, drop)
    star = any(isinstance(x, ast.Starred) for x in call.args)
    nargs = sum(not isinstance(x, ast.Starred) for x in call.args)
    kws = [k.arg for k in call.keywords if k.arg is not None]
    dstar = any(k.arg is None for k in call.keywords)
    if nargs > len(pos) and not va:
        return f'{f.name}() takes {len(pos)} positional arguments but {nargs} are given'
    for k in kws:
        if k not in pos + kwo and not ka or k in only:
            return f'{f.name}() has no parameter {k}'
        if k in pos[:nargs] and not star:
            return f'{f.name}() is given {k} twice'
    if not star and not dstar:
        missing = [n for n in need if n not in pos[:nargs] and n not in kws] + [n for n in needk if n not in kws]
        if missing:
            return f'{f.name}() is not given {", ".join(missing)}'
    elif not dstar:
        missing = [n for n in needk if n not in kws]
        if missing:
            return f'{f.name}() is not given {", ".join(missing)}'
    return None


def bindable(obj, call, drop=0):
    """why a function of the standard library refuses the arguments; None when it may take them"""
    try:
        sig = inspect.signature(obj)
    except (ValueError, TypeError):
        return None
    if any(isinstance(x, ast.Starred) for x in call.args) or any(k.arg is None for k in call.keywords):
        return None
    try:
        sig.bind(*([None] * (len(call.args) + drop)), **{k.arg: None for k in call.keywords})
    except TypeError as e:
        return str(e)
    return None


TRANSPARENT = ('staticmethod', 'classmethod', 'property', 'wraps', 'lru_cache', 'cache', 'cached_property', 'setter', 'getter', 'abstractmethod')


def plain(f):
    """no decorator that could change how it is called"""
    for d in f.node.decorator_list:
        d = d.func if isinstance(d, ast.Call) else d
        if getattr(d, 'id', getattr(d, 'attr', None)) not in TRANSPARENT:
            return False
    return True


class Body:
    def __init__(self, T, f):
        self.T, self.f, self.prog = T, f, T.prog
        self.ret = NOTHING
        self.guards = []        # enclosing try blocks that expect errors

    def run(self):
        T, f = self.T, self.f
        self.locals = bound_names(f.node)
        self.asked = {}
        for n in ast.walk(f.node):
            if isinstance(n, ast.Call) and getattr(n.func, 'id', '') in ('hasattr', 'getattr', 'setattr', 'delattr') and len(n.args) > 1 and isinstance(n.args[1], ast.Constant):
                self.asked.setdefault(n.args[1].value, set()).add(ast.dump(n.args[0]))
        env = T.params(f)
        self.changing = {ast.dump(n.value) for n in ast.walk(f.node) if isinstance(n, ast.Attribute) and n.attr in CHANGES} | {
            ast.dump(n.value) for n in ast.walk(f.node) if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Store)}
        self.called = {id(n.func) for n in ast.walk(f.node) if isinstance(n, ast.Call)}
        end = self.block(f.node.body, env)
        if f.isgen:
            self.ret = frozenset([('gen', self.out)]) if getattr(self, 'out', None) else frozenset([('gen', ANY)])
        elif end is not None:
            self.ret = join(self.ret, NONE)
        T.rets[f] = join(self.ret)
        for n in getattr(self, 'returned', []):
            # a function that makes errors for others to raise returns nothing else
            if f.name not in T.raised or any(a[0] != 'excobj' for a in self.ret):
                self.tell('error', n, f'{ast.unparse(n.value)[:60]} is returned, not raised')

    # ------------------------------------------------------------------ reporting
    def tell(self, rule, node, msg):
        if self.T.report and not self.quiet(rule):
            self.T.found.setdefault((self.f.qual, rule, getattr(node, 'lineno', 0), msg), Finding(rule, self.f, node, msg))

    def quiet(self, rule):
        want = {'attribute': ('AttributeError',), 'name': ('NameError',), 'call': ('TypeError',), 'import': ('ImportError', 'ModuleNotFoundError')}.get(rule, ('TypeError',))
        return any(g is None or any(w in g for w in want) or 'Exception' in g or 'BaseException' in g for g in self.guards)

    def count(self, rule):
        if self.T.report:
            self.T.counts[rule] = self.T.counts.get(rule, 0) + 1

    # ------------------------------------------------------------------ statements
    def block(self, body, env):
        for n in body:
            if env is None:
                return None
            env = self.stmt(n, env)
        return env

    def merge(self, a, c):
        if a is None:
            return c
        if c is None:
            return a
        return {k: join(a.get(k, NOTHING), c.get(k, NOTHING)) for k in set(a) | set(c)}

    def stmt(self, n, env):
        if isinstance(n, ast.Expr):
            t = self.ev(n.value, env)
            if isinstance(n.value, ast.Call) and t and all(a[0] == 'excobj' for a in t):
                self.tell('error', n, f'{ast.unparse(n.value)[:60]} is made but not raised')
            return env
        if isinstance(n, ast.Assign):
            t = self.ev(n.value, env)
            env = dict(env)
            for x in n.targets:
                self.assign(x, t, env, n.value)
            if isinstance(n.value, (ast.Name, ast.Attribute)):
                both = n.targets + [n.value]
                if any(ast.dump(x).replace('Store', 'Load') in self.changing for x in both):
                    for x in both:
                        self.loosen(x, env)
            elif len(n.targets) > 1:
                for x in n.targets:
                    self.loosen(x, env)
            return env
        if isinstance(n, ast.AnnAssign):
            if n.value is None:
                return env
            t = self.ev(n.value, env)
            said = self.T.annotation(self.f, n.annotation)
            env = dict(env)
            self.assign(n.target, t if known(t) or ('any',) in said else said, env, n.value)
            return env
        if isinstance(n, ast.AugAssign):
            left = self.ev(load(n.target), env)
            t = self.binop(n, n.op, left, self.ev(n.value, env))
            env = dict(env)
            self.assign(n.target, t, env, None)
            return env
        if isinstance(n, ast.Return):
            t = self.ev(n.value, env) if n.value is not None else NONE
            if n.value is not None and t and all(a[0] == 'excobj' for a in t) and isinstance(n.value, ast.Call):
                self.returned = getattr(self, 'returned', []) + [n]
            self.ret = join(self.ret, t)
            return None
        if isinstance(n, ast.Raise):
            if n.exc is not None:
                t = self.ev(n.exc, env)
                self.count('error')
                if known(t) and not any(a[0] in ('exc', 'excobj') or a[0] in ('cls', 'obj') and self.T.open_class(a[1]) for a in t):
                    self.tell('error', n, f'{ast.unparse(n.exc)[:60]} is {names_of(t)}, not an exception')
            if n.cause is not None:
                self.ev(n.cause, env)
            return None
        if isinstance(n, ast.If):
            self.ev(n.test, env)
            t, e = self.narrow(n.test, env, True), self.narrow(n.test, env, False)
            return self.merge(self.block(n.body, t), self.block(n.orelse, e))
        if isinstance(n, (ast.For, ast.AsyncFor)):
            it = self.ev(n.iter, env)
            el = self.element(it, n.iter)
            for _ in range(3):
                inner = dict(env)
                self.assign(n.target, el, inner, None)
                self.breaks = getattr(self, 'breaks', []) + [[]]
                out = self.block(n.body, inner)
                ends = self.breaks[-1]
                self.breaks = self.breaks[:-1]
                new = self.merge(env, out)
                for x in ends:
                    new = self.merge(new, x)
                if new == env:
                    break
                env = new
            return self.merge(self.block(n.orelse, env), env) if n.orelse else env
        if isinstance(n, ast.While):
            for _ in range(3):
                self.ev(n.test, env)
                self.breaks = getattr(self, 'breaks', []) + [[]]
                out = self.block(n.body, self.narrow(n.test, env, True))
                ends = self.breaks[-1]
                self.breaks = self.breaks[:-1]
                new = self.merge(env, out)
                for x in ends:
                    new = self.merge(new, x)
                if new == env:
                    break
                env = new
            if isinstance(n.test, ast.Constant) and n.test.value and not any(isinstance(x, ast.Break) for x in ast.walk(n)):
                return None
            return self.merge(self.block(n.orelse, env), env) if n.orelse else env
        if isinstance(n, (ast.Break, ast.Continue)):
            if getattr(self, 'breaks', None):
                self.breaks[-1].append(env)
            return None
        if isinstance(n, (ast.With, ast.AsyncWith)):
            for i in n.items:
                self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    env = dict(env)
                    self.assign(i.optional_vars, EXT, env, None)
            return self.block(n.body, env)
        if isinstance(n, ast.Try):
            caught = []
            for h in n.handlers:
                ts = [None] if h.type is None else [x for x in (h.type.elts if isinstance(h.type, ast.Tuple) else [h.type])]
                for x in ts:
                    if x is not None:
                        t = self.ev(x, env)
                        if known(t) and not any(a[0] == 'exc' or a[0] == 'cls' and self.T.open_class(a[1]) for a in t):
                            self.tell('error', x, f'{ast.unparse(x)[:60]} is not an exception')
                caught.append(None if h.type is None else {getattr(x, 'id', getattr(x, 'attr', '')) for x in ts})
            self.guards += caught
            out = self.block(n.body, env)
            if caught:
                self.guards = self.guards[:-len(caught)]
            mid = self.merge(env, out)
            for x in n.body:
                # whatever was assigned before the error
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and isinstance(y.ctx, ast.Store) and y.id not in mid:
                        mid[y.id] = ANY
            if out is not None and n.orelse:
                out = self.block(n.orelse, out)
            for h in n.handlers:
                e = dict(mid)
                if h.name:
                    e[h.name] = frozenset([('excobj', getattr(h.type, 'id', None))]) if h.type is not None and not isinstance(h.type, ast.Tuple) else ANY
                out = self.merge(out, self.block(h.body, e))
            if n.finalbody:
                fin = self.block(n.finalbody, out if out is not None else mid)
                return fin if out is not None else None
            return out
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            env = dict(env)
            env[n.name] = ANY
            inner = dict(env)
            for d in n.args.defaults + [d for d in n.args.kw_defaults if d is not None]:
                self.ev(d, env)
            for p in params_of(n):
                inner[p] = ANY
            for x in bound_names(n):
                inner[x] = ANY
            for x in self.locals:
                inner.setdefault(x, ANY)
            keep = self.ret, getattr(self, 'out', None), self.locals
            self.locals = self.locals | bound_names(n)
            self.block(n.body, inner)
            self.ret, self.out, self.locals = keep
            return env
        if isinstance(n, ast.ClassDef):
            env = dict(env)
            env[n.name] = ANY
            return env
        if isinstance(n, ast.Import):
            env = dict(env)
            for a in n.names:
                self.imported(n, a.name, None)
                env[a.asname or a.name.split('.')[0]] = frozenset([('ext', a.name if a.asname else a.name.split('.')[0])])
            return env
        if isinstance(n, ast.ImportFrom):
            env = dict(env)
            for a in n.names:
                env[a.asname or a.name] = self.imported_from(n, a.name)
            return env
        if isinstance(n, ast.Delete):
            for x in n.targets:
                if not isinstance(x, ast.Name):
                    self.ev(load(x), env)
            return env
        if isinstance(n, ast.Assert):
            self.ev(n.test, env)
            if n.msg is not None:
                self.ev(n.msg, self.narrow(n.test, env, False))
            return self.narrow(n.test, env, True)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            env = dict(env)
            for x in n.names:
                env[x] = ANY
            return env
        if isinstance(n, ast.Match):
            self.ev(n.subject, env)
            out = env
            for c in n.cases:
                e = dict(env)
                for x in ast.walk(c.pattern):
                    for k in ('name', 'rest'):
                        if getattr(x, k, None):
                            e[getattr(x, k)] = ANY
                if c.guard is not None:
                    self.ev(c.guard, e)
                out = self.merge(out, self.block(c.body, e))
            return out
        return env

    def imported(self, n, dotted, name):
        self.count('import')
        r = stdlib(dotted if name is None else f'{dotted}.{name}')
        if r is not None and not r[0]:
            self.tell('import', n, f'{dotted}{"." + name if name else ""} does not exist')

    def imported_from(self, n, name):
        m = self.f.module
        base = self.prog._rel(m, n)
        if base is None:
            self.imported(n, n.module, name)
            return frozenset([('ext', f'{n.module}.{name}')])
        self.count('import')
        tgt = self.prog.modules.get(base)
        sub = self.prog.modules.get((base + '.' if base else '') + name)
        if tgt is None and sub is None:
            self.tell('import', n, f'the package has no module {base}')
            return ANY
        if tgt is not None and name in tgt.names:
            return self.global_type(tgt, name)
        if sub is not None:
            return frozenset([('mod', sub)])
        if name == '*' or name in bound_names(tgt.tree):
            return ANY
        self.tell('import', n, f'{base or "the package"} has no {name}')
        return ANY

    def assign(self, x, t, env, value):
        if isinstance(x, ast.Name):
            env[x.id] = t
        elif isinstance(x, (ast.Tuple, ast.List)):
            n = len(x.elts)
            star = [i for i, e in enumerate(x.elts) if isinstance(e, ast.Starred)]
            self.count('unpacking')
            sizes = {len(a[1]) if a[0] == 'tup' else None for a in t if a[0] != 'none'}
            if known(t) and sizes and None not in sizes and all((s < n - 1) if star else s != n for s in sizes):
                self.tell('unpacking', x, f'{n} names for {"/".join(str(s) for s in sorted(sizes))} values')
            el = self.element(t, x) if not any(a[0] == 'tup' for a in t) else None
            for i, e in enumerate(x.elts):
                if isinstance(e, ast.Starred):
                    self.assign(e.value, frozenset([('list', ANY)]), env, None)
                    continue
                if el is None:
                    parts = [a[1][i] if a[0] == 'tup' and len(a[1]) > i and not star else ANY for a in t if a[0] != 'none']
                    self.assign(e, join(*parts) if parts else ANY, env, None)
                else:
                    self.assign(e, el, env, None)
        elif isinstance(x, ast.Attribute):
            r = self.ev(x.value, env)
            self.count('attribute')
            for a in r:
                if a[0] == 'obj':
                    m = self.T.member(a[1], x.attr)
                    if m and all(isinstance(k, Prop) for k in m):
                        if all(k.set is None for k in m) and len([q for q in r if q[0] != 'none']) == 1:
                            self.tell('attribute', x, f'{a[1].name}.{x.attr} cannot be set')
                    else:
                        self.T.learn(a[1], x.attr, t)
        elif isinstance(x, ast.Subscript):
            r = self.ev(x.value, env)
            k = self.ev(x.slice, env) if not isinstance(x.slice, ast.Slice) else INT
            self.stored(x.value, r, k, t, env)
        elif isinstance(x, ast.Starred):
            self.assign(x.value, t, env, None)

    def loosen(self, e, env):
        """a container can be reached in another way from here on: what it holds may change unseen"""
        if isinstance(e, (ast.IfExp, ast.BoolOp)):
            for x in ([e.body, e.orelse] if isinstance(e, ast.IfExp) else e.values):
                self.loosen(x, env)
            return
        if isinstance(e, ast.Starred):
            e = e.value
        if isinstance(e, ast.Name) and e.id in env:
            if any(a[0] in ('list', 'set', 'dict') for a in env[e.id]):
                env[e.id] = frozenset((a[0],) + (ANY,) * (len(a) - 1) if a[0] in ('list', 'set', 'dict') else a for a in env[e.id])
        elif isinstance(e, ast.Attribute):
            for a in self.ev(e.value, env):
                if a[0] == 'obj':
                    kinds = {q[0] for q in self.T.attr_type(a[1], e.attr) if q[0] in ('list', 'set', 'dict')}
                    if kinds:
                        self.T.learn(a[1], e.attr, frozenset((k, ANY, ANY) if k == 'dict' else (k, ANY) for k in kinds))

    def stored(self, e, r, k, t, env):
        """a value is put into a container: its elements are of more types"""
        out = set()
        for a in r:
            if a[0] == 'dict':
                out.add(('dict', join(a[1], k), join(a[2], t)))
            elif a[0] in ('list', 'set') and k is not None:
                out.add((a[0], join(a[1], t)))
            else:
                out.add(a)
        out = cut(frozenset(out))
        if isinstance(e, ast.Name):
            env[e.id] = out
        elif isinstance(e, ast.Attribute):
            for a in self.ev(e.value, env):
                if a[0] == 'obj':
                    m = [p for p in self.T.member(a[1], e.attr) if isinstance(p, Prop)]
                    if not m:
                        self.T.learn(a[1], e.attr, out)
        else:
            while isinstance(e, (ast.Subscript, ast.Call)):
                e = e.value if isinstance(e, ast.Subscript) else e.func
            if isinstance(e, ast.Attribute) and e.attr == 'setdefault':
                e = e.value
            # within a container of containers: nothing is known of these any more
            if isinstance(e, ast.Name) and e.id in env:
                env[e.id] = frozenset(('dict', a[1], ANY) if a[0] == 'dict' else (a[0], ANY) if a[0] in ('list', 'set') else a for a in env[e.id])
            elif isinstance(e, ast.Attribute):
                for a in self.ev(e.value, env):
                    if a[0] == 'obj':
                        self.T.learn(a[1], e.attr, frozenset([('dict', ANY, ANY)]) if any(q[0] == 'dict' for q in self.T.attr_type(a[1], e.attr)) else ANY)

    # ------------------------------------------------------------------ narrowing
    def narrow(self, test, env, truth):
        if isinstance(test, ast.UnaryOp) and isinstance(test.op, ast.Not):
            return self.narrow(test.operand, env, not truth)
        if isinstance(test, ast.BoolOp):
            if isinstance(test.op, ast.And) == truth:
                for v in test.values:
                    env = self.narrow(v, env, truth)
            return env
        if isinstance(test, ast.Call) and getattr(test.func, 'id', '') == 'isinstance' and len(test.args) == 2 and isinstance(test.args[0], ast.Name):
            x = test.args[0].id
            ks = test.args[1].elts if isinstance(test.args[1], ast.Tuple) else [test.args[1]]
            atoms = []
            for k in ks:
                n = getattr(k, 'id', None)
                if n in PY or n in ('tuple', 'frozenset'):
                    atoms.append('tup' if n == 'tuple' else 'set' if n == 'frozenset' else n)
                else:
                    c = self.prog.resolve_expr(self.f.module, k)
                    if c is None or c[0] != 'cls':
                        return {**env, x: ANY} if truth else env
                    atoms.append(c[1])

            def isa(a, k):
                if isinstance(k, Cls):
                    return a[0] == 'obj' and (k in self.prog.mro(a[1]) or a[1] in self.prog.mro(k))
                return a[0] == k or a[0] == 'b' and (a[1] == k or k == 'int' and a[1] == 'bool')
            t = env.get(x)
            if t is None:
                return env
            if not truth:
                left = frozenset(a for a in t if not any(isa(a, k) and (not isinstance(k, Cls) or k in self.prog.mro(a[1])) for k in atoms))
                return {**env, x: left or ANY}
            keep = frozenset(a for a in t if any(isa(a, k) for k in atoms))
            if not keep or ('any',) in t or ('x',) in t:
                made = [frozenset([('obj', k)]) if isinstance(k, Cls) else b(k) if k in ('str', 'int', 'float', 'bool', 'bytes') else
                        frozenset([('dict', ANY, ANY)]) if k == 'dict' else frozenset([(k, ANY)]) if k in ('list', 'set') else ANY for k in atoms]
                keep = join(keep, *made)
            return {**env, x: keep}
        if isinstance(test, ast.Compare) and len(test.ops) == 1 and isinstance(test.left, ast.Name) and isinstance(test.comparators[0], ast.Constant) and test.comparators[0].value is None:
            x = test.left.id
            isnone = isinstance(test.ops[0], (ast.Is, ast.Eq))
            if x in env and isinstance(test.ops[0], (ast.Is, ast.IsNot, ast.Eq, ast.NotEq)):
                if isnone == truth:
                    return {**env, x: NONE} if ('none',) in env[x] else env
                return {**env, x: frozenset(a for a in env[x] if a[0] != 'none') or ANY}
        if isinstance(test, ast.Name) and truth and test.id in env:
            return {**env, test.id: frozenset(a for a in env[test.id] if a[0] != 'none') or ANY}
        return env

    # ------------------------------------------------------------------ expressions
    def element(self, t, node):
        """what iterating it yields"""
        self.count('iteration')
        out, bad = NOTHING, bool(t)
        for a in t:
            if a[0] in ('list', 'set', 'gen', 'dict'):
                out, bad = join(out, a[1]), False
            elif a[0] == 'tup':
                out, bad = join(out, *a[1]) if a[1] else out, False
            elif a[0] == 'b' and a[1] in ('str', 'bytes'):
                out, bad = join(out, STR if a[1] == 'str' else INT), False
            elif a[0] == 'obj':
                if self.T.open_class(a[1]) or self.T.member(a[1], '__iter__') or self.T.member(a[1], '__getitem__'):
                    out, bad = ANY, False
            elif a[0] in ('any', 'x', 'ext', 'mod', 'cls', 'exc', 'excobj', 'super'):
                out, bad = join(out, ANY), False
        if bad and known(t):
            self.tell('iteration', node, f'{ast.unparse(node)[:60]} is {names_of(t)}, which cannot be iterated')
        return out or ANY

    def ev(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            for x in ast.iter_child_nodes(n):
                if isinstance(x, ast.expr):
                    self.ev(x, env)
            return ANY
        return m(n, env)

    def e_Constant(self, n, env):
        v = n.value
        return NONE if v is None else b(type(v).__name__) if type(v) in (str, int, float, bool, bytes) else ANY

    def e_JoinedStr(self, n, env):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                self.ev(v.value, env)
                if v.format_spec is not None:
                    self.ev(v.format_spec, env)
        return STR

    def e_Name(self, n, env):
        self.count('name')
        if n.id in env:
            return env[n.id]
        if n.id in self.locals:
            return ANY          # whether it is assigned is decided elsewhere
        m = self.f.module
        if n.id in m.names:
            return self.global_type(m, n.id)
        if n.id in bound_names(m.tree):
            return ANY
        if n.id in EXCEPTIONS:
            return frozenset([('exc', n.id)])
        if hasattr(builtins, n.id) or n.id in ('__file__', '__name__', '__doc__', '__package__', '__spec__', '__path__', '__class__'):
            return frozenset([('builtin', n.id)]) if callable(getattr(builtins, n.id, None)) else frozenset([('const', n.id)]) if n.id in ('NotImplemented', 'Ellipsis') else ANY
        self.tell('name', n, f'name {n.id} is not defined')
        return ANY

    def global_type(self, m, name):
        r = self.prog.resolve(m, name)
        if r is None:
            return ANY
        if r[0] == 'func':
            return frozenset([('func', r[1])])
        if r[0] == 'cls':
            return frozenset([('cls', r[1])])
        if r[0] == 'ext':
            return frozenset([('ext', r[1])])
        if r[0] == 'mod':
            return frozenset([('mod', r[1])])
        if r[0] == 'expr' and isinstance(r[1], ast.Constant):
            return self.e_Constant(r[1], {})
        return ANY

    def e_Attribute(self, n, env):
        r = self.ev(n.value, env)
        if n.attr in CHANGES and id(n) not in self.called:
            self.loosen(n.value, env)
        return self.attribute(n, r, env)

    def attribute(self, n, r, env):
        T, attr = self.T, n.attr
        self.count('attribute')
        out, has, unknown = NOTHING, False, False
        for a in r:
            k = a[0]
            if k == 'none':
                continue
            if k == 'obj':
                if T.has(a[1], attr):
                    has = True
                    out = join(out, self.value_of(a[1], attr, n))
            elif k == 'cls':
                ms = T.member(a[1], attr)
                if ms or hasattr(type, attr) or attr in T.loose or T.open_class(a[1]) or any(attr in T.assigned.get(c, ()) and attr not in instance_only(T, c) for c in T.related(a[1])):
                    has = True
                    for m in ms:
                        if isinstance(m, Func):
                            out = join(out, frozenset([('bound' if m.kind == 'class' else 'func', m)]))
                        else:
                            out = join(out, ANY)
                    if not ms:
                        out = join(out, ANY)
            elif k == 'super':
                m, c = self.prog.lookup(self.f.cls, attr, after=self.f.cls)
                if m is None:
                    # the next class of a subclass' order can have it
                    m = next((x.members[attr] for x in T.related(self.f.cls) if x is not self.f.cls and attr in x.members), None)
                if m is not None or hasattr(object, attr) or self.T.open_class(self.f.cls):
                    has = True
                    out = join(out, frozenset([('func' if m.kind == 'static' else 'bound', m)]) if isinstance(m, Func) else self.ret_of(m.get) if isinstance(m, Prop) and m.get else ANY)
            elif k == 'mod':
                if attr in a[1].names or self.prog.modules.get((a[1].short + '.' if a[1].short else '') + attr) is not None or attr in bound_names(a[1].tree) or attr.startswith('__'):
                    has = True
                    out = join(out, self.global_type(a[1], attr))
            elif k == 'ext':
                s = stdlib(f'{a[1]}.{attr}')
                if s is None:
                    has, out = True, join(out, frozenset([('ext', f'{a[1]}.{attr}')]))
                elif s[0]:
                    has, out = True, join(out, frozenset([('ext', f'{a[1]}.{attr}')]))
                elif len(r) == 1 and not self.expected(n):
                    self.tell('attribute', n, f'{a[1]} has no attribute {attr}')
            elif k in ('b', 'list', 'set', 'dict', 'tup', 'gen', 'func', 'bound'):
                py = PY[a[1] if k == 'b' else k]
                if hasattr(py, attr) or k == 'set' and hasattr(frozenset, attr) or k in ('func', 'bound') and attr in ('__self__', '__func__', '__wrapped__', '__name__', '__doc__'):
                    has = True
                    out = join(out, frozenset([('meth', k if k != 'b' else a[1], attr, a)]))
            elif k == 'exc' or k == 'excobj':
                py = getattr(builtins, a[1] or 'BaseException', None)
                if py is None or hasattr(py, attr) or attr in ('__cause__', '__context__', '__traceback__'):
                    has, out = True, join(out, ANY)
            else:
                unknown = True
        if unknown:
            if attr not in T.vocabulary and not (attr.startswith('__') and attr.endswith('__')) and not any(a[0] == 'builtin' for a in r):
                if not self.expected(n):
                    self.tell('attribute' if T.strict else 'attribute?', n, f'nothing in the package has an attribute {attr}')
            return join(out, EXT if ('x',) in r else ANY)
        if not has and known(r) and not self.expected(n):
            self.tell('attribute', n, f'{names_of(frozenset(a for a in r if a[0] != "none"))} has no attribute {attr}')
            return ANY
        return out or ANY

    def expected(self, n):
        """the code asks whether it is there"""
        return n.attr in self.asked

    def ret_of(self, f):
        return self.T.ret(f) if f is not None else ANY

    def value_of(self, c, attr, n):
        ms = self.T.member(c, attr)
        out = NOTHING
        for m in ms:
            if isinstance(m, Prop):
                out = join(out, self.ret_of(m.get))
            elif isinstance(m, Func):
                out = join(out, frozenset([('func' if m.kind == 'static' else 'bound', m)]))
            else:
                out = join(out, ANY)
        if not ms:
            out = self.T.attr_type(c, attr)
        return out or ANY

    def e_Call(self, n, env):
        # arguments
        args = [self.ev(a.value if isinstance(a, ast.Starred) else a, env) for a in n.args]
        every = args + [self.ev(k.value, env) for k in n.keywords]
        f = n.func
        if isinstance(f, ast.Name) and f.id == 'super' and f.id not in env:
            return frozenset([('super',)]) if self.f.cls is not None and not n.args else ANY
        if isinstance(f, ast.Name) and f.id in ('locals', 'globals', 'vars', 'eval', 'exec') and f.id not in env:
            return ANY
        fmt = isinstance(f, ast.Attribute) and f.attr == 'format' and isinstance(f.value, ast.Constant) and isinstance(f.value.value, str)
        if fmt:
            self.placeholders(n, f.value.value)
        t = self.ev(f, env)
        self.count('call')
        out, why, fine = NOTHING, [], False
        for a in t:
            k = a[0]
            if k in ('func', 'bound'):
                F = a[1]
                drop = 1 if k == 'bound' and F.cls is not None and F.kind != 'static' else 0
                self.T.pass_on(F, drop, n, every)
                self.handed(F, drop, n, env)
                w = refuses(F, drop, n) if plain(F) else None
                if w:
                    why.append(w)
                else:
                    fine = True
                out = join(out, self.T.ret(F) if not (F.kind == 'class' and F.name.startswith('from_')) else self.T.ret(F))
            elif k == 'cls':
                init, c = self.prog.lookup(a[1], '__init__')
                new, _ = self.prog.lookup(a[1], '__new__')
                w = None
                if isinstance(init, Func):
                    self.T.pass_on(init, 1, n, every)
                    self.handed(init, 1, n, env)
                    w = refuses(init, 1, n)
                elif (n.args or n.keywords) and not self.T.open_class(a[1]) and new is None and not a[1].node.decorator_list:
                    w = f'{a[1].name}() takes no arguments'
                if w:
                    why.append(w.replace('__init__()', f'{a[1].name}()'))
                else:
                    fine = True
                out = join(out, frozenset([('obj', a[1])]))
            elif k == 'meth':
                fine = self.builtin_method(n, a, why) or fine
                out = join(out, self.method_result(n, a, args, env))
            elif k == 'builtin':
                fine, out = True, join(out, self.builtin(n, a[1], args, env))
            elif k == 'exc':
                fine, out = True, join(out, frozenset([('excobj', a[1])]))
            elif k == 'ext':
                s = stdlib(a[1])
                w = bindable(s[1], n) if s is not None and s[0] else None
                if s is not None and s[0] and not callable(s[1]):
                    w = f'{a[1]} cannot be called'
                if w:
                    why.append(f'{a[1]}: {w}')
                else:
                    fine = True
                out = join(out, self.ext_result(a[1], args))
            elif k == 'obj':
                m = self.T.member(a[1], '__call__')
                if m or self.T.open_class(a[1]):
                    fine, out = True, ANY
                else:
                    why.append(f'{ast.unparse(f)[:50]} is {a[1].name}, which cannot be called')
            elif k in ('b', 'list', 'set', 'dict', 'tup', 'gen', 'excobj', 'mod', 'const'):
                why.append(f'{ast.unparse(f)[:50]} is {names_of(frozenset([a]))}, which cannot be called')
            elif k == 'none':
                pass
            else:
                fine = True
                out = ANY
        if t and (('any',) in t or ('x',) in t) and isinstance(f, ast.Attribute):
            self.unknown_receiver(n, f, every)
        if why and not fine and not (isinstance(f, ast.Attribute) and self.expected(f)):
            self.tell('call', n, why[0])
        return out or ANY

    def handed(self, F, drop, n, env):
        """containers given to a function that may change them"""
        m = mutated(F)
        if not m:
            return
        a = F.node.args
        names = [x.arg for x in a.posonlyargs + a.args][drop:]
        for i, x in enumerate(n.args):
            if isinstance(x, ast.Starred):
                self.loosen(x, env)
            elif i >= len(names) and a.vararg and a.vararg.arg in m or i < len(names) and names[i] in m:
                self.loosen(x, env)
        for k in n.keywords:
            if k.arg in m or k.arg not in names and a.kwarg and a.kwarg.arg in m:
                self.loosen(k.value, env)

    def unknown_receiver(self, n, f, every):
        """of an unknown object only the name of the method is known: one of the functions of that name must accept the arguments"""
        cands = self.T.methods.get(f.attr, [])
        for F in cands:
            self.T.pass_on(F, 1 if F.cls is not None and F.kind != 'static' else 0, n, every)
        other = self.T.foreign.get(f.attr, []) if self.T.strict else [None]
        if not cands and not other or None in other or f.attr in VOCABULARY or f.attr in self.T.loose or any(f.attr in s for s in self.T.assigned.values()):
            return
        if any(isinstance(c.members.get(f.attr), Prop) for c in self.prog.classes.values()):
            return
        why = [refuses(F, 1 if F.cls is not None and F.kind != 'static' else 0, n) if plain(F) else None for F in cands] + [refuses(Plain(F), 1, n) for F in other]
        if all(why) and not self.expected(f):
            self.tell('call', n, why[0])

    def placeholders(self, n, text):
        if any(isinstance(a, ast.Starred) for a in n.args) or any(k.arg is None for k in n.keywords):
            return
        try:
            fields = [x[1] for x in string.Formatter().parse(text) if x[1] is not None]
        except ValueError:
            self.tell('error', n, 'the format text is malformed')
            return
        auto = 0
        kws = {k.arg for k in n.keywords}
        for x in fields:
            x = x.split('.')[0].split('[')[0]
            if x == '':
                x, auto = str(auto), auto + 1
            if x.isdigit():
                if int(x) >= len(n.args):
                    self.tell('error', n, f'the format text wants more than {len(n.args)} values')
            elif x not in kws:
                self.tell('error', n, f'the format text wants {x}')

    def builtin_method(self, n, a, why):
        py = PY[a[1]] if a[1] in PY else None
        o = getattr(py, a[2], None) if py else None
        if o is None or not callable(o):
            return True
        w = bindable(o, n, 1) if not isinstance(inspect.getattr_static(py, a[2]), (staticmethod, classmethod)) and type(inspect.getattr_static(py, a[2])).__name__ != 'classmethod_descriptor' else None
        if w:
            why.append(f'{a[1]}.{a[2]}: {w}')
        return not w

    def method_result(self, n, a, args, env):
        kind, name, recv = a[1], a[2], a[3]
        r = PURE_RESULT.get(kind, {}).get(name)
        if kind == 'str' and name == 'join' and args:
            el = self.element(args[0], n.args[0])
            self.count('join')
            if known(el) and all(x[0] in ('obj', 'list', 'dict', 'set', 'tup') or x[0] == 'b' and x[1] != 'str' for x in el):
                self.tell('call', n, f'{names_of(el)} cannot be joined to a text')
        if kind in ('list', 'set') and name in ('append', 'add') and args and isinstance(n.func, ast.Attribute):
            self.stored(n.func.value, self.ev(n.func.value, env), INT, args[0], env)
        if kind == 'list' and name in ('extend',) and args:
            self.stored(n.func.value, self.ev(n.func.value, env), INT, self.element(args[0], n.args[0]), env)
        if kind == 'list' and name == 'insert' and len(args) > 1:
            self.stored(n.func.value, self.ev(n.func.value, env), INT, args[1], env)
        if kind == 'dict' and name == 'update':
            for x in args:
                for y in x:
                    if y[0] == 'dict':
                        self.stored(n.func.value, self.ev(n.func.value, env), y[1], y[2], env)
            if not args or not all(y[0] == 'dict' for y in args[0]):
                self.stored(n.func.value, self.ev(n.func.value, env), ANY, ANY, env)
        if kind == 'dict' and name == 'setdefault' and len(args) > 1:
            self.stored(n.func.value, self.ev(n.func.value, env), args[0], args[1], env)
        if r is not None:
            return r
        if kind in ('list', 'set', 'dict') and name == 'copy':
            return frozenset([recv])
        if kind == 'list' and name == 'pop' or kind == 'set' and name == 'pop':
            return recv[1]
        if kind == 'dict':
            if name == 'keys':
                return frozenset([('list', recv[1])]) if False else frozenset([('set', recv[1])])
            if name == 'values':
                return frozenset([('gen', recv[2])])
            if name == 'items':
                return frozenset([('gen', frozenset([('tup', (recv[1], recv[2]))]))])
            if name in ('get', 'pop', 'setdefault'):
                return join(recv[2], args[1] if len(args) > 1 else NONE if name == 'get' else NOTHING)
        return ANY

    def builtin(self, n, name, args, env):
        a0 = args[0] if args else NOTHING
        star = any(isinstance(x, ast.Starred) for x in n.args)
        py = getattr(builtins, name)
        w = bindable(py, n)
        if w:
            self.tell('call', n, f'{name}: {w}')
        fixed = {'len': (1, 1), 'isinstance': (2, 2), 'issubclass': (2, 2), 'hasattr': (2, 2), 'setattr': (3, 3), 'getattr': (2, 3), 'range': (1, 3), 'next': (1, 2), 'iter': (1, 2), 'callable': (1, 1), 'id': (1, 1), 'hash': (1, 1), 'repr': (1, 1), 'type': (1, 3), 'bool': (0, 1), 'list': (0, 1), 'tuple': (0, 1), 'set': (0, 1), 'delattr': (2, 2)}
        if name in fixed and not star and not n.keywords and not fixed[name][0] <= len(n.args) <= fixed[name][1]:
            self.tell('call', n, f'{name}() is given {len(n.args)} arguments')
        if name == 'len':
            self.count('len')
            if known(a0) and all(x[0] in ('b', 'bound', 'func', 'gen', 'obj', 'none', 'meth') and not (x[0] == 'b' and x[1] in ('str', 'bytes')) and not (x[0] == 'gen' and False) and
                                 not (x[0] == 'obj' and (self.T.member(x[1], '__len__') or self.T.open_class(x[1]))) for x in a0) and not any(x[0] == 'gen' for x in a0):
                self.tell('call', n, f'{ast.unparse(n.args[0])[:50]} is {names_of(a0)}, which has no length')
            return INT
        if name in ('list', 'sorted', 'tuple', 'set', 'frozenset', 'reversed', 'iter', 'enumerate', 'sum', 'any', 'all') and args and not star:
            el = self.element(a0, n.args[0])
            if name in ('list', 'sorted', 'reversed', 'tuple'):
                return frozenset([('list' if name != 'reversed' else 'gen', el)]) if name != 'tuple' else ANY
            if name in ('set', 'frozenset'):
                return frozenset([('set', el)])
            if name == 'iter':
                return frozenset([('gen', el)])
            if name == 'enumerate':
                return frozenset([('gen', frozenset([('tup', (INT, el))]))])
            return BOOL if name in ('any', 'all') else ANY
        if name == 'list':
            return frozenset([('list', NOTHING)])
        if name == 'dict' and not args and not n.keywords:
            return frozenset([('dict', NOTHING, NOTHING)])
        if name == 'dict':
            return frozenset([x for x in a0 if x[0] == 'dict'] or [('dict', ANY, ANY)])
        if name == 'set':
            return frozenset([('set', NOTHING)])
        if name == 'zip' and not star:
            return frozenset([('gen', frozenset([('tup', tuple(self.element(t, x) for t, x in zip(args, n.args)))]))])
        if name == 'range':
            for t, x in zip(args, n.args):
                if known(t) and all(y[0] in ('list', 'dict', 'set', 'tup', 'obj', 'bound', 'func') or y[0] == 'b' and y[1] in ('str', 'float') for y in t):
                    self.tell('call', n, f'range of {names_of(t)}')
            return frozenset([('gen', INT)])
        if name in ('str', 'repr', 'format', 'chr', 'ascii', 'input', 'hex', 'bin', 'oct'):
            return STR
        if name in ('int', 'id', 'hash', 'ord', 'round'):
            return INT if name != 'round' else ANY
        if name == 'float':
            return FLOAT
        if name in ('isinstance', 'issubclass', 'hasattr', 'callable', 'bool'):
            return BOOL
        if name in ('setattr', 'print', 'delattr'):
            return NONE
        if name in ('next', 'min', 'max') and len(args) == 1:
            return self.element(a0, n.args[0])
        if name == 'type' and len(args) == 1:
            return frozenset(('cls', x[1]) if x[0] == 'obj' else ('any',) for x in a0) or ANY
        return ANY

    def ext_result(self, dotted, args):
        if dotted in ('copy.copy', 'copy.deepcopy') and args:
            return args[0]
        s = stdlib(dotted)
        if s is not None and s[0]:
            if isinstance(s[1], type) and issubclass(s[1], BaseException):
                return ANY
            if dotted in ('os.path.join', 'html.escape', 'os.path.basename', 'os.path.dirname', 're.sub', 're.escape'):
                return STR
            if dotted == 'warnings.warn':
                return NONE
        return EXT

    def e_Subscript(self, n, env):
        r = self.ev(n.value, env)
        k = self.ev(n.slice, env) if not isinstance(n.slice, ast.Slice) else None
        if k is None:
            for x in (n.slice.lower, n.slice.upper, n.slice.step):
                if x is not None:
                    self.ev(x, env)
        self.count('subscript')
        out, fine = NOTHING, False
        for a in r:
            if a[0] == 'dict':
                fine, out = True, join(out, a[2])
            elif a[0] == 'list':
                fine, out = True, join(out, a[1] if k is not None else frozenset([a]))
            elif a[0] == 'tup':
                fine = True
                i = n.slice.value if isinstance(n.slice, ast.Constant) and type(n.slice.value) is int else None
                if i is not None and -len(a[1]) <= i < len(a[1]):
                    out = join(out, a[1][i])
                elif i is not None and len(r) == 1:
                    self.tell('subscript', n, f'a tuple of {len(a[1])} has no element {i}')
                else:
                    out = join(out, ANY)
            elif a[0] == 'b':
                fine = fine or a[1] in ('str', 'bytes')
                out = join(out, STR)
            elif a[0] == 'obj':
                if self.T.member(a[1], '__getitem__') or self.T.open_class(a[1]):
                    fine, out = True, ANY
            elif a[0] in ('func', 'bound', 'meth', 'set', 'gen', 'none', 'excobj', 'const'):
                pass
            else:
                fine, out = True, ANY
        if not fine and known(r):
            self.tell('subscript', n, f'{ast.unparse(n.value)[:50]} is {names_of(r)}, which has no elements')
        return out or ANY

    def binop(self, n, op, l, r):
        self.count('operator')

        def texts(t):
            return known(t) and t and all(a == ('b', 'str') for a in t)

        def never(t):
            return known(t) and all(a[0] in ('list', 'dict', 'set', 'tup', 'none', 'gen', 'cls', 'func', 'bound', 'exc', 'excobj') or a[0] == 'b' and a[1] != 'str' or
                                    a[0] == 'obj' and not self.T.member(a[1], '__radd__') and not self.T.member(a[1], '__add__') for a in t)
        if isinstance(op, ast.Add):
            if texts(l) and never(r) or texts(r) and never(l):
                self.tell('error', n, f'a text and {names_of(r if texts(l) else l)} are added')
            if texts(l) or texts(r):
                return STR
            if l == r and known(l):
                return l
            if any(a[0] == 'list' for a in l) and all(a[0] in ('list',) for a in l | r):
                return join(l, r)
            if known(l) and known(r) and all(a[0] == 'b' and a[1] in ('int', 'bool') for a in l | r):
                return INT
            return ANY
        if isinstance(op, ast.Sub) and texts(l) | texts(r) and (known(l) and known(r)):
            self.tell('error', n, 'a text is subtracted')
        if isinstance(op, ast.Mod) and texts(l):
            left = n.left if isinstance(n, ast.BinOp) else None
            if isinstance(left, ast.Constant) and isinstance(n.right, ast.Tuple):
                text = left.value.replace('%%', '')
                if '%(' not in text and '*' not in text and text.count('%') != len(n.right.elts):
                    self.tell('error', n, f'{text.count("%")} places for {len(n.right.elts)} values')
            return STR
        if isinstance(op, ast.Mult) and (texts(l) or texts(r)):
            return STR
        if known(l) and known(r) and all(a[0] == 'b' and a[1] in ('int', 'bool') for a in l | r) and not isinstance(op, ast.Div):
            return INT
        return ANY

    def e_BinOp(self, n, env):
        return self.binop(n, n.op, self.ev(n.left, env), self.ev(n.right, env))

    def e_BoolOp(self, n, env):
        out = NOTHING
        for i, v in enumerate(n.values):
            t = self.ev(v, env)
            if isinstance(n.op, ast.Or) and i < len(n.values) - 1:
                t = frozenset(a for a in t if a[0] != 'none')
            out = join(out, t)
            env = self.narrow(v, env, isinstance(n.op, ast.And))
        return out or ANY

    def e_Compare(self, n, env):
        l = self.ev(n.left, env)
        for op, c in zip(n.ops, n.comparators):
            r = self.ev(c, env)
            if isinstance(op, (ast.In, ast.NotIn)) and known(r):
                self.count('membership')
                if all(a[0] in ('none', 'bound', 'func') or a[0] == 'b' and a[1] not in ('str', 'bytes') or
                       a[0] == 'obj' and not any(self.T.member(a[1], k) for k in ('__contains__', '__iter__', '__getitem__')) and not self.T.open_class(a[1]) for a in r):
                    self.tell('iteration', n, f'{ast.unparse(c)[:50]} is {names_of(r)}, which contains nothing')
            l = r
        return BOOL if not (len(n.ops) == 1 and False) else ANY

    def e_UnaryOp(self, n, env):
        t = self.ev(n.operand, env)
        return BOOL if isinstance(n.op, ast.Not) else t

    def e_IfExp(self, n, env):
        self.ev(n.test, env)
        return join(self.ev(n.body, self.narrow(n.test, env, True)), self.ev(n.orelse, self.narrow(n.test, env, False)))

    def e_List(self, n, env):
        ts = [self.element(self.ev(x.value, env), x.value) if isinstance(x, ast.Starred) else self.ev(x, env) for x in n.elts]
        for x in n.elts:
            if not isinstance(x, ast.Starred):
                self.loosen(x, env)
        return frozenset([('list', join(*ts) if ts else NOTHING)])

    def e_Set(self, n, env):
        return frozenset([('set', self.e_List(n, env).__iter__().__next__()[1])])

    def e_Tuple(self, n, env):
        if any(isinstance(x, ast.Starred) for x in n.elts):
            for x in n.elts:
                self.ev(x.value if isinstance(x, ast.Starred) else x, env)
            return ANY
        t = cut(frozenset([('tup', tuple(self.ev(x, env) for x in n.elts))]))
        for x in n.elts:
            self.loosen(x, env)
        return t

    def e_Dict(self, n, env):
        ks, vs = NOTHING, NOTHING
        for k, v in zip(n.keys, n.values):
            t = self.ev(v, env)
            if k is None:
                ks, vs = ANY, ANY
            else:
                ks, vs = join(ks, self.ev(k, env)), join(vs, t)
                self.loosen(v, env)
        return frozenset([('dict', ks, vs)])

    def gens(self, n, env):
        env = dict(env)
        for g in n.generators:
            el = self.element(self.ev(g.iter, env), g.iter)
            self.assign(g.target, el, env, None)
            for c in g.ifs:
                self.ev(c, env)
                env = dict(self.narrow(c, env, True))
        return env

    def e_ListComp(self, n, env):
        e = self.gens(n, env)
        return cut(frozenset([('list', self.ev(n.elt, e))]))

    def e_SetComp(self, n, env):
        return cut(frozenset([('set', self.ev(n.elt, self.gens(n, env)))]))

    def e_GeneratorExp(self, n, env):
        return cut(frozenset([('gen', self.ev(n.elt, self.gens(n, env)))]))

    def e_DictComp(self, n, env):
        e = self.gens(n, env)
        return cut(frozenset([('dict', self.ev(n.key, e), self.ev(n.value, e))]))

    def e_Lambda(self, n, env):
        inner = {**env, **{p: ANY for p in params_of(n)}}
        for x in self.locals:
            inner.setdefault(x, ANY)
        self.ev(n.body, inner)
        return ANY

    def e_NamedExpr(self, n, env):
        t = self.ev(n.value, env)
        env[n.target.id] = t
        return t

    def e_Starred(self, n, env):
        self.element(self.ev(n.value, env), n.value)
        return ANY

    def e_Yield(self, n, env):
        t = self.ev(n.value, env) if n.value is not None else NONE
        self.out = join(getattr(self, 'out', None) or NOTHING, t)
        return ANY

    def e_YieldFrom(self, n, env):
        t = self.element(self.ev(n.value, env), n.value)
        self.out = join(getattr(self, 'out', None) or NOTHING, t)
        return ANY


CHANGES = ('append', 'extend', 'insert', 'add', 'update', 'setdefault', '__setitem__', 'appendleft', 'extendleft')


def mutated(F):
    """the parameters whose containers a function may put something into"""
    if F not in MUTATED:
        out = set()
        root = lambda e: root(e.value) if isinstance(e, (ast.Subscript, ast.Starred)) else e
        for n in ast.walk(F.node):
            es = []
            if isinstance(n, ast.Attribute) and n.attr in CHANGES:
                es = [n.value]
            elif isinstance(n, (ast.Assign, ast.AugAssign, ast.AnnAssign)):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target]
                es = [t.value for t in ts if isinstance(t, ast.Subscript)] + [n.target for _ in (0,) if isinstance(n, ast.AugAssign)]
                es += [n.value] if n.value is not None else []
            elif isinstance(n, ast.Call):
                if not (isinstance(n.func, ast.Name) and n.func.id in dir(builtins) and n.func.id not in ('setattr', 'map', 'filter')):
                    es = list(n.args) + [k.value for k in n.keywords]
            elif isinstance(n, (ast.For, ast.comprehension)):
                es = [n.iter] if F.node.args.vararg and getattr(n.iter, 'id', '') == F.node.args.vararg.arg else []
            elif isinstance(n, (ast.Tuple, ast.List)) and isinstance(n.ctx, ast.Load):
                es = n.elts
            out |= {root(e).id for e in es if isinstance(root(e), ast.Name)}
        MUTATED[F] = out & set(params_of(F.node))
    return MUTATED[F]


MUTATED = {}


class Plain:
    def __init__(self, node):
        self.node, self.name = node, node.name


def instance_only(T, c):
    return {a for a in T.assigned.get(c, ()) if a not in c.members}


def load(n):
    import copy
    n = copy.copy(n)
    n.ctx = ast.Load()
    return n


def params_of(n):
    a = n.args
    return [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs] + [x.arg for x in (a.vararg, a.kwarg) if x is not None]


_bound = {}


def bound_names(fn):
    """the names a function (or module) binds itself"""
    if fn in _bound:
        return _bound[fn]
    out = set() if isinstance(fn, ast.Module) else set(params_of(fn))
    glob = set()
    stack = list(fn.body) if isinstance(fn.body, list) else [fn.body]
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, ast.Global):
            glob |= set(n.names)
        for k in ('name', 'rest'):
            if isinstance(n, (ast.MatchAs, ast.MatchStar, ast.MatchMapping)) and getattr(n, k, None):
                out.add(getattr(n, k))
        stack.extend(ast.iter_child_nodes(n))
    _bound[fn] = out - glob
    return _bound[fn]
