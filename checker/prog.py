"""Program model: parses every module of the package under analysis and resolves
imports, classes, method tables and decorators. Nothing of the package is imported or run."""
import ast
import os
import hashlib


class AnalysisBroken(Exception):
    """The analysis itself cannot proceed (anchor vanished, source unparsable)."""


class Func:
    __slots__ = ('name', 'node', 'module', 'cls', 'kind', 'qual', 'isgen', 'path', '_assigned')

    def __init__(self, name, node, module, cls, kind):
        self.name, self.node, self.module, self.cls, self.kind = name, node, module, cls, kind
        self.qual = (cls.name + '.' if cls else module.short + ':') + name
        self.path = module.path
        self.isgen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in walk_own(node))

    def __repr__(self):
        return f'<Func {self.qual}>'

    def where(self):
        return f'{self.path}:{self.node.lineno} ({self.qual})'


def walk_own(fn):
    """Nodes of a function body without nested function/class bodies."""
    stack = list(getattr(fn, 'body', [])) if not isinstance(fn, ast.Lambda) else [fn.body]
    while stack:
        n = stack.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        stack.extend(ast.iter_child_nodes(n))


class Prop:
    __slots__ = ('get', 'set', 'name')

    def __init__(self, name):
        self.name, self.get, self.set = name, None, None


class Cls:
    def __init__(self, name, node, module):
        self.name, self.node, self.module = name, node, module
        self.base_names = node.bases
        self.bases = []
        self.members = {}   # name -> Func | Prop | ast expr (class constant)
        self.mro_cache = None

    def __repr__(self):
        return f'<Cls {self.name}>'


class Module:
    def __init__(self, short, path, tree, src):
        self.short, self.path, self.tree, self.src = short, path, tree, src
        self.names = {}     # name -> ('func',Func)|('cls',Cls)|('import',modshort,name)|('ext',dotted)|('expr',ast)


class Program:
    PKG = 'abstract'

    def __init__(self, repo):
        self.repo = repo
        self.modules = {}
        self.classes = {}
        self.funcs = []
        root = os.path.join(repo, self.PKG)
        if not os.path.isdir(root):
            raise AnalysisBroken(f'package directory {root} is missing')
        digest = hashlib.sha256()
        for d, dirs, files in os.walk(root):
            dirs[:] = sorted(x for x in dirs if x not in ('__pycache__', 'test', 'tests') and not x.startswith('.'))
            for f in sorted(files):
                if not f.endswith('.py'):
                    continue
                p = os.path.join(d, f)
                with open(p, encoding='utf-8') as fh:
                    src = fh.read()
                digest.update(p.encode() + b'\0' + src.encode() + b'\0')
                rel = os.path.relpath(p, root)[:-3].replace(os.sep, '.')
                short = '' if rel == '__init__' else (rel[:-9] if rel.endswith('.__init__') else rel)
                try:
                    tree = ast.parse(src, p)
                except SyntaxError as e:
                    raise AnalysisBroken(f'{p} does not parse: {e}')
                m = Module(short, os.path.relpath(p, repo), tree, src)
                m.ispkg = f == '__init__.py'
                self.modules[short] = m
        self.digest = digest.hexdigest()
        for m in self.modules.values():
            self._load(m, m.tree.body)
        for c in self.classes.values():
            for b in c.base_names:
                r = self.resolve_expr(c.module, b)
                if r and r[0] == 'cls':
                    c.bases.append(r[1])
        self.lines = sum(m.src.count('\n') for m in self.modules.values())

    # -- loading
    def _load(self, m, body):
        for n in body:
            if isinstance(n, ast.FunctionDef):
                f = Func(n.name, n, m, None, 'func')
                m.names[n.name] = ('func', f)
                self.funcs.append(f)
            elif isinstance(n, ast.ClassDef):
                c = Cls(n.name, n, m)
                m.names[n.name] = ('cls', c)
                self.classes[n.name] = c
                self._load_class(c)
            elif isinstance(n, ast.ImportFrom):
                base = self._rel(m, n)
                for a in n.names:
                    nm = a.asname or a.name
                    if base is None:
                        m.names[nm] = ('ext', f'{n.module}.{a.name}')
                    else:
                        m.names[nm] = ('import', base, a.name)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    m.names[a.asname or a.name.split('.')[0]] = ('ext', a.name if a.asname else a.name.split('.')[0])
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        m.names[t.id] = ('expr', n.value)
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                m.names[n.target.id] = ('expr', n.value)
            elif isinstance(n, (ast.If, ast.Try)):
                for part in ('body', 'orelse', 'finalbody'):
                    self._load(m, getattr(n, part, []))
                for h in getattr(n, 'handlers', []):
                    self._load(m, h.body)

    def _load_class(self, c):
        for n in c.node.body:
            if isinstance(n, ast.FunctionDef):
                kind, target = 'method', None
                for d in n.decorator_list:
                    if isinstance(d, ast.Name) and d.id in ('staticmethod', 'classmethod', 'property'):
                        kind = {'staticmethod': 'static', 'classmethod': 'class', 'property': 'getter'}[d.id]
                    elif isinstance(d, ast.Name) and d.id == 'cached_property' or isinstance(d, ast.Attribute) and d.attr == 'cached_property':
                        kind = 'cached'
                    elif isinstance(d, ast.Attribute) and d.attr in ('setter', 'getter', 'deleter'):
                        kind = d.attr
                    elif isinstance(d, ast.Call) and getattr(d.func, 'id', getattr(d.func, 'attr', '')) == 'wraps':
                        pass
                    elif isinstance(d, (ast.Name, ast.Attribute, ast.Call)):
                        nm = getattr(d, 'id', getattr(d, 'attr', None)) or getattr(getattr(d, 'func', None), 'id', None) or getattr(getattr(d, 'func', None), 'attr', '')
                        if nm in ('lru_cache', 'cache'):
                            kind = 'cachedmethod'
                f = Func(n.name, n, c.module, c, kind)
                self.funcs.append(f)
                if kind in ('getter', 'setter', 'deleter', 'cached'):
                    p = c.members.get(n.name)
                    if not isinstance(p, Prop):
                        p = Prop(n.name)
                        c.members[n.name] = p
                    if kind in ('getter', 'cached'):
                        p.get = f
                    elif kind == 'setter':
                        p.set = f
                else:
                    c.members[n.name] = f
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        v = n.value
                        if isinstance(v, ast.Name) and isinstance(c.members.get(v.id), (Func, Prop)):
                            c.members[t.id] = c.members[v.id]
                        elif (isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == 'property'
                              and v.args and isinstance(v.args[0], ast.Name) and isinstance(c.members.get(v.args[0].id), Func)):
                            p = Prop(t.id)
                            p.get = c.members[v.args[0].id]
                            if len(v.args) > 1 and isinstance(v.args[1], ast.Name):
                                p.set = c.members.get(v.args[1].id)
                            c.members[t.id] = p
                        else:
                            c.members[t.id] = v
            elif isinstance(n, ast.AnnAssign) and isinstance(n.target, ast.Name) and n.value is not None:
                c.members[n.target.id] = n.value

    def _rel(self, m, n):
        if n.level == 0:
            if n.module == self.PKG or (n.module or '').startswith(self.PKG + '.'):
                return n.module[len(self.PKG) + 1:]
            return None
        parts = m.short.split('.') if m.short else []
        if not m.ispkg:
            parts = parts[:-1]
        up = n.level - 1
        if up:
            parts = parts[:-up]
        if n.module:
            parts = parts + n.module.split('.')
        return '.'.join(parts)

    # -- resolution
    def resolve(self, m, name, depth=0):
        """('func',F)|('cls',C)|('ext',dotted)|('mod',Module)|('expr',ast,Module)|None"""
        e = m.names.get(name)
        if e is None or depth > 8:
            return None
        if e[0] == 'import':
            tgt = self.modules.get(e[1])
            if tgt is not None and e[2] in tgt.names:
                return self.resolve(tgt, e[2], depth + 1)
            sub = self.modules.get((e[1] + '.' if e[1] else '') + e[2])
            if sub is not None:
                return ('mod', sub)
            return None
        if e[0] == 'expr':
            return ('expr', e[1], m)
        return e

    def resolve_expr(self, m, expr):
        if isinstance(expr, ast.Name):
            return self.resolve(m, expr.id)
        return None

    def mro(self, c):
        if c.mro_cache is None:
            seqs = [list(self.mro(b)) for b in c.bases] + [list(c.bases)]
            out = [c]
            while any(seqs):
                seqs = [s for s in seqs if s]
                for s in seqs:
                    h = s[0]
                    if not any(h in t[1:] for t in seqs):
                        break
                out.append(h)
                seqs = [[x for x in s if x is not h] for s in seqs]
            c.mro_cache = out
        return c.mro_cache

    def lookup(self, c, name, after=None):
        mro = self.mro(c)
        if after is not None:
            mro = mro[mro.index(after) + 1:] if after in mro else mro
        for k in mro:
            if name in k.members:
                return k.members[name], k
        return None, None

    def subclass(self, a, b):
        """a, b class names"""
        ca, cb = self.classes.get(a), self.classes.get(b)
        return a == b or (ca is not None and cb is not None and cb in self.mro(ca))

    def need_class(self, name):
        if name not in self.classes:
            raise AnalysisBroken(f'class {name} not found in the package')
        return self.classes[name]

    def need_method(self, cls, name):
        f, _ = self.lookup(self.need_class(cls), name)
        if f is None:
            raise AnalysisBroken(f'{cls}.{name} not found')
        return f
