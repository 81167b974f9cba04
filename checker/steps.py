"""One step of a loop as a function: the body of the loop, with everything it carries from one step to the next
as parameters, and what it hands out and carries on as the result."""
import ast, copy
from prog import Func


class Turn(ast.NodeTransformer):
    """yield x becomes __out.append(x); continue and break end the step"""

    def __init__(self, carried):
        self.carried, self.ok = carried, True

    def visit_FunctionDef(self, n):
        self.ok = False
        return n
    visit_Lambda = lambda self, n: n

    def end(self, how):
        return ast.Return(ast.Tuple([ast.Constant(how), ast.Name('__out', ast.Load())] + [ast.Name(v, ast.Load()) for v in self.carried], ast.Load()))

    def visit_For(self, n):
        self.depth = getattr(self, 'depth', 0) + 1
        n = self.generic_visit(n)
        self.depth -= 1
        return n
    visit_While = visit_For

    def visit_Continue(self, n):
        return n if getattr(self, 'depth', 0) else ast.copy_location(self.end('next'), n)

    def visit_Break(self, n):
        return n if getattr(self, 'depth', 0) else ast.copy_location(self.end('stop'), n)

    def visit_Return(self, n):
        return ast.copy_location(self.end('stop'), n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Yield):
            v = n.value.value or ast.Constant(None)
            c = ast.Call(ast.Attribute(ast.Name('__out', ast.Load()), 'append', ast.Load()), [v], [])
            return ast.copy_location(ast.Expr(c), n)
        if isinstance(n.value, ast.YieldFrom):
            self.ok = False
        return n


def names(t):
    return [x.id for x in ast.walk(t) if isinstance(x, ast.Name)]


def stores(nodes):
    out = []
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and x.id not in out:
                out.append(x.id)
    return out


class Step:
    """loop: the loop; before: the statements before it; pre: what their names are set to; carried: names
    that live from one step to the next; fn: the step as a function"""


def step_of(f):
    """the one outermost loop of a function that yields, as a step; None when there is not exactly one"""
    body = f.node.body
    at = [i for i, n in enumerate(body) if isinstance(n, (ast.For, ast.While))]
    if len(at) != 1 or any(isinstance(x, (ast.Yield, ast.YieldFrom)) for i, n in enumerate(body) if i != at[0] for x in ast.walk(n)):
        return None
    loop = body[at[0]]
    if not isinstance(loop, ast.For) or loop.orelse:
        return None
    s = Step()
    s.loop, s.before, s.after = loop, body[:at[0]], body[at[0] + 1:]
    a = f.node.args
    params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    s.target = names(loop.target)
    pre = stores(s.before)
    s.pre = {}
    for n in s.before:
        if isinstance(n, (ast.Assign, ast.AnnAssign)) and n.value is not None:
            for t in n.targets if isinstance(n, ast.Assign) else [n.target]:
                if isinstance(t, ast.Name):
                    s.pre[t.id] = n.value
    used = set(names(ast.Module(loop.body, [])))
    s.params = [p for p in dict.fromkeys(params + pre) if p in used]
    s.carried = [p for p in s.params if p not in s.target]
    t = Turn(s.carried)
    new = [t.visit(copy.deepcopy(n)) for n in loop.body]
    if not t.ok:
        return None
    new = [ast.copy_location(ast.Assign([ast.Name('__out', ast.Store())], ast.List([], ast.Load())), loop)] + new + [ast.copy_location(t.end('next'), loop)]
    args = ast.arguments([], [ast.arg(x) for x in s.target + [p for p in s.params if p not in s.target]], None, [], [], None, [])
    node = ast.FunctionDef(f.node.name, args, new, [], None, None)
    ast.copy_location(node, loop)
    for x in ast.walk(node):
        if not hasattr(x, 'lineno'):
            x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = loop.lineno, 0, loop.lineno, 0
    ast.fix_missing_locations(node)
    g = Func.__new__(Func)
    for k in ('name', 'module', 'cls', 'kind', 'qual', 'path'):
        setattr(g, k, getattr(f, k))
    g.node, g.isgen = node, False
    s.fn = g
    return s


class Round(Turn):
    """continue and break end the round of a while loop"""

    def end(self, how):
        return ast.Return(ast.Tuple([ast.Constant(how)] + [ast.Name(v, ast.Load()) for v in self.carried], ast.Load()))

    def visit_Return(self, n):
        self.ok = False
        return n

    def visit_Expr(self, n):
        return self.generic_visit(n)


def func_like(f, name, args, body, at):
    node = ast.FunctionDef(name, ast.arguments([], args, None, [], [], None, []), body or [ast.Pass()], [], None, None)
    node = ast.fix_missing_locations(ast.copy_location(node, at))
    for x in ast.walk(node):
        if isinstance(x, (ast.expr, ast.stmt)) and not hasattr(x, 'lineno'):
            x.lineno, x.col_offset, x.end_lineno, x.end_col_offset = at.lineno, 0, at.lineno, 0
    g = Func.__new__(Func)
    for k in ('name', 'module', 'cls', 'kind', 'qual', 'path'):
        setattr(g, k, getattr(f, k))
    g.node, g.isgen = node, False
    return g


def round_of(f, kinds):
    """the one outermost while loop of a function as three functions: what is set before it, one round, and what
    is handed back after it; kinds(before, names) tells what each name holds before the loop"""
    body = [n for n in f.node.body if not (isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant))]
    at = [i for i, n in enumerate(body) if isinstance(n, ast.While)]
    if len(at) != 1 or body[at[0]].orelse:
        return None
    loop = body[at[0]]
    s = Step()
    a = f.node.args
    s.params = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
    before, after = body[:at[0]], body[at[0] + 1:]
    if any(isinstance(x, (ast.Return, ast.Yield, ast.YieldFrom)) for n in before + [loop] for x in ast.walk(n)):
        return None
    pre = [p for p in stores(before) if p not in s.params]
    inner = stores([loop])
    used = names(ast.Module([loop] + after, []))
    # what the loop may change: names it stores, and collections set up before it
    s.carried = [p for p in pre if p in used] + [p for p in s.params if p in inner]
    tup = lambda: ast.Tuple([ast.Name(v, ast.Load()) for v in s.carried], ast.Load())
    plain = lambda xs: [ast.arg(x) for x in xs]
    dc = copy.deepcopy
    s.before = func_like(f, f.name, plain(s.params), dc(before) + [ast.Return(tup())], loop)
    s.init, s.kind = kinds(s.before, s.carried)
    if s.init is None:
        return None
    t = Round(s.carried)
    new = [t.visit(dc(n)) for n in loop.body]
    if not t.ok:
        return None
    own = [ast.Assign([ast.Name(v, ast.Store())], ast.Call(ast.Name(s.kind[v], ast.Load()), [ast.Name(v, ast.Load())], [])) for v in s.carried if s.kind[v] in ('list', 'dict', 'set')]
    gate = [] if isinstance(loop.test, ast.Constant) and loop.test.value else [ast.If(ast.UnaryOp(ast.Not(), dc(loop.test)), [t.end('stop')], [])]
    ann = lambda v: ast.arg(v, ast.Name(s.kind[v], ast.Load()) if s.kind.get(v) else None)
    everything = [p for p in s.params if p not in s.carried] + s.carried
    s.round = func_like(f, f.name, [ann(v) for v in everything], own + gate + new + [t.end('next')], loop)
    s.after = func_like(f, f.name, [ann(v) for v in everything], dc(after), after[0] if after else loop)
    s.loop = loop
    return s
