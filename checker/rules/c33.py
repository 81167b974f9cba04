"""Well-formedness of every function: names, attributes, modules and call arguments against whole-program inferred types; locals by path-sensitive definite assignment; instance attributes by definite initialisation in the constructors; what is raised is an exception that can be made."""
import ast
from report import *
from prog import Func
from wellformed import Types
from assigned import Locals, Init

KINDS = {
    'name': 'every name exists', 'attribute': 'every attribute exists', 'import': 'every module and imported name exists', 'call': 'every call has a callee that takes its arguments',
    'error': 'errors are exceptions that can be made and are raised', 'subscript': 'what is subscripted has elements', 'iteration': 'what is iterated can be', 'unpacking': 'values are unpacked into as many names',
}


def run(ctx, rep):
    prog = ctx.prog
    T = Types(prog)
    found = T.solve()
    for f in prog.funcs:
        ctx.functions.add(f.qual)
    for kind, what in KINDS.items():
        here = [x for x in found if x.rule == kind]
        soft = [x for x in found if x.rule == kind + '?']
        n = T.counts.get(kind, 0)
        rep.done(what, False if here else None if soft or not n else True, (here or soft)[0].msg if here or soft else f'{n} places', n)
        for x in here:
            rep.violate(kind, x.func, x.node, x.msg)
    uses, bad, capped = 0, 0, 0
    for f in prog.funcs:
        L = Locals(f)
        for (name, line), (node, sure) in sorted(L.run().items(), key=lambda p: p[0][1]):
            if L.capped and not sure:
                capped += 1
                continue
            bad += 1
            rep.violate('unassigned', f, node, f'{name} has no value yet' if sure else f'{name} has no value on some way here')
        uses += L.uses
    rep.done('every local has a value when it is used', False if bad else None if capped else True, f'{uses} uses', uses)
    attributes(ctx, rep, T)


def attributes(ctx, rep, T):
    prog = ctx.prog
    made = {n.func.id for m in prog.modules.values() for n in ast.walk(m.tree) if isinstance(n, ast.Call) and isinstance(n.func, ast.Name)}
    leaves = [c for c in prog.classes.values() if c.name in made or not any(c is not k and c in prog.mro(k) for k in prog.classes.values())]
    loads, seen = 0, set()
    for c in leaves:
        init, _ = prog.lookup(c, '__init__')
        if not isinstance(init, Func) or T.open_class(c):
            continue
        I = Init(T, c)
        have = I.after(init, frozenset())
        bad = False
        for f, n, attr, sure in I.early:
            if (f, n.lineno, attr) in seen or asked(f, attr):
                continue
            seen.add((f, n.lineno, attr))
            if sure:
                bad = True
                rep.violate('unassigned', f, n, f'{c.name}: the attribute {attr} is read before the constructor gives it a value')
        for how in ('__setstate__',):
            m, _ = prog.lookup(c, how)
            if not isinstance(m, Func):
                continue
            J = Init(T, c)
            other = J.after(m, frozenset())
            if '*' not in other:
                read = loaded(prog, c)
                for a in sorted(have - other - {'*'}):
                    if a in read and (c, how, a) not in seen:
                        seen.add((c, how, a))
                        bad = True
                        rep.violate('unassigned', m, None, f'{c.name}: the attribute {a} has no value after {how}')
        if '*' not in have:
            for k in prog.mro(c):
                for m in k.members.values():
                    for f in ([m] if isinstance(m, Func) else [x for x in (getattr(m, 'get', None), getattr(m, 'set', None)) if x is not None]):
                        if f is init or f.kind in ('static', 'class') or f.name in ('__init__', '__setstate__', '__new__') or any(x is f for x, *_ in I.early):
                            continue
                        J = Init(T, c)
                        J.after(f, have)
                        for g, n, attr, sure in J.early:
                            if (g, n.lineno, attr) in seen or asked(g, attr) or any(attr in x.members for x in T.related(c)):
                                continue
                            seen.add((g, n.lineno, attr))
                            bad = True
                            rep.violate('unassigned', g, n, f'{c.name}: the attribute {attr} may never have been given a value')
                        loads += 1
        rep.done(f'{c.name}: attributes have values from the start', False if bad else None if '*' in have else True, f'{len(have)} attributes', len(have))


def asked(f, attr):
    """the code asks whether it is there, or expects that it is not"""
    for n in ast.walk(f.node):
        if isinstance(n, ast.Constant) and n.value == attr:
            return True
        if isinstance(n, ast.ExceptHandler) and (n.type is None or 'AttributeError' in ast.dump(n.type) or "'Exception'" in ast.dump(n.type)):
            return True
    return False


def loaded(prog, c):
    out = set()
    for m in prog.modules.values():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                out.add(n.attr)
    return out
