"""Canonical form of a disjunction of conjunctions of literals: its prime implicants, modulo combinations
of literals that cannot hold together (an object of two unrelated classes, equal to two constants)."""
from terms import *

DISJOINT = {'str', 'int', 'float', 'dict', 'list', 'tuple', 'set', 'Node', 'Edge', 'NodeStyle', 'EdgeStyle', 'Graph', 'Colour'}


def exclusive(atoms):
    """pairs of literals that cannot both hold"""
    out = []
    L = sorted(atoms, key=lambda t: t.order)
    for i, a in enumerate(L):
        for b in L[i + 1:]:
            if a.op == 'isinst' and b.op == 'isinst' and a.args[0] is b.args[0]:
                x, y = str(a.args[1]).split('.')[-1], str(b.args[1]).split('.')[-1]
                if x != y and x in DISJOINT and y in DISJOINT:
                    out.append(frozenset([(a, True), (b, True)]))
            if {a.op, b.op} == {'isinst', 'isnone'} and a.args[0] is b.args[0]:
                out.append(frozenset([(a, True), (b, True)]))
            if a.op == 'eq' and b.op == 'eq':
                for p, q in (a.args, a.args[::-1]):
                    for r, s in (b.args, b.args[::-1]):
                        if p is r and q.op == 'const' and s.op == 'const' and q is not s:
                            out.append(frozenset([(a, True), (b, True)]))
    return out


def blake(cubes, limit=160):
    cubes = absorb(cubes)
    ch = True
    n = 0
    while ch:
        ch = False
        L = list(cubes)
        for i in range(len(L)):
            for j in range(i + 1, len(L)):
                n += 1
                a, b = L[i], L[j]
                op = [(x, v) for x, v in a if (x, not v) in b]
                if len(op) != 1:
                    continue
                x, v = op[0]
                c = (a - {(x, v)}) | (b - {(x, not v)})
                if any(k <= c for k in cubes):
                    continue
                cubes = absorb(cubes | {c})
                ch = True
                if len(cubes) > limit or n > 60000:
                    return None
            if ch:
                break
    return cubes


def absorb(cubes):
    cubes = {frozenset(c) for c in cubes}
    return {c for c in cubes if not any(d < c for d in cubes)}


def canon_dnf(cubes, never=()):
    """set of prime implicants, None if it gets too large"""
    cubes = [frozenset(c) for c in cubes]
    cubes = [c for c in cubes if not any((x, not v) in c for x, v in c)]
    if len(cubes) > 40:
        return None
    atoms = {x for c in cubes for x, v in c}
    if len(atoms) > 16:
        return None
    dc = exclusive(atoms | {x for c in never for x, v in c}) + [frozenset(c) for c in never]
    r = blake(set(cubes) | set(dc))
    if r is None:
        return None
    dead = blake(set(dc)) if dc else ()
    if dead is None:
        return None
    return {c for c in r if not any(d <= c for d in dead)}
