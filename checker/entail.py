"""Do two disjunctions of guards select the same elements?  Decided on the guards' boolean structure, with
statements 'there is (no) element such that ..' opened for the elements they speak of."""
from terms import *
from boolnorm import exclusive


class Limit(Exception):
    pass


def holds(have, a):
    return have.get(a)


def consistent(have, clauses, budget):
    """can the literals of have and one literal per clause be true together"""
    budget[0] -= 1
    if budget[0] < 0:
        raise Limit
    have = dict(have)
    while True:
        rest, units = [], []
        for c in clauses:
            if any(have.get(a) == b for a, b in c):
                continue
            c = [(a, b) for a, b in c if a not in have]
            if not c:
                return False
            if len(c) == 1:
                units.append(c[0])
            rest.append(c)
        clauses = rest
        if not units:
            break
        for a, b in units:
            if have.get(a, b) != b:
                return False
            have[a] = b
    if clauses:
        c = min(clauses, key=len)
        a, b = c[0]
        return consistent({**have, a: b}, clauses, budget) or consistent({**have, a: not b}, clauses, budget)
    for p in exclusive(have):
        if all(have.get(a) == b for a, b in p):
            return False
    no = [a for a, b in have.items() if not b and a.op == 'ex']
    ground = {a: b for a, b in have.items() if a.op != 'ex'}
    for y in [a for a, b in have.items() if b and a.op == 'ex']:
        if not element(y, no, ground, budget):
            return False
    return True


def element(y, no, ground, budget):
    """can the element that y speaks of exist, when none of no does"""
    fr = y.args[0].args
    have = dict(ground)
    for l in y.args[1].args:
        if have.get(l.args[0], l.args[1]) != l.args[1]:
            return False
        have[l.args[0]] = l.args[1]
    clauses = []
    for x in no:
        if len(x.args[0].args) > len(fr):
            continue
        m, same = {}, True
        for p, q in zip(x.args[0].args, fr):
            if sub(p.args[1], m) is not q.args[1]:
                same = False
                break
            m[p.args[0]] = q.args[0]
        if same:
            clauses.append([(sub(l.args[0], m), not l.args[1]) for l in x.args[1].args])
    atoms = set(have) | {a for c in clauses for a, b in c}
    for p in exclusive(atoms):
        clauses.append([(a, not b) for a, b in p])
    return consistent(have, clauses, budget)


def covered(cube, dnf, facts, budget):
    have = dict(facts)
    for a, b in cube:
        if have.get(a, b) != b:
            return True
        have[a] = b
    clauses = [[(a, not b) for a, b in c] for c in dnf]
    atoms = set(have) | {a for c in dnf for a, b in c}
    for p in exclusive(atoms):
        clauses.append([(a, not b) for a, b in p])
    return not consistent(have, clauses, budget)


def same_dnf(A, B, facts):
    try:
        budget = [20000]
        return all(covered(c, B, facts, budget) for c in A) and all(covered(c, A, facts, budget) for c in B)
    except Limit:
        return False


def same_gens(ga, gb, facts, n=0):
    """the same elements, under equivalent guards (sets of gens)"""
    def groups(gs):
        by = {}
        for g in gs:
            g = sub(g, {f.args[0]: mk('obv', i) for i, f in enumerate(g.args[3].args)})
            by.setdefault((g.args[0], g.args[1], g.args[2], g.args[3]), []).append([(l.args[0], l.args[1]) for l in g.args[4].args])
        return by
    A, B = groups(ga), groups(gb)
    if set(A) == set(B):
        return all(same_dnf(A[k], B[k], facts) for k in A)
    return False


def equiv(a, b, facts, n=0):
    """structurally equal but for guards that say the same"""
    if a is b:
        return True
    if not isinstance(a, T) or not isinstance(b, T) or a.op != b.op or n > 40:
        return False
    if a.op == 'coll':
        return a.args[0] == b.args[0] and a.args[0] == '*' and same_gens(a.args[1:], b.args[1:], facts, n + 1)
    if len(a.args) != len(b.args):
        return False
    return all(x is y or x == y or isinstance(x, T) and equiv(x, y, facts, n + 1) for x, y in zip(a.args, b.args))
