"""Indented text: one step of the parsing loop is summarised as a function of what it carries from line to line
(the chain of ancestors and the level), and from_indented_text by the nodes it adds and the edges it connects."""
import ast
from builders import *
from compare import Joint
from steps import step_of

PARSE = 'parse_indentations'


def run(ctx, rep):
    for part in (graph, parse):
        try:
            with limit(100):
                part(ctx, rep)
        except OutOfTime:
            rep.done(part.__name__, None, 'out of time')


# ------------------------------------------------------------------ the graph
LINES = mk('sym', 'items of the parsed text')


def graph(ctx, rep):
    f = ctx.fn('Graph', 'from_indented_text')
    try:
        p = ctx.modfn(PARSE)
    except AnalysisBroken:
        return rep.done('from_indented_text', None, f'no function {PARSE}')

    def parsed(eng, st, recv, args, node):
        kw = [mk('kw', k, eng.freeze(v, st)) for k, v in sorted(args.items()) if isinstance(v, T)]
        return [(st, mk('typed', mk('pcall', PARSE, NONE, mk('tup', *kw)), 'list'))]
    S = built(ctx, f, extra={('', PARSE): parsed})
    if S is None:
        return rep.done('from_indented_text', None, 'budget')
    tell = Findings(rep, f, 'from_indented_text')
    a, b = ctx.params(p)[:2]
    mine_ = ctx.params(f)
    root, lines, indent = [sym(x) for x in mine_ if x not in ('cls', 'self')][:3]

    def rewrite(t):
        m = {}
        for x in subterms(t):
            if x.op == 'pcall' and x.args[0] == PARSE:
                kw = kwargs(x.args[2])
                if kw.get(a) is lines and kw.get(b) is indent:
                    m[x] = LINES
        t = sub(t, m) if m else t
        m = {x: LINES for x in subterms(t) if x.op == 'listof' and x.args[0] is LINES}
        return sub(t, m) if m else t
    seen = 0
    for s, o in S.rets():
        adds, conns, g = mine(ctx, S, s, o, tell, rewrite)
        if g is None:
            continue
        seen += 1
        bad = next((x for i in adds + conns for t in [y for p_ in i.frames for y in p_] for x in subterms(t) if x.op == 'pcall' and x.args[0] == PARSE), None)
        tell.check('the text is parsed with its indentation', bad is None, None if bad is None else g.node, f'the text is parsed by {show(bad)[:120] if bad is not None else ""}')
        if bad is not None:
            continue
        line, roots, strange = [], [], []
        for (fr, args), (cubes, node, flags) in grouped(adds, ('name',)).items():
            v = fr[0][0] if len(fr) == 1 and fr[0][1] is LINES else None
            want = mk('str', mk('idx', v, const(0))) if v is not None else None
            if not fr:
                roots.append((args[0], cubes, node))
            elif v is not None and index_of(args[0]) is v:
                line.append((cubes, node, flags))
            else:
                strange.append((args[0], node))
        for n, node in strange:
            tell.check('no other nodes', None if opaque(n) is not None else False, node, f'adds a node named {show(n)[:80]}')
        tell.check('a node for the root', bool(roots) and all(always(c) for _, c, _ in roots), None, 'no node is added for the root')
        if line or not strange:
            tell.check('a node for every line', any(always(c) and not fl & CUT for c, _, fl in line), line[0][1] if line else None, 'not every line gets a node', [x for c, _, _ in line for cc in c for x, _ in cc])
        rn = [r[0] for r in roots]
        # the edges: to the parent's node when there is a parent, else to the root's
        got = {'root': [], 'parent': []}
        for (fr, args), (cubes, node, flags) in grouped(conns, ('start', 'end')).items():
            v = fr[0][0] if len(fr) == 1 and fr[0][1] is LINES else None
            st, en = args
            if v is None or index_of(en) is not v:
                sw = v is not None and index_of(st) is v
                tell.check('edges', False if sw or v is not None and opaque(en) is None else None, node, f'connects {show(st)[:60]} to {show(en)[:60]}', (st, en))
                continue
            if st in rn:
                got['root'].append((cubes, node, flags, v))
            elif index_of(st, 3) is v:
                got['parent'].append((cubes, node, flags, v))
            else:
                tell.check('edges', False, node, f'a line is connected to {show(st)[:80]}, not to its parent', (st,))
        for k, want in (('root', True), ('parent', False)):
            w = f'the lines {"without" if want else "with"} a parent are connected'
            if not got[k]:
                tell.check(w, False if conns and all(i.frames for i in conns) and got['parent' if want else 'root'] else None, None, f'no edge to {k}')
            for cubes, node, flags, v in got[k]:
                par = mk('idx', v, const(3))
                isn = [mk('isnone', x) for x in (par, *alt(cubes, v, 3))]
                lit = canon_dnf(cubes)
                ok = None if lit is None else any(lit == {frozenset([(a_, want)])} for a_ in isn)
                tell.check(w, ok and not flags & CUT, node, f'a line is connected to {"the root" if want else "its parent"} when {" or ".join(" and ".join(("" if b_ else "not ") + show(y)[-60:] for y, b_ in c) or "in any case" for c in cubes)[:200]}', [x for c in cubes for x, _ in c])
    tell.check('returns the graph', bool(seen) or None, None, '')
    tell.close()


def field(t, v, i):
    """component i of the item v stands for"""
    return t.op in ('idx', 'item', 'proj') and len(t.args) == 2 and is_const(t.args[1]) and cval(t.args[1]) == i and (t.args[0] is v or t.args[0].op == 'el' and t.args[0].args[1] is v)


def alt(cubes, v, i):
    return [y for c in cubes for x, _ in c for y in subterms(x) if y.op in ('idx', 'item', 'proj') and field(y, v, i)]


def index_of(t, i=0):
    """the iteration whose item's component i the name is the text of"""
    if t.op == 'str' or t.op == 'call' and t.args[0] == 'str':
        x = t.args[-1]
        if isinstance(x, T) and x.op in ('idx', 'item', 'proj') and len(x.args) == 2 and is_const(x.args[1]) and cval(x.args[1]) == i:
            y = x.args[0]
            return y.args[1] if y.op == 'el' else y
    return None


# ------------------------------------------------------------------ the parser
def parse(ctx, rep):
    f = ctx.modfn(PARSE)
    step = step_of(f)
    if step is None:
        return rep.done(f'{PARSE}: one step', None, 'not one loop that yields')
    tell = Findings(rep, f, PARSE)
    lines, indent = ctx.params(f)[:2]
    # what the loop runs over: every line, numbered from zero
    it, tg = step.loop.iter, step.loop.target
    num = isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.func.id == 'enumerate' and 1 <= len(it.args) <= 2
    if not (num and isinstance(tg, ast.Tuple) and len(tg.elts) == 2 and all(isinstance(x, ast.Name) for x in tg.elts)):
        return rep.done(f'{PARSE}: one step', None, 'not a loop over the numbered lines')
    start = it.args[1:] + [k.value for k in it.keywords if k.arg == 'start']
    tell.check('lines are numbered from zero', not start or (start[0].value == 0 if isinstance(start[0], ast.Constant) else None), it, 'the lines are not numbered from zero')
    tell.check('every line is parsed', isinstance(it.args[0], ast.Name) and it.args[0].id == lines or None, it, '')
    index, line = (sym(x.id) for x in tg.elts)
    stacks = [n for n, v in step.pre.items() if isinstance(v, ast.List) and not v.elts and n in step.carried]
    args = {n: sym(n) for n in ctx.params(step.fn)}
    stack = None
    if len(stacks) == 1:
        stack = args[stacks[0]] = mk('typed', sym(stacks[0]), 'list')
    pattern = next((c for c in step.pre.values() if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == 'compile'), None)
    S = ctx.summary(step.fn, args=args)
    if S is None:
        return rep.done(f'{PARSE}: one step', None, 'budget')
    eng = S.eng
    width = unit(pattern)
    if width is not None:
        tell.check('the pattern splits indentation and text', width > 0, pattern, 'the pattern does not split the whole indentation from the whole text')
    for s, o in S.exits:
        if o.implicit:
            continue
        J = Joint(eng, s.facts, {})
        lits = [(plain(J.simp(a)) if not lit_is_fact(a) else plain(a), b) for a, b in s.facts.items()]
        if o.kind == 'raise':
            tell.check('refusals', refusal(lits, stack) if str(o.val) == 'ValueError' else None if o.val == '?' else False, o.node, f'a line is refused with {o.val} when {" and ".join(("" if b else "not ") + show(a)[:80] for a, b in lits[-2:])}', [a for a, _ in lits])
            continue
        v = J.simp(eng.freeze(o.val, s))
        if v.op != 'tup' or v.args[1].op != 'coll':
            tell.check('one item per line', None, None, '')
            continue
        tell.check('goes on to the next line', v.args[0] is const('next') or None, o.node, '')
        gens = v.args[1].args[1:]
        out = dict(zip(step.carried, v.args[2:]))
        its = [(g.args[0], [(l.args[0], l.args[1]) for l in g.args[4].args]) for g in gens if g.op == 'gen']
        cond = canon_dnf([frozenset(c) for _, c in its])
        one = bool(its) and (cond is None or frozenset() in cond) and (len(its) == 1 or len(its) == 2 and any((a, not b) in its[1][1] for a, b in its[0][1]))
        tell.check('one item per line', True if one else None if len(its) > 1 and cond and frozenset() in cond else False, o.node, f'a line gives {len(its) or "no"} item{"s" if len(its) > 1 else ""}' + (' at most' if its else ''), [v.args[1]])
        if not one or any(t.op != 'tup' or len(t.args) != 4 for t, _ in its):
            continue
        levels = {t.args[1] for t, _ in its}
        L = levels.pop() if len(levels) == 1 else None
        blank = L is not None and L.op == 'sym'
        for t, c in its:
            tell.check('index', t.args[0] is index, o.node, f'the index of a line is {show(t.args[0])[:60]}', (t.args[0],))
            if L is None or stack is None:
                tell.check('parent', None, None, '')
                continue
            lev = {a: b for a, b in list(s.facts.items()) + c}
            zero = value(lev, L)
            x = t.args[3]
            branches = [(x, zero)] if x.op != 'ite' else [(x.args[1], True if plain(x.args[0]) is L else None), (x.args[2], False if plain(x.args[0]) is L else None)]
            for x, nz in branches:
                up = x.op in ('item', 'idx', 'sub', 'getitem') and x.args[0] is stack
                if x is NONE:
                    tell.check('parent', True if nz is False else None if nz is None else False, o.node, 'a line below another has no parent')
                elif up:
                    k = x.args[1]
                    good = k is mk('bin', 'Sub', L, const(1))
                    if is_const(k):
                        good = None
                    if good and nz is not True:
                        good = False if nz is False or nz is None and len(its) == 1 and len(branches) == 1 else None
                    tell.check('parent', good, o.node, f'the parent of a line of level {"that is carried" if blank else "n"} is {show(x)[:30]}...[{show(k)[-40:]}], not the last line one level up', (k,))
                else:
                    tell.check('parent', None, None, '')
        if L is None or stack is None:
            continue
        if is_const(L) and any(x.op == 'sym' and x.args[0] in out for a, b in lits for x in subterms(a)) and not writes(eng, s, stack):
            tell.check('level of a blank line', None, None, '')
            continue
        if blank:
            carried = [n for n, x in out.items() if sym(n) is L]
            tell.check('level of a blank line', bool(carried) and all(out[n] is L for n in carried) or None, None, '')
            w = writes(eng, s, stack)
            tell.check('a blank line is nobody\'s parent', not w if all(k in ('setslice', 'delslice', 'append', 'push') for k, _ in w) else None, o.node, 'a blank line changes the chain of parents')
            continue
        for n, x in out.items():
            # the level a blank line takes over
            if n in step.pre and n != stacks[0] and x is not L and x is sym(n) and isinstance(step.pre[n], ast.Constant):
                tell.check('level is carried', None, None, '')
        # the chain of parents: this line at its level, nothing deeper
        w = writes(eng, s, stack)
        after = out.get(stacks[0])
        ok, msg = chain(w, after, stack, L, index, J, eng)
        tell.check('the chain of parents', ok, o.node, f'the chain of parents {msg}', (L,) if ok is False else ())
        # not too deep
        n = mk('len', stack)
        deep = next((b for a, b in lits if a.op == 'lt' and a.args == (n, L)), None)
        rel = [a for a, b in lits if has(a, n)]
        other = next(((a, b) for a, b in lits if a.op == 'lt' and a.args == (L, n)), None)
        slack = any(a.op == 'lt' and a.args[1] is L and a.args[0].op == 'bin' and a.args[0].args[0] == 'Add' and n in a.args[0].args and is_const(a.args[0].args[2]) and not b for a, b in lits)
        good = True if deep is False else False if deep is True or not rel or other or slack else None
        tell.check('no line too deep', good, o.node, 'a line indented too deep is accepted' if not other else f'only accepts lines that are {"" if other[1] else "not "}less deep than the chain', (L,))
        # how the level is counted
        if L.op == 'bin' and L.args[0] == 'FloorDiv' and is_const(L.args[2]) and width:
            d = cval(L.args[2])
            tell.check('level', d == width, o.node, f'the level counts {d} characters of the indentation, the pattern {width}')
            match(J, L, width, indent, out, tell, o, lits)
        elif opaque(L) is None and not any(x.op == 'call' for x in subterms(L)):
            tell.check('level', False, o.node, f'the level is {show(L)[:60]}')
        else:
            tell.check('level', None, None, '')
        unset = any(b if a.op == 'isnone' and a.args[0] is sym(indent) else not b if a is sym(indent) else False for a, b in lits)
        if not unset and indent in out:
            tell.check('one indentation for the text', out[indent] is sym(indent), o.node, 'the indentation given is replaced', (out[indent],))
    tell.close()


def lit_is_fact(a):
    return True


def plain(t):
    while t.op in ('truth', 'not') and len(t.args) == 1 and t.op == 'truth':
        t = t.args[0]
    return t


def value(lev, L):
    """is the level known to be more than zero"""
    for a, b in lev.items():
        if a.op == 'truth' and a.args[0] is L:
            return b
        if a.op == 'eq' and L in a.args and const(0) in a.args:
            return not b
        if a.op == 'lt' and is_const(a.args[0]) and a.args[1] is L and isinstance(cval(a.args[0]), int) and cval(a.args[0]) >= 0:
            return True if b else False if cval(a.args[0]) == 0 else 'perhaps'
        if a.op == 'lt' and a.args == (L, const(1)):
            return not b
    return None


def has(t, x):
    return any(y is x for y in subterms(t))


def writes(eng, s, stack):
    return [(cval(e.key) if isinstance(e.key, T) and is_const(e.key) else e.kind, e) for e in s.eff if e.tgt is stack and e.kind not in ('xcall',)]


def chain(w, after, stack, L, index, J, eng):
    me = lambda c: c.op == 'coll' and len(c.args) == 2 and c.args[1].op == 'gen' and c.args[1].args[0] is index and not c.args[1].args[3].args
    if not w:
        if after is stack:
            return False, 'does not take up the line'
        return None, ''
    kinds = [k for k, _ in w]
    if kinds == ['setslice']:
        lo, hi, st, v = (J.simp(x) for x in w[0][1].val.args)
        if hi is NONE and st is NONE and lo is L and me(v):
            return True, ''
        if not me(v):
            return None if opaque(v) is not None else False, f'gets {show(v)[:40]}'
        return False, f'keeps what is not {show(lo)[-40:]} levels up' if hi is NONE else 'keeps deeper lines'
    if kinds[0] == 'delslice' and len(kinds) == 2:
        lo, hi, st, _ = (J.simp(x) for x in w[0][1].val.args)
        if lo is L and hi is NONE and st is NONE:
            return True if kinds[1] in ('append', 'push') else None, ''
        return False, f'keeps the wrong lines ({show(lo)[-40:]})'
    if set(kinds) <= {'append', 'push', 'dset', 'insert', 'extend'}:
        return (False if after is stack else None), 'keeps deeper lines'
    return None, ''


def refusal(lits, stack):
    """refused because no text follows whole units of indentation, or because it is too deep"""
    for a, b in lits:
        m = [x for x in subterms(a) if x.op == 'call' and x.args[0] in ('.match', '.fullmatch', '.search')]
        if a.op == 'call' and a in m and not b or a.op == 'isnone' and a.args[0] in m and b:
            return True
        if stack is not None and a.op == 'lt' and a.args[0] is mk('len', stack) and b:
            return True
        if stack is not None and a.op == 'lt' and a.args[1] is mk('len', stack) and not b:
            return False
    return None


def unit(call):
    """how many blanks the repeated unit of the pattern has; 0 when it does not split the whole line"""
    if call is None or not call.args or not isinstance(call.args[0], ast.Constant) or not isinstance(call.args[0].value, str):
        return None
    try:
        from re import _parser
        p = _parser.parse(call.args[0].value)
    except Exception:
        return None
    seq = [x for x in p if not (str(x[0]) == 'AT' and 'BEGINNING' in str(x[1]))]
    groups = [x for x in seq if str(x[0]) == 'SUBPATTERN']
    if len(groups) != 2 or len(seq) != 2:
        return None
    def inner(x):
        while True:
            if str(x[0]) == 'SUBPATTERN':
                b = x[1][3]
                if len(b) != 1:
                    return list(b)
                x = b[0]
            else:
                return [x]
    ind = inner(groups[0])
    if len(ind) != 1 or str(ind[0][0]) != 'MAX_REPEAT':
        return None
    lo, hi, body = ind[0][1]
    body = list(body)
    if len(body) == 1 and str(body[0][0]) == 'SUBPATTERN':
        body = list(body[0][1][3])
    if len(body) == 1 and str(body[0][0]) == 'MAX_REPEAT' and body[0][1][0] == body[0][1][1]:
        k, body = body[0][1][0], list(body[0][1][2])
    else:
        k = len(body)
    if not body or any(str(x[0]) != 'LITERAL' or x[1] != 32 for x in body):
        return None
    if lo != 0 or str(hi) != 'MAXREPEAT':
        return 0
    txt = inner(groups[1]) if len(groups[1][1][3]) == 1 else list(groups[1][1][3])
    if len(txt) != 2 or str(txt[0][0]) != 'IN' or 'NOT_SPACE' not in str(txt[0][1]):
        return None
    if str(txt[1][0]) != 'MAX_REPEAT':
        return None
    if str(txt[1][1][2][0][0]) != 'ANY':
        return 0
    return k if txt[1][1][0] == 0 and str(txt[1][1][1]) == 'MAXREPEAT' else 0


def match(J, L, width, indent, out, tell, o, lits):
    """the text that is matched: the line, its leading units of indentation replaced"""
    for x in subterms(L):
        if x.op == 'call' and x.args[0] == '.replace' and len(x.args) in (4, 5):
            src, ind, rep = x.args[1:4]
            if is_const(rep) and isinstance(cval(rep), str):
                tell.check('a unit of indentation is one level', cval(rep) == ' ' * width, o.node, f'a unit of indentation becomes {cval(rep)!r}')
            lead = mk('bin', 'Sub', mk('len', src), mk('len', mk('call', '.lstrip', src, ind)))
            if len(x.args) == 4 or x.args[4] is lead:
                tell.check('only the indentation is replaced', False, o.node, 'the indentation is also replaced in the text of the line')
            else:
                tell.check('only the indentation is replaced', x.args[4] is mk('bin', 'FloorDiv', lead, mk('len', ind)) or None, o.node, '')
