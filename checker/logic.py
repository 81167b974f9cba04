"""Atoms (branch conditions) and what is known about them. No solver: table lookups, type
exclusion, the shape invariants of the graph structure, and structural identity."""
from terms import *

BUILTIN_EXCL = {'str', 'int', 'float', 'bool', 'list', 'dict', 'set', 'tuple', 'NoneType', 'func', 'bytes', 'frozenset'}
SIZED = {'list', 'dict', 'set', 'tuple', 'str'}


class Logic:
    # ---------------------------------------------------------------- schema (filled by Engine.discover)
    # self.F : role -> private attribute name (nodes,out,inn,start,end,graph,rid,value,style,frozen,index,label)

    def owner(self, t, st):
        return self.cls_of(t, st)

    def cls_of(self, t, st):
        """class name of the values of a term, or None"""
        if st is not None:
            c = self._cls_fact(t, st)
            if c:
                return c
        o, a = t.op, t.args
        if o == 'const':
            return a[0]
        if o == 'sym':
            return a[1]
        if o == 'new':
            return a[1] if a[0] == 'obj' else a[0]
        if o == 'coll':
            return a[0]
        if o == 'fld':
            c = self.field_type(a[0], a[1], st)
            return c
        if o == 'el':
            return self.elem_cls(a[0], st)
        if o == 'item':
            return self.elem_cls(a[0], st)
        if o in ('cat', 'str', 'join'):
            return 'str'
        if o in ('len', 'count'):
            return 'int'
        if o == 'tup':
            return 'tuple'
        if o == 'slice':
            return self.cls_of(a[0], st)
        if o in ('eq', 'same', 'in', 'isnone', 'isinst', 'nonempty', 'ex', 'not', 'lt', 'le', 'truth', 'and', 'or', 'hasattr', 'inopen', 'bool'):
            return 'bool'
        if o == 'deepcopy':
            return self.cls_of(a[0], st)
        if o == 'typed':
            return a[1]
        if o == 'rel':
            return 'dict' if a[0] in ('nodes_dict', 'edges_dict') else 'list'
        if o == 'clo':
            return 'func'
        if o == 'ite':
            x, y = self.cls_of(a[1], st), self.cls_of(a[2], st)
            return x if x == y else None
        if o == 'dflt':
            return a[2]
        if o == 'made':
            return a[0]
        if o in ('lv', 'phi'):
            return a[2]
        if o == 'first':
            return self.elem_cls(a[0], st)
        if o in ('last',):
            return self.cls_of(a[2], st)
        if o == 'maybe':
            return self.cls_of(a[1], st)
        if o in ('sorted', 'reversed', 'shuffled', 'enumerate', 'zip', 'range'):
            return 'seq'
        if o in ('dk', 'dv', 'di'):
            return 'view'
        if o == 'call':
            return self.CALLT.get(a[0])
        return None

    CALLT = {'.format': 'str', '.replace': 'str', '.strip': 'str', '.rstrip': 'str', '.lstrip': 'str', '.upper': 'str',
             '.lower': 'str', 'repr': 'str', 'html.escape': 'str', '.group': 'str', '.join': 'str', 're.sub': 'str', '.startswith': 'bool', '.endswith': 'bool',
             'callable': 'bool', 'abs': None, 'int': 'int', 'float': 'float', 'hash': 'int', 'id': 'int', 'sum': None,
             '.title': 'str', '.encode': 'bytes', '.count': 'int', '.index': 'int', '.find': 'int', 'round': None,
             'random.random': 'float', 'random.uniform': 'float', '.random': 'float', '.uniform': 'float'}

    def _cls_fact(self, t, st):
        best = None
        for a, b in st.facts.items():
            if b and a.op == 'isinst' and a.args[0] is t:
                c = a.args[1]
                if best is None or self.prog.subclass(c, best):
                    best = c
        return best

    def field_type(self, o, attr, st):
        F = self.F
        if attr in (F.get('nodes'),):
            return 'dict'
        if attr in (F.get('out'), F.get('inn')):
            return 'dict'
        if attr == F.get('graph'):
            return self.GRAPH
        if attr in (F.get('start'), F.get('end')):
            return 'Node'
        if attr == F.get('style'):
            c = self.cls_of(o, st)
            if c == 'Node':
                return 'NodeStyle'
            if c == 'Edge':
                return 'EdgeStyle'
            return None
        c = self.cls_of(o, st)
        if c in self.prog.classes:
            return self.attr_types.get(attr)
        return None

    def elem_cls(self, src, st):
        o = src.op
        if o == 'fld':
            if src.args[1] == self.F.get('nodes'):
                return 'Node'
            if src.args[1] in (self.F.get('out'), self.F.get('inn')):
                return 'Edge'
        if o in ('dv',):
            return self.elem_cls(src.args[0], st)
        if o == 'rel':
            return 'Edge' if str(src.args[0]).endswith('edges') else 'Node'
        if o == 'typed' and src.args[0].op == 'pcall' and str(src.args[0].args[0]).endswith('edges_dict'):
            return 'Edge'
        if o in ('sorted', 'reversed', 'setof', 'slice', 'listof', 'shuffled'):
            return self.elem_cls(src.args[0], st)
        if o == 'coll':
            cs = {self.cls_of(g.args[0], st) for g in src.args[1:]}
            return cs.pop() if len(cs) == 1 else None
        if o == 'range':
            return 'int'
        if o == 'deepcopy':
            return self.elem_cls(src.args[0], st)
        return None

    # ---------------------------------------------------------------- structure
    def graph_of(self, t, st):
        F = self.F
        o, a = t.op, t.args
        if o in ('el', 'item'):
            s = a[0]
            if s.op == 'dv':
                s = s.args[0]
            if s.op == 'fld' and s.args[1] == F['nodes']:
                return s.args[0]
            if s.op == 'fld' and s.args[1] in (F['out'], F['inn']):
                return self.graph_of(s.args[0], st)
            if s.op == 'rel':
                return self.graph_of(s.args[1], st)
        if o == 'fld' and a[1] in (F['start'], F['end']):
            return self.graph_of(a[0], st)
        if t in self.member_of:
            return self.member_of[t]
        return fld(t, F['graph'])

    def is_member(self, n, st=None):
        """node known to be recorded in its graph"""
        F = self.F
        o, a = n.op, n.args
        if n in self.member_of:
            return True
        if o in ('el', 'item'):
            s = a[0]
            if s.op == 'fld' and s.args[1] == F['nodes']:
                return True
            if s.op == 'rel':
                return self.is_member(s.args[1], st)
        if o == 'fld' and a[1] in (F['start'], F['end']):
            return self.is_registered(a[0], st)
        return False

    def is_registered(self, e, st=None):
        F = self.F
        if e in self.registered:
            return True
        if e.op in ('el', 'item'):
            s = e.args[0]
            if s.op == 'fld' and s.args[1] in (F['out'], F['inn']):
                return True
        return False

    def id_of_node(self, n):
        F = self.F
        if n.op == 'item' and n.args[0].op == 'fld' and n.args[0].args[1] == F['nodes']:
            return n.args[1]
        return fld(n, F['rid'])

    def start_of(self, e):
        F = self.F
        if e.op in ('el', 'item'):
            s = e.args[0]
            if s.op == 'fld' and s.args[1] == F['out']:
                return s.args[0]
        return fld(e, F['start'])

    def end_of(self, e):
        F = self.F
        if e.op in ('el', 'item'):
            s = e.args[0]
            if s.op == 'fld' and s.args[1] == F['inn']:
                return s.args[0]
        return fld(e, F['end'])

    def id_of_edge(self, e):
        if e.op == 'item' and e.args[1].op == 'tup' and len(e.args[1].args) == 3:
            return e.args[1]
        if e.op == 'item' and self.is_registered(e):
            return e.args[1]
        return tup(self.id_of_node(self.start_of(e)), self.id_of_node(self.end_of(e)), fld(e, self.F['rid']))

    # ---------------------------------------------------------------- canonical loads
    def initial(self, obj, attr, st):
        """entry value of a field, rewritten by the shape invariants of the graph"""
        F = self.F
        if attr == F.get('start') and obj.op in ('el', 'item'):
            return self.start_of(obj)
        if attr == F.get('end') and obj.op in ('el', 'item'):
            return self.end_of(obj)
        if attr == F.get('graph'):
            return self.graph_of(obj, st)
        if attr == F.get('rid'):
            c = self.cls_of(obj, st)
            if c == 'Node':
                return self.id_of_node(obj)
            if c == 'Edge' and obj.op == 'item' and obj.args[1].op == 'tup' and len(obj.args[1].args) == 3 and self.is_registered(obj):
                return obj.args[1].args[2]
        for h in self.field_hooks:
            r = h(obj, attr, st)
            if r is not None:
                return r
        return fld(obj, attr)

    # ---------------------------------------------------------------- nullness
    def nonnull(self, t, st):
        F = self.F
        o, a = t.op, t.args
        if o == 'const':
            return a[1] is not None
        if o in ('new', 'coll', 'cat', 'str', 'join', 'len', 'tup', 'el_nn', 'eq', 'same', 'in', 'isnone', 'isinst', 'nonempty', 'ex',
                 'not', 'deepcopy', 'typed', 'rel', 'clo', 'bm', 'cls', 'func', 'bool', 'dk', 'dv', 'di', 'range', 'made', 'dflt', 'sorted', 'bin', 'classof', 'enumerate', 'zip', 'reversed', 'shuffled', 'idx'):
            return True
        if o in ('lv', 'phi'):
            return bool(a[3]) if len(a) > 3 else False
        if o == 'first':
            return self.cls_of(t, None) in ('Node', 'Edge')
        if o in ('el', 'item'):
            return self.cls_of(t, None) in ('Node', 'Edge')
        if o == 'sym':
            return t in self.nonnull_syms or t in self.member_of or t in self.registered or a[1] == self.GRAPH
        if o == 'fld':
            at = a[1]
            if at in (F['nodes'], F['out'], F['inn']):
                return True
            if at in (F['start'], F['end']):
                return self.is_registered(a[0], st)
            if at == F['graph']:
                return self.is_member(a[0], st) or self.is_registered(a[0], st)
            if at == F['frozen'] or at in self.nonnull_attrs:
                return True
            if at == F['rid']:
                return self.is_member(a[0], st) and self.cls_of(a[0], st) == 'Node'
        if o == 'call':
            return self.CALLT.get(a[0]) is not None
        return None

    # ---------------------------------------------------------------- deciding atoms
    def known(self, atom, st):
        """True/False if the atom follows from facts or structure, else None"""
        if atom is TRUE:
            return True
        if atom is FALSE:
            return False
        f = st.facts.get(atom)
        if f is not None:
            return f
        o, a = atom.op, atom.args
        if o == 'not':
            k = self.known(a[0], st)
            return None if k is None else not k
        if o == 'isnone':
            return self._known_isnone(a[0], st)
        if o == 'truth':
            return self._known_truth(a[0], st)
        if o == 'isinst':
            return self._known_isinst(a[0], a[1], st)
        if o == 'eq':
            return self._known_eq(a[0], a[1], st)
        if o == 'same':
            x, y = a
            if x is y:
                return True
            if ('new' in (x.op, y.op)) and not (x.op == 'new' and y.op == 'new' and False):
                # a new object is no older object
                if x.op == 'new' and y.op == 'new':
                    return False
                old = y if x.op == 'new' else x
                if old.op in ('el', 'sym', 'fld', 'item', 'bv'):
                    return False
            return None
        if o == 'in':
            return self._known_in(a[0], a[1], st)
        if o == 'nonempty':
            return self._known_nonempty(a[0], st)
        if o == 'hasattr':
            if not isinstance(a[1], str):
                return None
            c = self.cls_of(a[0], st)
            if c in self.prog.classes:
                return self.has_attr(c, a[1])
            if c in ('dict', 'list', 'str', 'int', 'tuple', 'NoneType', 'set', 'float', 'bool'):
                return hasattr({'dict': dict, 'list': list, 'str': str, 'int': int, 'tuple': tuple, 'set': set, 'float': float, 'bool': bool, 'NoneType': type(None)}[c], a[1])
            return None
        if o in ('lt', 'le'):
            x, y = a
            if is_const(x) and is_const(y):
                try:
                    return cval(x) < cval(y) if o == 'lt' else cval(x) <= cval(y)
                except TypeError:
                    return None
            if x is y:
                return o == 'le'
            if x.op == 'len' and is_const(y) and cval(y) in (0,) and o == 'lt':
                return False
        if o == 'ex':
            return None
        return None

    def _known_isnone(self, x, st):
        if x is NONE:
            return True
        if self.nonnull(x, st):
            return False
        f = st.facts
        if f.get(mk('truth', x)) is True:
            return False
        if x.op == 'ite':
            return None
        for a, b in f.items():
            if b and a.op == 'isinst' and a.args[0] is x:
                return False
            if a.op == 'eq' and b and x in a.args:
                other = a.args[1] if a.args[0] is x else a.args[0]
                if is_const(other):
                    return other is NONE
                if self.nonnull(other, st):
                    return False
            if a.op == 'hasattr' and b and a.args[0] is x:
                return False
            if a.op == 'in' and b and a.args[0] is x and a.args[1].op == 'fld':
                return False
            if a.op == 'nonempty' and b and a.args[0] is x:
                return False
        if x.op == 'fld' and x.args[1] == self.F.get('rid') and self.cls_of(x.args[0], st) == 'Node':
            return False
        return None

    def _known_truth(self, x, st):
        if is_const(x):
            return bool(cval(x))
        o = x.op
        if o in ('isnone', 'isinst', 'eq', 'same', 'in', 'nonempty', 'not', 'lt', 'le', 'truth', 'ex', 'hasattr'):
            return self.known(x, st)
        c = self.cls_of(x, st)
        if c in self.prog.classes and not self.has_attr(c, '__bool__') and not self.has_attr(c, '__len__'):
            n = self.known(mk('isnone', x), st)
            return None if n is None else not n
        if c in ('func',) or o in ('bm', 'cls', 'func', 'clo'):
            return True
        if o in ('tup',):
            return len(x.args) > 0
        if st.facts.get(mk('isnone', x)) is True:
            return False
        if st.facts.get(mk('truth', x)) is not None:
            return st.facts[mk('truth', x)]
        for a, b in st.facts.items():
            if b and a.op == 'eq' and x in a.args:
                other = a.args[1] if a.args[0] is x else a.args[0]
                if is_const(other):
                    return bool(cval(other))
        if o == 'cat':
            if any(is_const(p) and cval(p) != '' for p in x.args):
                return True
        return None

    def sub_cls(self, c, d):
        if c == d or d == 'object':
            return True
        if c == 'bool' and d == 'int':
            return True
        return self.prog.subclass(c, d)

    def _known_isinst(self, x, C, st):
        c = self.cls_of(x, st)
        if x is NONE:
            return C in ('NoneType', 'object')
        if c is not None and (c in self.prog.classes or c in BUILTIN_EXCL):
            sure = self.nonnull(x, st) or self.known(mk('isnone', x), st) is False
            if self.sub_cls(c, C):
                return True if sure else None
            if not self.sub_cls(C, c):
                if C == 'float' and c == 'int':
                    return False
                # also when null
                return False
        if x.op == 'made' and x.args[0] == C:
            return True
        if st.facts.get(mk('isnone', x)) is True:
            return False
        for a, b in st.facts.items():
            if a.op == 'isinst' and a.args[0] is x:
                if not b and self.sub_cls(C, a.args[1]):
                    return False
                if b and not self.sub_cls(a.args[1], C) and not self.sub_cls(C, a.args[1]):
                    if (C in BUILTIN_EXCL or C in self.prog.classes) and (a.args[1] in BUILTIN_EXCL or a.args[1] in self.prog.classes):
                        return False
        # keys found in the node table are names
        return None

    def _known_eq(self, x, y, st):
        if x is y:
            return True
        if is_const(x) and is_const(y):
            return cval(x) == cval(y)
        if is_const(y):
            x, y = y, x
        if is_const(x):
            for a, b in st.facts.items():
                if b and a.op == 'eq' and y in a.args:
                    other = a.args[1] if a.args[0] is y else a.args[0]
                    if is_const(other) and cval(other) != cval(x):
                        return False
                if a.op == 'in' and a.args[0] is y and a.args[1].op == 'tup' and all(is_const(z) for z in a.args[1].args):
                    vals = [cval(z) for z in a.args[1].args]
                    if b and cval(x) not in vals:
                        return False
                    if not b and cval(x) in vals:
                        return False
            if st.facts.get(mk('isnone', y)) is True:
                return cval(x) is None
            if x is NONE:
                n = self.known(mk('isnone', y), st)
                return n
            c = self.cls_of(y, st)
            if c in ('list', 'dict', 'set', 'Node', 'Edge') :
                return False
            t = st.facts.get(mk('truth', y))
            if t is True and not cval(x):
                return False
            if y.op == 'len' and isinstance(cval(x), int) and cval(x) < 0:
                return False
            if st.facts.get(mk('isinst', y, 'str')) is True and not isinstance(cval(x), str):
                return False
        if x.op == 'tup' and y.op == 'tup':
            if len(x.args) != len(y.args):
                return False
            ks = [self.known(self.mk_eq(p, q, st), st) for p, q in zip(x.args, y.args)]
            if any(k is False for k in ks):
                return False
            if all(k is True for k in ks):
                return True
        return None

    def _known_in(self, x, c, st):
        F = self.F
        if c.op == 'fld' and c.args[1] == F['nodes']:
            g = c.args[0]
            if x.op == 'fld' and x.args[1] == F['rid'] and self.is_member(x.args[0], st) and self.graph_of(x.args[0], st) is g:
                return True
        if c.op == 'fld' and c.args[1] in (F['out'], F['inn']):
            n = c.args[0]
            if x.op == 'tup' and len(x.args) == 3:
                r = x.args[2]
                if r.op == 'fld' and r.args[1] == F['rid']:
                    e = r.args[0]
                    if self.is_registered(e, st) and self.id_of_edge(e) is x:
                        if (self.start_of(e) if c.args[1] == F['out'] else self.end_of(e)) is n:
                            return True
        if c.op == 'tup':
            ks = [self.known(self.mk_eq(x, y, st), st) for y in c.args]
            if any(k is True for k in ks):
                return True
            if all(k is False for k in ks):
                return False
            if is_const(x) and all(is_const(y) for y in c.args):
                return False
        if c.op in ('dv', 'rel') or (c.op == 'fld'):
            if x.op == 'el' and x.args[0] is c:
                return True
            if c.op == 'dv' and x.op in ('el', 'item') and x.args[0] is c.args[0]:
                return True
        if c.op == 'dk':
            return self.known(mk('in', x, c.args[0]), st)
        return None

    def _known_nonempty(self, c, st):
        if c.op == 'tup':
            return len(c.args) > 0
        if c.op in ('dk', 'dv', 'di'):
            return self.known(mk('nonempty', c.args[0]), st)
        for f in st.ctx:
            s = f.src
            if s is c or (s.op in ('dk', 'dv', 'di') and s.args[0] is c):
                return True
        for a, b in st.facts.items():
            if b and a.op == 'in' and a.args[1] is c:
                return True
            if b and a.op == 'ex':
                fr = a.args[0].args
                if fr and (fr[0].args[1] is c or (fr[0].args[1].op in ('dk', 'dv', 'di') and fr[0].args[1].args[0] is c)):
                    return True
        if st.facts.get(mk('isnone', c)) is True:
            return False
        return None
