"""Shared set-up of the rules: the parsed package, the roles of its classes and fields, and ways to
summarise a function with chosen callees kept as calls (their own rules decide what those do)."""
import sys
import time
import ast
from engine import *
from colls import mk_not


class Ctx:
    def __init__(self, repo='/repo', budget=300):
        self.prog = Program(repo)
        self.repo = repo
        self.start = time.time()
        self.budget = budget
        self.cache = {}
        self.functions = set()     # qualified names analysed
        self.limits = []
        for c in ('Graph', 'Node', 'Edge'):
            self.prog.need_class(c)
        self.proto = Engine(self.prog)

    # -------------------------------------------------------------- finding things
    def method(self, cls, name):
        m, k = self.prog.lookup(self.prog.need_class(cls), name)
        return m

    def fn(self, cls, name):
        """the function a public anchor stands for; a vanished anchor is an analysis error"""
        m = self.method(cls, name)
        if isinstance(m, Prop):
            m = m.get
        if not isinstance(m, Func):
            raise AnalysisBroken(f'public member {cls}.{name} not found')
        return m

    def setter(self, cls, name):
        m = self.method(cls, name)
        if isinstance(m, Prop) and m.set is not None:
            return m.set
        raise AnalysisBroken(f'public attribute {cls}.{name} cannot be set')

    def modfn(self, name):
        for f in self.prog.funcs:
            if f.cls is None and f.name == name:
                return f
        raise AnalysisBroken(f'function {name} not found')

    def params(self, f):
        a = f.node.args
        names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        if f.cls is not None and f.kind != 'static':
            names = names[1:]
        return names

    # -------------------------------------------------------------- summaries
    def engine(self, stops=None, seconds=60):
        E = Engine(self.prog)
        E.bads = []
        E.stops = dict(stops or {})
        E.inline_cmp = self.inline_cmp
        E.deadline = time.time() + seconds
        return E

    def summary(self, f, args=None, stops=None, key=None, st=None, seconds=60, eng=None):
        """summary with every parameter symbolic unless given; None when the budget ran out"""
        if key is not None:
            k = (f.qual, f.kind, key)
            if k in self.cache:
                return self.cache[k]
        E = eng or self.engine(stops, seconds)
        if args is None:
            args = {n: sym(n) for n in self.params(f)}
        if time.time() - self.start > self.budget:
            self.limits.append((f.qual, 'budget'))
            S = None
        else:
            try:
                S = E.summarize(f, args, st=st)
                S.bads = E.bads
            except (Limit, RecursionError) as e:
                self.limits.append((f.qual, str(e) or type(e).__name__))
                S = None
        self.functions.add(f.qual)
        for g in E.funcs_seen:
            self.functions.add(g.qual)
        if key is not None:
            self.cache[k] = S
        return S

    inline_cmp = False

    # -------------------------------------------------------------- stops
    def call_stop(self, name, cls=None, pure=False, val=None):
        """keep a call as an effect ('api', receiver, name, arguments)"""
        def h(eng, st, recv, args, node):
            st = st.copy()
            kw = []
            for k, v in sorted(args.items()):
                if isinstance(v, T) and not (v is recv and k in ('self', 'cls')):
                    kw.append(mk('kw', k, eng.freeze(v, st)))
            a = mk('tup', *kw)
            if pure:
                v = mk('rel' if cls == 'list' else 'pcall', name, recv if isinstance(recv, T) else NONE, a)
                if cls and cls != 'list':
                    v = mk('typed', v, cls)
            else:
                u = next(eng._uid)
                v = mk('typed', mk('apiret', name, u, recv if isinstance(recv, T) else NONE, a), cls) if cls else mk('apiret', name, u, recv if isinstance(recv, T) else NONE, a)
                eng.effect(st, 'api', recv if isinstance(recv, T) else NONE, const(name), a, node)
            if val is not None:
                v = val(eng, st, recv, args, v)
            return [(st, v)]
        return h

    def new_stop(self, cn):
        def h(eng, st, recv, args, node):
            st = st.copy()
            obj = mk('new', 'obj', cn, next(eng._uid))
            a = mk('tup', *[mk('kw', k, eng.freeze(v, st)) for k, v in sorted(args.items()) if isinstance(v, T)])
            eng.effect(st, 'make', obj, const(cn), a, node)
            eng.effect(st, 'api', obj, const('__new__'), a, node)
            return [(st, obj)]
        return h

    def opaque_class(self, eng, st, recv, args, node, F):
        """members of a class kept as calls: getters pure, setters write, copies are fresh, the rest act on the object"""
        st = st.copy()
        m = F.cls.members.get(F.name)
        kw = mk('tup', *[mk('kw', k, eng.freeze(v, st)) for k, v in sorted(args.items()) if isinstance(v, T) and v is not recv])
        if isinstance(m, Prop):
            if F is m.get:
                return [(st, fld(recv, '.' + F.name))]
            v = [v for k, v in args.items() if v is not recv]
            eng.effect(st, 'set', recv, const('.' + F.name), v[0] if v else NONE, node)
            return [(st, NONE)]
        if F.name in ('copy', '__copy__', '__deepcopy__'):
            obj = mk('new', 'obj', F.cls.name, next(eng._uid))
            eng.effect(st, 'make', obj, const(F.cls.name), mk('copyof', recv), node)
            return [(st, obj)]
        if F.name in ('__getstate__', 'get_graphviz_str', '__repr__', '__str__', '__eq__', '__hash__', 'is_similar_to') or F.name.startswith('_') and not F.name.startswith('__'):
            v = mk('pcall', F.cls.name + '.' + F.name, recv, kw)
            return [(st, mk('typed', v, 'str') if 'str' in F.name or 'repr' in F.name else v)]
        eng.effect(st, 'api', recv, const(F.name), kw, node)
        return [(st, mk('apiret', F.name, next(eng._uid), recv, kw))]

    def style_stops(self):
        s = self.std_stops()
        return {k: v for k, v in s.items() if k[0] not in ('*', 'Graph', 'GraphWithoutDisplay', 'BasicGraph')}

    def std_stops(self, but=()):
        s = {
            ('NodeStyle', '__new__'): self.new_stop('NodeStyle'),
            ('EdgeStyle', '__new__'): self.new_stop('EdgeStyle'),
            ('Graph', '__new__'): self.new_stop('Graph'),
            ('GraphWithoutDisplay', '__new__'): self.new_stop('GraphWithoutDisplay'),
            ('BasicGraph', '__new__'): self.new_stop('BasicGraph'),
            ('', 'escape_quotes'): self.call_stop('escape_quotes', 'str', pure=True),
            ('*', 'append'): self.call_stop('append'),
            ('*', 'add_node'): self.call_stop('add_node', 'Node'),
            ('*', 'connect'): self.call_stop('connect', 'Edge'),
            ('*', 'remove_node'): self.call_stop('remove_node'),
            ('*', 'stylize'): self.call_stop('stylize'),
        }
        for c in self.prog.classes.values():
            if c.name.endswith('Style'):
                s[(c.name, '*')] = self.opaque_class
        for b in but:
            s.pop(b, None)
        return s
