"""Labels: each accessor of a node's or edge's label against its specification, and what setting a label writes."""
from report import *

NODE = '''
def f(self):
    if self.$label$:
        return str(self.$label$)
    return str(self.$rid$)
'''


def run(ctx, rep):
    def plain(t, J=None):
        # quotes made safe for the text file are the same label
        m = {}
        for x in subterms(t):
            if x.op == 'call' and x.args[0] == '.replace' and len(x.args) == 4 and x.args[2:] == (const('"'), const('\\"')):
                m[x] = x.args[1]
            if x.op == 'pcall' and x.args[0] == 'escape_quotes':
                m[x] = x.args[-1].args[0].args[1]
        return sub(t, m) if m else t
    st = ctx.std_stops()
    kw = dict(stops=st, view=plain)
    rep.spec('Node', 'label', NODE, **kw)
    rep.spec('Edge', 'label', 'def f(self):\n    return self.$label$', **kw)
    for c in ('Node', 'Edge'):
        rep.spec(c, 'raw_label', 'def f(self):\n    return self.$label$', **kw)
        conv = f'self.$graph$._{c.lower()}_label_converter'
        rep.spec(c, 'display_label', f'''
def f(self):
    if {conv} is not None:
        return {conv}(self.label)
    return self.label
''', **kw)
        # the label setter
        f = ctx.setter(c, 'label')
        p = ctx.params(f)[0]
        rep.spec(c, 'label', f'def f(self, {p}):\n    self.$label$ = {p}', fn=f, stops=st, effects=ctx_writes, name=f'{c}.label = ..')
    rep.spec('Edge', 'display_label_or_value', '''
def f(self):
    if self.$label$ is not None:
        if self.$graph$._edge_label_converter is not None:
            return self.$graph$._edge_label_converter(self.$label$)
        return self.$label$
    return self.$value$
''', **kw)


def ctx_writes(e):
    from compare import WRITES
    return e.kind in WRITES
