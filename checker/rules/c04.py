"""One edge per id: connect and the edge constructor against their specification."""
from report import *

CONNECT = '''
def f(self, start, end, id=None, label=None, value=None, style=None, if_edge_exists='warn', **kwargs):
    start = self.get_node(node=start)
    end = self.get_node(node=end)
    edge_id = (start.id, end.id, id)
    if edge_id in start.$out$ and edge_id in end.$inn$:
        if if_edge_exists == 'warn':
            import warnings
            warnings.warn('there')
        elif if_edge_exists != 'ignore':
            raise ValueError(edge_id)
        edge = start.$out$[edge_id]
        if value is not None and edge.is_frozen:
            raise RuntimeError('frozen')
        if style is not None:
            edge.style = style
        if label is not None:
            edge.label = label
        if value is not None:
            edge.value = value
        return edge
    if edge_id in start.$out$ or edge_id in end.$inn$:
        raise ValueError('half')
    return Edge(graph=self, start=start, end=end, id=id, value=value, label=label, style=style, **kwargs)
'''
NODES = 'isinstance(start, str) and start in self.$nodes$ and isinstance(end, str) and end in self.$nodes$'
OUT = '(start, end, id) in self.$nodes$[start].$out$'
INN = '(start, end, id) in self.$nodes$[end].$inn$'
CASES = [f'{NODES} and {h} and {s} and {v}' for h in (f'{OUT} and {INN}', f'not {OUT} and not {INN}')
         for s in ('style is None', 'style is not None') for v in ('value is None', 'value is not None')]

NEW = '''
def f(self, graph, start, end, id=None, value=None, label=None, tooltip=None, style=None, **kwargs):
    self.$graph$ = graph
    self.$rid$ = id
    self.$value$ = value
    self.$label$ = label
    self._tooltip = tooltip
    self.$frozen$ = False
    self._parameters = dict(kwargs)
    self.$style$ = None
    self.style = style
    self.$start$ = start
    self.$end$ = end
    start.$out$[(start.id, end.id, id)] = self
    end.$inn$[(start.id, end.id, id)] = self
'''


def run(ctx, rep):
    st = ctx.style_stops()
    rep.spec('Graph', 'connect', CONNECT, effects='spec', stops=st, cases=CASES)
    rep.spec('Edge', '__init__', NEW, effects='spec', stops=st, types={'graph': 'Graph', 'start': 'Node', 'end': 'Node'}, value=False)
    rep.spec('Edge', 'id', 'def f(self):\n    return (self.$start$.id, self.$end$.id, self.$rid$)')
    rep.spec('Edge', 'raw_id', 'def f(self):\n    return self.$rid$')
    rep.spec('Node', 'id', 'def f(self):\n    return self.$rid$')
    rep.spec('Node', 'name', 'def f(self):\n    return self.$rid$')
    rep.spec('Node', 'index', 'def f(self):\n    return self.$index$')
    for d, r in (('outward', 'out'), ('inward', 'inn')):
        rep.spec('Node', f'{d}_edges_dict', f'def f(self):\n    return self.${r}$')
        rep.spec('Node', f'{d}_edge_ids', f'def f(self):\n    return list(self.${r}$.keys())', 'set')
        rep.spec('Node', f'get_{d}_edge', f'def f(self, id):\n    return self.${r}$[id]')
        rep.spec('Node', f'append_{d}_edge', f'def f(self, edge):\n    self.${r}$[edge.id] = edge', types={'edge': 'Edge'}, effects='spec')
        rep.spec('Node', f'remove_{d}_edge', f'def f(self, edge_id):\n    del self.${r}$[edge_id]', effects='spec')
