"""One node per name: add_node, the node constructor and name lookup against their specification."""
from report import *

ADD = '''
def f(self, name, label=None, value=None, style=None, if_node_exists='warn', **kwargs):
    if isinstance(name, (str, int)):
        if name in self.$nodes$:
            if if_node_exists == 'warn':
                import warnings
                warnings.warn('there')
            elif if_node_exists != 'ignore':
                raise KeyError(name)
            node = self.$nodes$[name]
            if value is not None and node.is_frozen:
                raise RuntimeError('frozen')
            if style is not None:
                node.style = style
            if label is not None:
                node.label = label
            if value is not None:
                node.value = value
            return node
        return Node(graph=self, name=name, value=value, label=label, style=style, index=self.generate_node_index(), **kwargs)
    elif isinstance(name, Node):
        if name.id in self.$nodes$:
            if name.$graph$ is self and self.$nodes$[name.id] is name:
                return name
            raise ValueError('taken')
        if name.$graph$ is not None:
            raise ValueError('other graph')
        name.$graph$ = self
        self.$nodes$[name.id] = name
        return name
    raise TypeError('unsupported')
'''
CASES = [f'{t} and name {i} self.$nodes$ and {s} and {v}' for t in ('isinstance(name, str)', 'isinstance(name, int) and not isinstance(name, str)')
         for i in ('in', 'not in') for s in ('style is None', 'style is not None') for v in ('value is None', 'value is not None')] + \
    ['not isinstance(name, (str, int)) and isinstance(name, Node)', 'not isinstance(name, (str, int)) and not isinstance(name, Node)']

NEW = '''
def f(self, graph, name, value=None, label=None, tooltip=None, style=None, index=0, **kwargs):
    if name in graph.$nodes$:
        raise KeyError(name)
    self.$graph$ = graph
    self.$rid$ = name
    self.$value$ = value
    self.$label$ = label
    self._tooltip = tooltip
    self.$frozen$ = False
    self._parameters = dict(kwargs)
    self.$style$ = None
    self.style = style
    self.$out$ = {}
    self.$inn$ = {}
    self.$index$ = index
    graph.$nodes$[name] = self
'''


def run(ctx, rep):
    rep.spec('Graph', 'add_node', ADD, effects='spec', stops=dict(ctx.style_stops()), cases=CASES)
    rep.spec('Node', '__init__', NEW, effects='spec', stops=dict(ctx.style_stops()), types={'graph': 'Graph'}, value=False)
    rep.spec('Graph', '__contains__', '''
def f(self, item):
    if isinstance(item, Node):
        return item.id in self.$nodes$ and self.$nodes$[item.id] is item
    return item in self.$nodes$
''', excs=False)
    rep.spec('Graph', 'nodes_dict', 'def f(self):\n    return self.$nodes$')
