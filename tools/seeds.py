B, N, E_, W, O = '_BasicGraph.py', 'Node.py', 'Edge.py', '_GraphWithoutDisplay.py', '_GraphObj.py'
HEAD = "import warnings\nwarnings.simplefilter('ignore')\nfrom abstract import Graph\n"
SEEDS = [
 ('s01', 'C01', [(N, "		del self.inward_edges_dict[edge_id]", "		if edge_id[0] != edge_id[1]:\n			del self.inward_edges_dict[edge_id]")],
  'a loop edge (from a node to itself) is disconnected',
  'a removed loop edge stays listed among the inward edges of its node',
  HEAD + """
g = Graph()
a = g.add_node(name='a')
e = g.connect(start='a', end='a')
g.disconnect(edge=e)
assert len(a.outward_edges_dict) == 0
assert len(a.inward_edges_dict) == 0, a.inward_edges_dict
"""),
 ('s02', 'C02', [(B, "		node = self.get_node(node=node)\n		node.remove_edges()\n		node._graph = None\n", "		node = self.get_node(node=node)\n		for edge in node.edges:\n			if edge.end is not node or edge.start.num_outward_edges > 1:\n				edge.remove_self()\n		node._graph = None\n")],
  'the removed node is the only child of one of its parents',
  'an edge into the removed node stays when it is the only outward edge of its start node',
  HEAD + """
g = Graph()
for n in 'abc': g.add_node(name=n)
g.connect(start='a', end='c'); g.connect(start='b', end='c'); g.connect(start='b', end='a')
g.remove_node(node='c')
assert [x.outward_edges_dict for x in g.nodes][0] == {}, g.nodes[0].outward_edges_dict
"""),
 ('s03', 'C04', [(B, "		edge_id = (start.id, end.id, id)\n", "		edge_id = (start.id, end.id, id if id is None else str(id))\n")],
  'edges with an id that is not a string, connected twice',
  'an integer id is looked up as text but recorded as given, so the second connect makes another edge instead of finding the first',
  HEAD + """
g = Graph()
g.add_node(name='a'); g.add_node(name='b')
e = g.connect(start='a', end='b', id=1)
f = g.connect(start='a', end='b', id=1, if_edge_exists='ignore')
assert e is f
"""),
 ('s04', 'C10', [(B, "		return node in self.get_ancestors(node=node, distance=False)", "		layers = self.get_ancestors(node=node, distance=True)\n		return any(node in layers[distance] for distance in layers if distance < 3 or len(layers[distance]) == 1)")],
  'a loop of three or more nodes with another ancestor at the distance at which the loop closes',
  'such a node is not reported in a loop',
  HEAD + """
g = Graph()
for n in 'abcd': g.add_node(name=n)
g.connect(start='a', end='b'); g.connect(start='b', end='c'); g.connect(start='c', end='a'); g.connect(start='d', end='b')
assert all(g.is_node_in_loop(n) for n in 'abc'), [g.is_node_in_loop(n) for n in 'abc']
assert not g.is_node_in_loop('d')
"""),
 ('s05', 'C11', [(B, "				for descendant in self.get_descendants(node=node, distance=False):\n					if descendant in possible_roots:", "				for descendant in self.get_descendants(node=node, distance=False):\n					if descendant in possible_roots and not (descendant.is_in_loop() and descendant.index > node.index and not node.has_parents()):")],
  'a loop fed from an absolute root that was added before it',
  'nodes of a loop below an absolute root are listed as roots as well',
  HEAD + """
g = Graph()
for n in 'abc': g.add_node(name=n)
g.connect(start='a', end='b'); g.connect(start='b', end='c'); g.connect(start='c', end='b')
assert [n.name for n in g.roots] == ['a'], g.roots
"""),
 ('s06', 'C12', [(B, "			relatives[name] = 1\n			if direction", "			if relatives.setdefault(name, 0):\n				continue\n			if direction")],
  'two given nodes, the second a descendant of the first, with an ancestor of its own',
  'a given node that was already found as a relative of an earlier one does not bring its own ancestors',
  HEAD + """
g = Graph()
for n in 'abc': g.add_node(name=n)
g.connect(start='a', end='c'); g.connect(start='b', end='c')
f = g.filter(nodes=['a', 'c'], direction='to_and_from')
assert sorted(f.nodes_dict) == ['a', 'b', 'c'], f.nodes_dict
"""),
 ('s07', 'C24', [(N, "		return (self.index, self.name) <= (other.index, other.name)", "		return self.index < other.index or self.name <= other.name and self.index <= other.index + (self.name == other.name)")],
  'two nodes with the same name and neighbouring indexes (in different graphs)',
  'the node with the higher index counts as less than or equal to the one with the lower',
  HEAD + """
g, h = Graph(), Graph()
a = g.add_node(name='a')
h.add_node(name='x'); b = h.add_node(name='a')
assert a <= b and not b <= a and b > a
"""),
 ('s08', 'C26', [('parse_indentations_function.py', "			stack[level:] = [index]\n", "			stack[level:level + 1] = [index]\n")],
  'a line that goes back up the outline, followed by a line more than one level deeper',
  'the chain keeps the lines of the branch that was left, so a line that is too deep gets a parent from that branch instead of being refused',
  """from abstract.parse_indentations_function import parse_indentations
try:
    items = list(parse_indentations(['a', '    b', '        c', '    d', '            e']))
except ValueError:
    pass
else:
    raise AssertionError(items)
assert [x[3] for x in parse_indentations(['a', '    b', '        c', '    d', 'e'])] == [None, 0, 1, 0, None]
"""),
 ('s09', 'C30', [(B, "			graph.connect(start=start_node, end=end_node, id=index, label=edge_name)\n", "			graph.connect(start=start_node, end=end_node, id=edge_name or index, label=edge_name)\n")],
  'two rows with the same start, end and label',
  'rows are told apart by their label, so the second of two equal rows is refused',
  HEAD + """
g = Graph.from_lists(start=['a', 'a', 'b'], end=['b', 'b', 'a'], edge=['x', 'x', None])
assert len(g.edges) == 3, g.edges
"""),
 ('s10', 'C23', [(W, "				if random.uniform(0, 1) < connection_probability:", "				if random.uniform(0, 1) < connection_probability and (n1 != n2 or graph.nodes_dict[str(n1)].has_children()):")],
  'cycles are allowed and the probability is one, for the node that has no child yet',
  'the loop edge of the first node (before it has any child) is never made',
  HEAD + """
g = Graph.random(num_nodes=3, cycle=True, connection_probability=1.0, seed=1)
assert len(g.edges) == 9, len(g.edges)
"""),
 ('s11', 'C25', [(N, "			if id not in other._outward_edges_dict:\n				return False\n			other_outward_edge = other._outward_edges_dict[id]\n", "			if id not in other._outward_edges_dict:\n				continue\n			other_outward_edge = other._outward_edges_dict[id]\n"), (N, "			if id not in other._inward_edges_dict:\n				return False\n", "			if id not in other._inward_edges_dict:\n				continue\n")],
  'graphs with the same nodes and degrees but other edges (two loops of two, the pairs swapped)',
  'graphs whose nodes have the same numbers of edges to different nodes count as similar',
  HEAD + """
def make(pairs):
    g = Graph()
    for n in 'abcd': g.add_node(name=n)
    for x, y in pairs: g.connect(start=x, end=y)
    return g
g, h = make(['ab', 'ba', 'cd', 'dc']), make(['ac', 'ca', 'bd', 'db'])
assert not g.is_similar_to(h)
assert g.is_similar_to(make(['ab', 'ba', 'cd', 'dc']))
"""),
 ('s12', 'C29', [('styling/EdgeStyle.py', "		self._arrow_size = state['_arrow_size']\n", "		self._arrow_size = min(state['_arrow_size'], self._MAX_ARROW) if self._line_width is not None else state['_arrow_size']\n"), ('styling/EdgeStyle.py', "		self._text_size = state['_text_size']\n", "		self._text_size = state['_text_size']\n		self._line_width = state['_line_width']\n"), ('styling/EdgeStyle.py', "	def __getstate__(self):\n		return {", "	_MAX_ARROW = 10\n\n	def __getstate__(self):\n		return {")],
  'a pickled edge style with a line width and an arrow size over ten',
  'the arrow size of a style is cut down when it is restored',
  HEAD + """
import pickle
from abstract.styling.EdgeStyle import EdgeStyle
s = EdgeStyle(line_width=2, arrow_size=12)
t = pickle.loads(pickle.dumps(s))
assert t._arrow_size == s._arrow_size, t._arrow_size
assert t.__getstate__() == s.__getstate__()
"""),
 ('s13', 'C28', [(O, "			if self._label_converter is not None:\n				return self._label_converter(self._label)\n			else:\n				return self._label\n", "			if self._label_converter is not None and self._label:\n				return self._label_converter(self._label)\n			else:\n				return self._label\n")],
  'an edge whose label is empty (or zero), in a graph with an edge label converter',
  'such a label is shown as it is, without the converter',
  HEAD + """
g = Graph(edge_label_converter=lambda x: f'<{x}>')
g.add_node(name='a'); g.add_node(name='b')
e = g.connect(start='a', end='b', label='')
f = g.connect(start='b', end='a', label='x')
assert f.display_label_or_value() == '<x>'
assert e.display_label_or_value() == '<>', e.display_label_or_value()
"""),
 ('s14', 'C20', [(O, "		if self.is_frozen:\n			raise RuntimeError('GraphObj is frozen!')\n		self._value = value\n", "		if self.is_frozen and self._value is not None:\n			raise RuntimeError('GraphObj is frozen!')\n		self._value = value\n")],
  'a frozen node or edge whose value is None',
  'the value of a frozen object without a value can be set',
  HEAD + """
g = Graph()
a = g.add_node(name='a')
a.freeze()
try:
    a.value = 3
except RuntimeError:
    pass
assert a.value is None, a.value
"""),
 ('s15', 'C17', [(W, "		edges_str = '\\t' + '\\n\\t'.join([edge.get_graphviz_str() for edge in self.edges]) + '\\n'\n", "		edges_str = '\\t' + '\\n\\t'.join([edge.get_graphviz_str() for node in self.nodes for edge in node.outward_edges if edge.start is not edge.end or edge.raw_id is None]) + '\\n'\n")],
  'a loop edge with an id',
  'loop edges with an id are left out of the DOT text',
  HEAD + """
g = Graph()
g.add_node(name='a')
g.connect(start='a', end='a')
assert g.get_graphviz_str().count('->') == 1
g.connect(start='a', end='a', id='x')
assert g.get_graphviz_str().count('->') == 2
"""),
 ('s16', 'C32', [(W, "					parent, child, edge_dict = parent_child_edge_dict\n					edge = self.connect(start=parent, end=child, **edge_dict)\n					edges_dict[(parent, child)] = edge.id\n", "					parent, child, edge_dict = parent_child_edge_dict\n					edge = self.connect(start=parent, end=child, **edge_dict)\n					if edge_dict:\n						edges_dict[(parent, child)] = edge.id\n")],
  'an edge given with an empty attribute dictionary, and an edge style or colour for its ends',
  'the style given for (start, end) does not reach an edge that has no attributes',
  HEAD + """
from abstract.styling.EdgeStyle import EdgeStyle
for attributes in ({'label': 'x'}, {}):
    style = EdgeStyle(colour='red')
    g = Graph(obj={'nodes': ['a', 'b'], 'edges': [('a', 'b', attributes)], 'edge_styles': {('a', 'b'): style}})
    assert list(g._edge_style_overwrites) == [('a', 'b', None)], (attributes, g._edge_style_overwrites)
"""),
 ('s17', 'C14', [(W, "						'value': edge.value,\n", "						'value': edge.value or None,\n")],
  'an edge with a value that counts as false, such as 0',
  'an edge value of 0 is lost in the dictionary form',
  HEAD + """
g = Graph()
g.add_node(name='a')
g.add_node(name='b')
g.connect(start='a', end='b', value=5)
assert Graph(obj=g.__graph__()).edges[0].value == 5
g.connect(start='b', end='a', value=0)
assert Graph(obj=g.__graph__()).edges[1].value == 0, Graph(obj=g.__graph__()).edges[1].value
"""),
 ('s18', 'C15', [(W, "		for edge2 in d1['edges'] + d2['edges']:\n", "		for edge2 in d1['edges'] + [e for e in d2['edges'] if e[0] != e[1] or e not in d1['edges']]:\n")],
  'a loop edge that is equal in both operands',
  'the values of equal loop edges are not combined',
  HEAD + """
def make(v):
    g = Graph()
    g.add_node(name='a')
    g.add_node(name='b')
    g.connect(start='a', end='b', value=v)
    g.connect(start='a', end='a', value=v)
    return g
assert sorted(e.value for e in (make(2) + make(3)).edges) == [5, 5]
values = sorted(e.value for e in (make(2) + make(2)).edges)
assert values == [4, 4], values
"""),
 ('s19', 'C22', [(B, "				if childs_parent not in spouses and childs_parent != node:\n					spouses.append(childs_parent)\n		return spouses\n", "				if childs_parent not in spouses and childs_parent != node:\n					spouses.append(childs_parent)\n		return spouses if len(spouses) < 3 else list(set(spouses))\n")],
  'a node with three spouses or more, and processes with different hash seeds',
  'the order of many spouses depends on hash randomisation',
  """
import os, subprocess, sys
code = '''
from abstract import Graph
g = Graph()
for n in 'abcdefgh':
    g.add_node(name='node ' + n)
    g.connect(start='node ' + n, end='node a')
print([x.name for x in g.get_spouses(node='node b')])
'''
outs = {subprocess.run([sys.executable, '-c', code], env=dict(os.environ, PYTHONHASHSEED=str(i)), capture_output=True, text=True, check=True).stdout for i in range(6)}
assert len(outs) == 1, outs
"""),
 ('s20', 'C22', [(W, "		if seed is not None:\n			random.seed(seed)\n", "		if seed:\n			random.seed(seed)\n")],
  'a random graph with the seed 0',
  'Graph.random with the seed 0 is not seeded',
  """
import subprocess, sys
code = '''
from abstract import Graph
g = Graph.random(num_nodes=9, cycle=True, seed=SEED)
print([(e.start.name, e.end.name) for e in g.edges])
'''
for seed in ('7', '0'):
    outs = {subprocess.run([sys.executable, '-c', code.replace('SEED', seed)], capture_output=True, text=True, check=True).stdout for _ in range(4)}
    assert len(outs) == 1, (seed, outs)
"""),
 ('s21', 'C33', [(B, "			elif if_edge_exists == 'warn':\n				warnings.warn(f'Warning! Edge: {edge_id} already exists!')\n			else:\n				raise ValueError(f'Error! Edge {edge_id} already exists!')\n\n			edge = start.get_outward_edge(id=edge_id)\n", "			elif if_edge_exists == 'warn':\n				warnings.warn(f'Warning! Edge: {edge_id} already exists!')\n				edge = start.get_outward_edge(id=edge_id)\n			else:\n				raise ValueError(f'Error! Edge {edge_id} already exists!')\n\n")],
  'the same edge connected again, to be ignored',
  'a variable is used before it is assigned where an edge exists and this is to be ignored',
  HEAD + """
g = Graph()
for n in 'ab':
    g.add_node(name=n)
e = g.connect(start='a', end='b')
assert g.connect(start='a', end='b', if_edge_exists='ignore', label='x') is e
"""),
 ('s22', 'C33', [(B, "						raise ValueError(f'node with id \"{node.id}\" is already in a graph!')\n				", "						raise ValueError(f'node with id \"{node.id}\" is already in {node.graph.name}!')\n				")],
  'a node of another graph is added',
  'the error path reads an attribute that graphs do not have: AttributeError instead of ValueError',
  HEAD + """
g, h = Graph(), Graph()
n = g.add_node(name='a')
try:
    h.add_node(name=n)
except ValueError:
    pass
else:
    raise SystemExit(1)
"""),
 ('s23', 'C33', [('_GraphObj.py', "		self._tooltip = tooltip\n", "		if tooltip is not None:\n			self._tooltip = tooltip\n")],
  'a node without a tooltip is copied or drawn',
  'an attribute is given a value only when the argument is',
  HEAD + """
g = Graph()
g.add_node(name='a', tooltip='x')
g.add_node(name='b')
assert g.get_node('b').get_graphviz_str()
"""),
 ('s24', 'C27', [('get_ancestors.py', "					ancestors.append(parent)\n", "					ancestors.insert(0, parent)\n")],
  'an object with relatives at more than one distance, listed without distances',
  'the list of ancestors starts with the farthest',
  """
from abstract.get_ancestors import get_ancestors
class O:
    def __init__(self, *parents): self.parents = parents
    def __parents__(self): return list(self.parents)
a = O(); b = O(a); c = O(b)
assert get_ancestors(c, distance=False) == [b, a]
"""),
 ('s25', 'C27', [('get_descendants.py', "					descendants.append(child)\n", "					if child.__children__() or len(layer) == 1:\n						descendants.append(child)\n")],
  'a leaf below a layer of two objects, listed without distances',
  'leaves are missing from the list of descendants',
  """
from abstract.get_descendants import get_descendants
class O:
    def __init__(self, *children): self.children = children
    def __children__(self): return list(self.children)
a = O(); b = O(a); c = O(); d = O(b, c)
assert get_descendants(d, distance=False) == [b, c, a]
b = O(a); c = O(a, O()); d = O(b, c)
assert len(get_descendants(d, distance=False)) == 4
"""),
 ('s26', 'C27', [('get_descendants.py', "	if distance:\n		return descendants_dict\n", "	if distance and max_depth != 0:\n		return descendants_dict\n")],
  'distances asked for within no steps',
  'a list is returned where distances were asked for',
  """
from abstract.get_descendants import get_descendants
class O:
    def __children__(self): return []
assert get_descendants(O(), distance=True, max_depth=0) == {}
assert get_descendants(O(), distance=False, max_depth=0) == []
"""),
 ('s27', 'C09', [(B, "						if ancestor not in ancestors:\n							ancestors.append(ancestor)\n", "						if ancestor not in ancestors and ancestor is not node:\n							ancestors.append(ancestor)\n")],
  'a node on a loop of three or more nodes',
  'a node on a longer loop is not among its own ancestors',
  HEAD + """
g = Graph()
for n in 'abc':
    g.add_node(name=n)
g.connect(start='a', end='b'); g.connect(start='b', end='c'); g.connect(start='c', end='a')
assert {n.name for n in g.get_ancestors(node='a', distance=False)} == {'a', 'b', 'c'}
"""),
 ('s28', 'C09', [(B, "				if child not in nodes_travelled:\n					if child not in descendants:\n						descendants.append(child)\n", "				if child not in descendants:\n					descendants.append(child)\n				if child not in nodes_travelled:\n")],
  'the descendants of a node on a loop',
  'a node on a loop is listed among its own descendants',
  HEAD + """
g = Graph()
for n in 'ab':
    g.add_node(name=n)
g.connect(start='a', end='b'); g.connect(start='b', end='a')
assert [n.name for n in g.get_descendants(node='a', distance=False)] == ['b']
"""),
 ('s29', 'C09', [(B, "				if parent not in nodes_travelled:\n", "				if parent not in nodes_travelled and len(ancestors) < 8:\n")],
  'a node with more than eight ancestors before the last branch is walked',
  'wide graphs lose ancestors of the later parents',
  HEAD + """
g = Graph()
g.add_node(name='x')
for i in range(10):
    g.add_node(name=f'p{i}')
    g.connect(start=f'p{i}', end='x')
g.add_node(name='far')
g.connect(start='far', end='p9')
assert 'far' in [n.name for n in g.get_ancestors(node='x', distance=False)]
"""),
 ('s30', 'C31', [(N, "		if already_added is None:\n			already_added = []\n\n		tree_string", "		already_added = already_added or []\n\n		tree_string")],
  'a graph with two roots that lead to the same node',
  'the list of those shown is not shared by the roots: a node below two roots is expanded under both',
  HEAD + """
g = Graph()
for n in 'rsabc':
    g.add_node(name=n)
for x, y in ('ra', 'sa', 'ab', 'bc'):
    g.connect(start=x, end=y)
t = g.get_tree_str()
assert t.count('c') == 1 and t.count('*') == 1, t
"""),
 ('s31', 'C31', [(N, "				already_added.append(self)\n				if child_num", "				already_added = already_added + [self]\n				if child_num")],
  'a diamond whose lower node has children of its own',
  'only the nodes on the way are remembered: a node met in another branch is expanded again',
  HEAD + """
g = Graph()
for n in 'abcde':
    g.add_node(name=n)
for x, y in ('ab', 'ac', 'bd', 'cd', 'de'):
    g.connect(start=x, end=y)
t = g.get_tree_str()
assert t.count('e') == 1 and t.count('d*') == 1, t
"""),
 ('s32', 'C31', [(N, "			num_children = len(self.children)\n", "			num_children = len(set(self.children))\n")],
  'two edges between the same nodes',
  'the corner goes to another than the last child',
  HEAD + """
g = Graph()
for n in 'abc':
    g.add_node(name=n)
g.connect(start='a', end='b', id=1)
g.connect(start='a', end='b', id=2)
g.connect(start='a', end='c', id=3)
rows = g.get_tree_str().split('\\n')
assert [r[:1] for r in rows[1:4]] == ['\\u251c', '\\u251c', '\\u2514'], rows
"""),
 ('s33', 'C21', [('styling/inherit_style.py', "		if len(node.parents) == 1:\n			parent = node.parents[0]", "		if len(node.parents) <= 2:\n			parent = node.parents[-1]")],
  'a loop in which every node is also fed from outside, the edge of the loop coming last',
  'a style is asked of parents in the same loop: inheriting never ends',
  HEAD + """
g = Graph()
for n in 'xab':
    g.add_node(name=n)
for s, e in ('xa', 'xb', 'ab', 'ba'):
    g.connect(start=s, end=e)
g.stylize()
assert all(n.style is not None for n in g.nodes)
"""),
 ('s34', 'C21', [('styling/stylize_edges_based_on_nodes.py', "		if edge.style is None:\n", "		if edge.style is None and edge.start is not edge.end:\n")],
  'an edge from a node to itself',
  'an edge from a node to itself is left without a style',
  HEAD + """
g = Graph()
g.add_node(name='a')
e = g.connect(start='a', end='a')
g.stylize()
assert e.style is not None
"""),
 ('s35', 'C21', [('styling/stylize_with_pensieve.py', "			if is_root_or_parents_are_in_loop(node):\n				colour", "			if is_root_or_parents_are_in_loop(node) and (not node.parents or node.is_in_loop()):\n				colour")],
  'a node outside any loop that is fed only by loops',
  'a node fed only by loops is given no style',
  HEAD + """
g = Graph()
for n in 'abc':
    g.add_node(name=n)
for s, e in ('ab', 'ba', 'bc'):
    g.connect(start=s, end=e)
g.stylize()
assert all(n.style is not None for n in g.nodes)
"""),
]
