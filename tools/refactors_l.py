"""edits that keep the behaviour, written in ways a check of names, types and assignments could stumble over"""
B, W, N, E, O, D, P = '_BasicGraph.py', '_GraphWithoutDisplay.py', 'Node.py', 'Edge.py', '_GraphObj.py', 'styling/NodeStyle.py', 'parse_indentations_function.py'
SP = "		children = self.get_children(node=node)\n		spouses = []\n		for child in children:\n			for childs_parent in self.get_parents(node=child):\n				if childs_parent not in spouses and childs_parent != node:\n					spouses.append(childs_parent)\n		return spouses\n"
LV = "		return [node for node in self.nodes if not node.has_children()]\n"
EX = "			if if_edge_exists == 'ignore':\n				pass\n			elif if_edge_exists == 'warn':\n				warnings.warn(f'Warning! Edge: {edge_id} already exists!')\n			else:\n				raise ValueError(f'Error! Edge {edge_id} already exists!')\n\n			edge = start.get_outward_edge(id=edge_id)\n"
RM = "		node = self.get_node(node=node)\n		node.remove_edges()\n		node._graph = None\n		del self.nodes_dict[node.id]\n"
TR = "		already_added = []\n		tree_strings = []\n		for root in self.roots:\n			tree_string = root.get_tree_str(already_added=already_added)\n			tree_strings.append(tree_string)\n		return '\\n'.join(tree_strings)\n"
EDITS = [
('try else', None, [(B, RM, "		try:\n			found = self.get_node(node=node)\n		except KeyError:\n			raise\n		else:\n			node = found\n		node.remove_edges()\n		node._graph = None\n		del self.nodes_dict[node.id]\n")]),
('found flag', None, [(B, EX, "			known = if_edge_exists in ('ignore', 'warn')\n			if known:\n				edge = start.get_outward_edge(id=edge_id)\n			if if_edge_exists == 'warn':\n				warnings.warn(f'Warning! Edge: {edge_id} already exists!')\n			if not known:\n				raise ValueError(f'Error! Edge {edge_id} already exists!')\n")]),
('same condition twice', None, [(B, EX, "			if if_edge_exists == 'ignore' or if_edge_exists == 'warn':\n				edge = start.get_outward_edge(id=edge_id)\n			if if_edge_exists == 'warn':\n				warnings.warn(f'Warning! Edge: {edge_id} already exists!')\n			elif if_edge_exists != 'ignore':\n				raise ValueError(f'Error! Edge {edge_id} already exists!')\n")]),
('dispatch', None, [(B, EX, "			def shout():\n				raise ValueError(f'Error! Edge {edge_id} already exists!')\n			def warn():\n				warnings.warn(f'Warning! Edge: {edge_id} already exists!')\n			{'ignore': lambda: None, 'warn': warn}.get(if_edge_exists, shout)()\n\n			edge = start.get_outward_edge(id=edge_id)\n")]),
('exception first made', None, [(B, "				raise ValueError(f'Error! Edge {edge_id} already exists!')\n", "				error = ValueError(f'Error! Edge {edge_id} already exists!')\n				raise error\n")]),
('exception helper', None, [(B, "				raise ValueError(f'Error! Edge {edge_id} already exists!')\n", "				raise self._edge_error(edge_id)\n"), (B, "	# similarity\n", "	def _edge_error(self, edge_id):\n		return ValueError(f'Error! Edge {edge_id} already exists!')\n\n	# similarity\n")]),
('percent text', None, [(B, "				raise ValueError(f'Error! Edge {edge_id} already exists!')\n", "				raise ValueError('Error! Edge %s already exists!' % (edge_id,))\n")]),
('format text', None, [(B, "				raise ValueError(f'Error! Edge {edge_id} already exists!')\n", "				raise ValueError('Error! Edge {id} already exists!'.format(id=edge_id))\n")]),
('added texts', None, [(B, "				raise ValueError(f'Error! Edge {edge_id} already exists!')\n", "				raise ValueError('Error! Edge ' + str(edge_id) + ' already exists!')\n")]),
('own exception', None, [(B, "				raise ValueError(f'Error! Edge {edge_id} already exists!')\n", "				raise EdgeExists(f'Error! Edge {edge_id} already exists!')\n"), (B, "class BasicGraph:\n", "class EdgeExists(ValueError):\n	pass\n\n\nclass BasicGraph:\n")]),
('spouses dict', None, [(B, SP, "		spouses = {}\n		for child in self.get_children(node=node):\n			for parent in self.get_parents(node=child):\n				if parent != node:\n					spouses.setdefault(parent.id, parent)\n		return [*spouses.values()]\n")]),
('spouses while', None, [(B, SP, "		todo = [parent for child in self.get_children(node=node) for parent in self.get_parents(node=child)]\n		spouses = []\n		while todo:\n			first, *todo = todo\n			if first not in spouses and first != node:\n				spouses.append(first)\n		return spouses\n")]),
('spouses nested', None, [(B, SP, "		spouses = []\n\n		def meet(other):\n			if other not in spouses and other != node:\n				spouses.append(other)\n		for child in self.get_children(node=node):\n			for other in self.get_parents(node=child):\n				meet(other)\n		return spouses\n")]),
('leaves filter', None, [(B, LV, "		return list(filter(lambda node: not node.has_children(), self.nodes))\n")]),
('leaves walrus', None, [(B, LV, "		return [node for node in self.nodes if not (number := node.num_children())] if hasattr(Node, 'num_children') else [node for node in self.nodes if not node.has_children()]\n")]),
('leaves generator', None, [(B, LV, "		return list(self._leaves())\n\n	def _leaves(self):\n		for node in self.nodes:\n			if not node.has_children():\n				yield node\n")]),
('leaves dictionary', None, [(B, LV, "		parts = {True: [], False: []}\n		for node in self.nodes:\n			parts[bool(node.has_children())].append(node)\n		return parts[False]\n")]),
('tree join', None, [(B, TR, "		already_added = []\n		return '\\n'.join(root.get_tree_str(already_added=already_added) for root in self.roots)\n")]),
('tree last', None, [(B, TR, "		already_added, text, first = [], '', True\n		for root in self.roots:\n			text += root.get_tree_str(already_added=already_added) if first else '\\n' + root.get_tree_str(already_added=already_added)\n			first = False\n		return text\n")]),
('keyword dictionary', None, [(B, "			edge = Edge(graph=self, start=start, end=end, id=id, value=value, label=label, style=style, **kwargs)\n", "			options = dict(kwargs, value=value, label=label, style=style)\n			edge = Edge(self, start, end, id=id, **options)\n")]),
('class attribute', None, [(O, "		self._frozen = False\n", ""), (O, "class GraphObj:\n", "class GraphObj:\n	_frozen = False\n\n")]),
('init helper', None, [(O, "		self._frozen = False\n		self._parameters = dict(kwargs)\n", "		self._begin(kwargs)\n"), (O, "	def __getstate__(self):", "	def _begin(self, parameters):\n		self._frozen, self._parameters = False, dict(parameters)\n\n	def __getstate__(self):")]),
('setstate loop', None, [(O, "		self._graph = state['graph']\n		self._raw_id = state['id']\n		self._value = state['value']\n		self._label = state['label']\n", "		self._raw_id = state['id']\n		for key in ('graph', 'value', 'label'):\n			setattr(self, '_' + key, state[key])\n")]),
('lazy cache', None, [(N, "		tree_string = self.label\n", "		if not hasattr(self, '_sign'):\n			self._sign = '*'\n		tree_string = self.label\n"), (N, "			tree_string += '*\\n'", "			tree_string += self._sign + '\\n'")]),
('getattr default', None, [(E, "		if self._tooltip is not None:\n", "		if getattr(self, '_tooltip', None) is not None:\n")]),
('module alias', None, [(P, "import re\n", "import re as expressions\n"), (P, "re.compile", "expressions.compile"), (P, "re.findall", "expressions.findall")]),
('local import', None, [(B, "				warnings.warn(f'Warning! Edge: {edge_id} already exists!')", "				from warnings import warn\n				warn(f'Warning! Edge: {edge_id} already exists!', category=UserWarning, stacklevel=1)")]),
('partial', None, [(B, SP, "		from functools import reduce\n		node = self.get_node(node)\n		parents = (parent for child in self.get_children(node=node) for parent in self.get_parents(node=child))\n		return reduce(lambda found, x: found if x in found or x == node else found + [x], parents, [])\n")]),
('star arguments', None, [(E, "		start.append_outward_edge(edge=self)\n		end.append_inward_edge(edge=self)\n", "		for method in (start.append_outward_edge, end.append_inward_edge):\n			method(*(self,))\n")]),
('string annotation', None, [(E, "	def is_in_loop(self) -> bool:\n", "	def is_in_loop(self) -> 'Yes or no':\n")]),
('level none', None, [(P, "	level = 0\n\n	for", "	level = None\n\n	for"), (P, "			content = ''\n", "			content = ''\n			level = level or 0\n")]),
('with suppress', None, [(B, LV, "		from contextlib import suppress\n		leaves = []\n		with suppress(StopIteration):\n			nodes = iter(self.nodes)\n			while True:\n				node = next(nodes)\n				if not node.has_children():\n					leaves.append(node)\n		return leaves\n")]),
('for else', None, [(B, LV, "		leaves = []\n		for node in self.nodes:\n			for _ in node.children:\n				break\n			else:\n				leaves.append(node)\n		return leaves\n")]),
]
