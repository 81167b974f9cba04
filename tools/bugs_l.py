"""changes after which some rarely taken path fails on its own internals"""
B, W, N, E, O, D = '_BasicGraph.py', '_GraphWithoutDisplay.py', 'Node.py', 'Edge.py', '_GraphObj.py', 'styling/NodeStyle.py'
v = {'C33'}
EDITS = [
('edge unassigned ignore', v, [(B, "			edge = start.get_outward_edge(id=edge_id)\n			if value is not None and edge.is_frozen", "			if if_edge_exists != 'ignore':\n				edge = start.get_outward_edge(id=edge_id)\n			if value is not None and edge.is_frozen")]),
('name deleted then named', v, [(B, "					raise ValueError(f'node with id \"{node.id}\" is already in a graph!')\n			else:", "					raise ValueError(f'node with id \"{name}\" is already in a graph!')\n			else:")]),
('attr typo in error', v, [(B, "is already in a graph but not in the graph dictionary: {self.nodes_dict.keys()}", "is already in a graph but not in the graph dictionary: {self.node_dict.keys()}")]),
('typo method', v, [(B, "			edge = start.get_outward_edge(id=edge_id)", "			edge = start.get_outwards_edge(id=edge_id)")]),
('wrong kw', v, [(B, "			edge = start.get_outward_edge(id=edge_id)", "			edge = start.get_outward_edge(edge_id=edge_id)")]),
('property called', v, [(B, "		return [node for node in self.nodes if not node.has_children()]", "		return [node for node in self.nodes() if not node.has_children()]")]),
('method iterated', v, [(B, "				for ancestor in node.ancestors:", "				for ancestor in node.get_ancestors:")]),
('exception not raised', v, [(B, "			raise TypeError(f'node of type {type(name)} is not supported!')", "			TypeError(f'node of type {type(name)} is not supported!')")]),
('text raised', v, [(B, "				raise ValueError(f'Error! Edge {edge_id} already exists!')", "				raise f'Error! Edge {edge_id} already exists!'")]),
('notimplemented raised', v, [(O, "	def style(self):\n		raise RuntimeError('this parent function is just a placeholder')", "	def style(self):\n		raise NotImplemented('this parent function is just a placeholder')")]),
('text and id added', v, [(B, "				raise ValueError(f'Error! Edge {edge_id} already exists!')", "				raise ValueError('Error! Edge ' + edge_id + ' already exists!')")]),
('text and type added', v, [(O, "			raise TypeError(f'\"{other}\" is of type: {type(other)}')\n		if self.graph != other.graph:\n			raise ValueError('two GraphObj from different graphs cannot be compared')\n		return self.id == other.id", "			raise TypeError('other is of type: ' + type(other))\n		if self.graph != other.graph:\n			raise ValueError('two GraphObj from different graphs cannot be compared')\n		return self.id == other.id")]),
('format wants more', v, [('parse_indentations_function.py', "raise ValueError('Indentation too deep: \"{0}\"'.format(line))", "raise ValueError('Indentation too deep in line {0}: \"{1}\"'.format(line))")]),
('undefined name', v, [(B, "				warnings.warn(f'Warning! Edge: {edge_id} already exists!')", "				warnings.warn(f'Warning! Edge: {edge_id} already exists! {name}')")]),
('missing import', None, [('parse_indentations_function.py', "import re\n", ""), ('parse_indentations_function.py', "	regex = re.compile(r'^(?P<indent>(?: {4})*)(?P<name>\\S.*)')\n", "	import re\n	regex = re.compile(r'^(?P<indent>(?: {4})*)(?P<name>\\S.*)')\n")]),
('import only then', v, [(B, "import warnings\n", ""), (B, "		if isinstance(name, (str, int)):\n			if name in self.nodes_dict:\n", "		if isinstance(name, (str, int)):\n			if name in self.nodes_dict:\n				import warnings\n")]),
('level unassigned', v, [('parse_indentations_function.py', "	level = 0\n\n	for", "	for")]),
('result in loop only', v, [(B, "		spouses = []\n		for child in children:\n", "		for child in children:\n			spouses = [] if child is children[0] else spouses\n")]),
('attribute of the other class', v, [(E, "escape_quotes(self.start.name)", "escape_quotes(self.start.start_name)")]),
('too many arguments', v, [(B, "			if not node.is_similar_to(other=other_node):", "			if not node.is_similar_to(other_node, self._is_strict):")]),
('not enough arguments', v, [(E, "		self.end.remove_inward_edge(edge_id=self.id)\n		self._start = None", "		self.end.remove_inward_edge()\n		self._start = None")]),
('init forgets tooltip', v, [(O, "		self._tooltip = tooltip\n\n		self._frozen", "		if tooltip is not None:\n			self._tooltip = tooltip\n\n		self._frozen")]),
('setstate forgets', v, [(E, "		self._end = state['end']\n", "")]),
('setstate forgets frozen', v, [(O, "		self._frozen = state['frozen']\n", "")]),
('no setter', v, [(B, "		node._graph = None\n		del", "		node.graph = None\n		del")]),
('subscript method', v, [(B, "			other_node = other._nodes_dict[name]", "			other_node = other.get_node[name]")]),
('len of number', v, [(B, "		return self.num_spouses(node=node) > 0", "		return len(self.num_spouses(node=node)) > 0")]),
('unpack three', v, [(B, "			if direction in ('from', 'to_and_from'):\n				for descendant in node.descendants:", "			if direction in ('from', 'to_and_from'):\n				for _, descendant, _ in enumerate(node.descendants):")]),
('random.Randm', v, [('styling/stylize_randomly.py', "random.Random", "random.choise")]),
('colour method typo', v, [(D, "			result.border_colour = result.border_colour.invert()", "			result.border_colour = result.border_colour.inverted()")]),
('colour kw', v, [(D, "colour.lighten(ratio=DEFAULT_NODE_COLOUR_DIFFERENCE_RATIO / 3)", "colour.lighten(rate=DEFAULT_NODE_COLOUR_DIFFERENCE_RATIO / 3)")]),
('join nodes', v, [(B, "is already in a graph but not in the graph dictionary: {self.nodes_dict.keys()}", "is already in a graph but not in the graph dictionary: {\", \".join(self.nodes)}")]),
('super misspelt', v, [(E, "		if not super().is_similar_to(other=other):", "		if not super().is_like(other=other):")]),
('list add', v, [(B, "					if descendant not in descendants:\n							descendants.append(descendant)", "					if descendant not in descendants:\n							descendants.append(descendant)")]),
('list added', v, [(B, "				if parents_child not in siblings and parents_child != node:\n					siblings.append(parents_child)", "				if parents_child not in siblings and parents_child != node:\n					siblings.add(parents_child)")]),
('global missing', v, [(W, "pad: Union[int, float] = DEFAULT_PAD, **kwargs) -> Source", "pad: Union[int, float] = DEFAULT_PAD, **kwargs) -> Source")]),
('except name', v, [(B, "		node = self.get_node(node=node)\n		node.remove_edges()", "		try:\n			node = self.get_node(node=node)\n		except KeyError as e:\n			pass\n		if not isinstance(node, Node):\n			raise KeyError(f'{node}: {e}')\n		node.remove_edges()")]),
('static self', v, [(B, "	@staticmethod\n	def disconnect(edge: Edge):", "	@staticmethod\n	def disconnect(edge: Edge):")]),
('return an error', v, [(E, "			raise ValueError('Either start or end Node is missing!')", "			return ValueError('Either start or end Node is missing!')")]),
('conditional import', v, [(W, "from graphviz import Source", "from graphviz import Source")]),
]
EDITS = [e for e in EDITS if any(a != c for _, a, c in e[2])]
