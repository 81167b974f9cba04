B='_BasicGraph.py'; N='Node.py'; E='Edge.py'; O='_GraphObj.py'; G='_GraphWithoutDisplay.py'
EDITS=[
('loop reorder',None,[(B,"		return node1_is_ancestor_to_node2 and node2_is_ancestor_to_node1","		return node2_is_ancestor_to_node1 and node1_is_ancestor_to_node2")]),
('loop helper',None,[(B,"	def is_node_in_loop(self, node):\n		node = self.get_node(node)\n		return node in self.get_ancestors(node=node, distance=False)","	def _leads(self, a, b):\n		return a in self.get_ancestors(node=b, distance=False)\n\n	def is_node_in_loop(self, node):\n		node = self.get_node(node)\n		return self._leads(node, node)")]),
('loop via ancestors',None,[(B,"		return node in self.get_ancestors(node=node, distance=False)","		return node in node.ancestors")]),
('loop any',None,[(B,"		return node in self.get_ancestors(node=node, distance=False)","		return any(a == node for a in self.get_ancestors(node=node, distance=False))")]),
('loop nodes loop',None,[(B,"		return [node for node in self.nodes if node.is_in_loop()]","		result = []\n		for node in self.nodes:\n			if self.is_node_in_loop(node):\n				result.append(node)\n		return result")]),
('edge loop direct',None,[(E,"		return self.start.is_in_loop_with(self.end)","		return self.graph.are_nodes_in_same_loop(self.start, self.end)")]),
('edge loop swapped',None,[(E,"		return self.start.is_in_loop_with(self.end)","		return self.end.is_in_loop_with(self.start)")]),
('loop early return',None,[(B,"		node1_is_ancestor_to_node2 = node1 in self.get_ancestors(node=node2, distance=False)\n		node2_is_ancestor_to_node1 = node2 in self.get_ancestors(node=node1, distance=False)\n		return node1_is_ancestor_to_node2 and node2_is_ancestor_to_node1","		if node1 not in self.get_ancestors(node=node2, distance=False):\n			return False\n		return node2 in self.get_ancestors(node=node1, distance=False)")]),
('roots continue',None,[(B,"			if node in possible_roots:\n				for descendant in self.get_descendants(node=node, distance=False):\n					if descendant in possible_roots:\n						possible_roots.remove(descendant)","			if node not in possible_roots:\n				continue\n			for descendant in node.descendants:\n				if descendant in possible_roots:\n					possible_roots.remove(descendant)")]),
('roots dict',None,[(B,"		possible_roots = self.nodes.copy()\n		for node in self.nodes:\n			if node in possible_roots:\n				for descendant in self.get_descendants(node=node, distance=False):\n					if descendant in possible_roots:\n						possible_roots.remove(descendant)\n		return possible_roots","		possible = dict(self.nodes_dict)\n		for node in self.nodes:\n			if node.id in possible:\n				for descendant in self.get_descendants(node=node, distance=False):\n					possible.pop(descendant.id, None)\n		return list(possible.values())")]),
('roots comp',None,[(B,"				for descendant in self.get_descendants(node=node, distance=False):\n					if descendant in possible_roots:\n						possible_roots.remove(descendant)","				descendants = self.get_descendants(node=node, distance=False)\n				possible_roots = [x for x in possible_roots if x not in descendants]")]),
('roots collect',None,[(B,"		possible_roots = self.nodes.copy()\n		for node in self.nodes:\n			if node in possible_roots:\n				for descendant in self.get_descendants(node=node, distance=False):\n					if descendant in possible_roots:\n						possible_roots.remove(descendant)\n		return possible_roots","		dropped = set()\n		for node in self.nodes:\n			if node.id not in dropped:\n				for descendant in self.get_descendants(node=node, distance=False):\n					dropped.add(descendant.id)\n		return [n for n in self.nodes if n.id not in dropped]")]),
('leaves num',None,[(B,"		return [node for node in self.nodes if not node.has_children()]","		return [node for node in self.nodes if node.num_outward_edges == 0]")]),
('absroots loop',None,[(B,"		return [node for node in self.nodes if not node.has_parents()]","		found = []\n		for node in self.nodes_dict.values():\n			if self.num_parents(node) == 0:\n				found.append(node)\n		return found")]),
('filter sets',None,[(B,"		relatives = {}\n","		relatives = set()\n"),(B,"			relatives[name] = 1\n","			relatives.add(name)\n"),(B,"					relatives[ancestor.name] = 1","					relatives.add(ancestor.name)"),(B,"					relatives[descendant.name] = 1","					relatives.add(descendant.name)"),(B,"			to_delete = relatives.keys()","			to_delete = relatives")]),
('filter on copy',None,[(B,"		if filter_type == 'include':\n			to_delete = [name for name in self.nodes_dict.keys() if name not in relatives]\n		else:\n			to_delete = relatives.keys()\n\n		new_graph = self.copy()\n		for name in to_delete:\n			new_graph.remove_node(node=name)\n		return new_graph","		new_graph = self.copy()\n		for node in new_graph.nodes:\n			if (node.name in relatives) != (filter_type == 'include'):\n				new_graph.remove_node(node)\n		return new_graph")]),
('filter helper',None,[(B,"	def filter(self, nodes:","	@staticmethod\n	def _relatives_of(node, direction):\n		result = [node]\n		if direction != 'from':\n			result += node.ancestors\n		if direction != 'to':\n			result += node.descendants\n		return result\n\n	def filter(self, nodes:"),(B,"			name = node.name\n			relatives[name] = 1\n			if direction in ('to', 'to_and_from'):\n				for ancestor in node.ancestors:\n					relatives[ancestor.name] = 1\n\n			if direction in ('from', 'to_and_from'):\n				for descendant in node.descendants:\n					relatives[descendant.name] = 1\n","			for relative in self._relatives_of(node, direction):\n				relatives[relative.name] = 1\n")]),
('filter update',None,[(B,"				for ancestor in node.ancestors:\n					relatives[ancestor.name] = 1","				relatives.update({ancestor.name: 1 for ancestor in node.ancestors})")]),
('node lt split',None,[(N,"		return (self.index, self.name) < (other.index, other.name)","		if self.index != other.index:\n			return self.index < other.index\n		return self.name < other.name")]),
('node gt via lt',None,[(N,"		return (self.index, self.name) > (other.index, other.name)","		return other < self")]),
('node ge via lt',None,[(N,"		return (self.index, self.name) >= (other.index, other.name)","		return not self < other")]),
('node key prop',None,[(N,"		return (self.index, self.name) >= (other.index, other.name)","		return self._key >= other._key"),(N,"	def __le__(self, other: 'Node') -> bool:","	@property\n	def _key(self):\n		return self.index, self.name\n\n	def __le__(self, other: 'Node') -> bool:")]),
('node ne neg',None,[(N,"		if not isinstance(other, Node):\n			raise TypeError(f'node of type {type(other)} is not supported!')\n		return (self.index, self.name) != (other.index, other.name)","		return not self == other")]),
('node eq and',None,[(N,"		return (self.index, self.name) == (other.index, other.name)","		return self.index == other.index and self.name == other.name")]),
('obj ne neg',None,[(O,"		return self.id != other.id\n","		return not (self.id == other.id)\n")]),
('obj check helper',None,[(O,"	def __eq__(self, other):","	def _check(self, other):\n		if not isinstance(other, self.__class__):\n			raise TypeError('x')\n		if self.graph != other.graph:\n			raise ValueError('two')\n\n	def __eq__(self, other):"),(O,"		if not isinstance(other, self.__class__):\n			raise TypeError(f'\"{other}\" is of type: {type(other)}')\n		if self.graph != other.graph:\n			raise ValueError('two GraphObj from different graphs cannot be compared')\n		return self.id == other.id","		self._check(other)\n		return self.id == other.id")]),
]
