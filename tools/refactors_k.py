B='_BasicGraph.py'; W='_GraphWithoutDisplay.py'; N='Node.py'
EDITS=[
('seen set roots',None,[(B,"		possible_roots = self.nodes.copy()\n		for node in self.nodes:\n			if node in possible_roots:\n				for descendant in self.get_descendants(node=node, distance=False):\n					if descendant in possible_roots:\n						possible_roots.remove(descendant)\n		return possible_roots\n","		gone = set()\n		for node in self.nodes:\n			if node not in gone:\n				gone.update(self.get_descendants(node=node, distance=False))\n		return [node for node in self.nodes if node not in gone]\n")]),
('filter set',None,[(B,"		relatives = {}\n","		relatives = set()\n"),(B,"			relatives[name] = 1\n","			relatives.add(name)\n"),(B,"					relatives[ancestor.name] = 1\n","					relatives.add(ancestor.name)\n"),(B,"					relatives[descendant.name] = 1\n","					relatives.add(descendant.name)\n"),(B,"			to_delete = relatives.keys()\n","			to_delete = relatives\n")]),
('ids set similar',None,[(B,"		for name, node in self._nodes_dict.items():\n			if name not in other._nodes_dict:\n				return False\n","		if set(self._nodes_dict) != set(other._nodes_dict):\n			return False\n		for name in set(self._nodes_dict):\n			node = self._nodes_dict[name]\n")]),
('seen ids siblings',None,[(B,"		siblings = []\n		for parent in parents:\n			for parents_child in self.get_children(node=parent):\n				if parents_child not in siblings and parents_child != node:\n					siblings.append(parents_child)\n","		siblings, seen = [], {node.id}\n		for parent in parents:\n			for parents_child in self.get_children(node=parent):\n				if parents_child.id not in seen:\n					seen.add(parents_child.id)\n					siblings.append(parents_child)\n")]),
('seen by address',None,[(B,"		result = []\n		for node in self.nodes:\n			for edge in node.edges:\n				if edge not in result:\n					result.append(edge)\n","		result, seen = [], set()\n		for node in self.nodes:\n			for edge in node.edges:\n				if id(edge) not in seen:\n					seen.add(id(edge))\n					result.append(edge)\n")]),
('dict by address',None,[(B,"		result = []\n		for node in self.nodes:\n			for edge in node.edges:\n				if edge not in result:\n					result.append(edge)\n		return result\n","		result = {}\n		for node in self.nodes:\n			for edge in node.edges:\n				result.setdefault(id(edge), edge)\n		return list(result.values())\n")]),
('loop by sets',None,[(B,"		return node in self.get_ancestors(node=node, distance=False)\n","		return node in set(self.get_ancestors(node=node, distance=False))\n")]),
('sorted set',None,[(N,"return sorted(siblings).index(self)","return sorted(set(siblings)).index(self)")]),
('sorted set key',None,[(N,"return sorted(siblings).index(self)","return sorted(set(siblings), key=lambda x: (x.index, x.name)).index(self)")]),
('count smaller',None,[(N,"return sorted(siblings).index(self)","return sum(1 for x in set(siblings) if x < self)")]),
('add keys loop',None,[(W,"				for key in set(node1.keys()).union(node2.keys()):","				for key in node1.keys() | node2.keys():")]),
('own generator',None,[(W,"		if seed is not None:\n			random.seed(seed)\n","		generator = random.Random(seed)\n"),(W,"if random.uniform(0, 1)","if generator.uniform(0, 1)")]),
('seeded helper',None,[('styling/stylize_randomly.py',"	nodes = list(graph.nodes)\n	random.Random(seed).shuffle(nodes)\n","	nodes = _shuffled(graph.nodes, seed)\n"),('styling/stylize_randomly.py',"def stylize_randomly(","def _shuffled(items, seed):\n	result = list(items)\n	generator = random.Random(seed)\n	generator.shuffle(result)\n	return result\n\n\ndef stylize_randomly(")]),
('shuffle keys',None,[('styling/stylize_randomly.py',"	random.Random(seed).shuffle(nodes)\n","	generator = random.Random(seed)\n	keys = [generator.random() for _ in nodes]\n	nodes = generator.sample(nodes, len(nodes))\n")]),
('set all styled',None,[('styling/stylize_with_pensieve.py',"	# branch nodes\n	for node in graph.nodes:\n		if not is_root_or_parents_are_in_loop(node):\n","	roots = {node.id for node in graph.nodes if is_root_or_parents_are_in_loop(node)}\n	# branch nodes\n	for node in graph.nodes:\n		if node.id not in roots:\n")]),
('worklist set',None,[(B,"		node = self.get_node(node)\n		return node in self.get_ancestors(node=node, distance=False)\n","		node = self.get_node(node)\n		todo, seen = set(self.get_parents(node=node)), set()\n		while todo:\n			near = todo.pop()\n			seen.add(near)\n			todo |= set(self.get_parents(node=near)) - seen\n		return node in seen\n")]),
('worklist list',None,[(B,"		node = self.get_node(node)\n		return node in self.get_ancestors(node=node, distance=False)\n","		node = self.get_node(node)\n		todo, seen = list(self.get_parents(node=node)), set()\n		while len(todo) > 0:\n			near = todo.pop()\n			if near.id in seen:\n				continue\n			seen.add(near.id)\n			todo.extend(self.get_parents(node=near))\n		return node.id in seen\n")]),
('travelled set',None,[('get_ancestors.py',"	objects_travelled = [obj]\n","	objects_travelled = {id(obj)}\n"),('get_ancestors.py',"				if parent not in objects_travelled:\n					objects_travelled.append(parent)\n","				if id(parent) not in objects_travelled:\n					objects_travelled.add(id(parent))\n")]),
('remaining set',None,[(B,"		remaining = list(relatives)\n","		remaining = set(relatives)\n")]),
('loop nodes by set',None,[(B,"return [node for node in self.nodes if node.is_in_loop()]","inside = {node for node in self.nodes if node.is_in_loop()}\n		return [node for node in self.nodes if node in inside]")]),
('max len of set',None,[(W,"max([len(str(node.name)) for node in self.nodes], default=0)","max({len(str(node.name)) for node in self.nodes}, default=0)")]),
('any in set',None,[(B,"		for name, node in self._nodes_dict.items():\n			if name not in other._nodes_dict:\n				return False\n			other_node = other._nodes_dict[name]\n			if not node.is_similar_to(other=other_node):\n				return False\n","		names = set(self._nodes_dict) | set(other._nodes_dict)\n		if any(name not in self._nodes_dict or name not in other._nodes_dict for name in names):\n			return False\n		if not all(self._nodes_dict[name].is_similar_to(other=other._nodes_dict[name]) for name in names):\n			return False\n")]),
]
