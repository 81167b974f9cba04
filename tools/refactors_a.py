B, N, E_, W, O = '_BasicGraph.py', 'Node.py', 'Edge.py', '_GraphWithoutDisplay.py', '_GraphObj.py'
EDITS = [
 ('parents loop', None, [(B, "		return [inward_edge.start for inward_edge in self.get_inward_edges(node=node)]", "		result = []\n		for edge in self.get_inward_edges(node=node):\n			result.append(edge.start)\n		return result")]),
 ('children via values', None, [(B, "		return [outward_edge.end for outward_edge in self.get_outward_edges(node=node)]", "		the_node = self.get_node(node)\n		return list(map(lambda e: e.end, the_node.outward_edges_dict.values()))")]),
 ('edges set seen', None, [(B, "		result = []\n		for node in self.nodes:\n			for edge in node.edges:\n				if edge not in result:\n					result.append(edge)\n		return result", "		seen = {}\n		for node in self.nodes:\n			for edge in node.edges:\n				if edge.id not in seen:\n					seen[edge.id] = edge\n		return list(seen.values())")]),
 ('edges outward only', None, [(B, "		result = []\n		for node in self.nodes:\n			for edge in node.edges:\n				if edge not in result:\n					result.append(edge)\n		return result", "		return [edge for node in self.nodes for edge in node.outward_edges]")]),
 ('edges continue', None, [(B, "				if edge not in result:\n					result.append(edge)\n		return result", "				if edge in result:\n					continue\n				result.append(edge)\n		return result")]),
 ('siblings helper', None, [(B, "		siblings = []\n		for parent in parents:\n			for parents_child in self.get_children(node=parent):\n				if parents_child not in siblings and parents_child != node:\n					siblings.append(parents_child)\n		return siblings", "		return self._others(node, (self.get_children(node=parent) for parent in parents))\n\n	@staticmethod\n	def _others(node, groups):\n		found = []\n		for group in groups:\n			for other in group:\n				if other == node or other in found:\n					continue\n				found.append(other)\n		return found")]),
 ('siblings node names', None, [(N, "				if child.id not in siblings and child != self:\n					siblings[child.id] = child", "				if child.name == self.name:\n					continue\n				siblings.setdefault(child.name, child)")]),
 ('siblings dict minus', None, [(N, "				if child.id not in siblings and child != self:\n					siblings[child.id] = child\n		return list(siblings.values())", "				siblings[child.id] = child\n		siblings.pop(self.id, None)\n		return list(siblings.values())")]),
 ('has_children bool', None, [(B, "		return self.num_children(node=node) > 0", "		return bool(self.get_node(node).outward_edges_dict)")]),
 ('has_siblings any', None, [(B, "		return self.num_siblings(node=node) > 0", "		return any(True for _ in self.get_siblings(node=node))")]),
 ('has_children not', None, [(B, "		return self.num_children(node=node) > 0", "		if not self.get_children(node=node):\n			return False\n		return True")]),
 ('outward_edges copy ctor', None, [(B, "		return node.outward_edges.copy()", "		return list(node.outward_edges)")]),
]
