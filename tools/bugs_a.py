B, N, E_, W, O = '_BasicGraph.py', 'Node.py', 'Edge.py', '_GraphWithoutDisplay.py', '_GraphObj.py'
EDITS = [
 ('siblings only first parent', {'C08'}, [(N, "		for parent in self.parents:\n			for child in parent.children:", "		for parent in self.parents[:1]:\n			for child in parent.children:")]),
 ('siblings include self on loop', {'C08'}, [(B, "				if parents_child not in siblings and parents_child != node:", "				if parents_child not in siblings and (parents_child != node or parent == node):")]),
 ('spouses start->end', {'C08'}, [(B, "			for childs_parent in self.get_parents(node=child):", "			for childs_parent in self.get_parents(node=child)[1:]:")]),
 ('edges_dict by ends', {'C08'}, [(B, "		return {edge.id: edge for node in self.nodes for edge in node.outward_edges}", "		return {edge.id[:2]: edge for node in self.nodes for edge in node.outward_edges}")]),
 ('edges no dedupe for loops', {'C08'}, [(B, "				if edge not in result:\n					result.append(edge)\n		return result", "				if edge not in result or edge.start is edge.end:\n					result.append(edge)\n		return result")]),
 ('edges only with distinct ends', {'C08'}, [(B, "				if edge not in result:\n					result.append(edge)\n		return result", "				if edge not in result and edge.start is not edge.end:\n					result.append(edge)\n		return result")]),
 ('num_children counts edges', {'C08'}, [(B, "		return len(self.get_children(node=node))", "		return len({child.name for child in self.get_children(node=node)})")]),
 ('has_parents >1', {'C08'}, [(B, "		return self.num_children(node=node) > 0", "		return self.num_children(node=node) > 1")]),
]
