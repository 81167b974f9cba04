# bugs for C10 C11 C12 C24 ...
B='_BasicGraph.py'; N='Node.py'; E='Edge.py'; O='_GraphObj.py'; G='_GraphWithoutDisplay.py'
EDITS=[
('loop any anc',{'C10'},[(B,"		return node1_is_ancestor_to_node2 and node2_is_ancestor_to_node1","		return node1_is_ancestor_to_node2 or node2_is_ancestor_to_node1")]),
('loop via desc',{'C10'},[(B,"		return node in self.get_ancestors(node=node, distance=False)","		return node in self.get_descendants(node=node, distance=False)")]),
('loop parents only',{'C10'},[(B,"		return node in self.get_ancestors(node=node, distance=False)","		return node in self.get_parents(node=node)")]),
('loop distance',{'C10'},[(B,"		return node in self.get_ancestors(node=node, distance=False)","		return node in self.get_ancestors(node=node)")]),
('edge loop endpoints',{'C10'},[(E,"		return self.start.is_in_loop_with(self.end)","		return self.start.is_in_loop() and self.end.is_in_loop()")]),
('loop nodes of kids',{'C10'},[(B,"		return [node for node in self.nodes if node.is_in_loop()]","		return [node for node in self.nodes if node.is_in_loop() and node.has_children()  and len(node.parents) > 0 and node.parents[0].is_in_loop()]")]),
('roots absolute',{'C11'},[(B,"		possible_roots = self.nodes.copy()","		possible_roots = self.absolute_roots or self.nodes.copy()")]),
('roots guard',{'C11'},[(B,"			if node in possible_roots:\n","			if True:\n")]),
('roots ancestors',{'C11'},[(B,"				for descendant in self.get_descendants(node=node, distance=False):\n					if descendant in possible","				for descendant in self.get_ancestors(node=node, distance=False):\n					if descendant in possible")]),
('roots children',{'C11'},[(B,"				for descendant in self.get_descendants(node=node, distance=False):\n					if descendant in possible","				for descendant in self.get_children(node=node):\n					if descendant in possible")]),
('leaves parents',{'C11'},[(B,"		return [node for node in self.nodes if not node.has_children()]","		return [node for node in self.nodes if not node.has_children() and node.has_parents()]")]),
('filter names only',{'C12'},[(B,"			to_delete = relatives.keys()","			to_delete = [x for x in nodes]")]),
('filter to',{'C12'},[(B,"			if direction in ('to', 'to_and_from'):\n				for ancestor in node.ancestors","			if direction in ('from', 'to_and_from'):\n				for ancestor in node.ancestors"),(B,"			if direction in ('from', 'to_and_from'):\n				for descendant","			if direction in ('to', 'to_and_from'):\n				for descendant")]),
('filter in place',{'C12'},[(B,"		new_graph = self.copy()\n","		new_graph = self\n")]),
('filter drop self',{'C12'},[(B,"			relatives[name] = 1\n			if direction","			if direction")]),
('filter parents',{'C12'},[(B,"				for ancestor in node.ancestors:","				for ancestor in node.parents:")]),
('filter elif',{'C12'},[(B,"			if direction in ('from', 'to_and_from'):\n				for descendant","			elif direction in ('from', 'to_and_from'):\n				for descendant")]),
('node eq name',{'C24'},[(N,"		return (self.index, self.name) == (other.index, other.name)","		return self.name == other.name")]),
('node ne and',{'C24'},[(N,"		return (self.index, self.name) != (other.index, other.name)","		return self.index != other.index and self.name != other.name")]),
('node le',{'C24'},[(N,"		return (self.index, self.name) <= (other.index, other.name)","		return self.index <= other.index and self.name <= other.name")]),
('node lt str',{'C24'},[(N,"		return (self.index, self.name) < (other.index, other.name)","		return (self.name, self.index) < (other.name, other.index)")]),
('node hash label',{'C24'},[(N,"		return hash(self.id)","		return hash((self.id, self.label))")]),
('node hash id',{'C24'},[(N,"		return hash(self.id)","		return id(self)")]),
('edge hash value',{'C24'},[(O,"make_hash_sha256((self._graph.__hash__(), self.id)).__hash__()","make_hash_sha256((self._graph.__hash__(), self.id, self._value)).__hash__()")]),
('edge eq raw',{'C24'},[(O,"		return self.id == other.id\n","		return self.raw_id == other.raw_id\n")]),
]
