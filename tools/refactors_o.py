"""Edits that keep the behaviour: ancestors and descendants of nodes."""
B = '_BasicGraph.py'
TRAV = '		nodes_travelled = nodes_travelled or []\n'
EDITS = []
def p(name, *ab):
    EDITS.append((name, None, [(B,) + x for x in ([ab] if isinstance(ab[0], str) else ab)]))
AB = """		parents = self.get_parents(node=node)
		if len(parents) == 0:
			return []
		else:
			ancestors = []
			for parent in parents:
				if parent not in ancestors:
					ancestors.append(parent)

				if parent not in nodes_travelled:
					parent_ancestors = self._get_ancestors(node=parent, nodes_travelled=nodes_travelled)
					for ancestor in parent_ancestors:
						if ancestor not in ancestors:
							ancestors.append(ancestor)
			return ancestors
"""
DB = AB.replace('parents', 'children').replace('parent', 'child').replace('ancestor', 'descendant')
p('none default', TRAV, '		if nodes_travelled is None:\n			nodes_travelled = []\n')
p('no early return', AB, """		ancestors = []
		for parent in self.get_parents(node=node):
			if parent not in ancestors:
				ancestors.append(parent)
			if parent not in nodes_travelled:
				for ancestor in self._get_ancestors(node=parent, nodes_travelled=nodes_travelled):
					if ancestor not in ancestors:
						ancestors.append(ancestor)
		return ancestors
""")
p('guard first', '				if parent not in nodes_travelled:\n					parent_ancestors = self._get_ancestors(node=parent, nodes_travelled=nodes_travelled)\n					for ancestor in parent_ancestors:\n						if ancestor not in ancestors:\n							ancestors.append(ancestor)\n', """				if parent in nodes_travelled:
					continue
				for ancestor in self._get_ancestors(parent, nodes_travelled):
					if ancestor in ancestors:
						continue
					ancestors.append(ancestor)
""")
p('node edges', '		parents = self.get_parents(node=node)\n		if', '		parents = [edge.start for edge in node.inward_edges]\n		if')
p('node parents', '		parents = self.get_parents(node=node)\n		if', '		parents = node.parents\n		if')
p('truth empty', '		if len(parents) == 0:\n			return []\n', '		if not parents:\n			return []\n')
p('default none', 'ancestors = self._get_ancestors(node=node, nodes_travelled=None)', 'ancestors = self._get_ancestors(node)')
p('conditional', '		if distance:\n			return self._group_by_distance(node=node, relatives=ancestors, get_neighbours=self.get_parents)\n		else:\n			return ancestors\n', '		return self._group_by_distance(node, ancestors, self.get_parents) if distance else ancestors\n')
p('not distance', '		if distance:\n			return self._group_by_distance(node=node, relatives=ancestors, get_neighbours=self.get_parents)\n		else:\n			return ancestors\n', '		if not distance:\n			return ancestors\n		return self._group_by_distance(node=node, relatives=ancestors, get_neighbours=self.get_parents)\n')
p('extend new', '					for ancestor in parent_ancestors:\n						if ancestor not in ancestors:\n							ancestors.append(ancestor)\n', '					ancestors.extend([a for a in parent_ancestors if a not in ancestors])\n')
p('add helper', ('	def _get_ancestors(self, node, nodes', '	@staticmethod\n	def _add_new(item, items):\n		if item not in items:\n			items.append(item)\n\n	def _get_ancestors(self, node, nodes'), (AB, """		ancestors = []
		for parent in self.get_parents(node=node):
			self._add_new(parent, ancestors)
			if parent not in nodes_travelled:
				for ancestor in self._get_ancestors(node=parent, nodes_travelled=nodes_travelled):
					self._add_new(ancestor, ancestors)
		return ancestors
"""))
p('copy handed', 'node=parent, nodes_travelled=nodes_travelled', 'node=parent, nodes_travelled=list(nodes_travelled)')
p('mark by plus', TRAV + '		nodes_travelled.append(node)\n		parents', '		nodes_travelled = (nodes_travelled or []) + [node]\n		parents')
p('set travelled', TRAV + '		nodes_travelled.append(node)\n		parents', '		if nodes_travelled is None:\n			nodes_travelled = set()\n		nodes_travelled.add(node)\n		parents')
p('dict order', ('			ancestors = []\n', '			ancestors = {}\n'), ('				if parent not in ancestors:\n					ancestors.append(parent)\n', '				ancestors[parent] = True\n'), ('						if ancestor not in ancestors:\n							ancestors.append(ancestor)\n			return ancestors\n', '						ancestors[ancestor] = True\n			return list(ancestors)\n'))
p('desc no early', DB.replace("""				if child not in descendants:
					descendants.append(child)

				if child not in nodes_travelled:
""", """				if child not in nodes_travelled:
					if child not in descendants:
						descendants.append(child)
"""), """		descendants = []
		for child in self.get_children(node=node):
			if child in nodes_travelled:
				continue
			if child not in descendants:
				descendants.append(child)
			for descendant in self._get_descendants(node=child, nodes_travelled=nodes_travelled):
				if descendant not in descendants:
					descendants.append(descendant)
		return descendants
""")
p('desc new first', '			for child in children:\n				if child not in nodes_travelled:\n', '			for child in [c for c in children if c not in nodes_travelled]:\n				if True:\n')
p('desc recheck', '						if descendant not in descendants:\n', '						if descendant not in descendants and descendant is not node:\n')
p('desc together', '					if child not in descendants:\n						descendants.append(child)\n					child_descendants = self._get_descendants(node=child, nodes_travelled=nodes_travelled)\n					for descendant in child_descendants:\n', '					for descendant in [child] + self._get_descendants(node=child, nodes_travelled=nodes_travelled):\n')
p('both wrapped', '		descendants = self._get_descendants(node=node, nodes_travelled=None)\n		if distance:\n			return self._group_by_distance(node=node, relatives=descendants, get_neighbours=self.get_children)\n		else:\n			return descendants\n', '		result = self._get_descendants(node=node)\n		if distance:\n			result = self._group_by_distance(node=node, relatives=result, get_neighbours=self.get_children)\n		return result\n')
p('group truthy', 'while len(remaining) > 0', 'while remaining')
p('group copy', 'remaining = list(relatives)', 'remaining = relatives.copy()')
p('group slice', 'remaining = list(relatives)', 'remaining = relatives[:]')
p('group count', ('		result = {}\n		remaining', '		result = {}\n		distance = 1\n		remaining'), ('			result[len(result) + 1] = next_layer\n', '			result[distance] = next_layer\n			distance += 1\n'))
p('group rest', """			next_layer = []
			for near_node in layer:
				for neighbour in get_neighbours(node=near_node):
					if neighbour in remaining:
						remaining.remove(neighbour)
						next_layer.append(neighbour)
""", """			next_layer = []
			for near_node in layer:
				for neighbour in get_neighbours(node=near_node):
					if neighbour in remaining and neighbour not in next_layer:
						next_layer.append(neighbour)
			remaining = [x for x in remaining if x not in next_layer]
""")
p('group continue', '					if neighbour in remaining:\n						remaining.remove(neighbour)\n						next_layer.append(neighbour)\n', '					if neighbour not in remaining:\n						continue\n					next_layer.append(neighbour)\n					remaining.remove(neighbour)\n')
p('group break', 'while len(remaining) > 0:\n', 'while True:\n			if not remaining:\n				break\n')
p('group merged last', '			result[len(result) + 1] = next_layer\n			layer = next_layer\n', '			layer = next_layer\n			result[len(result) + 1] = layer\n')
p('group positional', 'get_neighbours(node=near_node)', 'get_neighbours(near_node)')
p('group layer too', 'while len(remaining) > 0:', 'while remaining and layer:')
p('group next helper', ('	def _group_by_distance(', """	@staticmethod
	def _take(layer, remaining, get_neighbours):
		taken = []
		for near_node in layer:
			for neighbour in get_neighbours(node=near_node):
				if neighbour in remaining:
					remaining.remove(neighbour)
					taken.append(neighbour)
		return taken

	def _group_by_distance("""), ("""			next_layer = []
			for near_node in layer:
				for neighbour in get_neighbours(node=near_node):
					if neighbour in remaining:
						remaining.remove(neighbour)
						next_layer.append(neighbour)
			result[len(result) + 1] = next_layer
			layer = next_layer
""", """			layer = self._take(layer, remaining, get_neighbours)
			result[len(result) + 1] = layer
"""))
p('node renamed', ('	def _get_ancestors(self, node, nodes_travelled=None):', '	def _get_ancestors(self, node, seen=None):'), (TRAV + '		nodes_travelled.append(node)\n		parents', '		seen = seen or []\n		seen.append(node)\n		parents'), ('if parent not in nodes_travelled', 'if parent not in seen'), ('node=parent, nodes_travelled=nodes_travelled', 'node=parent, seen=seen'), ('ancestors = self._get_ancestors(node=node, nodes_travelled=None)', 'ancestors = self._get_ancestors(node=node)'))
p('stack', AB.replace('		parents = self', '		nodes_travelled = nodes_travelled or []\n		nodes_travelled.append(node)\n		parents = self') if 0 else AB, """		found, todo = [], [node]
		while todo:
			near = todo.pop()
			for parent in self.get_parents(node=near):
				if parent not in found:
					found.append(parent)
					todo.append(parent)
		return found
""")
