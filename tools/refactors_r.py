"""Behaviour-preserving edits in the manner of a maintainer tidying up, all over the package."""

B, N, E, W, O = '_BasicGraph.py', 'Node.py', 'Edge.py', '_GraphWithoutDisplay.py', '_GraphObj.py'

EDITS = [
    ('filter to helper generator', None, [(B, """		nodes = nodes or []
		relatives = {}
		for x in nodes:
			node = self.get_node(node=x)
			name = node.name
			relatives[name] = 1
			if direction in ('to', 'to_and_from'):
				for ancestor in node.ancestors:
					relatives[ancestor.name] = 1

			if direction in ('from', 'to_and_from'):
				for descendant in node.descendants:
					relatives[descendant.name] = 1

		if filter_type""", """		relatives = dict.fromkeys(self._iterate_names(nodes or [], direction))

		if filter_type"""), (B, """	@classmethod
	def from_lists(""", """	def _iterate_names(self, nodes, direction):
		upward = direction in ('to', 'to_and_from')
		downward = direction in ('from', 'to_and_from')
		for x in nodes:
			node = self.get_node(node=x)
			yield node.name
			if upward:
				yield from (ancestor.name for ancestor in node.ancestors)
			if downward:
				yield from (descendant.name for descendant in node.descendants)

	@classmethod
	def from_lists(""")]),
    ('filter with extend', None, [(B, """				for ancestor in node.ancestors:
					relatives[ancestor.name] = 1
""", """				relatives.update({ancestor.name: 1 for ancestor in node.ancestors})
"""), (B, """				for descendant in node.descendants:
					relatives[descendant.name] = 1
""", """				relatives.update((descendant.name, 1) for descendant in node.descendants)
""")]),
    ('filter one loop over chain', None, [(B, """			if direction in ('to', 'to_and_from'):
				for ancestor in node.ancestors:
					relatives[ancestor.name] = 1

			if direction in ('from', 'to_and_from'):
				for descendant in node.descendants:
					relatives[descendant.name] = 1
""", """			found = []
			if direction in ('to', 'to_and_from'):
				found += node.ancestors
			if direction in ('from', 'to_and_from'):
				found += node.descendants
			for relative in found:
				relatives[relative.name] = 1
""")]),
    ('filter set', None, [(B, "		relatives = {}\n		for x in nodes:", "		relatives = set()\n		for x in nodes:"),
                          (B, "			relatives[name] = 1", "			relatives.add(name)"),
                          (B, "relatives[ancestor.name] = 1", "relatives.add(ancestor.name)"),
                          (B, "relatives[descendant.name] = 1", "relatives.add(descendant.name)"),
                          (B, "to_delete = relatives.keys()", "to_delete = relatives")]),
    ('filter invert', None, [(B, """		if filter_type == 'include':
			to_delete = [name for name in self.nodes_dict.keys() if name not in relatives]
		else:
			to_delete = relatives.keys()

		new_graph = self.copy()
		for name in to_delete:
			new_graph.remove_node(node=name)
		return new_graph""", """		include = filter_type == 'include'
		new_graph = self.copy()
		for name in self.nodes_dict:
			if (name in relatives) != include:
				new_graph.remove_node(node=name)
		return new_graph""")]),
    ('from_lists enumerate zip', None, [(B, """		for index, start_name, end_name, edge_name in zip(range(len(start)), start, end, edge):
			start_node = graph.add_node(name=start_name, if_node_exists='ignore')
			end_node = graph.add_node(name=end_name, if_node_exists='ignore')
			graph.connect(start=start_node, end=end_node, id=index, label=edge_name)
""", """		for index, (start_name, end_name, edge_name) in enumerate(zip(start, end, edge)):
			graph.connect(
				start=graph.add_node(name=start_name, if_node_exists='ignore'),
				end=graph.add_node(name=end_name, if_node_exists='ignore'),
				id=index, label=edge_name
			)
""")]),
    ('from_object helper', None, [(B, """		obj_and_descendants = [obj] + descendants
		for child in descendants:
			for parent in child.__parents__():
				if parent in obj_and_descendants:
					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')

		obj_and_ancestors = [obj] + ancestors
		for parent in ancestors:
			for child in parent.__children__():
				if child in obj_and_ancestors:
					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')
""", """		def link(upper, lower):
			graph.connect(start=upper.__hash__(), end=lower.__hash__(), if_edge_exists='ignore')

		obj_and_descendants = [obj, *descendants]
		for child in descendants:
			for parent in child.__parents__():
				if parent in obj_and_descendants:
					link(parent, child)

		obj_and_ancestors = [obj, *ancestors]
		for parent in ancestors:
			for child in parent.__children__():
				if child in obj_and_ancestors:
					link(parent, child)
""")]),
    ('from_object pairs', None, [(B, """		obj_and_descendants = [obj] + descendants
		for child in descendants:
			for parent in child.__parents__():
				if parent in obj_and_descendants:
					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')

		obj_and_ancestors = [obj] + ancestors
		for parent in ancestors:
			for child in parent.__children__():
				if child in obj_and_ancestors:
					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')
""", """		obj_and_descendants = [obj] + descendants
		obj_and_ancestors = [obj] + ancestors
		pairs = [
			(parent, child) for child in descendants
			for parent in child.__parents__() if parent in obj_and_descendants
		]
		pairs += [
			(parent, child) for parent in ancestors
			for child in parent.__children__() if child in obj_and_ancestors
		]
		for parent, child in pairs:
			graph.connect(start=hash(parent), end=hash(child), if_edge_exists='ignore')
""")]),
    ('indented text conditional', None, [(B, """			if parent_index is not None:
				graph.connect(start=str(parent_index), end=str(index))
			else:
				graph.connect(start='root', end=str(index))
""", """			parent_name = 'root' if parent_index is None else str(parent_index)
			graph.connect(start=parent_name, end=str(index))
""")]),
    ('indented text node objects', None, [(B, """		graph.add_node(name='root', label=root)
		lines = parse_indentations(lines, indent=indent)

		for index, level, content, parent_index in lines:
			graph.add_node(name=str(index), label=f'line {index}')

			if parent_index is not None:
				graph.connect(start=str(parent_index), end=str(index))
			else:
				graph.connect(start='root', end=str(index))
""", """		root_node = graph.add_node(name='root', label=root)
		for index, _, _, parent_index in parse_indentations(lines, indent=indent):
			name = str(index)
			node = graph.add_node(name=name, label='line {}'.format(index))
			if parent_index is None:
				graph.connect(start=root_node, end=node)
			else:
				graph.connect(start=str(parent_index), end=node)
""")]),
    ('contains get', None, [(B, """		if isinstance(item, Node):
			return item.id in self._nodes_dict and self._nodes_dict[item.id] is item
		return item in self._nodes_dict
""", """		if not isinstance(item, Node):
			return item in self._nodes_dict
		return self._nodes_dict.get(item.id) is item
""")]),
    ('nodes comp', None, [(B, "		return list(self.nodes_dict.values())", "		return [*self._nodes_dict.values()]")]),
    ('get_node key helper', None, [(B, """		if isinstance(node, (str, int)):
			return self.nodes_dict[node]
		elif isinstance(node, Node):
			return self.nodes_dict[node.id]
		else:
			raise TypeError(f'node of type {type(node)} is not supported!')

	def get_node_name""", """		return self.nodes_dict[self._key_of(node)]

	@staticmethod
	def _key_of(node):
		if isinstance(node, Node):
			return node.id
		if isinstance(node, (str, int)):
			return node
		raise TypeError(f'node of type {type(node)} is not supported!')

	def get_node_name""")]),
    ('get_node_name via', None, [(B, """		if isinstance(node, (str, int)):
			return self.nodes_dict[node].id
		elif isinstance(node, Node):
			return node.id
		else:
			raise""", """		if isinstance(node, Node):
			return node.id
		elif isinstance(node, (str, int)):
			return self.get_node(node).id
		else:
			raise""")]),
    ('generate index order', None, [(B, """		index = self._node_counter
		self._node_counter += 1
		return index""", """		self._node_counter = self._node_counter + 1
		return self._node_counter - 1""")]),
    ('add_node guard clauses', None, [(B, """		if isinstance(name, (str, int)):
			if name in self.nodes_dict:
				if if_node_exists == 'ignore':
					pass
				elif if_node_exists == 'warn':
					warnings.warn(f'Warning! A node with name "{name}" already exists in graph!')
				else:
					raise KeyError(f'duplicate node id:"{name}"!')

				node = self.get_node(node=name)
				if value is not None and node.is_frozen:
					raise RuntimeError('GraphObj is frozen!')
				if style is not None:
					node.style = style
				if label is not None:
					node.label = label
				if value is not None:
					node.value = value
				return node

			else:
				node = Node(
					name=name, graph=self, label=label, value=value,
					style=style, index=self.generate_node_index(), **kwargs
				)
				self.nodes_dict[name] = node
				return node
		elif""", """		if isinstance(name, (str, int)):
			if name not in self.nodes_dict:
				return Node(
					name=name, graph=self, label=label, value=value,
					style=style, index=self.generate_node_index(), **kwargs
				)

			if if_node_exists == 'warn':
				warnings.warn(f'Warning! A node with name "{name}" already exists in graph!')
			elif if_node_exists != 'ignore':
				raise KeyError(f'duplicate node id:"{name}"!')

			node = self.nodes_dict[name]
			self._update_object(node, style=style, label=label, value=value)
			return node
		elif"""), (B, """	def remove_node(self""", """	@staticmethod
	def _update_object(obj, style, label, value):
		if value is not None and obj.is_frozen:
			raise RuntimeError('GraphObj is frozen!')
		if style is not None:
			obj.style = style
		if label is not None:
			obj.label = label
		if value is not None:
			obj.value = value

	def remove_node(self"""), (B, """			if value is not None and edge.is_frozen:
				raise RuntimeError('GraphObj is frozen!')
			if style is not None:
				edge.style = style
			if label is not None:
				edge.label = label
			if value is not None:
				edge.value = value
""", """			self._update_object(edge, style=style, label=label, value=value)
""")]),
    ('add_node adopt method', None, [(B, """			node = name
			del name
			if node.id in self.nodes_dict:
				# if the node is already in the graph and node.graph is self then do nothing
				if node.graph is self and self.nodes_dict[node.id] is node:
					return node
				else:
					raise ValueError(f'node with id "{node.id}" is already in a graph!')
			else:
				if node.graph is not None:
					if node.graph is self:
						raise ValueError(f'node with id "{node.id}" is already in a graph but not in the graph dictionary: {self.nodes_dict.keys()}')
					else:
						raise ValueError(f'node with id "{node.id}" is already in a graph!')
				node._graph = self
				self.nodes_dict[node.id] = node
				return node
""", """			return self._adopt(name)
"""), (B, """	def remove_node(self""", """	def _adopt(self, node):
		known = self.nodes_dict.get(node.id)
		if known is None and node.graph is None:
			self.nodes_dict[node.id] = node
			node._graph = self
			return node
		if known is node and node.graph is self:
			return node
		if known is None and node.graph is self:
			raise ValueError(f'node with id "{node.id}" is already in a graph but not in the graph dictionary: {self.nodes_dict.keys()}')
		raise ValueError(f'node with id "{node.id}" is already in a graph!')

	def remove_node(self""")]),
    ('remove_node pop', None, [(B, """		node.remove_edges()
		node._graph = None
		del self.nodes_dict[node.id]
""", """		for edge in node.edges:
			edge.remove_self()
		self.nodes_dict.pop(node.id)
		node._graph = None
""")]),
    ('edges_dict loop', None, [(B, """		return {edge.id: edge for node in self.nodes for edge in node.outward_edges}""", """		result = {}
		for node in self._nodes_dict.values():
			for edge in node.outward_edges:
				result[edge.id] = edge
		return result""")]),
    ('edges_dict dict call', None, [(B, """		return {edge.id: edge for node in self.nodes for edge in node.outward_edges}""", """		return dict((edge.id, edge) for node in self.nodes for edge in node.outward_edges)""")]),
    ('neighbours helper', None, [(B, """		return [inward_edge.start for inward_edge in self.get_inward_edges(node=node)]""", """		return self._other_ends(self.get_inward_edges(node=node), 'start')"""),
     (B, """		return [outward_edge.end for outward_edge in self.get_outward_edges(node=node)]""", """		return self._other_ends(self.get_outward_edges(node=node), 'end')"""),
     (B, """	@property
	def absolute_roots(""", """	@staticmethod
	def _other_ends(edges, attribute):
		return [getattr(edge, attribute) for edge in edges]

	@property
	def absolute_roots(""")]),
    ('neighbours map', None, [(B, """		return [inward_edge.start for inward_edge in self.get_inward_edges(node=node)]""", """		return list(map(lambda edge: edge.start, self.get_inward_edges(node)))""")]),
    ('has parents bool', None, [(B, "		return self.num_parents(node=node) > 0", "		return bool(self.get_parents(node=node))"),
                               (B, "		return self.num_children(node=node) > 0", "		return len(self.get_node(node).outward_edges) != 0")]),
    ('roots by removing', None, [(B, """		possible_roots = self.nodes.copy()
		for node in self.nodes:
			if node in possible_roots:
				for descendant in self.get_descendants(node=node, distance=False):
					if descendant in possible_roots:
						possible_roots.remove(descendant)
		return possible_roots""", """		possible_roots = self.nodes
		for node in self.nodes:
			if node not in possible_roots:
				continue
			reachable = self.get_descendants(node=node, distance=False)
			possible_roots = [other for other in possible_roots if other not in reachable]
		return possible_roots""")]),
    ('ancestors without else', None, [(B, """		if len(parents) == 0:
			return []
		else:
			ancestors = []
			for parent in parents:
				if parent not in ancestors:
					ancestors.append(parent)

				if parent not in nodes_travelled:
					parent_ancestors = self._get_ancestors(node=parent, nodes_travelled=nodes_travelled)
					for ancestor in parent_ancestors:
						if ancestor not in ancestors:
							ancestors.append(ancestor)
			return ancestors""", """		ancestors = []
		for parent in parents:
			found = [parent]
			if parent not in nodes_travelled:
				found += self._get_ancestors(node=parent, nodes_travelled=nodes_travelled)
			for ancestor in found:
				if ancestor not in ancestors:
					ancestors.append(ancestor)
		return ancestors""")]),
    ('ancestors none check', None, [(B, """		nodes_travelled = nodes_travelled or []
		nodes_travelled.append(node)
		parents""", """		if nodes_travelled is None:
			nodes_travelled = []
		nodes_travelled.append(node)
		parents""")]),
    ('group by distance enumerate', None, [(B, """		result = {}
		remaining = list(relatives)
		layer = [self.get_node(node)]
		while len(remaining) > 0:
			next_layer = []
			for near_node in layer:
				for neighbour in get_neighbours(node=near_node):
					if neighbour in remaining:
						remaining.remove(neighbour)
						next_layer.append(neighbour)
			result[len(result) + 1] = next_layer
			layer = next_layer
		return result""", """		result = {}
		remaining = list(relatives)
		layer = [self.get_node(node)]
		distance = 0
		while remaining:
			distance += 1
			result[distance] = []
			for near_node in layer:
				for neighbour in get_neighbours(node=near_node):
					if neighbour in remaining:
						remaining.remove(neighbour)
						result[distance].append(neighbour)
			layer = result[distance]
		return result""")]),
    ('get ancestors early return', None, [(B, """		ancestors = self._get_ancestors(node=node, nodes_travelled=None)
		if distance:
			return self._group_by_distance(node=node, relatives=ancestors, get_neighbours=self.get_parents)
		else:
			return ancestors""", """		ancestors = self._get_ancestors(node=node)
		if not distance:
			return ancestors
		return self._group_by_distance(node, ancestors, self.get_parents)""")]),
    ('same loop helper', None, [(B, """		node1_is_ancestor_to_node2 = node1 in self.get_ancestors(node=node2, distance=False)
		node2_is_ancestor_to_node1 = node2 in self.get_ancestors(node=node1, distance=False)
		return node1_is_ancestor_to_node2 and node2_is_ancestor_to_node1""", """		for upper, lower in ((node1, node2), (node2, node1)):
			if upper not in self.get_ancestors(node=lower, distance=False):
				return False
		return True""")]),
    ('siblings via helper', None, [(B, """		siblings = []
		for parent in parents:
			for parents_child in self.get_children(node=parent):
				if parents_child not in siblings and parents_child != node:
					siblings.append(parents_child)
		return siblings""", """		return self._distinct_others(node, (self.get_children(node=parent) for parent in parents))"""),
     (B, """		spouses = []
		for child in children:
			for childs_parent in self.get_parents(node=child):
				if childs_parent not in spouses and childs_parent != node:
					spouses.append(childs_parent)
		return spouses""", """		return self._distinct_others(node, (self.get_parents(node=child) for child in children))"""),
     (B, """	def num_siblings(self""", """	@staticmethod
	def _distinct_others(node, groups):
		result = []
		for group in groups:
			for other in group:
				if other != node and other not in result:
					result.append(other)
		return result

	def num_siblings(self""")]),
    ('tree str comprehension', None, [(B, """		tree_strings = []
		for root in self.roots:
			tree_string = root.get_tree_str(already_added=already_added)
			tree_strings.append(tree_string)
		return '\\n'.join(tree_strings)""", """		return '\\n'.join([root.get_tree_str(already_added=already_added) for root in self.roots])""")]),
    ('connect flags', None, [(B, """		if edge_id not in start.outward_edge_ids and edge_id not in end.inward_edge_ids:
			edge = Edge""", """		is_outward = edge_id in start.outward_edges_dict
		is_inward = edge_id in end.inward_edges_dict

		if not is_outward and not is_inward:
			edge = Edge"""), (B, """		elif edge_id in start.outward_edge_ids and edge_id in end.inward_edge_ids:
			if if_edge""", """		elif is_outward and is_inward:
			if if_edge"""), (B, """		elif edge_id in start.outward_edge_ids and edge_id not in end.inward_edge_ids:
			raise""", """		elif is_outward:
			raise""")]),
    ('connect nested', None, [(B, """		if edge_id not in start.outward_edge_ids and edge_id not in end.inward_edge_ids:
			edge = Edge(graph=self, start=start, end=end, id=id, value=value, label=label, style=style, **kwargs)

		elif edge_id in start.outward_edge_ids and edge_id in end.inward_edge_ids:
			if if_edge""", """		if (edge_id in start.outward_edge_ids) == (edge_id in end.inward_edge_ids):
			if edge_id not in end.inward_edge_ids:
				return Edge(graph=self, start=start, end=end, id=id, value=value, label=label, style=style, **kwargs)

			if if_edge""")]),
    ('disconnect reorder', None, [(B, """		edge.start.remove_outward_edge(edge_id=edge.id)
		edge.end.remove_inward_edge(edge_id=edge.id)
		edge._raw_id""", """		edge_id = edge.id
		start, end = edge.start, edge.end
		end.remove_inward_edge(edge_id=edge_id)
		start.remove_outward_edge(edge_id=edge_id)
		edge._raw_id""")]),
    ('graph similar one expression', None, [(B, """		if len(self._nodes_dict) != len(other._nodes_dict):
			return False

		for name, node in self._nodes_dict.items():
			if name not in other._nodes_dict:
				return False
			other_node = other._nodes_dict[name]
			if not node.is_similar_to(other=other_node):
				return False

		if self._is_strict != other._is_strict:
			return False

		if self._ordering != other._ordering:
			return False

		return True""", """		if (self._is_strict, self._ordering) != (other._is_strict, other._ordering):
			return False
		if self._nodes_dict.keys() != other._nodes_dict.keys():
			return False
		return all(
			node.is_similar_to(other=other._nodes_dict[name])
			for name, node in self._nodes_dict.items()
		)""")]),
    # Node
    ('node style setter match', None, [(N, """		if isinstance(style, dict):
			self._style = NodeStyle(**style)
		elif isinstance(style, NodeStyle):
			self._style = style
		elif style is None:
			pass
		else:
			raise TypeError(f'node style of type {type(style)} is not supported!')""", """		if style is None:
			return
		if isinstance(style, dict):
			style = NodeStyle(**style)
		if not isinstance(style, NodeStyle):
			raise TypeError(f'node style of type {type(style)} is not supported!')
		self._style = style""")]),
    ('node similar helper', None, [(N, """		if len(self._outward_edges_dict) != len(other._outward_edges_dict):
			return False
		if len(self._inward_edges_dict) != len(other._inward_edges_dict):
			return False
		for id, outward_edge in self._outward_edges_dict.items():
			if id not in other._outward_edges_dict:
				return False
			other_outward_edge = other._outward_edges_dict[id]
			if not outward_edge.is_similar_to(other=other_outward_edge):
				return False
		for id, inward_edge in self._inward_edges_dict.items():
			if id not in other._inward_edges_dict:
				return False
			other_inward_edge = other._inward_edges_dict[id]
			if not inward_edge.is_similar_to(other=other_inward_edge):
				return False
		return True
""", """		return (
			self._similar_edges(self._outward_edges_dict, other._outward_edges_dict)
			and self._similar_edges(self._inward_edges_dict, other._inward_edges_dict)
		)

	@staticmethod
	def _similar_edges(edges, other_edges):
		if len(edges) != len(other_edges):
			return False
		for id, edge in edges.items():
			other_edge = other_edges.get(id)
			if other_edge is None or not edge.is_similar_to(other=other_edge):
				return False
		return True
""")]),
    ('update edges split', None, [(N, """		if not self._outward_edges_have_start_node:
			for outward_edge in self._outward_edges_dict.values():
				outward_edge._start = self
				outward_edge._graph = self.graph
		self._outward_edges_have_start_node = True
		if not self._inward_edges_have_end_node:
			for inward_edge in self._inward_edges_dict.values():
				inward_edge._end = self
				inward_edge._graph = self.graph
		self._inward_edges_have_end_node = True
""", """		self._attach_outward_edges()
		self._attach_inward_edges()

	def _attach_outward_edges(self):
		if self._outward_edges_have_start_node:
			return
		for edge in self._outward_edges_dict.values():
			edge._start, edge._graph = self, self._graph
		self._outward_edges_have_start_node = True

	def _attach_inward_edges(self):
		if self._inward_edges_have_end_node:
			return
		for edge in self._inward_edges_dict.values():
			edge._end, edge._graph = self, self._graph
		self._inward_edges_have_end_node = True
""")]),
    ('sort key', None, [(N, "		return (self.index, self.name) < (other.index, other.name)", "		return self._sort_key < other._sort_key"),
                        (N, "		return (self.index, self.name) > (other.index, other.name)", "		return self._sort_key > other._sort_key"),
                        (N, "		return (self.index, self.name) <= (other.index, other.name)", "		return self._sort_key <= other._sort_key"),
                        (N, "		return (self.index, self.name) >= (other.index, other.name)", "		return self._sort_key >= other._sort_key"),
                        (N, "		return (self.index, self.name) == (other.index, other.name)", "		return self._sort_key == other._sort_key"),
                        (N, "		return (self.index, self.name) != (other.index, other.name)", "		return self._sort_key != other._sort_key"),
                        (N, "	def __lt__(", "	@property\n	def _sort_key(self):\n		return self._index, self.id\n\n	def __lt__(")]),
    ('tree str prefix', None, [(N, """				already_added.append(self)
				if child_num+1 == num_children:
					tree_string += indentation + CORNER + ' ' + child.get_tree_str(
						indentation=indentation + '  ', already_added=already_added
					)

				else:
					tree_string += indentation + TWO_WAY + ' ' + child.get_tree_str(
						indentation=indentation + VERTICAL + ' ', already_added=already_added
					)
""", """				already_added.append(self)
				is_last = child_num + 1 == num_children
				branch, continuation = (CORNER, ' ') if is_last else (TWO_WAY, VERTICAL)
				subtree = child.get_tree_str(indentation=indentation + continuation + ' ', already_added=already_added)
				tree_string += f'{indentation}{branch} {subtree}'
""")]),
    ('node graphviz format', None, [(N, """		parts = [f'label="{escape_quotes(self.display_label())}"']

		if self._tooltip is not None:
			parts.append(f'tooltip="{escape_quotes(self._tooltip)}"')
""", """		parts = ['label="' + escape_quotes(self.display_label()) + '"']
		tooltip = self._tooltip
		if tooltip is not None:
			parts += ['tooltip="%s"' % escape_quotes(tooltip)]
""")]),
    ('node edges helper', None, [(N, """		result = []
		for edge in self._outward_edges_dict.values():
			if edge not in result:
				result.append(edge)
		return result""", """		return self._distinct(self._outward_edges_dict)"""), (N, """		result = []
		for edge in self._inward_edges_dict.values():
			if edge not in result:
				result.append(edge)
		return result""", """		return self._distinct(self._inward_edges_dict)"""), (N, """		result = []
		for edge in self.outward_edges_dict.values():
			if edge not in result:
				result.append(edge)
		for edge in self.inward_edges_dict.values():
			if edge not in result:
				result.append(edge)
		return result

	def remove_edges""", """		return self._distinct(self.outward_edges_dict, self.inward_edges_dict)

	@staticmethod
	def _distinct(*dictionaries):
		result = []
		for dictionary in dictionaries:
			for edge in dictionary.values():
				if edge not in result:
					result.append(edge)
		return result

	def remove_edges""")]),
    ('child rank position', None, [(N, """		if self not in siblings:
			raise ValueError(f'{self} is not a child of {parent}')
		return sorted(siblings).index(self)""", """		if self in siblings:
			return sorted(siblings).index(self)
		raise ValueError(f'{self} is not a child of {parent}')""")]),
    ('node siblings setdefault', None, [(N, """				if child.id not in siblings and child != self:
					siblings[child.id] = child""", """				if child != self:
					siblings.setdefault(child.id, child)""")]),
    ('node init order', None, [(N, """		self._outward_edges_dict = dict()
		self._inward_edges_dict = dict()
		self._outward_edges_have_start_node = True
		self._inward_edges_have_end_node = True
		self._index = index
""", """		self._index = index
		self._outward_edges_dict, self._inward_edges_dict = {}, {}
		self._outward_edges_have_start_node = self._inward_edges_have_end_node = True
""")]),
    ('node state merged', None, [(N, """		state = super().__getstate__()
		state.update({
			'outward_edges_dict': self._outward_edges_dict,
			'inward_edges_dict': self._inward_edges_dict,
			'index': self._index
		})
		return state""", """		return {
			**super().__getstate__(),
			'outward_edges_dict': self._outward_edges_dict,
			'inward_edges_dict': self._inward_edges_dict,
			'index': self._index
		}""")]),
    # Edge, GraphObj
    ('edge id unnested', None, [(E, """		if self._start is None:
			raise ValueError('This Edge does not have a start!')
		elif self._end is None:
			raise ValueError('This Edge does not have an end!')

		return self.start.id, self.end.id, self.raw_id""", """		for name, node in (('a start', self._start), ('an end', self._end)):
			if node is None:
				raise ValueError(f'This Edge does not have {name}!')
		return (self._start.id, self._end.id, self._raw_id)""")]),
    ('edge remove self', None, [(E, """		if self._start is None or self._end is None:
			raise ValueError('Either start or end Node is missing!')
		self.start.remove_outward_edge(edge_id=self.id)
		self.end.remove_inward_edge(edge_id=self.id)
		self._start = None
		self._end = None
		self._graph = None
""", """		start, end = self._start, self._end
		if None in (start, end):
			raise ValueError('Either start or end Node is missing!')
		edge_id = self.id
		start.remove_outward_edge(edge_id)
		end.remove_inward_edge(edge_id)
		self._start = self._end = self._graph = None
""") if False else (E, """		self.start.remove_outward_edge(edge_id=self.id)
		self.end.remove_inward_edge(edge_id=self.id)
		self._start = None
		self._end = None
		self._graph = None
""", """		edge_id = self.id
		self._start.remove_outward_edge(edge_id)
		self._end.remove_inward_edge(edge_id)
		self._start = self._end = self._graph = None
""")]),
    ('edge graphviz suffix', None, [(E, """		if len(parts) > 0:
			second_part = '[' + ' '.join(parts) + ']'
		else:
			second_part = ''

		return""", """		second_part = f"[{' '.join(parts)}]" if parts else ''
		return""")]),
    ('edge similar tuple', None, [(E, """		return (self._start.id == other._start.id and 
				self._end.id == other._end.id and 
				self.raw_id == other.raw_id)""", """		mine = (self._start.id, self._end.id, self.raw_id)
		theirs = (other._start.id, other._end.id, other.raw_id)
		return mine == theirs""")]),
    ('obj similar loop', None, [(O, """		condition_1 = self.id == other.id
		condition_2 = self._value == other._value
		condition_3 = self._style == other._style
		condition_4 = self._parameters == other._parameters
		return  condition_1 and condition_2 and condition_3 and condition_4""", """		if self.id != other.id:
			return False
		for attribute in ('_value', '_style', '_parameters'):
			if getattr(self, attribute) != getattr(other, attribute):
				return False
		return True""")]),
    ('obj display converter', None, [(O, """		if self._label_converter is not None:
			return self._label_converter(self.label)
		else:
			return self.label

	def display_label_or_value(self):
		if self._label is not None:
			if self._label_converter is not None:
				return self._label_converter(self._label)
			else:
				return self._label
		else:
			return self._value
""", """		return self._convert_label(self.label)

	def display_label_or_value(self):
		return self._value if self._label is None else self._convert_label(self._label)

	def _convert_label(self, label):
		converter = self._label_converter
		return label if converter is None else converter(label)
""")]),
    ('obj eq helper', None, [(O, """		if not isinstance(other, self.__class__):
			raise TypeError(f'"{other}" is of type: {type(other)}')
		if self.graph != other.graph:
			raise ValueError('two GraphObj from different graphs cannot be compared')
		return self.id == other.id""", """		self._check_comparable(other)
		return self.id == other.id

	def _check_comparable(self, other):
		if not isinstance(other, self.__class__):
			raise TypeError(f'"{other}" is of type: {type(other)}')
		if self.graph != other.graph:
			raise ValueError('two GraphObj from different graphs cannot be compared')"""), (O, """		if not isinstance(other, self.__class__):
			raise TypeError(f'"{other}" is of type: {type(other)}')
		if self.graph != other.graph:
			raise ValueError('two GraphObj from different graphs cannot be compared')
		return self.id != other.id""", """		return not self == other""")]),
    # functions
    ('object ancestors recursion-free', None, [('get_ancestors.py', """		next_layer = []
		for near_object in layer:
			for parent in near_object.__parents__():
				if parent not in objects_travelled:
					objects_travelled.append(parent)
					ancestors.append(parent)
					next_layer.append(parent)
		if len(next_layer) > 0:
			ancestors_dict[distance] = next_layer
		layer = next_layer
""", """		candidates = [parent for near_object in layer for parent in near_object.__parents__()]
		layer = []
		for parent in candidates:
			if parent in objects_travelled:
				continue
			objects_travelled.append(parent)
			layer.append(parent)
		if layer:
			ancestors_dict[distance] = layer
			ancestors.extend(layer)
""")]),
    ('object ancestors select', None, [('get_ancestors.py', """	ancestors, ancestors_dict = _get_ancestors(obj=obj, max_height=max_height)
	if distance:
		return ancestors_dict
	else:
		return ancestors""", """	found = _get_ancestors(obj, max_height)
	return found[1] if distance else found[0]""")]),
    ('parse enumerate content', None, [('parse_indentations_function.py', """		if len(line) > 0:
			match = regex.match(line)
			if not match:
				raise ValueError(
					'Indentation not a multiple of spaces or tabs'.format(line)
				)
			level = len(match.group('indent')) // 4
			if level > len(stack):
				raise ValueError('Indentation too deep: "{0}"'.format(line))
			stack[level:] = [index]
			content = match.group('name')
		else:
			content = ''
""", """		content = ''
		if line:
			match = regex.match(line)
			if match is None:
				raise ValueError('Indentation not a multiple of spaces or tabs')
			spaces, content = match.group('indent', 'name')
			level = len(spaces) // 4
			if level > len(stack):
				raise ValueError(f'Indentation too deep: "{line}"')
			del stack[level:]
			stack.append(index)
""")]),
    ('escape odd', None, [('escape_quotes.py', """	if (len(text) - len(text.rstrip('\\\\'))) % 2 == 1:
		text += '\\\\'
	return text""", """	num_backslashes = len(text) - len(text.rstrip('\\\\'))
	return text + '\\\\' if num_backslashes % 2 else text""")]),
    ('dot edge fromkeys', None, [(W, "\t\tedges_str = '\\t' + '\\n\\t'.join([edge.get_graphviz_str() for edge in self.edges]) + '\\n'", "\t\tedges_str = '\\t' + '\\n\\t'.join([edge.get_graphviz_str() for edge in {edge.id: edge for edge in self.edges}.values()]) + '\\n'")]),
    ('dot direct', None, [(W, "\t\tedges_str = '\\t' + '\\n\\t'.join([edge.get_graphviz_str() for edge in self.edges]) + '\\n'", "\t\twritten = []\n\t\tfor node in self.nodes:\n\t\t\tfor edge in node.edges:\n\t\t\t\tif edge not in written:\n\t\t\t\t\twritten.append(edge)\n\t\tedges_str = '\\t' + '\\n\\t'.join([edge.get_graphviz_str() for edge in written]) + '\\n'")]),
    ('dot edges again', None, [(W, "\t\tedges_str = '\\t' + '\\n\\t'.join([edge.get_graphviz_str() for edge in self.edges]) + '\\n'", "\t\twritten = []\n\t\tfor edge in self.edges:\n\t\t\tif edge not in written:\n\t\t\t\twritten.append(edge)\n\t\tedges_str = '\\t' + '\\n\\t'.join([edge.get_graphviz_str() for edge in written]) + '\\n'")]),
    ('dot outward', None, [(W, "\t\tedges_str = '\\t' + '\\n\\t'.join([edge.get_graphviz_str() for edge in self.edges]) + '\\n'", "\t\twritten = []\n\t\tfor node in self.nodes:\n\t\t\tfor edge in node.outward_edges:\n\t\t\t\tif edge not in written:\n\t\t\t\t\twritten.append(edge)\n\t\tedges_str = '\\t' + '\\n\\t'.join([edge.get_graphviz_str() for edge in written]) + '\\n'")]),
    ('dot both in one', None, [(W, "\t\tedges_str = '\\t' + '\\n\\t'.join([edge.get_graphviz_str() for edge in self.edges]) + '\\n'", "\t\twritten = []\n\t\tstatements = []\n\t\tfor edge in self.edges:\n\t\t\tif edge not in written:\n\t\t\t\twritten.append(edge)\n\t\t\t\tstatements.append(edge.get_graphviz_str())\n\t\tedges_str = '\\t' + '\\n\\t'.join(statements) + '\\n'")]),
]
