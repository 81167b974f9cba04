"""More breakages written from the properties, several of them hidden in a tidy-up."""

B, N, E, W, O = '_BasicGraph.py', 'Node.py', 'Edge.py', '_GraphWithoutDisplay.py', '_GraphObj.py'
A, D, P, Q, G = 'get_ancestors.py', 'get_descendants.py', 'parse_indentations_function.py', 'escape_quotes.py', 'Graph.py'

EDITS = [
    # C01/C02
    ('pop loop edge once', {'C01', 'C02', 'C33'}, [(E, """		self.start.remove_outward_edge(edge_id=self.id)
		self.end.remove_inward_edge(edge_id=self.id)
""", """		self.start.remove_outward_edge(edge_id=self.id)
		if self.start is not self.end:
			self.end.remove_inward_edge(edge_id=self.id)
""")]),
    ('remove edges over the outward', {'C02'}, [(N, """		for edge in self.edges:
			edge.remove_self()""", """		for edge in self.outward_edges or self.inward_edges:
			edge.remove_self()""")]),
    ('remove edges skipping loops', {'C02'}, [(N, """		for edge in self.edges:
			edge.remove_self()""", """		for edge in self.edges:
			if edge.start is not edge.end:
				edge.remove_self()""")]),
    ('remove keeps empty-id edges', {'C02'}, [(N, """		for edge in self.edges:
			edge.remove_self()""", """		for edge in self.edges:
			if edge.raw_id != '':
				edge.remove_self()""")]),
    ('edge id without own id', {'C01', 'C04'}, [(E, """		self.raw_id = id
		start.append""", """		self.raw_id = id or None
		start.append""")]),
    ('edge id after append', {'C01', 'C04'}, [(E, """		self.raw_id = id
		start.append_outward_edge(edge=self)
		end.append_inward_edge(edge=self)
""", """		start.append_outward_edge(edge=self)
		self.raw_id = id
		end.append_inward_edge(edge=self)
""")]),
    ('remove graph first', {'C02', 'C07', 'C03'}, [(B, """		del self.nodes_dict[node.id]
""", """		self._nodes_dict = {name: other for name, other in self._nodes_dict.items() if other.index != node.index}
""")]),
    # C03/C04/C06/C20
    ('add_node label falsy', {'C03'}, [(B, """				if label is not None:
					node.label = label
				if value""", """				if label:
					node.label = label
				if value""")]),
    ('add_node value order', {'C06'}, [(B, """				if value is not None and node.is_frozen:
					raise RuntimeError('GraphObj is frozen!')
				if style is not None:
					node.style = style
				if label is not None:
					node.label = label
				if value is not None:
					node.value = value
""", """				if label is not None:
					node.label = label
				if value is not None:
					node.value = value
				if style is not None:
					node.style = style
""")]),
    ('connect label before style', {'C06'}, [(B, """			if style is not None:
				edge.style = style
			if label is not None:
				edge.label = label
""", """			if label is not None:
				edge.label = label
			if style is not None:
				edge.style = style
""")]),
    ('index burned on refusal', {'C06', 'C03'}, [(B, """		if isinstance(name, (str, int)):
			if name in self.nodes_dict:
				if if""", """		index = self.generate_node_index()
		if isinstance(name, (str, int)):
			if name in self.nodes_dict:
				if if"""), (B, "index=self.generate_node_index(), **kwargs", "index=index, **kwargs")]),
    ('bool value frozen', {'C20'}, [(O, """		if self.is_frozen:
			raise RuntimeError('GraphObj is frozen!')
		self._value = value""", """		if self.is_frozen and self._value is not None:
			raise RuntimeError('GraphObj is frozen!')
		self._value = value""")]),
    ('freeze with parameter', {'C20'}, [(O, """	def set(self, item, value):
		self._parameters[item] = value""", """	def set(self, item, value):
		if item == 'frozen':
			self._frozen = bool(value)
		self._parameters[item] = value""")]),
    ('if exists unknown is ignore', {'C03'}, [(B, """				elif if_node_exists == 'warn':
					warnings.warn(f'Warning! A node with name "{name}" already exists in graph!')
				else:
					raise KeyError""", """				elif if_node_exists == 'warn':
					warnings.warn(f'Warning! A node with name "{name}" already exists in graph!')
				elif value is None:
					raise KeyError""")]),
    ('adopt node keeps key', {'C03'}, [(B, """				node._graph = self
				self.nodes_dict[node.id] = node
				return node
""", """				node._graph = self
				self.nodes_dict[str(node.id)] = node
				return node
""")]),
    ('connect strict drops id', {'C04'}, [(B, """		edge_id = (start.id, end.id, id)
""", """		if self._is_strict:
			id = None
		edge_id = (start.id, end.id, id)
""")]),
    ('connect finds by pair', {'C05', 'C04'}, [(B, """		start = self.get_node(node=start)
		end = self.get_node(node=end)
		edge_id""", """		start, end = [node if isinstance(node, Node) else self.get_node(node=node) for node in (start, end)]
		edge_id""")]),
    ('get_node bool', {'C05', 'C33'}, [(B, """		elif isinstance(node, Node):
			return self.nodes_dict[node.id]
		else:
			raise TypeError(f'node of type {type(node)} is not supported!')

	def get_node_name""", """		elif hasattr(node, 'id'):
			return self.nodes_dict[node.id]
		else:
			raise TypeError(f'node of type {type(node)} is not supported!')

	def get_node_name""")]),
    ('connect_from with id swap', {'C05'}, [(N, """		return self.graph.connect(start=node, end=self, **kwargs)""", """		if kwargs.get('id') is None:
			return self.graph.connect(start=node, end=self, **kwargs)
		return self.connect_to(node, **kwargs)""")]),
    # C07
    ('edges cached', {'C07', 'C08'}, [(N, """		result = []
		for edge in self.outward_edges_dict.values():
			if edge not in result:
				result.append(edge)
		for edge in self.inward_edges_dict.values():
			if edge not in result:
				result.append(edge)
		return result
""", """		key = (len(self.outward_edges_dict), len(self.inward_edges_dict))
		if self._parameters.get('_edges_key') != key:
			result = []
			for edge in self.outward_edges_dict.values():
				if edge not in result:
					result.append(edge)
			for edge in self.inward_edges_dict.values():
				if edge not in result:
					result.append(edge)
			self._parameters.update(_edges_key=key, _edges=result)
		return list(self._parameters['_edges'])
""")]),
    ('roots on storage', {'C07', 'C11'}, [(B, """		return list(self.nodes_dict.values())""", """		if not hasattr(self, '_nodes_list') or len(self._nodes_list) != len(self.nodes_dict):
			self._nodes_list = list(self.nodes_dict.values())
		return self._nodes_list""")]),
    ('graph dict shares', {'C07'}, [(W, """			'node_colours': self._node_colour_overwrites.copy(),""", """			'node_colours': self._node_colour_overwrites or {},""")]),
    ('label writes', {'C07', 'C28'}, [(N, """		if self._label:
			result = str(self._label)
		else:
			result = str(self.id)
		return result""", """		if not self._label:
			self._label = str(self.id)
		result = str(self._label)
		return result""")]),
    # C08..C11
    ('siblings by index', {'C08', 'C33'}, [(B, "				if parents_child not in siblings and parents_child != node:", "				if parents_child not in siblings and parents_child.index != node.index:")]),
    ('spouses one child', {'C08'}, [(B, """		for child in children:
			for childs_parent in self.get_parents(node=child):
				if childs_parent not in spouses and childs_parent != node:
					spouses.append(childs_parent)
		return spouses""", """		for child in children:
			for childs_parent in self.get_parents(node=child):
				if childs_parent in spouses or childs_parent == node:
					break
				spouses.append(childs_parent)
		return spouses""")]),
    ('parents dedup', {'C08', 'C09', 'C11'}, [(B, """		return [inward_edge.start for inward_edge in self.get_inward_edges(node=node)]""", """		return [inward_edge.start for inward_edge in self.get_inward_edges(node=node) if inward_edge.start.graph is inward_edge.graph and inward_edge.raw_id != 0]""")]),
    ('distance by count', {'C09'}, [(B, """					if neighbour in remaining:
						remaining.remove(neighbour)
						next_layer.append(neighbour)
			result[len(result) + 1] = next_layer
			layer = next_layer""", """					if neighbour in remaining:
						remaining.remove(neighbour)
						next_layer.append(neighbour)
						layer.append(neighbour)
			result[len(result) + 1] = next_layer
			layer = next_layer""")]),
    ('travelled per branch', {'C09'}, [(B, "parent_ancestors = self._get_ancestors(node=parent, nodes_travelled=nodes_travelled)", "parent_ancestors = self._get_ancestors(node=parent, nodes_travelled=nodes_travelled[:1])")]),
    ('roots of first loop', {'C11'}, [(B, """			if node in possible_roots:
				for descendant""", """			if node in possible_roots and node.has_children() and not node.is_in_loop():
				for descendant""")]),
    ('loop by first parent', {'C10'}, [(B, """		node = self.get_node(node)
		return node in self.get_ancestors(node=node, distance=False)""", """		node = self.get_node(node)
		return any(node in self.get_ancestors(node=parent, distance=False) for parent in self.get_parents(node=node))""")]),
    ('edge loop of one node', {'C10'}, [(E, """		return self.start.is_in_loop_with(self.end)""", """		return self.start is not self.end and self.start.is_in_loop_with(self.end)""")]),
    # C12..C15
    ('filter name or label', {'C12', 'C06', 'C33'}, [(B, """		new_graph = self.copy()
		for name in to_delete:
			new_graph.remove_node(node=name)
		return new_graph""", """		new_graph = self.copy() if to_delete else self
		for name in to_delete:
			new_graph.remove_node(node=name)
		return new_graph""")]),
    ('setstate shares the counter', {'C13'}, [(B, """		for key, value in state.items():
			setattr(self, key, value)
		if not""", """		for key, value in state.items():
			setattr(self, key, value)
		self._node_counter = len(self._nodes_dict)
		if not""")]),
    ('edge state id', {'C13'}, [(E, """		self._end = state['end']
		self.raw_id = state['id']""", """		self._end = state['end']
		self.raw_id = state['id'] or None""")]),
    ('update edges flag', {'C13', 'C33'}, [(N, """		self._outward_edges_have_start_node = True
		if not self._inward_edges_have_end_node:
			for""", """		self._outward_edges_have_start_node = True
		if not self._inward_edges_have_end_node and len(self._outward_edges_dict) > 0:
			for""")]),
    ('dict drops empty label', {'C14'}, [(W, """						'label': edge.raw_label,""", """						'label': edge.raw_label or None,""")]),
    ('append ordering default', {'C14', 'C32'}, [(W, """			if 'ordering' in dictionary:
				self._ordering = dictionary['ordering']""", """			self._ordering = dictionary.get('ordering', True)""")]),
    ('add values both', {'C15'}, [(W, """				if x is None or y is None:
					return y if x is None else x""", """				if not x or not y:
					return y if x is None else x""")]),
    ('add mutates second', {'C15'}, [(W, """		for edge2 in d1['edges'] + d2['edges']:
			start2""", """		for edge2 in sorted(d1['edges'] + d2['edges'], key=lambda e: (str(e[0]), str(e[1]))):
			start2""")]),
    # C16..C18
    ('escape once', {'C16'}, [(Q, """	text = re.sub(r'(?<!\\\\)((?:\\\\\\\\)*)"', r'\\1\\\\"', str(text))""", """	text = str(text)
	if '\\\\"' not in text:
		text = re.sub(r'(?<!\\\\)((?:\\\\\\\\)*)"', r'\\1\\\\"', text)""")]),
    ('tooltip quote', {'C16'}, [(N, """			parts.append(f'tooltip="{escape_quotes(self._tooltip)}"')""", """			tooltip = self._tooltip if self._tooltip == self._label else escape_quotes(self._tooltip)
			parts.append(f'tooltip="{tooltip}"')""")]),
    ('edge statement once', {'C17'}, [(W, """		edges_str = '\\t' + '\\n\\t'.join([edge.get_graphviz_str() for edge in self.edges]) + '\\n'""", """		statements = dict.fromkeys(edge.get_graphviz_str() for edge in self.edges)
		edges_str = '\\t' + '\\n\\t'.join(statements) + '\\n'""")]),
    ('edge label zero', {'C17', 'C28'}, [(E, """		if label_or_value is not None:
			parts""", """		if label_or_value:
			parts""")]),
    ('size one way', {'C18'}, [(W, """			second_part += f'\\tsize="{width},{height}!";\\n'""", """			second_part += f'\\tsize="{max(width, height)},{min(width, height)}!";\\n'""")]),
    ('pad zero', {'C18'}, [(W, """		if pad is not None:
			second""", """		if pad:
			second""")]),
    # C19
    ('style replaced by equal', {'C19'}, [(E, """		if self._style is not None and not self.graph._style_overwrite_allowed:
			raise RuntimeError('Cannot overwrite edge style!')

		if isinstance(style, dict):""", """		if self._style is not None and not self.graph._style_overwrite_allowed and not isinstance(style, dict):
			raise RuntimeError('Cannot overwrite edge style!')

		if isinstance(style, dict):""")]),
    # C22..C25
    ('random set of pairs', {'C22', 'C23'}, [(W, """		for n1 in node_names:
			for n2 in node_names:
				if random""", """		for n1, n2 in {(str(a), str(b)): (a, b) for a in node_names for b in node_names if a != b or cycle}.values():
			if True:
				if random""")]),
    ('seed zero', {'C23'}, [(W, """		if seed is not None:
			random.seed(seed)""", """		if seed:
			random.seed(seed)""")]),
    ('node eq by name', {'C24'}, [(N, """		return (self.index, self.name) == (other.index, other.name)""", """		return self.name == other.name and self.graph is other.graph""")]),
    ('similar subset', {'C25'}, [(N, """		if len(self._inward_edges_dict) != len(other._inward_edges_dict):
			return False
""", ""), (N, """		if len(self._outward_edges_dict) != len(other._outward_edges_dict):
			return False
""", """		if len(self.edges) != len(other.edges):
			return False
""")]),
    # C26..C32
    ('blank line stack', {'C26'}, [(P, """			content = ''
		yield""", """			content = ''
			level = 0
		yield""")]),
    ('indent per line', {'C26'}, [(P, """			stack[level:] = [index]""", """			stack[level:level + 1] = [index]""")]),
    ('object depth off', {'C27'}, [(D, """		if len(next_layer) > 0:
			descendants_dict[distance] = next_layer
		layer = next_layer""", """		if len(next_layer) > 0:
			descendants_dict[len(descendants_dict) + 1] = sorted(next_layer, key=str)
		layer = next_layer""")]),
    ('from object self loop', {'C30'}, [(B, """			for parent in child.__parents__():
				if parent in obj_and_descendants:""", """			for parent in child.__parents__():
				if parent in obj_and_descendants and parent is not child:""")]),
    ('from lists label', {'C30'}, [(B, "graph.connect(start=start_node, end=end_node, id=index, label=edge_name)", "graph.connect(start=start_node, end=end_node, id=edge_name or index, label=edge_name)")]),
    ('tree marks later', {'C31'}, [(N, """				already_added.append(self)
				if child_num+1""", """				if child_num == 0:
					already_added = already_added + [self]
				if child_num+1""")]),
    ('edge style for pair', {'C32'}, [(W, """					edge = self.connect(start=parent, end=child, **edge_dict)
					edges_dict[(parent, child)] = edge.id""", """					edge = self.connect(start=parent, end=child, **edge_dict)
					edges_dict.setdefault((parent, child), edge.id)""")]),
    ('append list once', {'C32'}, [(W, """			for item in obj:
				self.append(obj=item)
			return self
""", """			for item in obj:
				if item:
					self.append(obj=item)
			return self
""")]),
    ('dot td', {'C17'}, [(W, "\t\tedges_str = '\\t' + '\\n\\t'.join([edge.get_graphviz_str() for edge in self.edges]) + '\\n'", "\t\tstatements = []\n\t\tfor edge in self.edges:\n\t\t\tstatement = edge.get_graphviz_str()\n\t\t\tif statement not in statements:\n\t\t\t\tstatements.append(statement)\n\t\tedges_str = '\\t' + '\\n\\t'.join(statements) + '\\n'")]),
    ('dot fromkeys', {'C17'}, [(W, "\t\tedges_str = '\\t' + '\\n\\t'.join([edge.get_graphviz_str() for edge in self.edges]) + '\\n'", "\t\tedges_str = '\\t' + '\\n\\t'.join(dict.fromkeys(edge.get_graphviz_str() for edge in self.edges)) + '\\n'")]),
]
