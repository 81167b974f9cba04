"""Behaviour-preserving edits of the graph class: text form, header, options, sums, dictionary form."""

W = '_GraphWithoutDisplay.py'
STR = """		nodes_str = '\\t{\\n\\t\\t' + '\\n\\t\\t'.join([node.get_graphviz_str() for node in self.nodes_dict.values()]) + '\\n\\t}\\n'
		edges_str = '\\t' + '\\n\\t'.join([edge.get_graphviz_str() for edge in self.edges]) + '\\n'
"""
APPEND_EDGES = """				if len(parent_child_edge_dict) == 2:
					parent, child = parent_child_edge_dict
					edge = self.connect(start=parent, end=child)
					edges_dict[(parent, child)] = edge.id
					edges_dict[edge.id] = edge.id

				elif len(parent_child_edge_dict) == 3:
					parent, child, edge_dict = parent_child_edge_dict
					edge = self.connect(start=parent, end=child, **edge_dict)
					edges_dict[(parent, child)] = edge.id
					edges_dict[edge.id] = edge.id

				elif len(parent_child_edge_dict) < 2:
					raise ValueError('Too few objects in an edge definition!')
				else:
					raise ValueError('Too many objects in an edge definition!')
"""
SIZE = """		if height is not None and width is not None:
			second_part += f'\\tsize="{width},{height}!";\\n'
			second_part += '\\tratio="fill";\\n'
		elif height is not None:
			second_part += f'\\tsize="{height}!";\\n'
			second_part += '\\tratio="fill";\\n'
		elif width is not None:
			second_part += f'\\tsize="{width}!";\\n'
			second_part += '\\tratio="fill";\\n'
"""
SMART1 = """			smart_global_node_style_overwrite = None
			if isinstance(self._global_node_style_overwrite, dict) and 'shape' in self._global_node_style_overwrite:
				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
					if max([len(str(node.name)) for node in self.nodes], default=0) < 3:
						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
						smart_global_node_style_overwrite['shape'] = 'circle'
			if smart_global_node_style_overwrite is None:
				smart_global_node_style_overwrite = self._global_node_style_overwrite

			for node in self.nodes:
				if"""
SMART2 = SMART1[:-2].rstrip('\t') + "				node.style.complement"
HELPER = """	def _get_smart_node_style(self):
		style = self._global_node_style_overwrite
		if isinstance(style, dict) and 'shape' in style and style['shape'].lower().startswith('auto'):
			if max([len(str(node.name)) for node in self.nodes], default=0) < 3:
				style = style.copy()
				style['shape'] = 'circle'
		return style

	def stylize("""
SUM = """				for key in set(node1.keys()).union(node2.keys()):
					if key in node1 and key in node2:
						if key == 'value':
							n[key] = add_values_function(node1[key], node2[key])
						else:
							n[key] = node1[key] or node2[key]
					elif key in node1:
						n[key] = node1[key]
					else:
						n[key] = node2[key]
"""

EDITS = [
    ('statements as lines', None, [(W, STR, """		lines = ['\\t{']
		for node in self.nodes:
			lines.append('\\t\\t' + node.get_graphviz_str())
		lines.append('\\t}')
		for edge in self.edges:
			lines.append('\\t' + edge.get_graphviz_str())
		statements = '\\n'.join(lines) + '\\n'
"""), (W, "		return header + nodes_str + edges_str + '}'", "		return header + statements + '}'")]),
    ('statements accumulated', None, [(W, STR, """		nodes_str = '\\t{\\n'
		for node in self.nodes_dict.values():
			nodes_str += f'\\t\\t{node.get_graphviz_str()}\\n'
		nodes_str += '\\t}\\n'
		edges_str = ''
		for edge in self.edges:
			edges_str += '\\t' + edge.get_graphviz_str() + '\\n'
""")]),
    ('statements helper', None, [(W, STR, """		nodes_str = '\\t{\\n\\t\\t' + self._join_statements(self.nodes, '\\n\\t\\t') + '\\n\\t}\\n'
		edges_str = '\\t' + self._join_statements(self.edges, '\\n\\t') + '\\n'
"""), (W, "	def append(self, obj):", """	@staticmethod
	def _join_statements(objects, separator):
		return separator.join(obj.get_graphviz_str() for obj in objects)

	def append(self, obj):""")]),
    ('statements map', None, [(W, STR, """		node_statements = map(lambda node: node.get_graphviz_str(), self.nodes_dict.values())
		edge_statements = [edge.get_graphviz_str() for edge in self.edges]
		nodes_str = '\\t{\\n\\t\\t' + '\\n\\t\\t'.join(node_statements) + '\\n\\t}\\n'
		edges_str = '\\t' + '\\n\\t'.join(edge_statements) + '\\n'
""")]),
    ('statements of edges_dict', None, [(W, "for edge in self.edges]) + '\\n'\n		header", "for edge in self.edges_dict.values()]) + '\\n'\n		header")]),
    ('statements by node', None, [(W, "[edge.get_graphviz_str() for edge in self.edges]) + '\\n'\n		header", "[edge.get_graphviz_str() for node in self.nodes for edge in node.outward_edges]) + '\\n'\n		header")]),
    ('header first', None, [(W, """		header = self.get_graphviz_header(direction=direction, dpi=dpi, height=height, width=width, pad=pad)
		return header + nodes_str + edges_str + '}'""", """		parts = [self.get_graphviz_header(direction=direction, dpi=dpi, height=height, width=width, pad=pad)]
		parts += [nodes_str, edges_str, '}']
		return ''.join(parts)""")]),
    ('header f string', None, [(W, """		return header + nodes_str + edges_str + '}'""", """		return f'{header}{nodes_str}{edges_str}}}'""")]),
    ('header strict', None, [(W, """		if self._is_strict:
			first_part = 'strict digraph G {\\n'
		else:
			first_part = 'digraph G{\\n'
""", """		first_part = ('strict ' if self._is_strict else '') + 'digraph G {\\n'
""")]),
    ('header size helper', None, [(W, SIZE, """		second_part += self._get_size_str(height, width)
"""), (W, "	def get_graphviz_str(", """	@staticmethod
	def _get_size_str(height, width):
		sizes = [str(size) for size in (width, height) if size is not None]
		if len(sizes) == 0:
			return ''
		return '\\tsize="' + ','.join(sizes) + '!";\\n\\tratio="fill";\\n'

	def get_graphviz_str(""")]),
    ('header size nested', None, [(W, SIZE, """		if height is not None or width is not None:
			if height is None:
				size = f'{width}'
			elif width is None:
				size = f'{height}'
			else:
				size = f'{width},{height}'
			second_part += f'\\tsize="{size}!";\\n' + '\\tratio="fill";\\n'
""")]),
    ('header attributes list', None, [(W, "', '.join([f'{key} = {value}' for key, value in attributes.items()])", "', '.join('%s = %s' % item for item in attributes.items())"), ]),
    ('header attributes format', None, [(W, "', '.join([f'{key} = {value}' for key, value in attributes.items()])", "', '.join([key + ' = ' + str(value) for key, value in attributes.items()])"), ]),
    ('header quote helper', None, [(W, """attributes['labelloc'] = f'"{escape_quotes(self._label_location[0])}"'""", """attributes['labelloc'] = self._quote(self._label_location[0])"""),
      (W, """attributes['fontname'] = f'"{escape_quotes(self._font)}"'""", """attributes['fontname'] = self._quote(self._font)"""),
      (W, """attributes['fontcolor'] = f'"{escape_quotes(self._label_colour)}"'""", """attributes['fontcolor'] = self._quote(self._label_colour)"""),
      (W, """attributes['href'] = f'"{escape_quotes(self._label_url)}"'""", """attributes['href'] = self._quote(self._label_url)"""),
      (W, """attributes['tooltip'] = f'"{escape_quotes(self._tooltip)}"'""", """attributes['tooltip'] = self._quote(self._tooltip)"""),
      (W, """attributes[key] = f'"{escape_quotes(value)}"'""", """attributes[key] = self._quote(value)"""),
      (W, "	def get_graphviz_header(", """	@staticmethod
	def _quote(text):
		return '"' + escape_quotes(text) + '"'

	def get_graphviz_header(""")]),
    ('header kwargs conditional', None, [(W, """			if isinstance(value, int):
				attributes[key] = value
			else:
				attributes[key] = f'"{escape_quotes(value)}"'
""", """			attributes[key] = value if isinstance(value, int) else f'"{escape_quotes(value)}"'
""")]),
    ('header direction', None, [(W, """		direction = direction.upper()
		if direction != 'TB':
			third_part = f'\\trankdir="{escape_quotes(direction)}"'
		else:
			third_part = ''

		return first_part + second_part + third_part""", """		result = first_part + second_part
		if direction.upper() == 'TB':
			return result
		return result + '\\trankdir="' + escape_quotes(direction.upper()) + '"'""")]),
    ('append edges starred', None, [(W, APPEND_EDGES, """				if len(parent_child_edge_dict) < 2:
					raise ValueError('Too few objects in an edge definition!')
				if len(parent_child_edge_dict) > 3:
					raise ValueError('Too many objects in an edge definition!')

				parent, child, *rest = parent_child_edge_dict
				edge_dict = rest[0] if rest else {}
				edge = self.connect(start=parent, end=child, **edge_dict)
				edges_dict[(parent, child)] = edge.id
				edges_dict[edge.id] = edge.id
""")]),
    ('append edges merged', None, [(W, APPEND_EDGES, """				if len(parent_child_edge_dict) == 2:
					parent, child = parent_child_edge_dict
					edge_dict = {}
				elif len(parent_child_edge_dict) == 3:
					parent, child, edge_dict = parent_child_edge_dict
				elif len(parent_child_edge_dict) < 2:
					raise ValueError('Too few objects in an edge definition!')
				else:
					raise ValueError('Too many objects in an edge definition!')
				edge = self.connect(start=parent, end=child, **edge_dict)
				edges_dict.update({(parent, child): edge.id, edge.id: edge.id})
""")]),
    ('append edges method', None, [(W, APPEND_EDGES, """				edge = self._append_edge(parent_child_edge_dict)
				edges_dict[(edge.start.id, edge.end.id)] = edge.id
				edges_dict[tuple(parent_child_edge_dict[:2])] = edge.id
				edges_dict[edge.id] = edge.id
"""), (W, "	@classmethod\n	def from_dict(", """	def _append_edge(self, definition):
		if len(definition) < 2:
			raise ValueError('Too few objects in an edge definition!')
		if len(definition) > 3:
			raise ValueError('Too many objects in an edge definition!')
		if len(definition) == 2:
			return self.connect(start=definition[0], end=definition[1])
		return self.connect(start=definition[0], end=definition[1], **definition[2])

	@classmethod
	def from_dict(""")]),
    ('append edges sliced', None, [(W, APPEND_EDGES, """				if len(parent_child_edge_dict) < 2:
					raise ValueError('Too few objects in an edge definition!')
				if len(parent_child_edge_dict) > 3:
					raise ValueError('Too many objects in an edge definition!')
				ends = tuple(parent_child_edge_dict[:2])
				attributes = parent_child_edge_dict[2] if len(parent_child_edge_dict) == 3 else {}
				edge = self.connect(start=ends[0], end=ends[1], **attributes)
				edges_dict[ends] = edges_dict[edge.id] = edge.id
""")]),
    ('append edges indexed', None, [(W, APPEND_EDGES, """				length = len(parent_child_edge_dict)
				if not 2 <= length <= 3:
					raise ValueError('Too {} objects in an edge definition!'.format('few' if length < 2 else 'many'))
				parent, child = parent_child_edge_dict[0], parent_child_edge_dict[1]
				if length == 2:
					edge = self.connect(start=parent, end=child)
				else:
					edge = self.connect(start=parent, end=child, **parent_child_edge_dict[2])
				for key in ((parent, child), edge.id):
					edges_dict[key] = edge.id
""")]),
    ('append overwrites helper', None, [(W, """				for parent_child_edge_id, edge_style in dictionary['edge_styles'].items():
					edge_id = edges_dict.get(parent_child_edge_id, parent_child_edge_id)
					self._edge_style_overwrites[edge_id] = edge_style
""", """				self._overwrite(self._edge_style_overwrites, dictionary['edge_styles'], edges_dict)
"""), (W, """				for parent_child_edge_id, colour in dictionary['edge_colours'].items():
					edge_id = edges_dict.get(parent_child_edge_id, parent_child_edge_id)
					self._edge_colour_overwrites[edge_id] = colour
""", """				self._overwrite(self._edge_colour_overwrites, dictionary['edge_colours'], edges_dict)
"""), (W, "	@classmethod\n	def from_dict(", """	@staticmethod
	def _overwrite(overwrites, given, edge_ids):
		for key, value in given.items():
			overwrites[edge_ids[key] if key in edge_ids else key] = value

	@classmethod
	def from_dict(""")]),
    ('append styles update', None, [(W, """				for name, node_style in dictionary['node_styles'].items():
					self._node_style_overwrites[name] = node_style
""", """				self._node_style_overwrites.update(dictionary['node_styles'])
"""), (W, """				for name, colour in dictionary['node_colours'].items():
					self._node_colour_overwrites[name] = colour
""", """				self._node_colour_overwrites.update(dictionary['node_colours'])
""")]),
    ('append styles get', None, [(W, """			if 'node_styles' in dictionary:
				for name, node_style in dictionary['node_styles'].items():
					self._node_style_overwrites[name] = node_style
""", """			for name, node_style in dictionary.get('node_styles', {}).items():
				self._node_style_overwrites[name] = node_style
""")]),
    ('append options loop', None, [(W, """			if 'tooltip' in dictionary:
				self._tooltip = dictionary['tooltip']

			if 'label_url' in dictionary:
				self._label_url = dictionary['label_url']
""", """			for key in ('tooltip', 'label_url'):
				if key in dictionary:
					setattr(self, '_' + key, dictionary[key])
""")]),
    ('append nodes items', None, [(W, """			if isinstance(dictionary['nodes'], dict):
				for node_name, node_dict in dictionary['nodes'].items():
					self.add_node(name=node_name, **node_dict)
			else:
				for node_name in dictionary['nodes']:
					self.add_node(name=node_name)
""", """			nodes = dictionary['nodes']
			if not isinstance(nodes, dict):
				nodes = {node_name: {} for node_name in nodes}
			for node_name, node_dict in nodes.items():
				self.add_node(name=node_name, **node_dict)
""") if False else (W, """			if isinstance(dictionary['nodes'], dict):
				for node_name, node_dict in dictionary['nodes'].items():
					self.add_node(name=node_name, **node_dict)
			else:
				for node_name in dictionary['nodes']:
					self.add_node(name=node_name)
""", """			nodes = dictionary['nodes']
			for node_name in nodes:
				node_dict = nodes[node_name] if isinstance(nodes, dict) else {}
				self.add_node(name=node_name, **node_dict)
""")]),
    ('append label', None, [(W, """				self._label = dictionary['label']
				if self._label is not None and not self._label.startswith('\\n'):
					self._label = '\\n' + self._label
""", """				label = dictionary['label']
				if label is None or label.startswith('\\n'):
					self._label = label
				else:
					self._label = f'\\n{label}'
""")]),
    ('append early return', None, [(W, """		if isinstance(obj, (list, tuple)):
			for item in obj:
				self.append(obj=item)
			return self

		else:
			try:
				dictionary = obj.__graph__()
			except AttributeError:
				dictionary = obj
""", """		if isinstance(obj, (list, tuple)):
			for item in obj:
				self.append(item)
		else:
			dictionary = self._as_dictionary(obj)
"""), (W, "	@classmethod\n	def from_dict(", """	@staticmethod
	def _as_dictionary(obj):
		try:
			return obj.__graph__()
		except AttributeError:
			return obj

	@classmethod
	def from_dict("""), (W, """					self._edge_colour_overwrites[edge_id] = colour

			return self
""", """					self._edge_colour_overwrites[edge_id] = colour
		return self
""")]),
    ('graph form helpers', None, [(W, """			nodes_dict[node.id] = {
				'label': node.raw_label,
				'value': node.value,
				'style': node.style.copy() if node.has_style() else None
			}
""", """			nodes_dict[node.id] = self._get_attributes(node)
"""), (W, """					{
						'id': edge.raw_id,
						'label': edge.raw_label,
						'value': edge.value,
						'style': edge.style.copy() if edge.has_style() else None
					}
""", """					{'id': edge.raw_id, **self._get_attributes(edge)}
"""), (W, "	def __graph__(self)", """	@staticmethod
	def _get_attributes(obj):
		style = obj.style
		return {'label': obj.raw_label, 'value': obj.value, 'style': None if style is None else style.copy()}

	def __graph__(self)""")]),
    ('graph form comprehensions', None, [(W, """		nodes_dict = {}
		edges_list = []
		for node in self.nodes:
			nodes_dict[node.id] = {
				'label': node.raw_label,
				'value': node.value,
				'style': node.style.copy() if node.has_style() else None
			}

			for edge in node.outward_edges:
				edges_list.append([
					edge.start.id,
					edge.end.id,
					{
						'id': edge.raw_id,
						'label': edge.raw_label,
						'value': edge.value,
						'style': edge.style.copy() if edge.has_style() else None
					}
				])
""", """		nodes_dict = {
			node.id: {
				'label': node.raw_label,
				'value': node.value,
				'style': node.style.copy() if node.has_style() else None
			}
			for node in self.nodes
		}
		edges_list = [
			[edge.start.id, edge.end.id, {
				'id': edge.raw_id,
				'label': edge.raw_label,
				'value': edge.value,
				'style': edge.style.copy() if edge.has_style() else None
			}]
			for node in self.nodes for edge in node.outward_edges
		]
""")]),
    ('random product', None, [(W, """		for n1 in node_names:
			for n2 in node_names:
				if random.uniform(0, 1) < connection_probability:
					if cycle:
						graph.connect(start=str(n1), end=str(n2))
					elif n1 < n2:
						graph.connect(start=str(n1), end=str(n2))
""", """		for n1 in node_names:
			for n2 in node_names:
				is_drawn = random.uniform(0, 1) < connection_probability
				if is_drawn and (cycle or n1 < n2):
					graph.connect(start=str(n1), end=str(n2))
""")]),
    ('random names', None, [(W, """		node_names = [i + start_index for i in range(num_nodes)]
		for n in node_names:
			graph.add_node(name=str(n))
""", """		node_names = list(range(start_index, start_index + num_nodes))
		for name in map(str, node_names):
			graph.add_node(name=name)
""")]),
    ('random clip', None, [(W, "		connection_probability = min(1.0, max(0.0, connection_probability))", """		if connection_probability < 0:
			connection_probability = 0.0
		elif connection_probability > 1:
			connection_probability = 1.0""")]),
    ('sum combine helper', None, [(W, SUM, """				for key in {**node1, **node2}:
					if key not in node2:
						n[key] = node1[key]
					elif key not in node1:
						n[key] = node2[key]
					elif key == 'value':
						n[key] = add_values_function(node1[key], node2[key])
					else:
						n[key] = node1[key] or node2[key]
""")]),
    ('sum nodes get', None, [(W, """			elif the_id in d1['nodes']:
				nodes[the_id] = d1['nodes'][the_id]
			else:
				nodes[the_id] = d2['nodes'][the_id]
""", """			else:
				nodes[the_id] = d1['nodes'].get(the_id) or d2['nodes'][the_id]
""")]),
    ('sum edge key', None, [(W, """			if (start2, end2, id2) in edges:
				edge1 = edges[(start2, end2, id2)]
				edge1_dict = edge1[2]
""", """			edge_key = (start2, end2, id2)
			if edge_key in edges:
				_, _, edge1_dict = edges[edge_key]
""")]),
    ('sum values lambda', None, [(W, """			def add_values_function(x, y):
				if x is None or y is None:
					return y if x is None else x
				else:
					return x + y
""", """			def add_values_function(x, y):
				if x is None:
					return y
				if y is None:
					return x
				return x + y
""")]),
    ('sum styles merged', None, [(W, """		node_styles = d1['node_styles']
		node_styles.update(d2['node_styles'])

		edge_styles = d1['edge_styles']
		edge_styles.update(d2['edge_styles'])
""", """		node_styles, edge_styles = ({**d1[key], **d2[key]} for key in ('node_styles', 'edge_styles'))
""")]),
    ('render shared source', None, [(W, """		if path is None:
			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None, height=height, width=width)# Source(source=self.get_graphviz_str(direction=direction, pad=pad, dpi=None))
		else:
			filename""", """		if path is not None:
			filename"""), (W, """			to_save.render(filename=filename, view=view, format=output_format or None)
			return self""", """			to_save.render(filename=filename, view=view, format=output_format or None)
		return self""")]),
    ('source one call', None, [(W, """		if height is None and width is None:
			return self._get_graphviz_source(self.get_graphviz_str(direction=direction, pad=pad, dpi=None))
		else:
			graphviz_str_to_save = self.get_graphviz_str(
				direction=direction, height=height, width=width, pad=pad, dpi=dpi
			)
			return self._get_graphviz_source(graphviz_str_to_save)""", """		if height is None and width is None:
			dpi = None
		text = self.get_graphviz_str(direction=direction, height=height, width=width, pad=pad, dpi=dpi)
		return self._get_graphviz_source(text)""")]),
    ('stylize helper', None, [(W, SMART1, """			smart_global_node_style_overwrite = self._get_smart_node_style()
			for node in self.nodes:
				if"""), (W, SMART2, """			smart_global_node_style_overwrite = self._get_smart_node_style()
			for node in self.nodes:
				node.style.complement"""), (W, "	def stylize(", HELPER)]),
    ('stylize colours', None, [(W, """			if name not in self.nodes_dict:
				continue
			node = self.nodes_dict[name]
			style = node.style.copy()
			style.reset_colours()
			style.colour = colour
			node._style = style
""", """			node = self.nodes_dict.get(name)
			if node is not None:
				self._recolour(node, colour)
"""), (W, """			if edge_id not in self.edges_dict:
				continue
			edge = self.edges_dict[edge_id]
			_ = edge.style.colour
			style = edge.style.copy()
			style.reset_colours()
			style.colour = colour
			edge._style = style
			_ = edge.style.colour
""", """			edge = self.edges_dict.get(edge_id)
			if edge is not None:
				self._recolour(edge, colour)
"""), (W, "	def stylize(", """	@staticmethod
	def _recolour(obj, colour):
		style = obj.style.copy()
		style.reset_colours()
		style.colour = colour
		obj._style = style

	def stylize(""")]),
    ('init dict helper', None, [(W, """		if isinstance(obj, dict):
			if 'colour_scheme' in obj:
				colour_scheme = colour_scheme or obj['colour_scheme']

			if 'style_overwrite_allowed' in obj:
				style_overwrite_allowed = obj['style_overwrite_allowed']

			if 'stylist' in obj:
				stylist = stylist or obj['stylist']
			if stylist is None:
				stylist = 'pensieve'
""", """		if isinstance(obj, dict):
			colour_scheme = colour_scheme or obj.get('colour_scheme', colour_scheme)
			style_overwrite_allowed = obj.get('style_overwrite_allowed', style_overwrite_allowed)
			if 'stylist' in obj and not stylist:
				stylist = obj['stylist']
			stylist = 'pensieve' if stylist is None else stylist
""")]),
    ('edge styles loop', None, [(W, """		return {edge.id: edge.style for node in self.nodes for edge in node.outward_edges if edge.has_style()}""", """		return {edge_id: edge.style for edge_id, edge in self.edges_dict.items() if edge.style is not None}""")]),
]
