B='_BasicGraph.py'; N='Node.py'; E='Edge.py'; O='_GraphObj.py'; G='_GraphWithoutDisplay.py'; SP='styling/stylize_with_pensieve.py'; SR='styling/stylize_randomly.py'; SE='styling/stylize_edges_based_on_nodes.py'; ES='styling/EdgeStyle.py'; NS='styling/NodeStyle.py'; IS='styling/inherit_style.py'; D='Graph.py'
EDITS=[
('label ternary',None,[(N,"		if self._label:\n			result = str(self._label)\n		else:\n			result = str(self.id)\n		return result.replace('\"', '\\\\\"')","		text = self._label if self._label else self.id\n		return str(text).replace('\"', '\\\\\"')")]),
('label or',None,[(N,"		if self._label:\n			result = str(self._label)\n		else:\n			result = str(self.id)\n		return result.replace('\"', '\\\\\"')","		return str(self._label or self.id).replace('\"', '\\\\\"')")]),
('display helper',None,[(O,"	def display_label(self):\n		if self._label_converter is not None:\n			return self._label_converter(self.label)\n		else:\n			return self.label\n\n	def display_label_or_value(self):\n		if self._label is not None:\n			if self._label_converter is not None:\n				return self._label_converter(self._label)\n			else:\n				return self._label\n		else:\n			return self._value\n","	def _convert(self, label):\n		converter = self._label_converter\n		if converter is None:\n			return label\n		return converter(label)\n\n	def display_label(self):\n		return self._convert(self.label)\n\n	def display_label_or_value(self):\n		if self._label is None:\n			return self._value\n		return self._convert(self._label)\n")]),
('style setter early',None,[(N,"		if isinstance(style, dict):\n			self._style = NodeStyle(**style)\n		elif isinstance(style, NodeStyle):\n			self._style = style\n		elif style is None:\n			pass\n		else:\n			raise","		if style is None:\n			return\n		if isinstance(style, dict):\n			style = NodeStyle(**style)\n		if isinstance(style, NodeStyle):\n			self._style = style\n		else:\n			raise")]),
('style setter has_style',None,[(E,"		if self._style is not None and not self.graph._style_overwrite_allowed:\n			raise","		if self.has_style() and not self.graph._style_overwrite_allowed:\n			raise")]),
('frozen helper',None,[(O,"		if self.is_frozen:\n			raise RuntimeError('GraphObj is frozen!')\n		self._value = value","		self._check_not_frozen()\n		self._set_value(value)"),(O,"	def freeze(self):\n","	def _check_not_frozen(self):\n		if self._frozen:\n			raise RuntimeError('GraphObj is frozen!')\n\n	def _set_value(self, value):\n		self._value = value\n\n	def freeze(self):\n")]),
('frozen helper2',None,[(O,"	def freeze(self):\n		self._frozen = True\n\n	def unfreeze(self):\n		self._frozen = False","	def _mark(self, frozen):\n		self._frozen = frozen\n\n	def freeze(self):\n		self._mark(True)\n\n	def unfreeze(self):\n		self._mark(False)")]),
('node exists order',None,[(B,"				if value is not None and node.is_frozen:\n					raise RuntimeError('GraphObj is frozen!')\n				if style is not None:\n					node.style = style\n				if label is not None:\n					node.label = label\n				if value is not None:\n					node.value = value\n				return node","				self._update(node, style, label, value)\n				return node"),(B,"	def remove_node(self,","	@staticmethod\n	def _update(node, style, label, value):\n		if value is not None and node.is_frozen:\n			raise RuntimeError('GraphObj is frozen!')\n		if style is not None:\n			node.style = style\n		if label is not None:\n			node.label = label\n		if value is not None:\n			node.value = value\n\n	def remove_node(self,")]),
('stylize helper',None,[(G,"			for node in self.nodes:\n				if node.style is None:\n					node.style = smart_global_node_style_overwrite.copy()","			for node in self.nodes:\n				if not node.has_style():\n					node.style = smart_global_node_style_overwrite.copy()"),(G,"			node = self.nodes_dict[name]\n			style = node.style.copy()\n			style.reset_colours()\n			style.colour = colour\n			node._style = style\n","			self._recolour(self.nodes_dict[name], colour)\n"),(G,"	def stylize(self):\n","	@staticmethod\n	def _recolour(obj, colour):\n		style = obj.style.copy()\n		style.reset_colours()\n		style.colour = colour\n		obj._style = style\n\n	def stylize(self):\n"),(G,"			edge = self.edges_dict[edge_id]\n			_ = edge.style.colour\n			style = edge.style.copy()\n			style.reset_colours()\n			style.colour = colour\n			edge._style = style\n			_ = edge.style.colour\n","			self._recolour(self.edges_dict[edge_id], colour)\n")]),
('stylize filter',None,[(SE,"	for edge in graph.edges:\n		if edge.style is None:\n			colour","	for edge in [e for e in graph.edges if e.style is None]:\n		if True:\n			colour")]),
('random continue',None,[(SR,"		if node.style is None:\n			node.style = style","		if node.has_style():\n			continue\n		node.style = style")]),
('pensieve merge ifs',None,[(SP,"		if node.style is None:\n			if is_root_or_parents_are_in_loop(node):\n				colour","		if node.style is None and is_root_or_parents_are_in_loop(node):\n				colour")]),
('smart style helper',None,[(G,"			smart_global_node_style_overwrite = None\n			if isinstance(self._global_node_style_overwrite, dict) and 'shape' in self._global_node_style_overwrite:\n				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):\n					if max([len(str(node.name)) for node in self.nodes], default=0) < 3:\n						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()\n						smart_global_node_style_overwrite['shape'] = 'circle'\n			if smart_global_node_style_overwrite is None:\n				smart_global_node_style_overwrite = self._global_node_style_overwrite\n\n			for node in self.nodes:\n				if node.style is None:\n","			smart_global_node_style_overwrite = self._get_smart_style()\n			for node in self.nodes:\n				if node.style is None:\n"),(G,"	def stylize(self):\n","	def _get_smart_style(self):\n		overwrite = self._global_node_style_overwrite\n		if isinstance(overwrite, dict) and 'shape' in overwrite and overwrite['shape'].lower().startswith('auto'):\n			if max([len(str(node.name)) for node in self.nodes], default=0) < 3:\n				overwrite = overwrite.copy()\n				overwrite['shape'] = 'circle'\n		return overwrite\n\n	def stylize(self):\n")]),
]
