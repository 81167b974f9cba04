# bugs for C19 C20 C28 C17 C16 C25 C29 ...
B='_BasicGraph.py'; N='Node.py'; E='Edge.py'; O='_GraphObj.py'; G='_GraphWithoutDisplay.py'; SP='styling/stylize_with_pensieve.py'; SR='styling/stylize_randomly.py'; SE='styling/stylize_edges_based_on_nodes.py'; ES='styling/EdgeStyle.py'; NS='styling/NodeStyle.py'; IS='styling/inherit_style.py'; D='Graph.py'
EDITS=[
('label falsy',{'C28'},[(N,"		if self._label:\n","		if self._label is not None:\n")]),
('label upper',{'C28'},[(N,"			result = str(self._label)","			result = str(self._label).strip()")]),
('label converter node for edge',{'C28'},[(E,"		return self.graph._edge_label_converter","		return self.graph._node_label_converter")]),
('label converter on raw',{'C28'},[(O,"			return self._label_converter(self.label)","			return self._label_converter(self._label)")]),
('edge value through converter',{'C28'},[(O,"		else:\n			return self._value\n","		elif self._label_converter is not None:\n			return self._label_converter(self._value)\n		else:\n			return self._value\n")]),
('edge label falsy',{'C28'},[(O,"		if self._label is not None:\n			if self._label_converter","		if self._label:\n			if self._label_converter")]),
('label setter tooltip',{'C28'},[(N,"	def label(self, label: str):\n		\"\"\"Sets the label of the node.\"\"\"\n		self._label = label","	def label(self, label: str):\n		\"\"\"Sets the label of the node.\"\"\"\n		if self._tooltip == self._label:\n			self._tooltip = label\n		self._label = label")]),
('style setter always',{'C19'},[(N,"		if self._style is not None and not self.graph._style_overwrite_allowed:","		if self._style is not None and self._style is style and not self.graph._style_overwrite_allowed:")]),
('style setter edge allow dict',{'C19'},[(E,"		if self._style is not None and not self.graph._style_overwrite_allowed:","		if self._style is not None and not self.graph._style_overwrite_allowed and not isinstance(style, dict):")]),
('style setter none clears',{'C19'},[(E,"		elif style is None:\n			pass\n","		elif style is None:\n			self._style = None\n")]),
('style setter wrong class',{'C19'},[(N,"		else:\n			raise TypeError(f'node style","		elif hasattr(style, 'copy'):\n			self._style = style\n		else:\n			raise TypeError(f'node style")]),
('global style replaces',{'C19'},[(G,"				if node.style is None:\n					node.style = smart","				if node.style is None or self._style_overwrite_allowed:\n					node.style = smart")]),
('random restyles',{'C19'},[(SR,"		if node.style is None:\n			node.style = style","		if node.style is None or graph._style_overwrite_allowed:\n			node.style = style")]),
('edges restyled',{'C19'},[(SE,"		if edge.style is None:\n","		if edge.style is None or (graph._style_overwrite_allowed and edge.start.style is not None):\n")]),
('overwrite direct',{'C19'},[(G,"				self.nodes_dict[name].style.complement(style)","				node = self.nodes_dict[name]\n				new_style = node.style.copy()\n				new_style.complement(style)\n				node._style = new_style")]),
('overwrite default',{'C19'},[(G,"		self._style_overwrite_allowed = style_overwrite_allowed","		self._style_overwrite_allowed = style_overwrite_allowed or stylist is None")]),
('freeze cond',{'C20'},[(O,"		if self.is_frozen:\n","		if self.is_frozen and value is not None:\n")]),
('freeze on connect',{'C20'},[(B,"			if value is not None and edge.is_frozen:\n				raise RuntimeError('GraphObj is frozen!')\n",""),(B,"			if value is not None:\n				edge.value = value","			if value is not None:\n				edge._value = value")]),
('unfreeze on set state',{'C20'},[(B,"				if label is not None:\n					node.label = label\n","				if label is not None:\n					node.label = label\n					node.unfreeze()\n")]),
('freeze once',{'C20'},[(O,"	def unfreeze(self):\n		self._frozen = False","	def unfreeze(self):\n		self._frozen = self._value is None")]),
('is_frozen',{'C20'},[(O,"		return self._frozen\n","		return self._frozen and self._graph is not None\n")]),
('param frozen',{'C20'},[(O,"		self._frozen = False\n","		self._frozen = kwargs.pop('frozen', False)\n")]),
('stylize writes value',{'C20'},[(SE,"			edge.style = style","			edge.style = style\n			edge._value = edge.value or 1")]),
]
