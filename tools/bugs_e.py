B='_BasicGraph.py'; N='Node.py'; E='Edge.py'; O='_GraphObj.py'; G='_GraphWithoutDisplay.py'; SP='styling/stylize_with_pensieve.py'; SR='styling/stylize_randomly.py'; SE='styling/stylize_edges_based_on_nodes.py'; ES='styling/EdgeStyle.py'; NS='styling/NodeStyle.py'; IS='styling/inherit_style.py'; D='Graph.py'
EDITS=[
('node copy lighter',{'C29'},[(NS,"shape_style=self._shape_style, lighter_fill=self._lighter_fill\n","shape_style=self._shape_style\n")]),
('node copy text size',{'C29'},[(NS,"text_colour=self._text_colour, text_size=self._text_size,\n			shape","text_colour=self._text_colour,\n			shape")]),
('node copy border flag',{'C29'},[(NS,"		result._border_colour_based_on_main_colour = self._border_colour_based_on_main_colour\n		return result","		return result")]),
('node copy opacity falsy',{'C29'},[(NS,"opacity=self._opacity, font","opacity=self._opacity or None, font")]),
('node copy font default',{'C29'},[(NS,"		self._font = font\n","		self._font = font or DEFAULT_FONT\n")]),
('node copy border from fill',{'C29'},[(NS,"fill_colour=self._fill_colour, border_colour=self._border_colour,","fill_colour=self._fill_colour, border_colour=self._fill_colour,")]),
('node init swapped',{'C29'},[(NS,"		self._shape = shape\n		self._shape_style = shape_style\n\n	def comp","		self._shape = shape\n		self._shape_style = shape_style if shape is not None else None\n\n	def comp")]),
('node state fill',{'C29'},[(NS,"			'_lighter_fill': self._lighter_fill,\n","			'_lighter_fill': self._fill_colour_based_on_main_colour,\n")]),
('node state restored',{'C29'},[(NS,"		self._text_size = state['_text_size']\n		self._shape = ","		self._shape = ")]),
('node state missing',{'C29'},[(NS,"			'_shape_style': self._shape_style\n		}\n\n	def __set","		}\n\n	def __set")]),
('node state truthy',{'C29'},[(NS,"		self._opacity = state['_opacity']\n","		self._opacity = state['_opacity'] or 1\n")]),
('node invert self',{'C29'},[(NS,"			result.text_colour = result.text_colour.invert()\n","			result.text_colour = self.text_colour = result.text_colour.invert()\n")]),
('node invert in place',{'C29'},[(NS,"		result = self.copy()\n\n		if result._fill","		result = self\n\n		if result._fill")]),
('node invert reset',{'C29'},[(NS,"		result = self.copy()\n\n		if result._fill","		result = self.copy()\n		self.reset_colours()\n\n		if result._fill")]),
('edge copy line width',{'C29'},[(ES,"label_style=self._label_style, line_width=self._line_width\n","label_style=self._label_style\n")]),
('edge copy arrow label',{'C29'},[(ES,"arrow_size=self._arrow_size, label_style=self._label_style, line","arrow_size=self._arrow_size, label_style=self._label_style if self._arrow_size else DEFAULT_EDGE_LABEL_STYLE, line")]),
('edge copy flag inverted',{'C29'},[(ES,"		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour\n","")]),
('edge copy text none',{'C29'},[(ES,"font=self._font, text_colour=self._text_colour, text_size=self._text_size,\n			arrow","font=self._font, text_size=self._text_size,\n			arrow")]),
('edge state width',{'C29'},[(ES,"			'_line_width': self._line_width\n","			'_line_width': self._arrow_size\n")]),
('edge state label',{'C29'},[(ES,"		self._label_style = state['_label_style']\n","		self._label_style = DEFAULT_EDGE_LABEL_STYLE\n")]),
('edge invert',{'C29'},[(ES,"		if result.colour is not None:\n			result.colour = result.colour.invert()\n\n		return result","		if self.colour is not None:\n			self.colour = result.colour.invert()\n\n		return result")]),
('edge invert keeps',{'C29'},[(ES,"	def invert_colours(self):\n		\"\"\"\n		:rtype: EdgeStyle\n		\"\"\"\n		result = self.copy()","	def invert_colours(self):\n		\"\"\"\n		:rtype: EdgeStyle\n		\"\"\"\n		result = EdgeStyle(colour=self._colour, opacity=self._opacity, font=self._font, text_colour=self._text_colour)")]),
('edge copy dict shared',{'C29'},[(ES,"""		result = self.__class__(
			colour=self._colour, opacity=self._opacity,
			font=self._font, text_colour=self._text_colour, text_size=self._text_size,
			arrow_size=self._arrow_size, label_style=self._label_style, line_width=self._line_width
		)
		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
""","""		result = self.__class__.__new__(self.__class__)
		result.__dict__ = self.__dict__
""")]),
('sim superset',{'C25'},[(B,"		if len(self._nodes_dict) != len(other._nodes_dict):\n			return False\n\n","")]),
('sim keyerror',{'C25'},[(B,"			if name not in other._nodes_dict:\n				return False\n","")]),
('sim strict',{'C25'},[(B,"		if self._is_strict != other._is_strict:\n			return False\n\n","")]),
('sim ordering or',{'C25'},[(B,"		if self._ordering != other._ordering:\n","		if self._ordering and not other._ordering:\n")]),
('sim node ignored',{'C25'},[(B,"			if not node.is_similar_to(other=other_node):\n				return False\n","			if not node.is_similar_to(other=other_node):\n				continue\n")]),
('sim first answer',{'C25'},[(B,"			if not node.is_similar_to(other=other_node):\n				return False\n","			return node.is_similar_to(other=other_node)\n")]),
('sim node edges len',{'C25'},[(N,"		if len(self._outward_edges_dict) != len(other._outward_edges_dict):\n			return False\n","")]),
('sim node edges keyerror',{'C25'},[(N,"			if id not in other._outward_edges_dict:\n				return False\n","")]),
('sim node edges skip',{'C25'},[(N,"			if id not in other._outward_edges_dict:\n				return False\n","			if id not in other._outward_edges_dict:\n				continue\n")]),
('sim value or',{'C25'},[(O,"condition_2 = self._value == other._value","condition_2 = self._value is None or self._value == other._value")]),
('sim style',{'C25'},[(O,"condition_3 = self._style == other._style","condition_3 = (self._style is None) == (other._style is None)")]),
('sim params keys',{'C25'},[(O,"condition_4 = self._parameters == other._parameters","condition_4 = self._parameters.keys() == other._parameters.keys()")]),
('sim cond or',{'C25'},[(O,"condition_1 and condition_2 and condition_3 and condition_4","condition_1 and condition_2 and (condition_3 or condition_4)")]),
('sim edge super',{'C25'},[(E,"		if not super().is_similar_to(other=other):\n			return False\n		return (self._start","		return (self._start")]),
('sim edges both',{'C25'},[(N,"			if not outward_edge.is_similar_to(other=other_outward_edge):\n				return False\n",""),(N,"			if not inward_edge.is_similar_to(other=other_inward_edge):\n				return False\n","")]),
('sim none',{'C25'},[(B,"		if self._ordering != other._ordering:\n			return False\n\n		return True","		if self._ordering == other._ordering:\n			return True")]),
('sim edge objects',{'C25'},[(N,"		for id, outward_edge in self._outward_edges_dict.items():\n			if id not in other._outward_edges_dict:\n				return False\n","		for id, outward_edge in self._outward_edges_dict.items():\n			if outward_edge not in other.outward_edges:\n				return False\n")]),
('sim node eq',{'C25'},[(B,"			other_node = other._nodes_dict[name]\n			if not node.is","			other_node = other._nodes_dict[name]\n			if node == other_node and len(node.edges) == 0:\n				continue\n			if not node.is")]),
('sim edge values loops',{'C25'},[(N,"			other_outward_edge = other._outward_edges_dict[id]\n","			if outward_edge._start is outward_edge._end:\n				continue\n			other_outward_edge = other._outward_edges_dict[id]\n"),(N,"			other_inward_edge = other._inward_edges_dict[id]\n","			if inward_edge._start is inward_edge._end:\n				continue\n			other_inward_edge = other._inward_edges_dict[id]\n")]),
('sim self graph',{'C25'},[(O,"condition_1 = self.id == other.id","condition_1 = self.id == other.id and self._graph is not other._graph")]),
]
