B='_BasicGraph.py'; N='Node.py'; E='Edge.py'; O='_GraphObj.py'; G='_GraphWithoutDisplay.py'; SP='styling/stylize_with_pensieve.py'; SR='styling/stylize_randomly.py'; SE='styling/stylize_edges_based_on_nodes.py'; ES='styling/EdgeStyle.py'; NS='styling/NodeStyle.py'; IS='styling/inherit_style.py'; D='Graph.py'
EDCOPY="""		result = self.__class__(
			colour=self._colour, opacity=self._opacity,
			font=self._font, text_colour=self._text_colour, text_size=self._text_size,
			arrow_size=self._arrow_size, label_style=self._label_style, line_width=self._line_width
		)
		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
"""
EDITS=[
('edge copy by state',None,[(ES,EDCOPY,"""		result = self.__class__.__new__(self.__class__)
		result.__setstate__(self.__getstate__())
""")]),
('edge copy by state 2',None,[(ES,EDCOPY,"""		result = EdgeStyle()
		result.__setstate__(self.__getstate__())
""")]),
('edge copy by loop',None,[(ES,EDCOPY,"""		result = EdgeStyle()
		for key, value in self.__getstate__().items():
			setattr(result, key, value)
""")]),
('edge copy by deepcopy',None,[(ES,"from colouration import Colour\n","import copy\nfrom colouration import Colour\n"),(ES,EDCOPY,"		result = copy.deepcopy(self)\n")]),
('edge copy by copy',None,[(ES,"from colouration import Colour\n","import copy\nfrom colouration import Colour\n"),(ES,EDCOPY,"		result = copy.copy(self)\n")]),
('edge copy by dict',None,[(ES,EDCOPY,"		result = self.__class__.__new__(self.__class__)\n		result.__dict__.update(self.__dict__)\n")]),
('edge copy kwargs dict',None,[(ES,EDCOPY,"""		arguments = {
			'colour': self._colour, 'opacity': self._opacity, 'font': self._font, 'text_colour': self._text_colour,
			'text_size': self._text_size, 'arrow_size': self._arrow_size, 'label_style': self._label_style,
			'line_width': self._line_width
		}
		result = type(self)(**arguments)
		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
""")]),
('edge state dict',None,[(ES,"""		return {
			'_colour': self._colour,
			'_opacity': self._opacity,
			'_font': self._font,
			'_text_colour': self._text_colour,
			'_text_colour_based_on_main_colour': self._text_colour_based_on_main_colour,
			'_text_size': self._text_size,
			'_arrow_size': self._arrow_size,
			'_label_style': self._label_style,
			'_line_width': self._line_width
		}
""","		return self.__dict__.copy()\n"),(ES,"""		self._colour = state['_colour']
		self._opacity = state['_opacity']
		self._font = state['_font']
		self._text_colour = state['_text_colour']
		self._text_colour_based_on_main_colour = state['_text_colour_based_on_main_colour']
		self._text_size = state['_text_size']
		self._arrow_size = state['_arrow_size']
		self._label_style = state['_label_style']
		self._line_width = state['_line_width']
""","		self.__dict__.update(state)\n")]),
('edge state names',None,[(ES,"class EdgeStyle:\n","_STATE = (\n	'_colour', '_opacity', '_font', '_text_colour', '_text_colour_based_on_main_colour', '_text_size', '_arrow_size',\n	'_label_style', '_line_width'\n)\n\n\nclass EdgeStyle:\n"),(ES,"""		return {
			'_colour': self._colour,
			'_opacity': self._opacity,
			'_font': self._font,
			'_text_colour': self._text_colour,
			'_text_colour_based_on_main_colour': self._text_colour_based_on_main_colour,
			'_text_size': self._text_size,
			'_arrow_size': self._arrow_size,
			'_label_style': self._label_style,
			'_line_width': self._line_width
		}
""","		return {key: getattr(self, key) for key in _STATE}\n"),(ES,"""		self._colour = state['_colour']
		self._opacity = state['_opacity']
		self._font = state['_font']
		self._text_colour = state['_text_colour']
		self._text_colour_based_on_main_colour = state['_text_colour_based_on_main_colour']
		self._text_size = state['_text_size']
		self._arrow_size = state['_arrow_size']
		self._label_style = state['_label_style']
		self._line_width = state['_line_width']
""","		for key in _STATE:\n			setattr(self, key, state[key])\n")]),
('node invert helper',None,[(NS,"""		if result._fill_colour_based_on_main_colour:
			result._fill_colour = None
		else:
			result.fill_colour = result.fill_colour.invert()

		if result._text_colour_based_on_main_colour:
			result._text_colour = None
		else:
			result.text_colour = result.text_colour.invert()

		if result._border_colour_based_on_main_colour:
			result._border_colour = None
		else:
			result.border_colour = result.border_colour.invert()
""","""		for name in ('fill_colour', 'text_colour', 'border_colour'):
			if getattr(result, f'_{name}_based_on_main_colour'):
				setattr(result, f'_{name}', None)
			else:
				setattr(result, name, getattr(result, name).invert())
""")]),
('node copy helper',None,[(NS,"""		result._fill_colour_based_on_main_colour = self._fill_colour_based_on_main_colour
		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
		result._border_colour_based_on_main_colour = self._border_colour_based_on_main_colour
		return result
""","""		self._copy_flags(result)
		return result

	def _copy_flags(self, other):
		other._fill_colour_based_on_main_colour = self._fill_colour_based_on_main_colour
		other._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
		other._border_colour_based_on_main_colour = self._border_colour_based_on_main_colour
""")]),
('sim all',None,[(B,'\t\tif len(self._nodes_dict) != len(other._nodes_dict):\n\t\t\treturn False\n\n\t\tfor name, node in self._nodes_dict.items():\n\t\t\tif name not in other._nodes_dict:\n\t\t\t\treturn False\n\t\t\tother_node = other._nodes_dict[name]\n\t\t\tif not node.is_similar_to(other=other_node):\n\t\t\t\treturn False\n\n\t\tif self._is_strict != other._is_strict:\n\t\t\treturn False\n\n\t\tif self._ordering != other._ordering:\n\t\t\treturn False\n\n\t\treturn True','\t\tif self._is_strict != other._is_strict or self._ordering != other._ordering:\n\t\t\treturn False\n\t\tif len(self._nodes_dict) != len(other._nodes_dict):\n\t\t\treturn False\n\t\treturn all(\n\t\t\tname in other._nodes_dict and node.is_similar_to(other=other._nodes_dict[name])\n\t\t\tfor name, node in self._nodes_dict.items()\n\t\t)')]),
('sim keys',None,[(B,'\t\tif len(self._nodes_dict) != len(other._nodes_dict):\n\t\t\treturn False\n\n\t\tfor name, node in self._nodes_dict.items():\n\t\t\tif name not in other._nodes_dict:\n\t\t\t\treturn False\n\t\t\tother_node = other._nodes_dict[name]\n\t\t\tif not node.is_similar_to(other=other_node):\n\t\t\t\treturn False\n\n\t\tif self._is_strict != other._is_strict:\n\t\t\treturn False\n\n\t\tif self._ordering != other._ordering:\n\t\t\treturn False\n\n\t\treturn True','\t\tif self._is_strict != other._is_strict or self._ordering != other._ordering:\n\t\t\treturn False\n\t\tif self._nodes_dict.keys() != other._nodes_dict.keys():\n\t\t\treturn False\n\t\tfor name, node in self._nodes_dict.items():\n\t\t\tif not node.is_similar_to(other=other._nodes_dict[name]):\n\t\t\t\treturn False\n\t\treturn True')]),
('sim sets',None,[(B,'\t\tif len(self._nodes_dict) != len(other._nodes_dict):\n\t\t\treturn False\n\n\t\tfor name, node in self._nodes_dict.items():\n\t\t\tif name not in other._nodes_dict:\n\t\t\t\treturn False\n\t\t\tother_node = other._nodes_dict[name]\n\t\t\tif not node.is_similar_to(other=other_node):\n\t\t\t\treturn False\n\n\t\tif self._is_strict != other._is_strict:\n\t\t\treturn False\n\n\t\tif self._ordering != other._ordering:\n\t\t\treturn False\n\n\t\treturn True','\t\tif set(self._nodes_dict) != set(other._nodes_dict):\n\t\t\treturn False\n\t\tfor name in self._nodes_dict:\n\t\t\tif not self._nodes_dict[name].is_similar_to(other=other._nodes_dict[name]):\n\t\t\t\treturn False\n\t\treturn self._is_strict == other._is_strict and self._ordering == other._ordering')]),
('sim get',None,[(B,'\t\tif len(self._nodes_dict) != len(other._nodes_dict):\n\t\t\treturn False\n\n\t\tfor name, node in self._nodes_dict.items():\n\t\t\tif name not in other._nodes_dict:\n\t\t\t\treturn False\n\t\t\tother_node = other._nodes_dict[name]\n\t\t\tif not node.is_similar_to(other=other_node):\n\t\t\t\treturn False\n\n\t\tif self._is_strict != other._is_strict:\n\t\t\treturn False\n\n\t\tif self._ordering != other._ordering:\n\t\t\treturn False\n\n\t\treturn True','\t\tif len(self._nodes_dict) != len(other._nodes_dict):\n\t\t\treturn False\n\n\t\tfor name, node in self._nodes_dict.items():\n\t\t\tother_node = other._nodes_dict.get(name)\n\t\t\tif other_node is None or not node.is_similar_to(other=other_node):\n\t\t\t\treturn False\n\n\t\treturn self._is_strict == other._is_strict and self._ordering == other._ordering')]),
('sim try',None,[(B,'\t\tif len(self._nodes_dict) != len(other._nodes_dict):\n\t\t\treturn False\n\n\t\tfor name, node in self._nodes_dict.items():\n\t\t\tif name not in other._nodes_dict:\n\t\t\t\treturn False\n\t\t\tother_node = other._nodes_dict[name]\n\t\t\tif not node.is_similar_to(other=other_node):\n\t\t\t\treturn False\n\n\t\tif self._is_strict != other._is_strict:\n\t\t\treturn False\n\n\t\tif self._ordering != other._ordering:\n\t\t\treturn False\n\n\t\treturn True','\t\tif len(self._nodes_dict) != len(other._nodes_dict):\n\t\t\treturn False\n\n\t\tfor name, node in self._nodes_dict.items():\n\t\t\ttry:\n\t\t\t\tother_node = other._nodes_dict[name]\n\t\t\texcept KeyError:\n\t\t\t\treturn False\n\t\t\tif not node.is_similar_to(other=other_node):\n\t\t\t\treturn False\n\n\t\treturn self._is_strict == other._is_strict and self._ordering == other._ordering')]),
('sim helper',None,[(B,'\t\tif len(self._nodes_dict) != len(other._nodes_dict):\n\t\t\treturn False\n\n\t\tfor name, node in self._nodes_dict.items():\n\t\t\tif name not in other._nodes_dict:\n\t\t\t\treturn False\n\t\t\tother_node = other._nodes_dict[name]\n\t\t\tif not node.is_similar_to(other=other_node):\n\t\t\t\treturn False\n\n\t\tif self._is_strict != other._is_strict:\n\t\t\treturn False\n\n\t\tif self._ordering != other._ordering:\n\t\t\treturn False\n\n\t\treturn True','\t\treturn self._has_similar_options(other) and self._has_similar_nodes(other)\n\n\tdef _has_similar_options(self, other):\n\t\treturn (self._is_strict, self._ordering) == (other._is_strict, other._ordering)\n\n\tdef _has_similar_nodes(self, other):\n\t\tif len(self._nodes_dict) != len(other._nodes_dict):\n\t\t\treturn False\n\t\tfor node in self.nodes:\n\t\t\tif node.name not in other or not node.is_similar_to(other=other.get_node(node.name)):\n\t\t\t\treturn False\n\t\treturn True')]),
('sim flag',None,[(B,'\t\tif len(self._nodes_dict) != len(other._nodes_dict):\n\t\t\treturn False\n\n\t\tfor name, node in self._nodes_dict.items():\n\t\t\tif name not in other._nodes_dict:\n\t\t\t\treturn False\n\t\t\tother_node = other._nodes_dict[name]\n\t\t\tif not node.is_similar_to(other=other_node):\n\t\t\t\treturn False\n\n\t\tif self._is_strict != other._is_strict:\n\t\t\treturn False\n\n\t\tif self._ordering != other._ordering:\n\t\t\treturn False\n\n\t\treturn True','\t\tresult = len(self._nodes_dict) == len(other._nodes_dict)\n\t\tif result:\n\t\t\tfor name, node in self._nodes_dict.items():\n\t\t\t\tif name not in other._nodes_dict or not node.is_similar_to(other=other._nodes_dict[name]):\n\t\t\t\t\tresult = False\n\t\t\t\t\tbreak\n\t\tif self._is_strict != other._is_strict or self._ordering != other._ordering:\n\t\t\tresult = False\n\t\treturn result')]),
('sim node loop helper',None,[(N,"""		for id, outward_edge in self._outward_edges_dict.items():
			if id not in other._outward_edges_dict:
				return False
			other_outward_edge = other._outward_edges_dict[id]
			if not outward_edge.is_similar_to(other=other_outward_edge):
				return False
		for id, inward_edge in self._inward_edges_dict.items():
			if id not in other._inward_edges_dict:
				return False
			other_inward_edge = other._inward_edges_dict[id]
			if not inward_edge.is_similar_to(other=other_inward_edge):
				return False
		return True
""","""		return (
			self._edges_are_similar(self._outward_edges_dict, other._outward_edges_dict) and
			self._edges_are_similar(self._inward_edges_dict, other._inward_edges_dict)
		)

	@staticmethod
	def _edges_are_similar(edges, other_edges):
		for id, edge in edges.items():
			if id not in other_edges:
				return False
			if not edge.is_similar_to(other=other_edges[id]):
				return False
		return True
""")]),
('sim node both tables',None,[(N,"""		for id, outward_edge in self._outward_edges_dict.items():
			if id not in other._outward_edges_dict:
				return False
			other_outward_edge = other._outward_edges_dict[id]
			if not outward_edge.is_similar_to(other=other_outward_edge):
				return False
		for id, inward_edge in self._inward_edges_dict.items():
			if id not in other._inward_edges_dict:
				return False
			other_inward_edge = other._inward_edges_dict[id]
			if not inward_edge.is_similar_to(other=other_inward_edge):
				return False
		return True
""","""		for edges, other_edges in (
			(self._outward_edges_dict, other._outward_edges_dict), (self._inward_edges_dict, other._inward_edges_dict)
		):
			for id, edge in edges.items():
				if id not in other_edges or not edge.is_similar_to(other=other_edges[id]):
					return False
		return True
""")]),
('sim obj early',None,[(O,"""		condition_1 = self.id == other.id
		condition_2 = self._value == other._value
		condition_3 = self._style == other._style
		condition_4 = self._parameters == other._parameters
		return  condition_1 and condition_2 and condition_3 and condition_4
""","""		if self.id != other.id:
			return False
		return all([
			self._value == other._value, self._style == other._style, self._parameters == other._parameters
		])
""")]),
('sim obj tuple',None,[(O,"""		return  condition_1 and condition_2 and condition_3 and condition_4
""","""		return condition_1 and (self._value, self._style, self._parameters) == (other._value, other._style, other._parameters)
""")]),
('sim obj names',None,[(O,"""		return  condition_1 and condition_2 and condition_3 and condition_4
""","""		for name in ('_value', '_style', '_parameters'):
			if getattr(self, name) != getattr(other, name):
				return False
		return condition_1
""")]),
]
