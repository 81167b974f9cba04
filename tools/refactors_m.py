"""Edits that keep the behaviour: styles, styling functions, the traversals, the common base of nodes and edges."""
N, E, G, O = 'styling/NodeStyle.py', 'styling/EdgeStyle.py', '_GraphWithoutDisplay.py', '_GraphObj.py'
R, P, I, S = 'styling/stylize_randomly.py', 'styling/stylize_with_pensieve.py', 'styling/inherit_style.py', 'styling/stylize_edges_based_on_nodes.py'
L, Q, A, D = 'styling/get_least_used_colour.py', 'styling/is_root_or_parents_are_in_loop.py', 'get_ancestors.py', 'get_descendants.py'
EDITS = [
    ('state by names', None, [(N, """		return {
			'_colour': self._colour,
			'_fill_colour': self._fill_colour,
			'_border_colour': self._border_colour,
			'_fill_colour_based_on_main_colour': self._fill_colour_based_on_main_colour,
			'_border_colour_based_on_main_colour': self._border_colour_based_on_main_colour,
			'_text_colour_based_on_main_colour': self._text_colour_based_on_main_colour,
			'_lighter_fill': self._lighter_fill,
			'_opacity': self._opacity,
			'_font': self._font,
			'_text_colour': self._text_colour,
			'_text_size': self._text_size,
			'_shape': self._shape,
			'_shape_style': self._shape_style
		}
""", """		names = (
			'_colour', '_fill_colour', '_border_colour', '_fill_colour_based_on_main_colour', '_border_colour_based_on_main_colour',
			'_text_colour_based_on_main_colour', '_lighter_fill', '_opacity', '_font', '_text_colour', '_text_size', '_shape', '_shape_style'
		)
		return {name: getattr(self, name) for name in names}
""")]),
    ('setstate all', None, [(E, """		self._colour = state['_colour']
		self._opacity = state['_opacity']
		self._font = state['_font']
		self._text_colour = state['_text_colour']
		self._text_colour_based_on_main_colour = state['_text_colour_based_on_main_colour']
		self._text_size = state['_text_size']
		self._arrow_size = state['_arrow_size']
		self._label_style = state['_label_style']
		self._line_width = state['_line_width']
""", """		for key, value in state.items():
			setattr(self, key, value)
""")]),
    ('setstate update', None, [(E, """		self._colour = state['_colour']
		self._opacity = state['_opacity']
		self._font = state['_font']
		self._text_colour = state['_text_colour']
		self._text_colour_based_on_main_colour = state['_text_colour_based_on_main_colour']
		self._text_size = state['_text_size']
		self._arrow_size = state['_arrow_size']
		self._label_style = state['_label_style']
		self._line_width = state['_line_width']
""", """		self.__dict__.update(state)
""")]),
    ('getstate dict', None, [(E, """		return {
			'_colour': self._colour,
			'_opacity': self._opacity,
			'_font': self._font,
			'_text_colour': self._text_colour,
			'_text_colour_based_on_main_colour': self._text_colour_based_on_main_colour,
			'_text_size': self._text_size,
			'_arrow_size': self._arrow_size,
			'_label_style': self._label_style,
			'_line_width': self._line_width
		}
""", """		return dict(self.__dict__)
""")]),
    ('copy helper', None, [(N, """		result = self.__class__(
			colour=self._colour, fill_colour=self._fill_colour, border_colour=self._border_colour,
			opacity=self._opacity, font=self._font, text_colour=self._text_colour, text_size=self._text_size,
			shape=self._shape, shape_style=self._shape_style, lighter_fill=self._lighter_fill
		)
""", """		result = self.__class__(**self._arguments())
"""), (N, """	@property
	def colour(self):
""", """	def _arguments(self):
		return {
			'colour': self._colour, 'fill_colour': self._fill_colour, 'border_colour': self._border_colour,
			'opacity': self._opacity, 'font': self._font, 'text_colour': self._text_colour, 'text_size': self._text_size,
			'shape': self._shape, 'shape_style': self._shape_style, 'lighter_fill': self._lighter_fill
		}

	@property
	def colour(self):
""")]),
    ('copy type', None, [(E, 'result = self.__class__(\n', 'result = type(self)(\n')]),
    ('graphviz helper', None, [(N, """		key_values = []
		for key, value in self._graphviz_dictionary.items():
			if isinstance(value, Colour):
				value = value.get_hexadecimal(opacity=self._opacity)

			if isinstance(key, str):
				key = key.strip('"')

			if isinstance(value, str):
				value = escape_quotes(value.strip('"'))

			if value is not None:
				key_values.append((key, value))

		return ' '.join([f'"{key}"="{value}"' for key, value in key_values])""", """		pairs = ((key, self._graphviz_value(value)) for key, value in self._graphviz_dictionary.items())
		return ' '.join(f'"{key}"="{value}"' for key, value in pairs if value is not None)

	def _graphviz_value(self, value):
		if isinstance(value, Colour):
			value = value.get_hexadecimal(opacity=self._opacity)
		if isinstance(value, str):
			return escape_quotes(value.strip('"'))
		return value""")]),
    ('graphviz continue', None, [(E, """			if isinstance(value, Colour):
				value = value.get_hexadecimal(opacity=self._opacity)
""", """			if value is None:
				continue
			if isinstance(value, Colour):
				value = value.get_hexadecimal(opacity=self._opacity)
"""), (E, """			if value is not None:
				key_values.append((key, value))

		return ' '.join([f'"{key}"="{value}"' for key, value in key_values])""", """			key_values.append(f'"{key}"="{value}"')

		return ' '.join(key_values)""")]),
    ('graphviz string', None, [(E, """		key_values = []
		for key, value in""", """		text = ''
		for key, value in"""), (E, """				key_values.append((key, value))

		return ' '.join([f'"{key}"="{value}"' for key, value in key_values])""", """				if text:
					text += ' '
				text += '"{}"="{}"'.format(key, value)

		return text""")]),
    ('one style builder', None, [(R, """		if node_style is None:
			style = NodeStyle(colour=colour)
		else:
			style = node_style.copy()
			style.reset_colours()
			style.colour = colour
		if node.style is None:
			node.style = style
""", """		style = _coloured(node_style, colour)
		if node.style is None:
			node.style = style
"""), (R, """def stylize_randomly(
""", """def _coloured(style, colour):
	if style is None:
		return NodeStyle(colour=colour)
	style = style.copy()
	style.reset_colours()
	style.colour = colour
	return style


def stylize_randomly(
""")]),
    ('random sorted copy', None, [(R, '	nodes = list(graph.nodes)\n	random.Random(seed).shuffle(nodes)\n', '	nodes = [node for node in graph.nodes]\n	generator = random.Random(seed)\n	generator.shuffle(nodes)\n')]),
    ('random skip', None, [(R, """		if node.style is None:
			node.style = style
""", """		if node.style is not None:
			continue
		node.style = style
""")]),
    ('scheme helper', None, [(P, """	if isinstance(graph._colour_scheme, str):
		colour_scheme = Scheme(name=graph._colour_scheme)
	else:
		colour_scheme = graph._colour_scheme
	colours_used = {colour: 0 for colour in colour_scheme.colours}
""", """	colour_scheme = graph._colour_scheme
	if isinstance(colour_scheme, str):
		colour_scheme = Scheme(name=colour_scheme)
	colours_used = dict.fromkeys(colour_scheme.colours, 0)
""")]),
    ('pensieve one condition', None, [(P, """		if node.style is None:
			if is_root_or_parents_are_in_loop(node):
				colour""", """		if node.style is None and is_root_or_parents_are_in_loop(node):
			if True:
				colour""")]),
    ('pensieve lists', None, [(P, """	for node in graph.nodes:
		if not is_root_or_parents_are_in_loop(node):
			if node.style is None:
				node.style = inherit_style(""", """	branches = [node for node in graph.nodes if not is_root_or_parents_are_in_loop(node)]
	for node in branches:
		if not node.has_style():
			if True:
				node.style = inherit_style(""")]),
    ('pensieve swap', None, [(P, """		if not is_root_or_parents_are_in_loop(node):
			if node.style is None:
				node.style""", """		if node.style is None:
			if not is_root_or_parents_are_in_loop(node):
				node.style""")]),
    ('edges guard', None, [(S, """		if edge.style is None:
			colour = edge""", """		if edge.style is not None:
			continue
		else:
			colour = edge""")]),
    ('edges local', None, [(S, """			colour = edge.start.style.colour.darken(ratio=edge_darkness_ratio)
""", """			start_style = edge.start.style
			colour = start_style.colour.darken(ratio=edge_darkness_ratio)
""")]),
    ('edges arrow', None, [(S, '				style._arrow_size *= edge.value\n', '				style._arrow_size = style._arrow_size * edge.value\n')]),
    ('edges helper', None, [(S, """			if edge_style is None:
				style = EdgeStyle(colour=colour)
			else:
				style = edge_style.copy()
				style.reset_colours()
				style.colour = colour

""", """			style = make_style(colour)

"""), (S, """	for edge in graph.edges:
""", """	def make_style(colour):
		if edge_style is None:
			return EdgeStyle(colour=colour)
		new_style = edge_style.copy()
		new_style.reset_colours()
		new_style.colour = colour
		return new_style

	for edge in graph.edges:
""")]),
    ('least used sorted', None, [(L, 'colour = min(colours_used, key=colours_used.get)', 'colour = min(colours_used.items(), key=lambda item: item[1])[0]')]),
    ('least used loop', None, [(L, 'colour = min(colours_used, key=colours_used.get)', """colour, least = None, None
	for candidate, count in colours_used.items():
		if least is None or count < least:
			colour, least = candidate, count""")]),
    ('least used assign', None, [(L, 'colours_used[colour] += 1', 'colours_used[colour] = colours_used[colour] + 1')]),
    ('root any', None, [(Q, """	parents = [parent for parent in node.parents if not parent.is_in_loop()]
	return len(parents) == 0""", """	return all(parent.is_in_loop() for parent in node.parents)""")]),
    ('root loop', None, [(Q, """	parents = [parent for parent in node.parents if not parent.is_in_loop()]
	return len(parents) == 0""", """	for parent in node.parents:
		if not parent.is_in_loop():
			return False
	return True""")]),
    ('inherit early', None, [(I, """		if main_style is None:
			return node.style.copy()
		else:
			return main_style.copy()
	else:
""", """		return (node.style if main_style is None else main_style).copy()
	else:
""")]),
    ('inherit helper', None, [(I, """			colour.saturation = colour.saturation * 3 / 4
			new_style = style.copy()
			new_style.reset_colours()
			new_style.colour = colour
			return new_style
""", """			colour.saturation = colour.saturation * 3 / 4
			return recoloured(style, colour)
"""), (I, """def inherit_style(node""", """def recoloured(style, colour):
	new_style = style.copy()
	new_style.reset_colours()
	new_style.colour = colour
	return new_style


def inherit_style(node""")]),
    ('inherit unpack', None, [(I, '			parent = node.parents[0]\n', '			parent, = node.parents\n')]),
    ('ancestors set', None, [(A, """				if parent not in objects_travelled:
					objects_travelled.append(parent)
""", """				if parent in objects_travelled:
					continue
				else:
					objects_travelled += [parent]
""")]),
    ('ancestors while', None, [(A, """	while len(layer) > 0 and (max_height is None or distance < max_height):
""", """	while layer:
		if max_height is not None and distance >= max_height:
			break
""")]),
    ('ancestors condition', None, [(A, '	if distance:\n		return ancestors_dict\n	else:\n		return ancestors\n', '	return ancestors_dict if distance else ancestors\n')]),
    ('ancestors extend', None, [(A, '					ancestors.append(parent)\n', ''), (A, '			ancestors_dict[distance] = next_layer\n', '			ancestors_dict[distance] = next_layer\n			ancestors.extend(next_layer)\n')]),
    ('ancestors deque', None, [(A, """		for near_object in layer:
			for parent in near_object.__parents__():
				if parent""", """		parents = [parent for near_object in layer for parent in near_object.__parents__()]
		for parent in parents:
			if True:
				if parent""")]),
    ('descendants names', None, [(D, 'next_layer', 'further'), (D, 'next_layer', 'further'), (D, 'next_layer', 'further'), (D, 'next_layer', 'further'), (D, 'next_layer', 'further')]),
    ('obj state loop', None, [(O, """		self._graph = state['graph']
		self._raw_id = state['id']
		self._value = state['value']
		self._label = state['label']
		self._tooltip = state['tooltip']
		self._style = state['style']
		self._frozen = state['frozen']
		self._parameters = state['parameters']
""", """		self._raw_id = state['id']
		for name in ('graph', 'value', 'label', 'tooltip', 'style', 'frozen', 'parameters'):
			setattr(self, '_' + name, state[name])
""")]),
    ('obj compare helper', None, [(O, """		if not isinstance(other, self.__class__):
			raise TypeError(f'"{other}" is of type: {type(other)}')
		if self.graph != other.graph:
			raise ValueError('two GraphObj from different graphs cannot be compared')
		return self.id == other.id
""", """		self._check_comparable(other)
		return self.id == other.id
"""), (O, """		if not isinstance(other, self.__class__):
			raise TypeError(f'"{other}" is of type: {type(other)}')
		if self.graph != other.graph:
			raise ValueError('two GraphObj from different graphs cannot be compared')
		return self.id != other.id
""", """		return not self == other
"""), (O, """	def has_style(self):
""", """	def _check_comparable(self, other):
		if not isinstance(other, self.__class__):
			raise TypeError(f'"{other}" is of type: {type(other)}')
		if self.graph != other.graph:
			raise ValueError('two GraphObj from different graphs cannot be compared')

	def has_style(self):
""")]),
    ('obj similar', None, [(O, """		condition_1 = self.id == other.id
		condition_2 = self._value == other._value
		condition_3 = self._style == other._style
		condition_4 = self._parameters == other._parameters
		return  condition_1 and condition_2 and condition_3 and condition_4
""", """		if self.id != other.id:
			return False
		return (self._value, self._style, self._parameters) == (other._value, other._style, other._parameters)
""")]),
    ('obj similar all', None, [(O, """		condition_1 = self.id == other.id
		condition_2 = self._value == other._value
		condition_3 = self._style == other._style
		condition_4 = self._parameters == other._parameters
		return  condition_1 and condition_2 and condition_3 and condition_4
""", """		return all(getattr(self, name) == getattr(other, name) for name in ('id', '_value', '_style', '_parameters'))
""")]),
    ('obj frozen', None, [(O, """		if self.is_frozen:
			raise RuntimeError('GraphObj is frozen!')
		self._value = value
""", """		if not self._frozen:
			self._value = value
		else:
			raise RuntimeError('GraphObj is frozen!')
""")]),
    ('obj display', None, [(O, """		if self._label is not None:
			if self._label_converter is not None:
				return self._label_converter(self._label)
			else:
				return self._label
		else:
			return self._value
""", """		if self._label is None:
			return self._value
		if self._label_converter is None:
			return self._label
		return self._label_converter(self._label)
""")]),
    ('obj hash', None, [(O, 'return make_hash_sha256((self._graph.__hash__(), self.id)).__hash__()', 'return hash(make_hash_sha256((hash(self._graph), self.id)))')]),
    ('obj hash helper', None, [(O, """	hasher = hashlib.sha256()
	hasher.update(repr(obj).encode())
	return base32hex""", """	hasher = hashlib.sha256(repr(obj).encode())
	return base32hex""")]),
    ('node style setter', None, [(N, """		if self._fill_colour is None:
			if self._lighter_fill:
				self._fill_colour = colour.lighten(ratio=DEFAULT_NODE_COLOUR_DIFFERENCE_RATIO)
			else:
				self._fill_colour = colour.darken(ratio=DEFAULT_NODE_COLOUR_DIFFERENCE_RATIO)
			self._fill_colour_based""", """		if self._fill_colour is None:
			change = colour.lighten if self._lighter_fill else colour.darken
			self._fill_colour = change(ratio=DEFAULT_NODE_COLOUR_DIFFERENCE_RATIO)
			self._fill_colour_based""")]),
    ('invert helper', None, [(N, """		if result._fill_colour_based_on_main_colour:
			result._fill_colour = None
		else:
			result.fill_colour = result.fill_colour.invert()

		if result._text_colour_based_on_main_colour:
			result._text_colour = None
		else:
			result.text_colour = result.text_colour.invert()

		if result._border_colour_based_on_main_colour:
			result._border_colour = None
		else:
			result.border_colour = result.border_colour.invert()
""", """		for name in ('fill', 'text', 'border'):
			if getattr(result, f'_{name}_colour_based_on_main_colour'):
				setattr(result, f'_{name}_colour', None)
			else:
				setattr(result, f'{name}_colour', getattr(result, f'{name}_colour').invert())
""")]),
    ('complement type', None, [(N, """		if isinstance(dictionary, NodeStyle):
			dictionary = dictionary.__getstate__()
		for key, value in dictionary.items():
			if hasattr(self, key):
				setattr(self, key, value)
			elif not key.startswith('_'):
				setattr(self, f'_{key}', value)
			else:
				raise ValueError(f'{key} is not a valid attribute of NodeStyle')
""", """		items = (dictionary.__getstate__() if isinstance(dictionary, NodeStyle) else dictionary).items()
		for key, value in items:
			name = key
			if not hasattr(self, key):
				if key.startswith('_'):
					raise ValueError(f'{key} is not a valid attribute of NodeStyle')
				name = '_' + key
			setattr(self, name, value)
""")]),
]
