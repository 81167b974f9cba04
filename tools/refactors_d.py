B='_BasicGraph.py'; N='Node.py'; E='Edge.py'; O='_GraphObj.py'; G='_GraphWithoutDisplay.py'; SP='styling/stylize_with_pensieve.py'; SR='styling/stylize_randomly.py'; SE='styling/stylize_edges_based_on_nodes.py'; ES='styling/EdgeStyle.py'; NS='styling/NodeStyle.py'; IS='styling/inherit_style.py'; D='Graph.py'
EDITS=[
('node str fstring',None,[(N,"""		parts = [f'label="{escape_quotes(self.display_label())}"']

		if self._tooltip is not None:
			parts.append(f'tooltip="{escape_quotes(self._tooltip)}"')

		style = self.style
		if style is not None:
			parts.append(style.get_graphviz_str())

		return f'"{escape_quotes(self.id)}" [' + ' '.join(parts) + ']'""","""		text = f'"{escape_quotes(self.id)}" [label="{escape_quotes(self.display_label())}"'
		if self._tooltip is not None:
			text += f' tooltip="{escape_quotes(self._tooltip)}"'
		if self.style is not None:
			text += ' ' + self.style.get_graphviz_str()
		return text + ']'""")]),
('node str dict',None,[(N,"""		parts = [f'label="{escape_quotes(self.display_label())}"']

		if self._tooltip is not None:
			parts.append(f'tooltip="{escape_quotes(self._tooltip)}"')
""","""		attributes = {'label': self.display_label(), 'tooltip': self._tooltip}
		parts = [f'{key}="{escape_quotes(value)}"' for key, value in attributes.items() if value is not None or key == 'label']
""")]),
('edge str helper',None,[(E,"""		parts = []
		label_or_value = self.display_label_or_value()
		style = self.style
		if label_or_value is not None:
			parts.append(f'label="{escape_quotes(label_or_value)}"')
		if self._tooltip is not None:
			parts.append(f'tooltip="{escape_quotes(self._tooltip)}"')
		if style is not None:
			parts.append(style.get_graphviz_str())
""","""		parts = self._attribute('label', self.display_label_or_value()) + self._attribute('tooltip', self._tooltip)
		if self.style is not None:
			parts += [self.style.get_graphviz_str()]
"""),(E,"	@property\n	def start(self)","	@staticmethod\n	def _attribute(key, value):\n		if value is None:\n			return []\n		return [f'{key}=\"{escape_quotes(value)}\"']\n\n	@property\n	def start(self)")]),
('edge str early',None,[(E,"""		if len(parts) > 0:
			second_part = '[' + ' '.join(parts) + ']'
		else:
			second_part = ''

		return f'"{escape_quotes(self.start.name)}" -> "{escape_quotes(self.end.name)}"' + second_part""","""		names = [f'"{escape_quotes(node.name)}"' for node in (self.start, self.end)]
		connection = ' -> '.join(names)
		if not parts:
			return connection
		return connection + ' [' + ' '.join(parts) + ']'""")]),
('graph str loops',None,[(G,"""		nodes_str = '\\t{\\n\\t\\t' + '\\n\\t\\t'.join([node.get_graphviz_str() for node in self.nodes_dict.values()]) + '\\n\\t}\\n'
		edges_str = '\\t' + '\\n\\t'.join([edge.get_graphviz_str() for edge in self.edges]) + '\\n'
""","""		nodes_str = '\\t{\\n'
		for node in self.nodes:
			nodes_str += '\\t\\t' + node.get_graphviz_str() + '\\n'
		nodes_str += '\\t}\\n'
		edges_str = ''
		for edge in self.edges_dict.values():
			edges_str += '\\t' + edge.get_graphviz_str() + '\\n'
""")]),
('graph str lines',None,[(G,"""		nodes_str = '\\t{\\n\\t\\t' + '\\n\\t\\t'.join([node.get_graphviz_str() for node in self.nodes_dict.values()]) + '\\n\\t}\\n'
		edges_str = '\\t' + '\\n\\t'.join([edge.get_graphviz_str() for edge in self.edges]) + '\\n'
		header = self.get_graphviz_header(direction=direction, dpi=dpi, height=height, width=width, pad=pad)
		return header + nodes_str + edges_str + '}'""","""		lines = [self.get_graphviz_header(direction=direction, dpi=dpi, height=height, width=width, pad=pad), '{']
		lines.extend(node.get_graphviz_str() for node in self.nodes)
		lines.append('}')
		lines += [edge.get_graphviz_str() for node in self.nodes for edge in node.outward_edges]
		lines.append('}')
		return '\\n'.join(lines)""")]),
('header strict inline',None,[(G,"""		if self._is_strict:
			first_part = 'strict digraph G {\\n'
		else:
			first_part = 'digraph G{\\n'
""","""		first_part = ('strict ' if self._is_strict else '') + 'digraph G {\\n'
""")]),
('header lines',None,[(G,"""		second_part += f'\\tbgcolor="{self.background_colour.hexadecimal}";\\n'

		if pad is not None:
			second_part += f'\\tpad="{pad}";\\n'

		if not self._ordering:
			second_part += '\\tordering=out;\\n'
""","""		settings = [('bgcolor', self.background_colour.hexadecimal)]
		if pad is not None:
			settings.append(('pad', pad))
		if not self._ordering:
			settings.append(('ordering', 'out'))
		second_part += ''.join(f'\\t{key}="{value}";\\n' for key, value in settings)
""")]),
('header size',None,[(G,"""		if height is not None and width is not None:
			second_part += f'\\tsize="{width},{height}!";\\n'
			second_part += '\\tratio="fill";\\n'
		elif height is not None:
			second_part += f'\\tsize="{height}!";\\n'
			second_part += '\\tratio="fill";\\n'
		elif width is not None:
			second_part += f'\\tsize="{width}!";\\n'
			second_part += '\\tratio="fill";\\n'
""","""		size = ','.join(str(x) for x in (width, height) if x is not None)
		if size:
			second_part += f'\\tsize="{size}!";\\n\\tratio="fill";\\n'
""")]),
('esc function',None,[('escape_quotes.py',"	text = re.sub(r'(?<!\\\\)((?:\\\\\\\\)*)\"', r'\\1\\\\\"', str(text))\n	if (len(text) - len(text.rstrip('\\\\'))) % 2 == 1:\n		text += '\\\\'\n","	result = re.sub(r'(?<!\\\\)((?:\\\\\\\\)*)\"', r'\\1\\\\\"', str(text))\n	num_backslashes = len(result) - len(result.rstrip('\\\\'))\n	text = result + '\\\\' if num_backslashes % 2 else result\n")]),
('esc compiled',None,[('escape_quotes.py',"	text = re.sub(r'(?<!\\\\)((?:\\\\\\\\)*)\"', r'\\1\\\\\"', str(text))\n","	text = _PATTERN.sub(r'\\1\\\\\"', str(text))\n"),('escape_quotes.py',"def escape_quotes","_PATTERN = re.compile(r'(?<!\\\\)((?:\\\\\\\\)*)\"')\n\n\ndef escape_quotes")]),
('header quote helper',None,[(G,"""attributes['labelloc'] = f'"{escape_quotes(self._label_location[0])}"'""","""attributes['labelloc'] = self._quoted(self._label_location[0])"""),(G,"""attributes['fontname'] = f'"{escape_quotes(self._font)}"'""","""attributes['fontname'] = self._quoted(self._font)"""),(G,"	def get_graphviz_header(","	@staticmethod\n	def _quoted(text):\n		return '\"' + escape_quotes(text) + '\"'\n\n	def get_graphviz_header(")]),
('header options loop',None,[(G,"""				if self._font is not None:
					attributes['fontname'] = f'"{escape_quotes(self._font)}"'
				if self._label_colour is not None:
					attributes['fontcolor'] = f'"{escape_quotes(self._label_colour)}"'
""".replace('\t\t\t\t','\t\t\t',),"""			for key, value in (('fontname', self._font), ('fontcolor', self._label_colour)):
				if value is not None:
					attributes[key] = f'"{escape_quotes(value)}"'
""")]),
('style loop continue',None,[(NS,"""			if isinstance(value, str):
				value = escape_quotes(value.strip('"'))

			if value is not None:
				key_values.append((key, value))

		return ' '.join([f'"{key}"="{value}"' for key, value in key_values])""","""			if value is None:
				continue
			if isinstance(value, str):
				value = escape_quotes(value.strip('"'))
			key_values.append(f'"{key}"="{value}"')

		return ' '.join(key_values)""")]),
('label html',None,[(G,"""			if self._label.startswith('<') and self._label.endswith('>'):
				attributes['label'] = f'{self._label}'
			else:
				if""","""			is_html = self._label.startswith('<') and self._label.endswith('>')
			if is_html:
				attributes['label'] = self._label
			else:
				if""")]),
('render order',None,[(G,"""		if path is None:
			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None, height=height, width=width)# Source(source=self.get_graphviz_str(direction=direction, pad=pad, dpi=None))
		else:
			filename, file_extension = os.path.splitext(path)
			output_format = file_extension.lstrip('.')
			to_save = self.get_graphviz_source(
				direction=direction, pad=pad, dpi=dpi, height=height, width=width, output_format=output_format
			)
			to_save.render(filename=filename, view=view, format=output_format or None)
			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None, height=height, width=width)
""","""		options = dict(direction=direction, pad=pad, height=height, width=width)
		if path is not None:
			self._save(path, view, dpi=dpi, **options)
		return self.get_graphviz_source(dpi=None, **options)

	def _save(self, path, view, **options):
		filename, file_extension = os.path.splitext(path)
		output_format = file_extension.lstrip('.') or None
		source = self.get_graphviz_source(output_format=output_format, **options)
		source.render(filename=filename, view=view, format=output_format)
""")]),
('source simple',None,[(G,"""		if height is None and width is None:
			return self._get_graphviz_source(self.get_graphviz_str(direction=direction, pad=pad, dpi=None))
		else:
			graphviz_str_to_save = self.get_graphviz_str(
				direction=direction, height=height, width=width, pad=pad, dpi=dpi
			)
			return self._get_graphviz_source(graphviz_str_to_save)""","""		if height is None and width is None:
			dpi = None
		return self._get_graphviz_source(
			self.get_graphviz_str(direction=direction, dpi=dpi, height=height, width=width, pad=pad)
		)""")]),
('svg explicit',None,[(D,"""		source = self.render(direction=direction or self._direction, pad=pad, **kwargs)
		return Graph._get_svg(source)""","""		if not direction:
			direction = self._direction
		kwargs.update(direction=direction, pad=pad)
		return self._get_svg(self.render(**kwargs))""")]),
('header direction',None,[(G,"""		direction = direction.upper()
		if direction != 'TB':
			third_part = f'\\trankdir="{escape_quotes(direction)}"'
		else:
			third_part = ''

		return first_part + second_part + third_part""","""		rank_direction = escape_quotes(direction.upper())
		return first_part + second_part + f'\\trankdir="{rank_direction}"'""")]),
('str own direction',None,[(G,"""		direction = direction or self._direction

		nodes_str""","""		nodes_str""")]),
]
