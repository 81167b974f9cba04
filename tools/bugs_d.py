B='_BasicGraph.py'; N='Node.py'; E='Edge.py'; O='_GraphObj.py'; G='_GraphWithoutDisplay.py'; SP='styling/stylize_with_pensieve.py'; SR='styling/stylize_randomly.py'; SE='styling/stylize_edges_based_on_nodes.py'; ES='styling/EdgeStyle.py'; NS='styling/NodeStyle.py'; IS='styling/inherit_style.py'; D='Graph.py'
EDITS=[
('edge label truth',{'C17'},[(E,"		if label_or_value is not None:\n","		if label_or_value:\n")]),
('edge reversed',{'C17'},[(E,"""return f'"{escape_quotes(self.start.name)}" -> "{escape_quotes(self.end.name)}"' + second_part""","""return f'"{escape_quotes(self.end.name)}" -> "{escape_quotes(self.start.name)}"' + second_part""")]),
('edge label raw',{'C17'},[(E,"		label_or_value = self.display_label_or_value()","		label_or_value = self._label if self._label is not None else self._value")]),
('node id label',{'C17'},[(N,"""		return f'"{escape_quotes(self.id)}" [' + ' '""","""		return f'"{escape_quotes(self.display_label())}" [' + ' '""")]),
('node label when given',{'C17'},[(N,"""		parts = [f'label="{escape_quotes(self.display_label())}"']""","""		parts = []
		if self._label is not None:
			parts.append(f'label="{escape_quotes(self.display_label())}"')""")]),
('node style when label',{'C17'},[(N,"		style = self.style\n		if style is not None:\n			parts.append(style.get_graphviz_str())\n\n		return f","		style = self.style\n		if style is not None and len(parts) < 2:\n			parts.append(style.get_graphviz_str())\n\n		return f")]),
('edge tooltip inherits',{'C17'},[(E,"			parts.append(f'tooltip=\"{escape_quotes(self._tooltip)}\"')","			parts.append(f'tooltip=\"{escape_quotes(self._tooltip)}\"')\n		elif self.start._tooltip is not None:\n			parts.append(f'tooltip=\"{escape_quotes(self.start._tooltip)}\"')")]),
('edges from outward of roots',{'C17'},[(G,"[edge.get_graphviz_str() for edge in self.edges]","[edge.get_graphviz_str() for edge in self.edges if edge.start is not edge.end or not self._is_strict]")]),
('edges doubled',{'C17'},[(G,"[edge.get_graphviz_str() for edge in self.edges]","[edge.get_graphviz_str() for node in self.nodes for edge in node.edges]")]),
('nodes without edges',{'C17'},[(G,"[node.get_graphviz_str() for node in self.nodes_dict.values()]","[node.get_graphviz_str() for node in self.nodes if node.style is not None or len(node.edges) == 0]")]),
('strict when',{'C17'},[(G,"		if self._is_strict:\n			first","		if self._is_strict and self._ordering:\n			first")]),
('ordering flip',{'C17'},[(G,"		if not self._ordering:\n			second_part","		if not self._ordering and pad is not None:\n			second_part")]),
('separator lost',{'C17'},[(N,"		return f'\"{escape_quotes(self.id)}\" [' + ' '.join(parts) + ']'","		return f'\"{escape_quotes(self.id)}\" [' + ','.join(parts[:2]) + ']'")]),
('edge statement bracket',{'C17'},[(E,"		if len(parts) > 0:\n			second_part","		if len(parts) > 1:\n			second_part")]),
('edge end style',{'C17'},[(E,"		style = self.style\n		if label","		style = self.style if self.style is not None else self.end.style\n		if label")]),
('esc lookbehind only',{'C16'},[('escape_quotes.py',r"""re.sub(r'(?<!\\)((?:\\\\)*)"', r'\1\\"', str(text))""",r"""re.sub(r'(?<!\\)"', r'\\"', str(text))""")]),
('esc replace',{'C16'},[('escape_quotes.py',r"""re.sub(r'(?<!\\)((?:\\\\)*)"', r'\1\\"', str(text))""",r"""str(text).replace('"', '\\"')""")]),
('esc no trailing',{'C16'},[('escape_quotes.py',"	if (len(text) - len(text.rstrip('\\\\'))) % 2 == 1:\n		text += '\\\\'\n","")]),
('esc trailing flipped',{'C16'},[('escape_quotes.py',"% 2 == 1:","% 2 == 0:")]),
('esc trailing two',{'C16'},[('escape_quotes.py',"		text += '\\\\'\n","		text += '\\\\\\\\'\n")]),
('esc trailing any',{'C16'},[('escape_quotes.py',"	if (len(text) - len(text.rstrip('\\\\'))) % 2 == 1:\n","	if text.endswith('\\\\'):\n")]),
('esc no lookbehind',{'C16'},[('escape_quotes.py',r"r'(?<!\\)((?:\\\\)*)",r"r'((?:\\\\)*)")]),
('node id raw',{'C16'},[(N,"escape_quotes(self.id)","str(self.id)")]),
('node id replace',{'C16'},[(N,"""f'"{escape_quotes(self.id)}" ['""","""'"' + self.id.replace('"', '\\\\"') + '" ['""")]),
('edge end',{'C16'},[(E,"escape_quotes(self.end.name)","self.end.name")]),
('tooltip strip',{'C16'},[(N,"escape_quotes(self._tooltip)","escape_quotes(self._tooltip).strip('\"')")]),
('tooltip truncated',{'C16'},[(E,"escape_quotes(self._tooltip)","escape_quotes(self._tooltip)[:1000]")]),
('url raw',{'C16'},[(G,"escape_quotes(self._label_url)","self._label_url")]),
('html title',{'C16'},[(G,'title="{escape(self._label)}"','title="{escape(self._label, quote=False)}"')]),
('html body raw',{'C16'},[(G,"{escape(self._label)} </td>","{self._label} </td>")]),
('html bg raw',{'C16'},[(G,"{escape(str(self._label_background_colour))}","{self._label_background_colour}")]),
('kwargs raw',{'C16'},[(G,"""				attributes[key] = f'"{escape_quotes(value)}"'""","""				attributes[key] = f'"{value}"'""")]),
('font raw',{'C16'},[(G,"escape_quotes(self._font)","self._font")]),
('style raw',{'C16'},[(NS,"				value = escape_quotes(value.strip('\"'))","				value = value.strip('\"')")]),
('style strip after',{'C16'},[(ES,"				value = escape_quotes(value.strip('\"'))","				value = escape_quotes(value).strip('\"')")]),
('direction raw',{'C16'},[(G,"escape_quotes(direction)","direction")]),
('label half html',{'C16'},[(G,"if self._label.startswith('<') and self._label.endswith('>'):","if self._label.startswith('<'):")]),
('label quotes lost',{'C16'},[(G,"""attributes['label'] = f'"{escape_quotes(self._label)}"'""","""attributes['label'] = f'{escape_quotes(self._label)}'""")]),
('source pad lost',{'C18'},[(G,"_source(self.get_graphviz_str(direction=direction, pad=pad, dpi=None)","_source(self.get_graphviz_str(direction=direction, dpi=None)")]),
('source width only',{'C18'},[(G,"		if height is None and width is None:\n			return self._get_graphviz_source","		if height is None:\n			return self._get_graphviz_source")]),
('render direction lost returned',{'C18'},[(G,"			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None, height=height, width=width)\n\n","			return self.get_graphviz_source(pad=pad, dpi=None, height=height, width=width)\n\n")]),
('render saved size lost',{'C18'},[(G,"				direction=direction, pad=pad, dpi=dpi, height=height, width=width, output_format=output_format\n","				direction=direction, pad=pad, dpi=dpi, output_format=output_format\n")]),
('render view',{'C18'},[(G,"view=view, format","view=view and height is None, format")]),
('render stylize later',{'C18'},[(G,"		self.stylize()\n\n		if path is None:\n","		if path is not None:\n			self.stylize()\n\n		if path is None:\n")]),
('render after text',{'C18'},[(G,"		self.stylize()\n\n		if path is None:\n			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None, height=height, width=width)","		source = self.get_graphviz_source(direction=direction, pad=pad, dpi=None, height=height, width=width)\n		self.stylize()\n\n		if path is None:\n			return source")]),
('render filename',{'C18'},[(G,"filename=filename, view","filename=path, view")]),
('render format default',{'C18'},[(G,"format=output_format or None)","format='pdf' if output_format not in ('svg', 'png') else output_format)")]),
('render format dropped',{'C18'},[(G,", format=output_format or None)",")")]),
('svg pad',{'C18'},[(D,"self.render(direction=direction or self._direction, pad=pad, **kwargs)","self.render(direction=direction or self._direction, **kwargs)")]),
('svg kwargs',{'C18'},[(D,"self.render(direction=direction or self._direction, pad=pad, **kwargs)","self.render(direction=direction or self._direction, pad=pad)")]),
('svg direction own',{'C18'},[(D,"self.render(direction=direction or self._direction, pad=pad, **kwargs)","self.render(direction=self._direction or direction, pad=pad, **kwargs)")]),
('html kwargs',{'C18'},[(D,"self.get_svg(direction=direction or self._direction, pad=pad, **kwargs)","self.get_svg(direction=direction, **kwargs)")]),
('size swap',{'C18'},[(G,"""size="{width},{height}!\"""","""size="{height},{width}!\"""")]),
('pad zero',{'C18'},[(G,"		if pad is not None:\n","		if pad:\n")]),
('direction case',{'C18'},[(G,"		direction = direction.upper()\n		if direction != 'TB'","		if direction.upper() != 'TB'")]),
('direction own in str',{'C18'},[(G,"		direction = direction or self._direction\n\n		if self._is_strict","		direction = self._direction if self._ordering else direction or self._direction\n\n		if self._is_strict")]),
('height only lost',{'C18'},[(G,"		elif height is not None:\n","		elif height is not None and height > 1:\n")]),
('str width',{'C18'},[(G,"header = self.get_graphviz_header(direction=direction, dpi=dpi, height=height, width=width, pad=pad)","header = self.get_graphviz_header(direction=direction, dpi=dpi, height=height, width=width or height, pad=pad)")]),
]
