"""Styling, and aliases of containers: nothing changes."""
W='_GraphWithoutDisplay.py'
I='styling/inherit_style.py'
R='styling/is_root_or_parents_are_in_loop.py'
P='styling/stylize_with_pensieve.py'
X='styling/stylize_randomly.py'
D='styling/stylize_edges_based_on_nodes.py'
G='get_descendants.py'
EDITS=[]
def p(f,name,*ab):
    EDITS.append((name,None,[(f,)+x for x in ([ab] if isinstance(ab[0],str) else ab)]))
BODY="	parents = [parent for parent in node.parents if not parent.is_in_loop()]\n	return len(parents) == 0"
p(R,'all',BODY,"	return all(parent.is_in_loop() for parent in node.parents)")
p(R,'not any',BODY,"	return not any(not parent.is_in_loop() for parent in node.parents)")
p(R,'loop',BODY,"	for parent in node.parents:\n		if not parent.is_in_loop():\n			return False\n	return True")
p(R,'not list',"	return len(parents) == 0","	return not parents")
p(R,'root first',BODY,"	if len(node.parents) == 0:\n		return True\n	return all(x.is_in_loop() for x in node.parents)")
p(R,'root property',BODY,"	if len(node.inward_edges) == 0:\n		return True\n"+BODY)
p(R,'counted',BODY,"	return sum(1 for parent in node.parents if parent.is_in_loop()) == len(node.parents)")
p(R,'edges',BODY,"	for edge in node.inward_edges:\n		if not edge.start.is_in_loop():\n			return False\n	return True")
p(I,'early return',"	if is_root_or_parents_are_in_loop(node):\n		if main_style is None:\n			return node.style.copy()\n		else:\n			return main_style.copy()\n	else:\n		if len","	if is_root_or_parents_are_in_loop(node):\n		source = node.style if main_style is None else main_style\n		return source.copy()\n	if True:\n		if len")
p(I,'local parents',("		if len(node.parents) == 1:\n			parent = node.parents[0]","		parents = node.parents\n		if len(parents) == 1:\n			parent = parents[0]"))
p(I,'unpack parent',"			parent = node.parents[0]","			[parent] = node.parents")
p(I,'loop styles',"""			styles = [
				inherit_style(node=parent, pale_ratio=pale_ratio, divergence_ratio=0, main_style=main_style)
				for parent in node.parents
				if not node.is_in_loop_with(parent)
			]
""","""			styles = []
			for parent in node.parents:
				if node.is_in_loop_with(parent):
					continue
				styles.append(inherit_style(node=parent, pale_ratio=pale_ratio, divergence_ratio=0, main_style=main_style))
""")
p(I,'loop with turned',"if not node.is_in_loop_with(parent)","if not parent.is_in_loop_with(node)")
p(I,'helper',("def inherit_style(","""def _recolour(style, colour):
	new_style = style.copy()
	new_style.reset_colours()
	new_style.colour = colour
	return new_style


def inherit_style("""),("""			colour.saturation = colour.saturation * 3 / 4
			new_style = style.copy()
			new_style.reset_colours()
			new_style.colour = colour
			return new_style
""","""			colour.saturation = colour.saturation * 3 / 4
			return _recolour(style, colour)
"""),("""			colour = Colour.mix(colours=colours).pale(ratio=pale_ratio)
			new_style = style.copy()
			new_style.reset_colours()
			new_style.colour = colour
			return new_style
""","""			colour = Colour.mix(colours=colours).pale(ratio=pale_ratio)
			return _recolour(style, colour)
"""))
p(I,'helper parents',("def inherit_style(","""def _sources(node):
	return [parent for parent in node.parents if not node.is_in_loop_with(parent)]


def inherit_style("""),("""				for parent in node.parents
				if not node.is_in_loop_with(parent)
""","""				for parent in _sources(node)
"""))
p(I,'swap branches',"	if is_root_or_parents_are_in_loop(node):\n		if main_style is None:\n			return node.style.copy()\n		else:\n			return main_style.copy()\n","	own = is_root_or_parents_are_in_loop(node)\n	if own and main_style is not None:\n		return main_style.copy()\n	elif own:\n		return node.style.copy()\n")
p(I,'conditional style',"			if main_style is None:\n				style = styles[0]\n			else:\n				style = main_style\n","			style = styles[0] if main_style is None else main_style\n")
p(P,'merged condition',"		if node.style is None:\n			if is_root_or_parents_are_in_loop(node):\n				colour","		if node.style is None and is_root_or_parents_are_in_loop(node):\n			if True:\n				colour")
p(P,'continue',"		if not is_root_or_parents_are_in_loop(node):\n			if node.style is None:\n				node.style","		if is_root_or_parents_are_in_loop(node):\n			continue\n		if node.style is None:\n				node.style")
p(P,'local nodes',("	# roots or semi-roots\n	for node in graph.nodes:","	nodes = graph.nodes\n	for node in nodes:"),("	# branch nodes\n	for node in graph.nodes:","	for node in nodes:"))
p(P,'parted',("	# roots or semi-roots\n	for node in graph.nodes:\n		if node.style is None:\n			if is_root","	roots = [x for x in graph.nodes if is_root_or_parents_are_in_loop(x)]\n	for node in roots:\n		if node.style is None:\n			if is_root"))
p(P,'bare list',("	# roots or semi-roots\n	for node in graph.nodes:\n		if node.style is None:\n","	bare = [x for x in graph.nodes if x.style is None]\n	for node in bare:\n		if node.style is None:\n"))
p(P,'branches list',("	# branch nodes\n	for node in graph.nodes:\n		if not is_root_or_parents_are_in_loop(node):\n			if","	for node in [x for x in graph.nodes if not is_root_or_parents_are_in_loop(x)]:\n		if True:\n			if"))
p(P,'helper',("def stylize_with_pensieve(","""def _own(colour, node_style):
	if node_style is None:
		return NodeStyle(colour=colour)
	style = node_style.copy()
	style.reset_colours()
	style.colour = colour
	return style


def stylize_with_pensieve("""),("""				if node_style is None:
					style = NodeStyle(colour=colour)
				else:
					style = node_style.copy()
					style.reset_colours()
					style.colour = colour
				node.style = style
""","""				node.style = _own(colour, node_style)
"""))
p(P,'helper branches',("def stylize_with_pensieve(","""def _branches(graph, pale_ratio, divergence_ratio, node_style):
	for node in graph.nodes:
		if is_root_or_parents_are_in_loop(node) or node.style is not None:
			continue
		node.style = inherit_style(
			node=node, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=node_style
		)


def stylize_with_pensieve("""),("""	for node in graph.nodes:
		if not is_root_or_parents_are_in_loop(node):
			if node.style is None:
				node.style = inherit_style(
					node=node, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=node_style
				)
""","	_branches(graph, pale_ratio, divergence_ratio, node_style)\n"))
p(P,'positional',"	stylize_edges_based_on_nodes(graph=graph, edge_style=edge_style, edge_darkness_ratio=edge_darkness_ratio)","	stylize_edges_based_on_nodes(graph, edge_style, edge_darkness_ratio)")
p(P,'style first',"""				node.style = inherit_style(
					node=node, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=node_style
				)""","""				inherited = inherit_style(
					node=node, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=node_style
				)
				node.style = inherited""")
p(X,'has style',"		if node.style is None:\n			node.style = style","		if not node.has_style():\n			node.style = style")
p(X,'sorted nodes',"	nodes = list(graph.nodes)\n","	nodes = [*graph.nodes]\n")
p(X,'continue',"		if node.style is None:\n			node.style = style","		if node.style is not None:\n			continue\n		node.style = style")
p(D,'continue',("		if edge.style is None:\n			colour","		if edge.style is not None:\n			continue\n		else:\n			colour"))
p(D,'ternary',"""			if edge_style is None:
				style = EdgeStyle(colour=colour)
			else:
				style = edge_style.copy()
				style.reset_colours()
				style.colour = colour
""","""			style = EdgeStyle(colour=colour) if edge_style is None else edge_style.copy()
			if edge_style is not None:
				style.reset_colours()
				style.colour = colour
""")
p(D,'number named',"			if isinstance(edge.value, (int, float)):\n				style._arrow_size *= edge.value","			value = edge.value\n			is_number = isinstance(value, (int, float))\n			if is_number:\n				style._arrow_size = style._arrow_size * value")
p(D,'two isinstance',"isinstance(edge.value, (int, float))","isinstance(edge.value, int) or isinstance(edge.value, float)")
p(D,'edges bare',"	for edge in graph.edges:\n		if edge.style is None:\n","	bare = [edge for edge in graph.edges if edge.style is None]\n	for edge in bare:\n		if True:\n")
p(W,'get node',"			if name in self.nodes_dict:\n				self.nodes_dict[name].style.complement(style)","			node = self.nodes_dict.get(name)\n			if node is not None:\n				node.style.complement(style)")
p(W,'local dict',"		for name, style in self._node_style_overwrites.items():\n			if name in self.nodes_dict:\n				self.nodes_dict[name].style.complement(style)","		nodes = self.nodes_dict\n		for name, style in self._node_style_overwrites.items():\n			if name not in nodes:\n				continue\n			nodes[name].style.complement(style)")
p(W,'try',"			if name in self.nodes_dict:\n				self.nodes_dict[name].style.complement(style)","			try:\n				node = self.nodes_dict[name]\n			except KeyError:\n				continue\n			node.style.complement(style)")
p(W,'keys',"			if edge_id in self.edges_dict:\n				self","			if edge_id in self.edges_dict.keys():\n				self")
p(W,'by keys',"		for name, style in self._node_style_overwrites.items():\n","		for name in self._node_style_overwrites:\n			style = self._node_style_overwrites[name]\n")
p(W,'dispatch',"		if self._stylist == 'pensieve':\n			stylize_with_pensieve(graph=self)\n		elif self._stylist == 'random':\n			stylize_randomly(graph=self)\n","		self._run_stylist()\n")
EDITS[-1][2].append((W,"	def stylize(self):\n","	def _run_stylist(self):\n		if self._stylist == 'pensieve':\n			stylize_with_pensieve(graph=self)\n		elif self._stylist == 'random':\n			stylize_randomly(graph=self)\n\n	def stylize(self):\n"))
p(W,'table',"		if self._stylist == 'pensieve':\n			stylize_with_pensieve(graph=self)\n		elif self._stylist == 'random':\n			stylize_randomly(graph=self)\n","		stylists = {'pensieve': stylize_with_pensieve, 'random': stylize_randomly}\n		if self._stylist in stylists:\n			stylists[self._stylist](graph=self)\n")
SM="""			smart_global_node_style_overwrite = None
			if isinstance(self._global_node_style_overwrite, dict) and 'shape' in self._global_node_style_overwrite:
				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
					if max([len(str(node.name)) for node in self.nodes], default=0) < 3:
						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
						smart_global_node_style_overwrite['shape'] = 'circle'
			if smart_global_node_style_overwrite is None:
				smart_global_node_style_overwrite = self._global_node_style_overwrite

"""
p(W,'smart helper',(SM+"			for node in self.nodes:\n				if","			smart_global_node_style_overwrite = self._smart_style()\n			for node in self.nodes:\n				if"),(SM+"			for node in self.nodes:\n				node.style.comp","			smart_global_node_style_overwrite = self._smart_style()\n			for node in self.nodes:\n				node.style.comp"),("	def stylize(self):\n","""	def _smart_style(self):
		style = self._global_node_style_overwrite
		if isinstance(style, dict) and 'shape' in style and style['shape'].lower().startswith('auto'):
			if all(len(str(node.name)) < 3 for node in self.nodes):
				style = style.copy()
				style['shape'] = 'circle'
		return style

	def stylize(self):
"""))
p(W,'empty checked',SM+"			for node in self.nodes:\n				if",SM.replace("if max([len(str(node.name)) for node in self.nodes], default=0) < 3:","if not self.nodes or max([len(str(node.name)) for node in self.nodes]) < 3:")+"			for node in self.nodes:\n				if")
p(W,'colour helper',("""			node = self.nodes_dict[name]
			style = node.style.copy()
			style.reset_colours()
			style.colour = colour
			node._style = style
""","""			self._recolour(self.nodes_dict[name], colour)
"""),("	def stylize(self):\n","""	@staticmethod
	def _recolour(thing, colour):
		style = thing.style.copy()
		style.reset_colours()
		style.colour = colour
		thing._style = style

	def stylize(self):
"""))
p(G,'lists helper',("def _get_descendants(","def _keep(child, *lists):\n	for found in lists:\n		found.append(child)\n\n\ndef _get_descendants("),("					objects_travelled.append(child)\n					descendants.append(child)\n					next_layer.append(child)\n","					_keep(child, objects_travelled, descendants, next_layer)\n"))
p(G,'alias',"		next_layer = []\n","		next_layer = []\n		here = next_layer\n",)
EDITS[-1][2].append((G,"					next_layer.append(child)","					here.append(child)"))
p(G,'bound',("		next_layer = []\n","		next_layer = []\n		add = next_layer.append\n"),("					next_layer.append(child)","					add(child)"))
p(G,'two helpers',("def _get_descendants(","def _note(found, child):\n	found.append(child)\n\n\ndef _get_descendants("),("					objects_travelled.append(child)\n					descendants.append(child)\n					next_layer.append(child)\n","					_note(objects_travelled, child)\n					_note(descendants, child)\n					_note(next_layer, child)\n"))
