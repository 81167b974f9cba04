"""Styling."""
W='_GraphWithoutDisplay.py'
I='styling/inherit_style.py'
R='styling/is_root_or_parents_are_in_loop.py'
P='styling/stylize_with_pensieve.py'
X='styling/stylize_randomly.py'
D='styling/stylize_edges_based_on_nodes.py'
EDITS=[]
def p(f,name,*ab,want={'C21'}):
    EDITS.append((name,want,[(f,)+x for x in ([ab] if isinstance(ab[0],str) else ab)]))
# the predicate
p(R,'roots only','if not parent.is_in_loop()]',']')
p(R,'all not in loop','return len(parents) == 0','return len(parents) < len(node.parents) or len(node.parents) == 0',want=None)
p(R,'parents in loop','[parent for parent in node.parents if not parent.is_in_loop()]','[parent for parent in node.parents if parent.is_in_loop()]')
p(R,'all parents free','return len(parents) == 0','return len(parents) < max(1, len(node.parents))',want=None)
p(R,'at most one','return len(parents) == 0','return len(parents) == 1')
p(R,'first parent','[parent for parent in node.parents if not parent.is_in_loop()]','[parent for parent in node.parents[:1] if not parent.is_in_loop()]',want=None)
p(R,'in loop with','if not parent.is_in_loop()]','if not parent.is_in_loop_with(node)]',want=None)
# inheriting
p(I,'all parents','				if not node.is_in_loop_with(parent)\n','')
p(I,'only in loop with','				if not node.is_in_loop_with(parent)\n','				if node.is_in_loop_with(parent)\n')
p(I,'inverted base','	if is_root_or_parents_are_in_loop(node):','	if not is_root_or_parents_are_in_loop(node):')
p(I,'base is root','	if is_root_or_parents_are_in_loop(node):','	if len(node.parents) == 0:')
p(I,'last parent',"		if len(node.parents) == 1:\n			parent = node.parents[0]","		if len(node.parents) >= 1:\n			parent = node.parents[-1]")
p(I,'first of two',"		if len(node.parents) == 1:","		if len(node.parents) <= 2:")
p(I,'returns nothing',"			new_style.colour = colour\n			return new_style\n		else:","			new_style.colour = colour\n		else:")
p(I,'other loop only','				if not node.is_in_loop_with(parent)\n','				if parent.is_in_loop() and not node.is_in_loop_with(parent)\n')
p(I,'itself','				for parent in node.parents\n','				for parent in [node] + node.parents\n')
# pensieve
p(P,'roots again','		if node.style is None:\n			if is_root_or_parents_are_in_loop(node):','		if True:\n			if is_root_or_parents_are_in_loop(node):')
p(P,'branches again','			if node.style is None:\n				node.style = inherit','			if True:\n				node.style = inherit')
p(P,'one loop',"""				node.style = style

	# branch nodes
	for node in graph.nodes:
		if not is_root_or_parents_are_in_loop(node):
			if node.style is None:
				node.style = inherit""","""				node.style = style
			else:
				node.style = inherit""")
p(P,'roots only real',('			if is_root_or_parents_are_in_loop(node):','			if not node.parents:'),want={'C21'})
p(P,'branches only in no loop','		if not is_root_or_parents_are_in_loop(node):','		if not is_root_or_parents_are_in_loop(node) and not node.is_in_loop():')
p(P,'roots not in loop','			if is_root_or_parents_are_in_loop(node):','			if is_root_or_parents_are_in_loop(node) and not node.is_in_loop():')
p(P,'not first',"""	for node in graph.nodes:
		if not is_root""","""	for node in graph.nodes[1:]:
		if not is_root""")
p(P,'branches have parents',"""		if not is_root_or_parents_are_in_loop(node):
			if node.style is None:""","""		if len(node.parents) > 0:
			if node.style is None:""",want=None)
p(P,'any unstyled inherits',"""		if not is_root_or_parents_are_in_loop(node):
			if node.style is None:""","""		if True:
			if node.style is None:""",want=None)
p(P,'edges first',("""
	# branch edges
	stylize_edges_based_on_nodes(graph=graph, edge_style=edge_style, edge_darkness_ratio=edge_darkness_ratio)""",''),("""	# branch nodes
""","""	stylize_edges_based_on_nodes(graph=graph, edge_style=edge_style, edge_darkness_ratio=edge_darkness_ratio)

	# branch nodes
"""))
p(P,'no edges',("""
	# branch edges
	stylize_edges_based_on_nodes(graph=graph, edge_style=edge_style, edge_darkness_ratio=edge_darkness_ratio)""",''))
p(P,'edges per node',("	# branch edges\n	stylize_edges","		stylize_edges"))
p(P,'branches first',("""	# branch nodes
	for node in graph.nodes:
		if not is_root_or_parents_are_in_loop(node):
			if node.style is None:
				node.style = inherit_style(
					node=node, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=node_style
				)
""",""),("	# roots or semi-roots\n","""	# branch nodes
	for node in graph.nodes:
		if not is_root_or_parents_are_in_loop(node):
			if node.style is None:
				node.style = inherit_style(
					node=node, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=node_style
				)
"""))
# randomly
p(X,'set before asked',"		if node.style is None:\n			node.style = style","		node.style = style")
p(X,'only given',"		if node.style is None:\n			node.style","		if node.style is not None:\n			node.style")
p(X,'some nodes',"	nodes = list(graph.nodes)","	nodes = list(graph.nodes)[:len(colours_used)]")
p(X,'roots only',"		if node.style is None:\n			node.style","		if node.style is None and node.parents:\n			node.style")
p(X,'edges in loop',"	# branch edges\n	styl","		styl")
# edges
p(D,'edge again',"		if edge.style is None:\n			colour","		if True:\n			colour")
p(D,'edge given',"		if edge.style is None:\n			colour","		if edge.style is not None:\n			colour")
p(D,'number none',"			if isinstance(edge.value, (int, float)):","			if edge.value is not None:")
p(D,'number any',"			if isinstance(edge.value, (int, float)):\n	","			if edge.value:\n	")
p(D,'number str',"(int, float)","(int, float, str)")
p(D,'only numbers',"				style._arrow_size *= edge.value\n\n			edge.style","				style._arrow_size *= edge.value\n\n				edge.style")
p(D,'no loops',"		if edge.style is None:\n			colour","		if edge.style is None and edge.start is not edge.end:\n			colour")
p(D,'some edges',"for edge in graph.edges:","for edge in graph.edges[:-1]:")
p(D,'else edge',"			edge.style = style","			else:\n				edge.style = style")
# the overwrites
p(W,'node gone',"			if name in self.nodes_dict:\n				self","			if True:\n				self")
p(W,'edge gone',"			if edge_id in self.edges_dict:\n				self","			if True:\n				self")
p(W,'node colour gone',"			if name not in self.nodes_dict:\n				continue\n","")
p(W,'edge colour gone',"			if edge_id not in self.edges_dict:\n				continue\n","")
p(W,'edge colour gone other',"			if edge_id not in self.edges_dict:\n","			if edge_id not in self.nodes_dict:\n")
p(W,'node colour set',"			node._style = style","			node.style = style")
p(W,'edge colour set',"			edge._style = style","			edge.style = style")
p(W,'global again',"				if node.style is None:\n					node.style = smart","				if True:\n					node.style = smart")
p(W,'global edge again',"				if edge.style is None:\n					edge.style = self","				if True:\n					edge.style = self")
p(W,'empty max',"self.nodes], default=0) < 3:\n						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()\n						smart_global_node_style_overwrite['shape'] = 'circle'\n			if smart_global_node_style_overwrite is None:\n				smart_global_node_style_overwrite = self._global_node_style_overwrite\n\n			for node in self.nodes:\n				if","self.nodes]) < 3:\n						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()\n						smart_global_node_style_overwrite['shape'] = 'circle'\n			if smart_global_node_style_overwrite is None:\n				smart_global_node_style_overwrite = self._global_node_style_overwrite\n\n			for node in self.nodes:\n				if")
p(W,'random misspelt',"self._stylist == 'random'","self._stylist == 'randomly'")
p(W,'stylist first pass only',"		if self._stylist == 'pensieve':\n			styl","		if self._stylist == 'pensieve' and self.nodes[0].style is None:\n			styl")
p(W,'stylist last',("		if self._stylist == 'pensieve':\n			stylize_with_pensieve(graph=self)\n		elif self._stylist == 'random':\n			stylize_randomly(graph=self)\n",""),("				edge.style.complement(self._global_edge_style_overwrite)\n","				edge.style.complement(self._global_edge_style_overwrite)\n\n		if self._stylist == 'pensieve':\n			stylize_with_pensieve(graph=self)\n		elif self._stylist == 'random':\n			stylize_randomly(graph=self)\n"))
p(W,'stylist after overwrites',("		if self._stylist == 'pensieve':\n			stylize_with_pensieve(graph=self)\n		elif self._stylist == 'random':\n			stylize_randomly(graph=self)\n",""),("		for edge_id, colour in self._edge_colour_overwrites.items():\n","		if self._stylist == 'pensieve':\n			stylize_with_pensieve(graph=self)\n		elif self._stylist == 'random':\n			stylize_randomly(graph=self)\n\n		for edge_id, colour in self._edge_colour_overwrites.items():\n"))
