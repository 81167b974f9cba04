import re
W='_GraphWithoutDisplay.py'; B='_BasicGraph.py'
src=open('/repo/abstract/'+W).read()
def r(t,*ab):
    for a,b in ab:
        assert a in t,a
        t=t.replace(a,b)
    return t
def seg(a,b):
    i=src.index(a); j=src.index(b,i); return src[i:j]
AP=seg("		if isinstance(obj, (list, tuple)):\n			for item in obj:","	@classmethod\n	def from_dict")
EL=seg("			edges_dict = {}\n			for parent","			if 'node_styles' in dictionary")
NL=seg("			if isinstance(dictionary['nodes'], dict)","			edges_dict = {}")
OV=seg("			if 'node_styles' in dictionary","			return self\n\n	@classmethod\n	def from_dict")
OP=seg("			if 'strict' in dictionary","			if isinstance(dictionary['nodes'], dict)")
GR=seg("		nodes_dict = {}\n		edges_list","	@classmethod\n	def random")
IN=seg("		if isinstance(obj, self.__class__):\n			colour","		self._colour_scheme = colour_scheme\n")
def ded(t,n=1): return ''.join((l[n:] if l.startswith('\t'*n) else l) for l in t.splitlines(True))
EDITS=[
('append nodes helper',None,[(W,NL,"			self._append_nodes(dictionary['nodes'])\n\n"),(W,"	@classmethod\n	def from_dict","	def _append_nodes(self, nodes):\n		if isinstance(nodes, dict):\n			for node_name, node_dict in nodes.items():\n				self.add_node(name=node_name, **node_dict)\n		else:\n			for node_name in nodes:\n				self.add_node(name=node_name)\n\n	@classmethod\n	def from_dict")]),
('append edges helper',None,[(W,EL,"			edges_dict = self._append_edges(dictionary['edges'])\n\n"),(W,"	@classmethod\n	def from_dict","	def _append_edges(self, edges):\n"+ded(EL).replace("dictionary['edges']","edges").rstrip()+"\n		return edges_dict\n\n	@classmethod\n	def from_dict")]),
('append options helper',None,[(W,OP,"			self._append_options(dictionary)\n"),(W,"	@classmethod\n	def from_dict","	def _append_options(self, dictionary):\n"+ded(OP).rstrip()+"\n\n	@classmethod\n	def from_dict")]),
('append overwrites helper',None,[(W,OV,"			self._append_overwrites(dictionary, edges_dict)\n"),(W,"	@classmethod\n	def from_dict","	def _append_overwrites(self, dictionary, edges_dict):\n"+ded(OV).rstrip()+"\n\n	@classmethod\n	def from_dict")]),
('append edge helper',None,[(W,EL,"""			edges_dict = {}
			for edge_definition in dictionary['edges']:
				if len(edge_definition) < 2:
					raise ValueError('Too few objects in an edge definition!')
				if len(edge_definition) > 3:
					raise ValueError('Too many objects in an edge definition!')
				start, end = edge_definition[0], edge_definition[1]
				attributes = edge_definition[2] if len(edge_definition) == 3 else {}
				edge = self.connect(start=start, end=end, **attributes)
				edges_dict[(start, end)] = edge.id
				edges_dict[edge.id] = edge.id

""")]),
('append star unpack',None,[(W,EL,"""			edges_dict = {}
			for edge_definition in dictionary['edges']:
				if len(edge_definition) not in (2, 3):
					raise ValueError('Wrong number of objects in an edge definition!')
				start, end, *rest = edge_definition
				edge = self.connect(start=start, end=end, **(rest[0] if rest else {}))
				edges_dict[(start, end)] = edge.id
				edges_dict[edge.id] = edge.id

""")]),
('append edge once',None,[(W,EL,"""			edges_dict = {}
			for parts in dictionary['edges']:
				if len(parts) == 2:
					parent, child = parts
					edge = self.connect(start=parent, end=child)
				elif len(parts) == 3:
					parent, child, edge_dict = parts
					edge = self.connect(start=parent, end=child, **edge_dict)
				elif len(parts) < 2:
					raise ValueError('Too few objects in an edge definition!')
				else:
					raise ValueError('Too many objects in an edge definition!')
				edges_dict[(parent, child)] = edge.id
				edges_dict[edge.id] = edge.id

""")]),
('append edges by try',None,[(W,EL,r(EL,("edges_dict[edge.id] = edge.id","edges_dict.update({edge.id: edge.id})")))]),
('append no self map',None,[(W,EL,re.sub(r"\t+edges_dict\[edge\.id\] = edge\.id\n","",EL))]),
('append local id',None,[(W,EL,r(EL,("					edges_dict[(parent, child)] = edge.id\n					edges_dict[edge.id] = edge.id\n","					edge_id = edge.id\n					edges_dict[edge_id] = edge_id\n					edges_dict[(parent, child)] = edge_id\n")))]),
('append update nodes',None,[(W,"				for name, node_style in dictionary['node_styles'].items():\n					self._node_style_overwrites[name] = node_style\n","				self._node_style_overwrites.update(dictionary['node_styles'])\n"),(W,"				for name, colour in dictionary['node_colours'].items():\n					self._node_colour_overwrites[name] = colour\n","				self._node_colour_overwrites.update(dictionary['node_colours'])\n")]),
('append get tables',None,[(W,OV,r(OV,("			if 'node_styles' in dictionary:\n				for name, node_style in dictionary['node_styles'].items():\n					self","			for name, node_style in dictionary.get('node_styles', {}).items():\n				self")))]),
('append ifs edge id',None,[(W,OV,r(OV,("					edge_id = edges_dict.get(parent_child_edge_id, parent_child_edge_id)\n					self._edge_style","					if parent_child_edge_id in edges_dict:\n						edge_id = edges_dict[parent_child_edge_id]\n					else:\n						edge_id = parent_child_edge_id\n					self._edge_style")))]),
('append overwrites reordered',None,[(W,OV,(lambda p: ''.join([p[2],p[3],p[0],p[1]]))(["			if '"+x for x in OV.split("			if '")[1:]]))]),
('append comprehension',None,[(W,OV,r(OV,("				for parent_child_edge_id, colour in dictionary['edge_colours'].items():\n					edge_id = edges_dict.get(parent_child_edge_id, parent_child_edge_id)\n					self._edge_colour_overwrites[edge_id] = colour\n","				self._edge_colour_overwrites.update({\n					edges_dict.get(key, key): colour for key, colour in dictionary['edge_colours'].items()\n				})\n")))]),
('append keys loop',None,[(W,OV,r(OV,("for name, colour in dictionary['node_colours'].items():\n","for name in dictionary['node_colours']:\n					colour = dictionary['node_colours'][name]\n")))]),
('append hasattr',None,[(W,"			try:\n				dictionary = obj.__graph__()\n			except AttributeError:\n				dictionary = obj\n\n			if not isinstance(dictionary, dict)","			if hasattr(obj, '__graph__'):\n				dictionary = obj.__graph__()\n			else:\n				dictionary = obj\n\n			if not isinstance(dictionary, dict)")]),
('append early dict',None,[(W,"			try:\n				dictionary = obj.__graph__()\n			except AttributeError:\n				dictionary = obj\n\n			if not isinstance(dictionary, dict)","			dictionary = obj\n			if not isinstance(obj, dict):\n				try:\n					dictionary = obj.__graph__()\n				except AttributeError:\n					pass\n\n			if not isinstance(dictionary, dict)")]),
('append no else',None,[(W,AP,AP[:AP.index("		else:\n			try")]+ded(AP[AP.index("		else:\n			try")+len("		else:\n"):]))]),
('append loop options',None,[(W,"			if 'tooltip' in dictionary:\n				self._tooltip = dictionary['tooltip']\n\n			if 'label_url' in dictionary:\n				self._label_url = dictionary['label_url']\n","			for option in ('tooltip', 'label_url', 'direction'):\n				if option in dictionary:\n					setattr(self, f'_{option}', dictionary[option])\n"),(W,"			if 'direction' in dictionary:\n				self._direction = dictionary['direction']\n\n","")]),
('append get options',None,[(W,OP,r(OP,("			if 'strict' in dictionary:\n				self._is_strict = dictionary['strict']\n","			self._is_strict = dictionary.get('strict', self._is_strict)\n"),("			if 'tooltip' in dictionary:\n				self._tooltip = dictionary['tooltip']\n","			self._tooltip = dictionary.get('tooltip', self._tooltip)\n")))]),
('append label local',None,[(W,OP,r(OP,("				self._label = dictionary['label']\n				if self._label is not None and not self._label.startswith('\\n'):\n					self._label = '\\n' + self._label\n","				label = dictionary['label']\n				if label is None or label.startswith('\\n'):\n					self._label = label\n				else:\n					self._label = f'\\n{label}'\n")))]),
('append alias loop',None,[(W,OP,r(OP,("			if 'global_node_style' in dictionary:\n				self._global_node_style_overwrite = dictionary['global_node_style']\n			elif 'graph_node_style' in dictionary:\n				self._global_node_style_overwrite = dictionary['graph_node_style']\n","			if 'graph_node_style' in dictionary:\n				self._global_node_style_overwrite = dictionary['graph_node_style']\n			if 'global_node_style' in dictionary:\n				self._global_node_style_overwrite = dictionary['global_node_style']\n")))]),
('append nodes normalised',None,[(W,NL,"			nodes = dictionary['nodes']\n			if not isinstance(nodes, dict):\n				nodes = {name: {} for name in nodes}\n			for name, attributes in nodes.items():\n				self.add_node(name=name, **attributes)\n\n")]),
('append nodes attributes',None,[(W,NL,"			nodes = dictionary['nodes']\n			for name in nodes:\n				attributes = nodes[name] if isinstance(nodes, dict) else {}\n				self.add_node(name=name, **attributes)\n\n")]),
('append list helper',None,[(W,"			for item in obj:\n				self.append(obj=item)\n			return self\n","			return self._append_all(obj)\n"),(W,"	@classmethod\n	def from_dict","	def _append_all(self, objects):\n		for item in objects:\n			self.append(item)\n		return self\n\n	@classmethod\n	def from_dict")]),
('graph comprehension',None,[(W,GR,GR.replace(GR[:GR.index("		return {")],"""		nodes_dict = {
			node.id: {
				'label': node.raw_label,
				'value': node.value,
				'style': node.style.copy() if node.has_style() else None
			}
			for node in self.nodes
		}
		edges_list = [
			[
				edge.start.id,
				edge.end.id,
				{
					'id': edge.raw_id,
					'label': edge.raw_label,
					'value': edge.value,
					'style': edge.style.copy() if edge.has_style() else None
				}
			]
			for node in self.nodes for edge in node.outward_edges
		]

"""))]),
('graph two loops',None,[(W,GR,r(GR,("\n			for edge in node.outward_edges:","\n		for node in self.nodes:\n			for edge in node.outward_edges:")))]),
('graph helpers',None,[(W,GR,r(GR,("{\n						'id': edge.raw_id,\n						'label': edge.raw_label,\n						'value': edge.value,\n						'style': edge.style.copy() if edge.has_style() else None\n					}","self._edge_dict(edge)"))+"	@staticmethod\n	def _edge_dict(edge):\n		style = None\n		if edge.has_style():\n			style = edge.style.copy()\n		return {'id': edge.raw_id, 'label': edge.raw_label, 'value': edge.value, 'style': style}\n\n")]),
('graph dict copy',None,[(W,"self._node_style_overwrites.copy(),","dict(self._node_style_overwrites),"),(W,"self._edge_colour_overwrites.copy(),","{k: v for k, v in self._edge_colour_overwrites.items()},")]),
('graph deepcopy',None,[(W,"self._node_style_overwrites.copy(),","deepcopy(self._node_style_overwrites),"),(W,"from typing import","from copy import deepcopy\nfrom typing import")]),
('graph built up',None,[(W,GR,r(GR,("		return {\n","		result = {\n"))[:-1].rstrip()+"\n		return result\n\n")]),
('graph tuples',None,[(W,GR,r(GR,("edges_list.append([","edges_list.append(("),("				])\n","				))\n")))]),
('init obj helper',None,[(W,IN,"		colour_scheme = self._scheme_of(obj, colour_scheme)\n"+IN.replace("			colour_scheme = colour_scheme or obj._colour_scheme\n","			pass\n")),(W,"	def update_nodes(self):","	def _scheme_of(self, obj, colour_scheme):\n		if isinstance(obj, self.__class__):\n			return colour_scheme or obj._colour_scheme\n		return colour_scheme\n\n	def update_nodes(self):")]),
('init append none',None,[(W,"		if obj:\n			self.append(obj=obj)\n","		if obj is None:\n			return\n		if obj:\n			self.append(obj)\n")]),
('from dict obj',None,[(W,"		graph = cls()\n		graph.append(obj=obj)\n		return graph\n","		return cls().append(obj=obj)\n")]),
('from dict constructor',None,[(W,"		graph = cls()\n		graph.append(obj=obj)\n		return graph\n","		graph = cls()\n		graph = graph.append(obj)\n		return graph\n")]),
]
