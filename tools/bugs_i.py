import os, importlib.util
_s=importlib.util.spec_from_file_location('rf',os.path.join(os.path.dirname(os.path.abspath(__file__)),'refactors_i.py')); _m=importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
globals().update({k:v for k,v in vars(_m).items() if k!='EDITS' and not k.startswith('__')})
w={'C14'}; v={'C32'}; b={'C14','C32'}
E2="					parent, child = parent_child_edge_dict\n					edge = self.connect(start=parent, end=child)\n"
E3="					parent, child, edge_dict = parent_child_edge_dict\n					edge = self.connect(start=parent, end=child, **edge_dict)\n"
M="					edges_dict[(parent, child)] = edge.id\n					edges_dict[edge.id] = edge.id\n"
EDITS=[
('tooltip lost',b,[(W,"			if 'tooltip' in dictionary:","			if dictionary.get('tooltip') and 'label' not in dictionary:")]),
('label url elif',b,[(W,"			if 'label_url' in dictionary:","			elif 'label_url' in dictionary:")]),
('strict only true',b,[(W,"				self._is_strict = dictionary['strict']","				self._is_strict = self._is_strict or dictionary['strict']")]),
('ordering none',b,[(W,"			if 'ordering' in dictionary:","			if dictionary.get('ordering'):")]),
('swapped three',b,[(W,"edge = self.connect(start=parent, end=child, **edge_dict)","edge = self.connect(start=child, end=parent, **edge_dict)"),(W,"edges_dict[(parent, child)]","edges_dict[(child, parent)]")]) if False else
('swapped three',b,[(W,E3,r(E3,("parent, child, edge_dict =","child, parent, edge_dict =")))]),
('swapped two',v,[(W,E2,r(E2,("start=parent, end=child","start=child, end=parent")))]),
('attributes lost',b,[(W,E3,r(E3,("**edge_dict","**{k: x for k, x in edge_dict.items() if k != 'id'}")))]),
('value lost',b,[(W,E3,r(E3,("**edge_dict","id=edge_dict.get('id'), label=edge_dict.get('label'), style=edge_dict.get('style')")))]),
('node attrs lost',b,[(W,"self.add_node(name=node_name, **node_dict)","self.add_node(name=node_name, label=node_dict.get('label'), value=node_dict.get('value'))")]),
('node value falsy',b,[(W,"self.add_node(name=node_name, **node_dict)","self.add_node(name=node_name, **{k: x for k, x in node_dict.items() if x})")]),
('no pair map',v,[(W,E3+M,E3+"					edges_dict[edge.id] = edge.id\n")]),
('pair map two',v,[(W,E2+M,E2+"					edges_dict[edge.id] = edge.id\n")]),
('pair map swapped',v,[(W,E2+M,E2+r(M,("(parent, child)","(child, parent)")))]),
('too few still refused',None,[(W,"len(parent_child_edge_dict) < 2:","len(parent_child_edge_dict) < 1:")]),
('too many silent',v,[(W,"			else:\n					raise ValueError('Too many objects in an edge definition!')","			else:\n					pass")]),
('too many taken',v,[(W,"elif len(parent_child_edge_dict) == 3:","elif len(parent_child_edge_dict) >= 3:"),(W,"parent, child, edge_dict = parent_child_edge_dict","parent, child, edge_dict = parent_child_edge_dict[:3]")]),
('too few type',v,[(W,"raise ValueError('Too few","raise TypeError('Too few")]),
('list first',v,[(W,"				self.append(obj=item)\n			return self","				return self.append(obj=item)")]),
('list skip falsy',v,[(W,"				self.append(obj=item)\n","				if isinstance(item, dict):\n					self.append(obj=item)\n")]),
('tuple dropped',v,[(W,"if isinstance(obj, (list, tuple)):","if isinstance(obj, list):")]),
('typeerror gone',v,[(W,"			if not isinstance(dictionary, dict):","			if dictionary is not None and not isinstance(dictionary, (dict, set, str)):")]),
('edge colours raw',v,[(W,"					edge_id = edges_dict.get(parent_child_edge_id, parent_child_edge_id)\n					self._edge_colour","					edge_id = parent_child_edge_id\n					self._edge_colour")]),
('edge styles only pairs',b,[(W,"					edge_id = edges_dict.get(parent_child_edge_id, parent_child_edge_id)\n					self._edge_style_overwrites[edge_id] = edge_style","					if len(parent_child_edge_id) == 2:\n						self._edge_style_overwrites[edges_dict.get(parent_child_edge_id, parent_child_edge_id)] = edge_style")]),
('node colours setdefault',v,[(W,"self._node_colour_overwrites[name] = colour","self._node_colour_overwrites.setdefault(name, colour)")]),
('node styles existing',b,[(W,"				for name, node_style in dictionary['node_styles'].items():\n","				for name, node_style in dictionary['node_styles'].items():\n					if name not in self._nodes_dict:\n						continue\n")]),
('colours into styles',b,[(W,"self._node_colour_overwrites[name] = colour","self._node_style_overwrites[name] = colour")]),
('graph alias tables',w,[(W,"self._node_colour_overwrites.copy()","self._node_colour_overwrites")]),
('graph alias if',w,[(W,"self._edge_style_overwrites.copy()","self._edge_style_overwrites.copy() if self._edge_colour_overwrites else self._edge_style_overwrites")]),
('graph shared style',w,[(W,"edge.style.copy() if edge.has_style() else None","edge.style if edge.has_style() else None")]),
('graph no url',w,[(W,"			'label_url': self._label_url,\n","")]),
('graph label',w,[(W,"'label': node.raw_label,","'label': node.label,")]),
('graph edge label same',None,[(W,"'label': edge.raw_label,","'label': edge.label,")]),
('graph edge id',w,[(W,"'id': edge.raw_id,","'id': edge.raw_id or None,")]),
('graph ends swapped',w,[(W,"					edge.start.id,\n					edge.end.id,\n","					edge.end.id,\n					edge.start.id,\n")]),
('graph inward',w,[(W,"			for edge in node.outward_edges:\n				edges_list","			for edge in node.inward_edges:\n				edges_list")]),
('graph no loops',w,[(W,"			for edge in node.outward_edges:\n				edges_list","			for edge in node.outward_edges:\n				if edge.end is node:\n					continue\n				edges_list")]),
('graph overwrite swap',w,[(W,"'node_styles': self._node_style_overwrites.copy(),","'node_styles': self._node_colour_overwrites.copy(),")]),
('graph roots',w,[(W,"		for node in self.nodes:\n			nodes_dict[node.id] = {","		for node in self.nodes:\n			if node.is_isolated() if hasattr(node, 'is_isolated') else not (node.has_children() or node.has_parents()):\n				continue\n			nodes_dict[node.id] = {")]),
('graph value falsy',w,[(W,"				'value': node.value,","				'value': node.value or None,")]),
('init loses obj',v,[(W,"		if obj:\n			self.append(obj=obj)","		if obj and not isinstance(obj, (list, tuple)):\n			self.append(obj=obj)")]),
('init early',v,[(W,"			if stylist is None:\n				stylist = 'pensieve'\n","			if stylist is None:\n				stylist = 'pensieve'\n			obj = {k: x for k, x in obj.items() if k in ('nodes', 'edges')}\n")]),
('init overwrites after',v,[(W,"		if obj:\n			self.append(obj=obj)\n","		if obj:\n			self.append(obj=obj)\n		self._tooltip = tooltip\n")]),
('from dict partial',b,[(W,"		graph.append(obj=obj)\n		return graph","		graph.append(obj={'nodes': obj['nodes'], 'edges': obj['edges']})\n		return graph")]),
('ends only with attributes',v,[(W,"					edge = self.connect(start=parent, end=child, **edge_dict)\n					edges_dict[(parent, child)] = edge.id\n","					edge = self.connect(start=parent, end=child, **edge_dict)\n					if edge_dict:\n						edges_dict[(parent, child)] = edge.id\n")]),
('ends only when new',None,[(W,"					edge = self.connect(start=parent, end=child, **edge_dict)\n					edges_dict[(parent, child)] = edge.id\n","					edge = self.connect(start=parent, end=child, **edge_dict)\n					if (parent, child) not in edges_dict:\n						edges_dict[(parent, child)] = edge.id\n")]),
]
