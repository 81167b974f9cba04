import os, importlib.util
_s=importlib.util.spec_from_file_location('rf',os.path.join(os.path.dirname(os.path.abspath(__file__)),'refactors_h.py')); _m=importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
globals().update({k:v for k,v in vars(_m).items() if k!='EDITS' and not k.startswith('__')})
w={'C13'}
EDITS=[
('state no frozen',w,[(O,OS,r(OS,("self._frozen = state['frozen']","self._frozen = False")))]),
('state label value',w,[(O,OS,r(OS,("self._label = state['label']","self._label = state['label'] or state['value']")))]),
('state display label',w,[(O,OG,r(OG,("'label': self._label","'label': self.label")))]),
('state params lost',w,[(O,OS,r(OS,("self._parameters = state['parameters']","self._parameters = {}")))]),
('state counter',w,[(B,SA,r(SA,("'_node_counter', ",""))),(B,"				node._graph = self\n","				node._graph = self\n			self._node_counter = len(self._nodes_dict)\n")]),
('state converter',w,[(B,SA,r(SA,(", '_edge_label_converter'","")))  ,(B,"		if not self._nodes_have_graph:\n","		self._edge_label_converter = self._node_label_converter\n		if not self._nodes_have_graph:\n")]),
('state overwrites',w,[(W,"'_node_colour_overwrites', '_edge_colour_overwrites',\n		'_label',","'_node_colour_overwrites', '_edge_colour_overwrites',\n		"),(W,"		self._nodes_have_graph = False\n		self.update_nodes()","		self._label = None\n		self._nodes_have_graph = False\n		self.update_nodes()")]),
('state have graph',w,[(W,"		self._nodes_have_graph = False\n		self.update_nodes()","		self.update_nodes()"),(B,"				node._graph = self\n","				node._graph = self\n			self._nodes_have_graph = True\n")]),
('state flags',w,[(N,"		self._inward_edges_have_end_node = False\n","		self._inward_edges_have_end_node = len(self._inward_edges_dict) == 0 or self._outward_edges_have_start_node\n"),(N,"		self._outward_edges_have_start_node = False\n","		self._outward_edges_have_start_node = True\n")]),
('state swapped',w,[(N,UE,r(UE,('inward_edge._end = self','inward_edge._end = self if inward_edge._end is None else inward_edge._end'),('outward_edge._start = self','outward_edge._end = self')))]),
('state no edge graph',w,[(N,UE,UE.replace('				inward_edge._graph = self.graph\n','').replace('				outward_edge._graph = self.graph\n',''))]),
('state skip isolated',w,[(W,UN,r(UN,('				node.update_edges()\n','				if node.has_children() and node.has_parents():\n					node.update_edges()\n')))]),
('state first',w,[(W,UN,r(UN,('				node.update_edges()\n','				node.update_edges()\n				break\n')))]),
('copy shallow',w,[(B,'from copy import deepcopy','from copy import copy, deepcopy'),(B,'		return deepcopy(self)\n','		return copy(self)\n')]),
('copy empty self',w,[(B,'		return deepcopy(self)\n','		return deepcopy(self) if self._nodes_dict else self\n')]),
('state index',w,[(N,"			'index': self._index\n","			'index': self._index if self._frozen else None\n")]),
('state touch',w,[(B,"		state['_nodes_have_graph'] = False\n","		state['_nodes_have_graph'] = False\n		for node in self._nodes_dict.values():\n			node._outward_edges_have_start_node = False\n")]),
('state edge id',w,[(E,"		self.raw_id = state['id']","		self.raw_id = state['id'] or None")]),
('state font',w,[(W,"'_font', '_font_size', '_kwargs'","'_font', '_kwargs'"),(W,"		self._nodes_have_graph = False\n		self.update_nodes()","		self._font_size = 10\n		self._nodes_have_graph = False\n		self.update_nodes()")]),
]
