B,N,E,W,O='_BasicGraph.py','Node.py','Edge.py','_GraphWithoutDisplay.py','_GraphObj.py'
UE=open('/repo/abstract/Node.py').read(); UE=UE[UE.index('		"""Updates the edges of the node."""'):UE.index('	@property\n	def outward_edges_dict')]
UN=open('/repo/abstract/_GraphWithoutDisplay.py').read(); UN=UN[UN.index('		"""Updates the nodes in the graph."""'):UN.index('	def __setstate__')]
OS=open('/repo/abstract/_GraphObj.py').read(); OS=OS[OS.index("	def __setstate__"):OS.index('	def get(self')]
OG=open('/repo/abstract/_GraphObj.py').read(); OG=OG[OG.index("	def __getstate__"):OG.index('	def __setstate__')]
SA=open('/repo/abstract/_BasicGraph.py').read(); SA=SA[SA.index("	_STATE_ATTRIBUTES"):SA.index('	#  for pickling')]
def r(t,*ab):
    for a,b in ab:
        assert a in t, a
        t=t.replace(a,b,1)
    return t
EDITS=[
('state items',None,[(W,UN,r(UN,('for node in self._nodes_dict.values():','for name, node in self._nodes_dict.items():')))]),
('state keys',None,[(W,UN,r(UN,('for node in self._nodes_dict.values():\n','for name in self._nodes_dict:\n				node = self._nodes_dict[name]\n')))]),
('state nodes',None,[(W,UN,r(UN,('self._nodes_dict.values()','self.nodes')))]),
('state always',None,[(W,UN,'''		"""Updates the nodes in the graph."""
		for node in self._nodes_dict.values():
			node._graph = self
		for node in self._nodes_dict.values():
			node.update_edges()
		self._nodes_have_graph = True

''')]),
('state edges loop',None,[(N,UE,'''		"""Updates the edges of the node."""
		if self._outward_edges_have_start_node and self._inward_edges_have_end_node:
			return
		for edge in self._outward_edges_dict.values():
			edge._start = self
		for edge in self._inward_edges_dict.values():
			edge._end = self
		for edge in list(self._outward_edges_dict.values()) + list(self._inward_edges_dict.values()):
			edge._graph = self._graph
		self._outward_edges_have_start_node = True
		self._inward_edges_have_end_node = True

''')]),
('state edges out only',None,[(N,UE,r(UE,('				inward_edge._graph = self.graph\n','')))]),
('state loop',None,[(O,OS,'''	_STATE = ('graph', 'value', 'label', 'tooltip', 'style', 'frozen', 'parameters')

	def __setstate__(self, state):
		for key in self._STATE:
			setattr(self, '_' + key, state[key])
		self._raw_id = state['id']

''')]),
('state dict call',None,[(O,OG,'''	def __getstate__(self):
		return dict(
			graph=None, id=self.raw_id, value=self._value, label=self._label, tooltip=self._tooltip,
			style=self._style, frozen=self._frozen, parameters=self._parameters
		)

''')]),
('state tuple',None,[(B,SA,SA.replace('[','(',1).replace(']',')').replace('_edge_label_converter\'','_edge_label_converter\'')),(W,'BasicGraph._STATE_ATTRIBUTES + [','list(BasicGraph._STATE_ATTRIBUTES) + [')]),
('state explicit',None,[(B,'''		state = {
			attr: getattr(self, attr)
			for attr in self._STATE_ATTRIBUTES
		}
''','''		state = {}
		for attr in self._STATE_ATTRIBUTES:
			state[attr] = getattr(self, attr)
''')]),
('state vars',None,[(B,'''		state = {
			attr: getattr(self, attr)
			for attr in self._STATE_ATTRIBUTES
		}
''','''		state = dict(self.__dict__)
''')]),
('copy module',None,[(B,'		return deepcopy(self)\n','		new_graph = deepcopy(self)\n		return new_graph\n')]),
('state super',None,[(N,'''		state.update({
			'outward_edges_dict': self._outward_edges_dict,
			'inward_edges_dict': self._inward_edges_dict,
			'index': self._index
		})
''','''		state['outward_edges_dict'] = self._outward_edges_dict
		state['inward_edges_dict'] = self._inward_edges_dict
		state['index'] = self._index
''')]),
('state pop',None,[(N,"		super().__setstate__(state=state)\n		self._outward_edges_dict = state['outward_edges_dict']","		self._outward_edges_dict = state['outward_edges_dict']\n		super().__setstate__(state)")]),
]
