W='_GraphWithoutDisplay.py'
src=open('/repo/abstract/'+W).read()
def r(t,*ab):
    for a,b in ab:
        assert a in t,a
        t=t.replace(a,b)
    return t
AD=src[src.index("		d1 = self.__graph__()"):src.index("	def render(")]
NO=AD[AD.index("		nodes = {}"):AD.index("		edges = {}")]
ED=AD[AD.index("		edges = {}"):AD.index("		result_representation")]
FN=AD[AD.index("		if add_values_function is None"):AD.index("		nodes = {}")]
IN=NO[NO.index("				n = {}\n"):NO.index("				nodes[the_id] = n\n")]
EI=ED[ED.index("				for key in set(edge1_dict"):ED.index("			else:\n				edges[")]
H="	def render(\n"
EDITS=[
('add merge helper',None,[(W,IN,"				n = self._merged(node1, node2, add_values_function)\n"),(W,H,"	@staticmethod\n	def _merged(first, second, add_values_function):\n		result = {}\n		for key in set(first.keys()).union(second.keys()):\n			if key in first and key in second:\n				if key == 'value':\n					result[key] = add_values_function(first[key], second[key])\n				else:\n					result[key] = first[key] or second[key]\n			elif key in first:\n				result[key] = first[key]\n			else:\n				result[key] = second[key]\n		return result\n\n"+H)]),
('add merge both helper',None,[(W,IN,"				n = self._merged(node1, node2, add_values_function)\n"),(W,ED,"""		edges = {}
		for start, end, edge_dict in d1['edges'] + d2['edges']:
			key = (start, end, edge_dict['id'])
			if key in edges:
				edges[key] = start, end, self._merged(edges[key][2], edge_dict, add_values_function)
			else:
				edges[key] = start, end, edge_dict
		edges = edges.values()

"""),(W,H,"	@staticmethod\n	def _merged(first, second, add_values_function):\n		result = {**second, **first}\n		for key in result:\n			if key in first and key in second:\n				if key == 'value':\n					result[key] = add_values_function(first[key], second[key])\n				else:\n					result[key] = first[key] or second[key]\n		return result\n\n"+H)]),
('add default module',None,[(W,FN,"		if add_values_function is None:\n			add_values_function = self._add_values\n\n"),(W,H,"	@staticmethod\n	def _add_values(x, y):\n		if x is None:\n			return y\n		if y is None:\n			return x\n		return x + y\n\n"+H)]),
('add default lambda',None,[(W,FN,"		if add_values_function is None:\n			add_values_function = lambda x, y: y if x is None else x if y is None else x + y\n\n")]),
('add default or',None,[(W,FN,"		def default(x, y):\n			if x is not None and y is not None:\n				return x + y\n			return x if y is None else y\n\n		add_values_function = add_values_function or default\n\n")]),
('add nodes two loops',None,[(W,NO,"""		nodes = dict(d1['nodes'])
		for the_id, node2 in d2['nodes'].items():
			if the_id not in nodes:
				nodes[the_id] = node2
				continue
			node1 = nodes[the_id]
			nodes[the_id] = {
				'label': node1['label'] or node2['label'],
				'value': add_values_function(node1['value'], node2['value']),
				'style': node1['style'] or node2['style']
			}

""")]),
('add nodes get',None,[(W,NO,r(NO,("			if the_id in d1['nodes'] and the_id in d2['nodes']:\n				node1 = d1['nodes'][the_id]\n				node2 = d2['nodes'][the_id]\n","			node1, node2 = d1['nodes'].get(the_id), d2['nodes'].get(the_id)\n			if node1 is not None and node2 is not None:\n"),("			elif the_id in d1['nodes']:\n				nodes[the_id] = d1['nodes'][the_id]\n			else:\n				nodes[the_id] = d2['nodes'][the_id]\n","			else:\n				nodes[the_id] = node2 if node1 is None else node1\n")))]),
('add nodes list',None,[(W,NO,r(NO,("for the_id in {**d1['nodes'], **d2['nodes']}:","for the_id in list(d1['nodes']) + [i for i in d2['nodes'] if i not in d1['nodes']]:")))]),
('add nodes fromkeys',None,[(W,NO,r(NO,("for the_id in {**d1['nodes'], **d2['nodes']}:","for the_id in dict.fromkeys([*d1['nodes'], *d2['nodes']]):")))]),
('add nodes update',None,[(W,NO,r(NO,("for the_id in {**d1['nodes'], **d2['nodes']}:","ids = d1['nodes'].copy()\n		ids.update(d2['nodes'])\n		for the_id in ids:")))]),
('add explicit is none',None,[(W,IN,r(IN,("n[key] = node1[key] or node2[key]","n[key] = node1[key] if node1[key] is not None else node2[key]")))]),
('add edges get',None,[(W,ED,r(ED,("			if (start2, end2, id2) in edges:\n				edge1 = edges[(start2, end2, id2)]\n				edge1_dict = edge1[2]\n","			edge1 = edges.get((start2, end2, id2))\n			if edge1 is not None:\n				edge1_dict = edge1[2]\n")))]),
('add edges key',None,[(W,ED,r(ED,("(start2, end2, id2)","edge_key"),("			id2 = edge2_dict['id']\n","			edge_key = (start2, end2, edge2_dict['id'])\n")))]),
('add edges chain',None,[(W,ED,r(ED,("for edge2 in d1['edges'] + d2['edges']:\n			start2, end2, edge2_dict = edge2\n","for start2, end2, edge2_dict in [*d1['edges'], *d2['edges']]:\n")))]),
('add edges for for',None,[(W,ED,ED.replace("		for edge2 in d1['edges'] + d2['edges']:\n","		for edge2 in (edge for d in (d1, d2) for edge in d['edges']):\n"))]),
('add edges list',None,[(W,ED,r(ED,("		edges = edges.values()","		edges = list(edges.values())")))]),
('add edges copy',None,[(W,ED,r(ED,("] = start2, end2, edge2_dict","] = [start2, end2, dict(edge2_dict)]")))]),
('add literal',None,[(W,"		result = self.__class__(obj=result_representation)\n\n		return result\n","		return type(self)(obj=result_representation)\n")]),
('add append',None,[(W,"		result = self.__class__(obj=result_representation)\n\n		return result\n","		result = self.__class__()\n		result.append(result_representation)\n		return result\n")]),
('add helpers all',None,[(W,NO,"		nodes = self._added_nodes(d1['nodes'], d2['nodes'], add_values_function)\n\n"),(W,H,"	@staticmethod\n	def _added_nodes(first, second, add_values_function):\n"+r(NO,("d1['nodes']","first"),("d2['nodes']","second")).rstrip()+"\n		return nodes\n\n"+H)]),
('add styles merged',None,[(W,"		node_styles = d1['node_styles']\n		node_styles.update(d2['node_styles'])\n","		node_styles = {**d1['node_styles'], **d2['node_styles']}\n")]),
('dunder positional',None,[(W,"		return self.add(other=other)\n","		return self.add(other)\n")]),
]
