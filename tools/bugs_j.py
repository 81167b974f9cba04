import os, importlib.util
_s=importlib.util.spec_from_file_location('rf',os.path.join(os.path.dirname(os.path.abspath(__file__)),'refactors_j.py')); _m=importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
globals().update({k:v for k,v in vars(_m).items() if k!='EDITS' and not k.startswith('__')})
w={'C15'}
EDITS=[
('no isolated',w,[(W,"{**d1['nodes'], **d2['nodes']}","{**d1['nodes'], **{k: x for k, x in d2['nodes'].items() if k in d1['nodes'] or d2['edges']}}")]),
('only common',w,[(W,"			else:\n				nodes[the_id] = d2['nodes'][the_id]\n","			elif d2['nodes'][the_id]['value'] is not None:\n				nodes[the_id] = d2['nodes'][the_id]\n")]),
('order second',w,[(W,"{**d1['nodes'], **d2['nodes']}","{**d2['nodes'], **d1['nodes']}")]),
('order set',w,[(W,"{**d1['nodes'], **d2['nodes']}","set(d1['nodes']).union(d2['nodes'])")]),
('sorted ids',w,[(W,"in {**d1['nodes'], **d2['nodes']}:","in sorted({**d1['nodes'], **d2['nodes']}):")]),
('second wins',w,[(W,"n[key] = node1[key] or node2[key]","n[key] = node2[key] or node1[key]")]),
('edge second wins',w,[(W,"edge1_dict[key] = edge1_dict[key] or edge2_dict[key]","edge1_dict[key] = edge2_dict[key] or edge1_dict[key]")]),
('values swapped',w,[(W,"n[key] = add_values_function(node1[key], node2[key])","n[key] = add_values_function(node2[key], node1[key])")]),
('edge values swapped',w,[(W,"add_values_function(edge1_dict[key], edge2_dict[key])","add_values_function(edge2_dict[key], edge1_dict[key])")]),
('edge value plain',w,[(W,"						if key == 'value':\n							edge1_dict","						if key == 'values':\n							edge1_dict")]),
('first label only',w,[(W,"n[key] = node1[key] or node2[key]","n[key] = node1[key]")]),
('edges by ends',w,[(W,AD,r(AD,("(start2, end2, id2)","(start2, end2)")))]),
('edges by id',w,[(W,AD,r(AD,("(start2, end2, id2)","id2")))]),
('edges unordered ends',w,[(W,AD,r(AD,("(start2, end2, id2)","(min(start2, end2), max(start2, end2), id2)")))]),
('edges first',w,[(W,"in d1['edges'] + d2['edges']:","in d1['edges'] + [x for x in d2['edges'] if x not in d1['edges']]:")]),
('edges second only',w,[(W,"in d1['edges'] + d2['edges']:","in d1['edges'] or d2['edges']:")]),
('edges reversed',w,[(W,"in d1['edges'] + d2['edges']:","in d2['edges'] + d1['edges']:")]),
('default zero',w,[(W,FN,r(FN,("return y if x is None else x","return 0")))]),
('default first',w,[(W,FN,r(FN,("return y if x is None else x","return x")))]),
('default truth',w,[(W,FN,r(FN,("if x is None or y is None","if x is None and y is None"),("return y if x is None else x","return None")))]),
('default swapped',w,[(W,FN,r(FN,("return x + y","return y + x")))]),
('given ignored',w,[(W,"		if add_values_function is None:","		if add_values_function is None or not d2['edges']:")]),
('operand appended',w,[(W,"		result = self.__class__(obj=result_representation)\n","		self._node_style_overwrites.update(node_styles)\n		result = self.__class__(obj=result_representation)\n")]),
('operand returned',w,[(W,"		d1 = self.__graph__()\n","		if not other.nodes_dict:\n			return self\n		d1 = self.__graph__()\n")]),
('appended in place',w,[(W,"		result = self.__class__(obj=result_representation)\n\n		return result\n","		result = self.append(result_representation)\n\n		return result\n")]),
('edge attribute',w,[(W,"					elif key in edge2_dict:\n						edge1_dict[key] = edge2_dict[key]\n",""),(W,"edges[(start2, end2, id2)] = start2, end2, edge2_dict","edges[(start2, end2, id2)] = start2, end2, {k: x for k, x in edge2_dict.items() if k != 'label' or x}")]) if False else
('edge attribute',w,[(W,"edges[(start2, end2, id2)] = start2, end2, edge2_dict","edges[(start2, end2, id2)] = start2, end2, {k: x for k, x in edge2_dict.items() if k != 'label'}")]),
('node attribute',w,[(W,"				nodes[the_id] = d1['nodes'][the_id]\n","				nodes[the_id] = {'label': d1['nodes'][the_id]['label'], 'value': d1['nodes'][the_id]['value']}\n")]),
('loops lost',w,[(W,"			id2 = edge2_dict['id']\n","			id2 = edge2_dict['id']\n			if start2 == end2 and start2 not in d1['nodes']:\n				continue\n")]),
('add other only',w,[(W,"		return self.add(other=other)\n","		return other.add(other=self)\n")]),
]
