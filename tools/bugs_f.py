import os, importlib.util
_s=importlib.util.spec_from_file_location('rf',os.path.join(os.path.dirname(os.path.abspath(__file__)),'refactors_f.py')); _m=importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
globals().update({k:v for k,v in vars(_m).items() if k.isupper()})
def r(t,*ab):
    for a,b in ab:
        assert a in t, a
        t=t.replace(a,b,1)
    return t
EDITS=[
('lists id name',{'C30'},[(B,FL,r(FL,('id=index, ','')))]),
('lists id one',{'C30'},[(B,FL,r(FL,('id=index','id=index or None')))]),
('lists swapped',{'C30'},[(B,FL,r(FL,('start=start_node, end=end_node','start=end_node, end=start_node')))]),
('lists label lost',{'C30'},[(B,FL,r(FL,(', label=edge_name',', label=edge_name or None')))]),
('lists skip self',{'C30'},[(B,FL,r(FL,('			graph.connect(','			if start_node is not end_node:\n				graph.connect(')))]),
('lists skip none',{'C30'},[(B,FL,r(FL,('			start_node =','			if edge_name is None:\n				continue\n			start_node =')))]),
('lists off by one',{'C30'},[(B,FL,r(FL,('zip(range(len(start)), start, end, edge)','zip(range(1, len(start)), start, end, edge)')))]),
('lists start 1',{'C30'},[(B,FL,r(FL,('for index, start_name, end_name, edge_name in zip(range(len(start)), start, end, edge)','for index, (start_name, end_name, edge_name) in enumerate(zip(start, end, edge), start=1)')))]),
('lists strict',{'C30'},[(B,"		graph = cls(strict=strict)\n		for index","		graph = cls()\n		for index")]),
('lists error',{'C30'},[(B,FL,r(FL,("end_node = graph.add_node(name=end_name, if_node_exists='ignore')","end_node = graph.add_node(name=end_name, if_node_exists='error' if end_name != start_name else 'ignore')")))]),
('lists break',{'C30'},[(B,FL,r(FL,('			graph.connect(','			if edge_name == \'\':\n				break\n			graph.connect(')))]),
('lists str names',{'C30'},[(B,FL,r(FL,('name=start_name','name=str(start_name)')))]),
('object only children',{'C30'},[(B,FO,r(FO,('if parent in obj_and_descendants','if parent in descendants')))]),
('object ancestors any',{'C30'},[(B,FO,r(FO,('obj_and_ancestors = [obj] + ancestors','obj_and_ancestors = [obj] + ancestors + descendants')))]),
('object swapped',{'C30'},[(B,FO,r(FO,('start=parent.__hash__(), end=child.__hash__()','start=child.__hash__(), end=parent.__hash__()')))]),
('object depth',{'C30'},[(B,'descendants = get_descendants(obj=obj, distance=False, max_depth=max_depth)','descendants = get_descendants(obj=obj, distance=False, max_depth=max_depth or max_height)')]),
('object height',{'C30'},[(B,'max_height=max_height)\n','max_height=max_depth)\n')]),
('object depth lost',{'C30'},[(B,', max_depth=max_depth)\n		anc',')\n		anc')]),
('object no ancestors nodes',{'C30'},[(B,FO,r(FO,('in descendants + ancestors','in descendants if descendants else ancestors')))]),
('object no edges above',{'C30'},[(B,FO,FO[:FO.index('		obj_and_ancestors')]+'		return graph\n')]),
('object above one',{'C30'},[(B,FO,r(FO,("				if child in obj_and_ancestors:\n					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')\n","				if child in obj_and_ancestors:\n					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')\n					break\n")))]),
('object self loop',{'C30'},[(B,FO,r(FO,('if parent in obj_and_descendants','if parent in obj_and_descendants and parent != child')))]),
('object strict',{'C30'},[(B,"		graph = cls(strict=strict)\n		graph.add_node(name=obj","		graph = cls(strict=bool(max_depth))\n		graph.add_node(name=obj")]),
('object error',{'C30'},[(B,FO,r(FO,("end=child.__hash__(), if_edge_exists='ignore'","end=child.__hash__(), if_edge_exists='error'")))]),
('random less eq',{'C23'},[(G,RA,r(RA,('elif n1 < n2','elif n1 <= n2')))]),
('random start zero',{'C23'},[(G,RA,r(RA,('[i + start_index for i in range(num_nodes)]','list(range(start_index, num_nodes + 1))')))]),
('random from index',{'C23'},[(G,RA,r(RA,('for i in range(num_nodes)]','for i in range(1, num_nodes + 1)]')))]),
('random seed zero',{'C23'},[(G,RA,r(RA,('if seed is not None','if seed')))]),
('random no ordering',{'C23'},[(G,RA,r(RA,('cls(strict=strict, ordering=ordering)','cls(strict=strict)')))]),
('random no strict',{'C23'},[(G,RA,r(RA,('cls(strict=strict, ordering=ordering)','cls(ordering=ordering)')))]),
('random no clip',{'C23'},[(G,RA,r(RA,('min(1.0, max(0.0, connection_probability))','connection_probability or 0.5')))]),
('random clip low',{'C23'},[(G,RA,r(RA,('min(1.0, max(0.0, connection_probability))','min(1.0, max(0.1, connection_probability))')))]),
('random seed late',{'C23'},[(G,RA,r(RA,('		if seed is not None:\n			random.seed(seed)\n		for n1 in node_names:\n','		for n1 in node_names:\n			if n1 == start_index + 1 and seed is not None:\n				random.seed(seed)\n')))]),
('random cycle self',{'C23'},[(G,RA,r(RA,('if cycle:','if cycle and n1 != n2:')))]),
('random upper',{'C23'},[(G,RA,r(RA,('uniform(0, 1)','uniform(0, 1.01)')))]),
('random str compare',{'C23'},[(G,RA,r(RA,('elif n1 < n2','elif str(n1) < str(n2)')))]),
('random reverse',{'C23'},[(G,RA,r(RA,("elif n1 < n2:\n						graph.connect(start=str(n1), end=str(n2))","elif n1 < n2:\n						graph.connect(start=str(n2), end=str(n1))")))]),
('random pairs once',{'C23'},[(G,RA,r(RA,('			for n2 in node_names:','			for n2 in node_names[1:]:')))]),
('random hash seed',{'C23'},[(G,RA,r(RA,('random.seed(seed)','random.seed(hash(str(seed)))')))]),
('text parent zero',{'C26'},[(B,FT,r(FT,('if parent_index is not None','if parent_index')))]),
('text level parent',{'C26'},[(B,FT,r(FT,('start=str(parent_index)','start=str(max(index - 1, parent_index))')))]),
('text swapped',{'C26'},[(B,FT,r(FT,("start='root', end=str(index)","start=str(index), end='root'")))]),
('text no root',{'C26'},[(B,FT,r(FT,("			else:\n				graph.connect(start='root', end=str(index))\n","			elif level == 0 and content:\n				graph.connect(start='root', end=str(index))\n")))]),
('text skip empty',{'C26'},[(B,FT,r(FT,("			graph.add_node(name=str(index)","			if not content:\n				continue\n			graph.add_node(name=str(index)")))]),
('text indent lost',{'C26'},[(B,"parse_indentations(lines, indent=indent)","parse_indentations(lines)")]),
]
