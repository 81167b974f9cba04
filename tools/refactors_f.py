B='_BasicGraph.py'; N='Node.py'; E='Edge.py'; O='_GraphObj.py'; G='_GraphWithoutDisplay.py'; PI='parse_indentations_function.py'; GA='get_ancestors.py'; GD='get_descendants.py'
FL="""		for index, start_name, end_name, edge_name in zip(range(len(start)), start, end, edge):
			start_node = graph.add_node(name=start_name, if_node_exists='ignore')
			end_node = graph.add_node(name=end_name, if_node_exists='ignore')
			graph.connect(start=start_node, end=end_node, id=index, label=edge_name)
		return graph
"""
FO="""		for relative in descendants + ancestors:
			graph.add_node(name=relative.__hash__(), label=str(relative), if_node_exists='ignore')

		obj_and_descendants = [obj] + descendants
		for child in descendants:
			for parent in child.__parents__():
				if parent in obj_and_descendants:
					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')

		obj_and_ancestors = [obj] + ancestors
		for parent in ancestors:
			for child in parent.__children__():
				if child in obj_and_ancestors:
					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')

		return graph
"""
RA="""		graph = cls(strict=strict, ordering=ordering)
		connection_probability = min(1.0, max(0.0, connection_probability))
		node_names = [i + start_index for i in range(num_nodes)]
		for n in node_names:
			graph.add_node(name=str(n))

		if seed is not None:
			random.seed(seed)
		for n1 in node_names:
			for n2 in node_names:
				if random.uniform(0, 1) < connection_probability:
					if cycle:
						graph.connect(start=str(n1), end=str(n2))
					elif n1 < n2:
						graph.connect(start=str(n1), end=str(n2))

		return graph
"""
FT="""		for index, level, content, parent_index in lines:
			graph.add_node(name=str(index), label=f'line {index}')

			if parent_index is not None:
				graph.connect(start=str(parent_index), end=str(index))
			else:
				graph.connect(start='root', end=str(index))

		return graph
"""
def loop(head, body, tail='\t\treturn graph\n'):
    return head + body + tail
EDITS=[
('lists enumerate',None,[(B,FL,"""		for index, (start_name, end_name, edge_name) in enumerate(zip(start, end, edge)):
			graph.add_node(name=start_name, if_node_exists='ignore')
			graph.add_node(name=end_name, if_node_exists='ignore')
			graph.connect(start=start_name, end=end_name, id=index, label=edge_name)
		return graph
""")]),
('lists range',None,[(B,FL,"""		for i in range(len(start)):
			graph.add_node(name=start[i], if_node_exists='ignore')
			graph.add_node(name=end[i], if_node_exists='ignore')
			graph.connect(start=start[i], end=end[i], id=i, label=edge[i])
		return graph
""")]),
('lists nodes first',None,[(B,FL,"""		for start_name, end_name in zip(start, end):
			graph.add_node(name=start_name, if_node_exists='ignore')
			graph.add_node(name=end_name, if_node_exists='ignore')
		for index, row in enumerate(zip(start, end, edge)):
			graph.connect(start=row[0], end=row[1], id=index, label=row[2])
		return graph
""")]),
('lists not in',None,[(B,FL,"""		for index, start_name, end_name, edge_name in zip(range(len(start)), start, end, edge):
			for name in (start_name, end_name):
				if name not in graph:
					graph.add_node(name=name)
			graph.connect(start=start_name, end=end_name, id=index, label=edge_name)
		return graph
""")]),
('lists helper',None,[(B,FL,"""		for index, row in enumerate(zip(start, end, edge)):
			graph._connect_row(index, *row)
		return graph

	def _connect_row(self, index, start_name, end_name, edge_name):
		nodes = [self.add_node(name=name, if_node_exists='ignore') for name in (start_name, end_name)]
		self.connect(*nodes, id=index, label=edge_name)
""")]),
('lists counter',None,[(B,FL,"""		index = 0
		for start_name, end_name, edge_name in zip(start, end, edge):
			start_node = graph.add_node(name=start_name, if_node_exists='ignore')
			end_node = graph.add_node(name=end_name, if_node_exists='ignore')
			graph.connect(start=start_node, end=end_node, id=index, label=edge_name)
			index += 1
		return graph
""")]),
('lists kwargs',None,[(B,FL,"""		for index, start_name, end_name, edge_name in zip(range(len(start)), start, end, edge):
			node_options = {'if_node_exists': 'ignore'}
			edge_options = {'id': index, 'label': edge_name}
			start_node = graph.add_node(start_name, **node_options)
			end_node = graph.add_node(end_name, **node_options)
			graph.connect(start_node, end_node, **edge_options)
		return graph
""")]),
('object helper',None,[(B,FO,"""		for relative in descendants + ancestors:
			graph.add_node(name=relative.__hash__(), label=str(relative), if_node_exists='ignore')

		def join(parent, child):
			graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')

		for child in descendants:
			for parent in child.__parents__():
				if parent == obj or parent in descendants:
					join(parent, child)

		for parent in ancestors:
			for child in parent.__children__():
				if child == obj or child in ancestors:
					join(parent, child)

		return graph
""")]),
('object continue',None,[(B,FO,"""		for relative in descendants:
			graph.add_node(name=relative.__hash__(), label=str(relative), if_node_exists='ignore')
		for relative in ancestors:
			graph.add_node(name=relative.__hash__(), label=str(relative), if_node_exists='ignore')

		obj_and_ancestors = ancestors + [obj]
		for parent in ancestors:
			for child in parent.__children__():
				if child not in obj_and_ancestors:
					continue
				graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')

		obj_and_descendants = [obj, *descendants]
		for child in descendants:
			for parent in child.__parents__():
				if parent not in obj_and_descendants:
					continue
				graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')

		return graph
""")]),
('object hash',None,[(B,FO,FO.replace('relative.__hash__()','hash(relative)').replace('parent.__hash__()','hash(parent)').replace('child.__hash__()','hash(child)')),(B,'graph.add_node(name=obj.__hash__(), label=str(obj))','graph.add_node(name=hash(obj), label=str(obj))')]),
('object comp',None,[(B,FO,"""		for relative in descendants + ancestors:
			if relative.__hash__() not in graph:
				graph.add_node(name=relative.__hash__(), label=str(relative))

		pairs = [(parent, child) for child in descendants for parent in child.__parents__() if parent in [obj] + descendants]
		pairs += [(parent, child) for parent in ancestors for child in parent.__children__() if child in [obj] + ancestors]
		for parent, child in pairs:
			graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')

		return graph
""")]),
('object reverse',None,[(B,FO,"""		for relative in descendants + ancestors:
			graph.add_node(name=relative.__hash__(), label=str(relative), if_node_exists='ignore')

		for parent in [obj] + descendants:
			for child in parent.__children__():
				if child in descendants:
					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')

		for child in [obj] + ancestors:
			for parent in child.__parents__():
				if parent in ancestors:
					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')

		return graph
""")]),
('random range',None,[(G,RA,RA.replace("[i + start_index for i in range(num_nodes)]","list(range(start_index, start_index + num_nodes))"))]),
('random cond',None,[(G,RA,RA.replace("""				if random.uniform(0, 1) < connection_probability:
					if cycle:
						graph.connect(start=str(n1), end=str(n2))
					elif n1 < n2:
						graph.connect(start=str(n1), end=str(n2))
""","""				drawn = random.uniform(0, 1) < connection_probability
				if drawn and (cycle or n1 < n2):
					graph.connect(start=str(n1), end=str(n2))
"""))]),
('random clip',None,[(G,RA,RA.replace("connection_probability = min(1.0, max(0.0, connection_probability))","connection_probability = max(0.0, min(1.0, connection_probability))"))]),
('random clip if',None,[(G,RA,RA.replace("connection_probability = min(1.0, max(0.0, connection_probability))","if connection_probability < 0:\n\t\t\tconnection_probability = 0.0\n\t\telif connection_probability > 1:\n\t\t\tconnection_probability = 1.0"))]),
('random uniform',None,[(G,RA,RA.replace("random.uniform(0, 1)","random.random()"))]),
('random generator',None,[(G,RA,RA.replace("random.uniform(0, 1)","generator.uniform(0, 1)").replace("""		if seed is not None:
			random.seed(seed)
""","		generator = random if seed is None else random.Random(seed)\n"))]),
('random local',None,[(G,RA,RA.replace("random.uniform(0, 1)","uniform(0, 1)").replace("""		if seed is not None:
			random.seed(seed)
""","""		uniform = random.uniform
		if seed is not None:
			random.seed(seed)
"""))]),
('random helper',None,[(G,RA,RA.replace("""				if random.uniform(0, 1) < connection_probability:
					if cycle:
						graph.connect(start=str(n1), end=str(n2))
					elif n1 < n2:
						graph.connect(start=str(n1), end=str(n2))
""","""				if random.uniform(0, 1) >= connection_probability:
					continue
				if cycle or n2 > n1:
					graph.connect(start=str(n1), end=str(n2))
"""))]),
('random names str',None,[(G,RA,RA.replace("""		for n1 in node_names:
			for n2 in node_names:
				if random.uniform(0, 1) < connection_probability:
					if cycle:
						graph.connect(start=str(n1), end=str(n2))
					elif n1 < n2:
						graph.connect(start=str(n1), end=str(n2))
""","""		for i1 in range(num_nodes):
			for i2 in range(num_nodes):
				if random.uniform(0, 1) < connection_probability:
					if cycle or i1 < i2:
						graph.connect(start=str(node_names[i1]), end=str(node_names[i2]))
"""))]),
('random seed first',None,[(G,RA,RA.replace("""		if seed is not None:
			random.seed(seed)
""","").replace("		graph = cls(strict=strict, ordering=ordering)\n","		if seed is not None:\n			random.seed(seed)\n		graph = cls(ordering=ordering, strict=strict)\n"))]),
('random product',None,[(G,RA,RA.replace("""		for n1 in node_names:
			for n2 in node_names:
				if random.uniform(0, 1) < connection_probability:
					if cycle:
						graph.connect(start=str(n1), end=str(n2))
					elif n1 < n2:
						graph.connect(start=str(n1), end=str(n2))
""","""		for n1, n2 in [(a, b) for a in node_names for b in node_names]:
			if random.uniform(0, 1) < connection_probability:
				if cycle or n1 < n2:
					graph.connect(start=str(n1), end=str(n2))
"""))]),
('text ifexp',None,[(B,FT,"""		for index, level, content, parent_index in lines:
			name = str(index)
			graph.add_node(name=name, label=f'line {index}')
			graph.connect(start='root' if parent_index is None else str(parent_index), end=name)

		return graph
""")]),
('text items',None,[(B,FT,"""		for item in lines:
			index, _, _, parent_index = item
			node = graph.add_node(name=str(index), label='line {}'.format(index))
			if parent_index is None:
				graph.connect(start='root', end=node)
			else:
				graph.connect(start=str(parent_index), end=node)

		return graph
""")]),
('text list',None,[(B,FT,"""		items = list(lines)
		for item in items:
			graph.add_node(name=str(item[0]), label=f'line {item[0]}')
		for item in items:
			parent = 'root'
			if item[3] is not None:
				parent = str(item[3])
			graph.connect(start=parent, end=str(item[0]))

		return graph
""")]),
('text root node',None,[(B,FT,FT.replace("start='root'","start=root_node")),(B,"graph.add_node(name='root', label=root)","root_node = graph.add_node(name='root', label=root)")]),
]
