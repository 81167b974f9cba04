B='_BasicGraph.py'; W='_GraphWithoutDisplay.py'; N='Node.py'
w={'C22'}
EDITS=[
('nodes set',w,[(W,"in {**d1['nodes'], **d2['nodes']}:","in set(d1['nodes'].keys()).union(set(d2['nodes'].keys())):")]),
('nodes view union',w,[(W,"in {**d1['nodes'], **d2['nodes']}:","in d1['nodes'].keys() | d2['nodes'].keys():")]),
('edges set keys',w,[(W,"		edges = edges.values()\n","		edges = [edges[key] for key in set(edges)]\n")]),
('nodes property',w,[(B,"return list(self.nodes_dict.values())","return list(set(self.nodes_dict.values()))")]),
('roots set',w,[(B,"		possible_roots = self.nodes.copy()\n","		possible_roots = set(self.nodes)\n"),(B,"		return possible_roots\n","		return list(possible_roots)\n")]),
('ancestors merge',w,[(B,"			ancestors = []\n			for parent in parents:\n				if parent not in ancestors:","			ancestors = []\n			for parent in set(parents):\n				if parent not in ancestors:")]),
('siblings set',w,[(N,"		siblings = {}\n		for parent in self.parents:","		siblings = {}\n		for parent in {x for x in self.parents}:")]),
('co_parents dict',w,[(N,"		return list(co_parents.values())","		return list({x for x in co_parents.values()})")]),
('get_siblings result',w,[(B,"					siblings.append(parents_child)\n		return siblings","					siblings.append(parents_child)\n		return list(dict.fromkeys(frozenset(siblings)))")]),
('spouses seen',w,[(B,"				if childs_parent not in spouses and childs_parent != node:\n					spouses.append(childs_parent)\n		return spouses","				if childs_parent not in spouses and childs_parent != node:\n					spouses.append(childs_parent)\n		return [x for x in {*spouses}]")]),
('leaves set',w,[(B,"[node for node in self.nodes if not node.has_children()]","list({node for node in self.nodes} - {node for node in self.nodes if node.has_children()})")]),
('shuffle global',w,[('styling/stylize_randomly.py',"random.Random(seed).shuffle(nodes)","random.shuffle(nodes)")]),
('shuffle no seed',w,[('styling/stylize_randomly.py',"random.Random(seed).shuffle(nodes)","random.Random().shuffle(nodes)")]),
('seed default None',w,[('styling/stylize_randomly.py',"		seed=42\n","		seed=None\n"),('styling/stylize_randomly.py',"random.Random(seed).shuffle(nodes)","random.Random(seed).shuffle(nodes)")]),
('sort by id',w,[(N,"return sorted(siblings).index(self)","return sorted(siblings, key=id).index(self)")]),
('sort by hash',w,[(N,"return sorted(siblings).index(self)","return sorted(siblings, key=lambda x: (hash(x), x.name)).index(self)")]),
('set rank',w,[(N,"return sorted(siblings).index(self)","return list(set(siblings)).index(self)")]),
('set sorted by len',w,[(B,"		return possible_roots\n","		return sorted(set(possible_roots), key=lambda x: len(x.children))\n")]),
('random unseeded after',w,[(W,"		if seed is not None:\n			random.seed(seed)\n","		if seed:\n			random.seed(seed)\n		random.seed(None)\n")]),
('random seed removed',w,[(W,"		if seed is not None:\n			random.seed(seed)\n","")]),
('random own generator',w,[(W,"		if seed is not None:\n			random.seed(seed)\n","		rng = random.Random()\n"),(W,"if random.uniform(0, 1)","if rng.uniform(0, 1)")]),
('colours set',w,[('styling/stylize_randomly.py',"{colour: 0 for colour in colour_scheme.colours}","{colour: 0 for colour in set(colour_scheme.colours)}")]),
('colour min of set',w,[('styling/get_least_used_colour.py',"min(colours_used, key=colours_used.get)","min(set(colours_used), key=colours_used.get)")]),
('pensieve nodes set',w,[('styling/stylize_with_pensieve.py',"	for node in graph.nodes:\n		if node.style is None:","	for node in set(graph.nodes):\n		if node.style is None:")]),
('travelled set next layer',w,[('get_ancestors.py',"		layer = next_layer\n","		layer = set(next_layer)\n")]),
('descendants set',w,[('get_descendants.py',"			for child in near_object.__children__():","			for child in set(near_object.__children__()) - set(objects_travelled):")]),
('append style names',w,[(W,"		return {edge.id: edge.style for node in self.nodes for edge in node.outward_edges if edge.has_style()}","		return {edge.id: edge.style for edge in {e for n in self.nodes for e in n.outward_edges} if edge.has_style()}")]),
('filter copy',w,[(B,"		new_graph = self.copy()\n		for name in to_delete:\n","		new_graph = self.copy()\n		new_graph._nodes_dict = {x: new_graph._nodes_dict[x] for x in set(new_graph._nodes_dict)}\n		for name in to_delete:\n")]),
('relatives helper',w,[(B,"		for relative in descendants + ancestors:\n","		for relative in cls._unique(descendants + ancestors):\n"),(B,"	@classmethod\n	def from_object(","	@staticmethod\n	def _unique(items):\n		return set(items)\n\n	@classmethod\n	def from_object(")]),
('edge order id',w,[(B,"				if edge not in result:\n					result.append(edge)\n		return result\n\n	def get_outward_edges","				if edge not in result:\n					result.append(edge)\n		result.sort(key=lambda e: id(e.start))\n		return result\n\n	def get_outward_edges")]),
('time label',w,[(B,"			graph.add_node(name=str(index), label=f'line {index}')","			graph.add_node(name=str(index), label=f'line {time.time()}')"),(B,"import warnings\n","import warnings\nimport time\n")]),
('env ordering',w,[(W,"		elif self._stylist == 'random':","		elif self._stylist == 'random' or os.environ.get('X'):"),(W,"import random\n","import random\nimport os\n"),(W,"	def stylize(self):\n","	def shade(self):\n		return os.environ.get('X')\n\n	def stylize(self):\n")]),
]
