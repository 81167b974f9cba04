"""Ancestors and descendants of nodes."""
B='_BasicGraph.py'
EDITS=[]
def p(name,*ab,want={'C09'}):
    EDITS.append((name,want,[(B,)+x for x in ([ab] if isinstance(ab[0],str) else ab)]))
ADDA="""				if parent not in ancestors:
					ancestors.append(parent)

"""
ADDC="""					if child not in descendants:
						descendants.append(child)
"""
p('anc no recursion guard','				if parent not in nodes_travelled:\n					parent_ancestors','				if True:\n					parent_ancestors')
p('anc guard on list','				if parent not in nodes_travelled:\n','				if parent not in ancestors[:-1]:\n',want=None)
p('anc add only new',(ADDA,''),('				if parent not in nodes_travelled:\n','				if parent not in nodes_travelled:\n					if parent not in ancestors:\n						ancestors.append(parent)\n'))
p('anc not marked','		nodes_travelled.append(node)\n		parents','		parents')
p('anc mark later',('		nodes_travelled.append(node)\n		parents','		parents'),('				if parent not in nodes_travelled:\n					parent_anc','				if parent not in nodes_travelled:\n					nodes_travelled.append(parent)\n					parent_anc'),want=None)
p('anc forgets','node=parent, nodes_travelled=nodes_travelled','node=parent, nodes_travelled=None')
p('anc only node','node=parent, nodes_travelled=nodes_travelled','node=parent, nodes_travelled=[node]')
p('anc reset','		nodes_travelled = nodes_travelled or []\n		nodes_travelled.append(node)\n		parents','		nodes_travelled = [node]\n		parents')
p('anc children','		parents = self.get_parents(node=node)','		parents = self.get_children(node=node)')
p('anc skip self','				if parent not in ancestors:\n','				if parent is not node and parent not in ancestors:\n')
p('anc skip merged self','						if ancestor not in ancestors:\n','						if ancestor is not node and ancestor not in ancestors:\n')
p('anc merged travelled','						if ancestor not in ancestors:\n','						if ancestor not in ancestors and ancestor not in nodes_travelled:\n')
p('anc dup','				if parent not in ancestors:\n					ancestors.append(parent)\n','				ancestors.append(parent)\n')
p('anc dup merged','						if ancestor not in ancestors:\n							ancestors.append(ancestor)','						ancestors.append(ancestor)')
p('anc only first','			for parent in parents:\n','			for parent in parents[:1]:\n')
p('anc single','		if len(parents) == 0:\n			return []\n','		if len(parents) == 0:\n			return []\n		elif len(parents) == 1:\n			return parents\n')
p('anc swap','		if distance:\n			return self._group_by_distance(node=node, relatives=ancestors','		if not distance:\n			return self._group_by_distance(node=node, relatives=ancestors')
p('anc group children','relatives=ancestors, get_neighbours=self.get_parents','relatives=ancestors, get_neighbours=self.get_children')
p('anc uses descendants','ancestors = self._get_ancestors(node=node, nodes_travelled=None)','ancestors = self._get_ancestors(node=node, nodes_travelled=[node])',want=None)
p('anc default','def get_ancestors(self, node, distance=True)','def get_ancestors(self, node, distance=False)')
p('anc not merged loop','					for ancestor in parent_ancestors:\n','					for ancestor in parent_ancestors[1:]:\n')
p('anc merge frozen','				if parent not in nodes_travelled:\n','				if parent not in nodes_travelled and len(parent.parents) > 1:\n')
p('desc loop self','				if child not in nodes_travelled:\n'+ADDC,'				if child not in descendants:\n					descendants.append(child)\n				if child not in nodes_travelled:\n')
p('desc not marked','		nodes_travelled.append(node)\n		children','		children')
p('desc forgets','node=child, nodes_travelled=nodes_travelled','node=child, nodes_travelled=[]')
p('desc dup merged','						if descendant not in descendants:\n							descendants','						if True:\n							descendants')
p('desc parents','		children = self.get_children(node=node)\n		if len','		children = self.get_parents(node=node)\n		if len')
p('desc return child','			return descendants\n','			return descendants[:]\n',want=None)
p('desc break','				if child not in nodes_travelled:\n','				if child in nodes_travelled:\n					break\n				else:\n')
p('desc only leaf merge','					for descendant in child_descendants:\n','					for descendant in child_descendants[-1:]:\n')
p('desc group swapped','relatives=descendants, get_neighbours=self.get_children','relatives=descendants, get_neighbours=self.get_parents')
p('desc truthy','		if distance:\n			return self._group_by_distance(node=node, relatives=descendants','		if distance and len(descendants) > 1:\n			return self._group_by_distance(node=node, relatives=descendants')
p('group not removed','						remaining.remove(neighbour)\n						next','						next')
p('group layer','			result[len(result) + 1] = next_layer','			result[len(result) + 1] = layer')
p('group index','			result[len(result) + 1] = next_layer','			result[len(result)] = next_layer')
p('group same layer','			layer = next_layer\n		return result','		return result')
p('group all','					if neighbour in remaining:\n						remaining.remove(neighbour)\n						next_layer.append(neighbour)','					next_layer.append(neighbour)\n					if neighbour in remaining:\n						remaining.remove(neighbour)')
p('group more than one','while len(remaining) > 0','while len(remaining) > 1')
p('group first','				for neighbour in get_neighbours(node=near_node):','				for neighbour in get_neighbours(node=near_node)[:2]:')
p('group from node','get_neighbours(node=near_node)','get_neighbours(node=node)')
p('group short','while len(remaining) > 0','while len(remaining) > 0 and len(result) < 50',want=None)
