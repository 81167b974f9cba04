"""Ways of writing the tree text that show the same."""
N='Node.py'
B='_BasicGraph.py'
EDITS=[]
def p(name,*ab,f=N):
    EDITS.append((name,None,[(f,)+x for x in ([ab] if isinstance(ab[0],str) else ab)]))
BODY="""		if already_added is None:
			already_added = []

		tree_string = self.label

		if self in already_added:
			tree_string += '*\\n'

		else:
			tree_string += '\\n'
			num_children = len(self.children)

			for child_num, child in enumerate(self.children):

				already_added.append(self)
				if child_num+1 == num_children:
					tree_string += indentation + CORNER + ' ' + child.get_tree_str(
						indentation=indentation + '  ', already_added=already_added
					)

				else:
					tree_string += indentation + TWO_WAY + ' ' + child.get_tree_str(
						indentation=indentation + VERTICAL + ' ', already_added=already_added
					)

		return tree_string
"""
def q(name,new):
    p(name,(BODY,new))
p('early return',"		if self in already_added:\n			tree_string += '*\\n'\n\n		else:\n","		if self in already_added:\n			return tree_string + '*\\n'\n\n		if True:\n")
p('children once',("			num_children = len(self.children)\n","			children = self.children\n			num_children = len(children)\n"),("enumerate(self.children):\n","enumerate(children):\n"))
p('enumerate 1',('enumerate(self.children)','enumerate(self.children, start=1)'),('child_num+1 ==','child_num =='))
p('last index',('num_children = len(self.children)','last = len(self.children) - 1'),('child_num+1 == num_children','child_num == last'))
p('not last',"				if child_num+1 == num_children:","				is_last = child_num + 1 == num_children\n				if is_last:")
p('lt',"				if child_num+1 == num_children:","				if not child_num + 1 < num_children:")
p('ge',"				if child_num+1 == num_children:","				if child_num >= num_children - 1:")
p('mark first only',"				already_added.append(self)\n","				if child_num == 0:\n					already_added.append(self)\n")
p('mark if not in',"				already_added.append(self)\n","				if self not in already_added:\n					already_added.append(self)\n")
p('mark plus equals',"				already_added.append(self)\n","				already_added += [self]\n")
p('mark before',("				already_added.append(self)\n",""),("			num_children = len(self.children)\n","			num_children = len(self.children)\n			if num_children:\n				already_added.append(self)\n"))
p('swap',"				if child_num+1 == num_children:\n					tree_string += indentation + CORNER + ' ' + child.get_tree_str(\n						indentation=indentation + '  ', already_added=already_added\n					)\n\n				else:\n					tree_string += indentation + TWO_WAY + ' ' + child.get_tree_str(\n						indentation=indentation + VERTICAL + ' ', already_added=already_added\n					)\n",
"				if child_num+1 != num_children:\n					tree_string += indentation + TWO_WAY + ' ' + child.get_tree_str(\n						indentation=indentation + VERTICAL + ' ', already_added=already_added\n					)\n				else:\n					tree_string += indentation + CORNER + ' ' + child.get_tree_str(\n						indentation=indentation + '  ', already_added=already_added\n					)\n")
q('parts',"""		if already_added is None:
			already_added = []
		if self in already_added:
			return self.label + '*\\n'
		lines = [self.label + '\\n']
		children = self.children
		for i, child in enumerate(children):
			already_added.append(self)
			last = i == len(children) - 1
			sign = CORNER if last else TWO_WAY
			below = '  ' if last else VERTICAL + ' '
			lines.append(f'{indentation}{sign} {child.get_tree_str(indentation=indentation + below, already_added=already_added)}')
		return ''.join(lines)
""")
q('variables',"""		already_added = [] if already_added is None else already_added
		first = self not in already_added
		tree_string = self.label + ('\\n' if first else '*\\n')
		if first:
			num_children = len(self.children)
			for child_num, child in enumerate(self.children):
				already_added.append(self)
				if child_num + 1 == num_children:
					sign, more = CORNER, '  '
				else:
					sign, more = TWO_WAY, VERTICAL + ' '
				below = child.get_tree_str(indentation + more, already_added)
				tree_string += indentation + sign + ' ' + below
		return tree_string
""")
q('any',"""		if already_added is None:
			already_added = []
		if any(node is self for node in already_added):
			return f'{self.label}*\\n'
		tree_string = f'{self.label}\\n'
		children = list(self.children)
		if children:
			already_added.append(self)
		for child in children[:-1]:
			tree_string += f'{indentation}{TWO_WAY} ' + child.get_tree_str(indentation=f'{indentation}{VERTICAL} ', already_added=already_added)
		for child in children[-1:]:
			tree_string += f'{indentation}{CORNER} ' + child.get_tree_str(indentation=f'{indentation}  ', already_added=already_added)
		return tree_string
""")
q('countdown',"""		if already_added is None:
			already_added = []
		if self in already_added:
			return self.label + '*\\n'
		result = self.label + '\\n'
		left = len(self.children)
		for child in self.children:
			already_added.append(self)
			left -= 1
			if left == 0:
				result += indentation + CORNER + ' ' + child.get_tree_str(indentation=indentation + '  ', already_added=already_added)
			else:
				result += indentation + TWO_WAY + ' ' + child.get_tree_str(indentation=indentation + VERTICAL + ' ', already_added=already_added)
		return result
""")
q('helper',"""		if already_added is None:
			already_added = []
		if self in already_added:
			return self.label + '*\\n'
		return self.label + '\\n' + self._get_children_tree_str(indentation, already_added)

	def _get_children_tree_str(self, indentation, already_added):
		result = ''
		num_children = len(self.children)
		for child_num, child in enumerate(self.children, start=1):
			already_added.append(self)
			is_last = child_num == num_children
			result += indentation + (CORNER if is_last else TWO_WAY) + ' '
			result += child.get_tree_str(indentation=indentation + ('  ' if is_last else VERTICAL + ' '), already_added=already_added)
		return result
""")
q('edges',"""		if already_added is None:
			already_added = []
		if self in already_added:
			return self.label + '*\\n'
		result = self.label + '\\n'
		edges = self.outward_edges
		for i, edge in enumerate(edges):
			already_added.append(self)
			last = i + 1 == len(edges)
			text = edge.end.get_tree_str(indentation=indentation + ('  ' if last else VERTICAL + ' '), already_added=already_added)
			result += indentation + (CORNER if last else TWO_WAY) + ' ' + text
		return result
""")
q('range',"""		if already_added is None:
			already_added = []
		tree_string = self.label
		if self in already_added:
			tree_string += '*\\n'
		else:
			tree_string += '\\n'
			children = self.children
			n = len(children)
			for i in range(n):
				already_added.append(self)
				last = i == n - 1
				tree_string += indentation + (CORNER if last else TWO_WAY) + ' '
				tree_string += children[i].get_tree_str(indentation=indentation + (' ' if last else VERTICAL) + ' ', already_added=already_added)
		return tree_string
""")
q('format',"""		if already_added is None:
			already_added = []
		label = self.label
		if self in already_added:
			return '{}*\\n'.format(label)
		tree_string = '%s\\n' % label
		num_children = len(self.children)
		for child_num, child in enumerate(self.children):
			already_added.append(self)
			if child_num + 1 == num_children:
				prefix, child_indentation = indentation + CORNER, indentation + '  '
			else:
				prefix, child_indentation = indentation + TWO_WAY, indentation + VERTICAL + ' '
			child_string = child.get_tree_str(indentation=child_indentation, already_added=already_added)
			tree_string = tree_string + prefix + ' ' + child_string
		return tree_string
""")
q('comprehension',"""		if already_added is None:
			already_added = []
		if self in already_added:
			return self.label + '*\\n'
		children = self.children
		if children:
			already_added.append(self)
		last = len(children) - 1
		return self.label + '\\n' + ''.join(
			indentation + (CORNER if i == last else TWO_WAY) + ' ' + child.get_tree_str(
				indentation=indentation + ('  ' if i == last else VERTICAL + ' '), already_added=already_added
			)
			for i, child in enumerate(children)
		)
""")
q('marks leaves too',"""		if already_added is None:
			already_added = []
		if self in already_added:
			return self.label + '*\\n'
		already_added.append(self)
		tree_string = self.label + '\\n'
		num_children = len(self.children)
		for child_num, child in enumerate(self.children):
			if child_num+1 == num_children:
				tree_string += indentation + CORNER + ' ' + child.get_tree_str(indentation=indentation + '  ', already_added=already_added)
			else:
				tree_string += indentation + TWO_WAY + ' ' + child.get_tree_str(indentation=indentation + VERTICAL + ' ', already_added=already_added)
		return tree_string
""")
q('zip signs',"""		if already_added is None:
			already_added = []
		if self in already_added:
			return self.label + '*\\n'
		children = self.children
		signs = [(TWO_WAY, VERTICAL + ' ')] * (len(children) - 1) + [(CORNER, '  ')]
		tree_string = self.label + '\\n'
		for child, (sign, below) in zip(children, signs):
			already_added.append(self)
			tree_string += indentation + sign + ' ' + child.get_tree_str(indentation=indentation + below, already_added=already_added)
		return tree_string
""")
q('reversed is last',"""		if already_added is None:
			already_added = []
		if self in already_added:
			return self.label + '*\\n'
		children = self.children
		tree_string = self.label + '\\n'
		while children:
			already_added.append(self)
			child = children.pop(0)
			last = not children
			tree_string += indentation + (CORNER if last else TWO_WAY) + ' ' + child.get_tree_str(indentation=indentation + ('  ' if last else VERTICAL + ' '), already_added=already_added)
		return tree_string
""")
R="""		already_added = []
		tree_strings = []
		for root in self.roots:
			tree_string = root.get_tree_str(already_added=already_added)
			tree_strings.append(tree_string)
		return '\\n'.join(tree_strings)
"""
def r(name,new):
    p(name,(R,new),f=B)
r('roots comprehension',"		already_added = []\n		return '\\n'.join([root.get_tree_str(already_added=already_added) for root in self.roots])\n")
r('roots generator',"		already_added = []\n		return '\\n'.join(root.get_tree_str(already_added=already_added) for root in self.roots)\n")
r('roots append',"		already_added = []\n		result = []\n		roots = self.roots\n		for root in roots:\n			result.append(root.get_tree_str('', already_added))\n		return '\\n'.join(result)\n")
r('roots map',"		shown = []\n		return '\\n'.join(map(lambda root: root.get_tree_str(already_added=shown), self.roots))\n")
r('roots empty',"		if not self.roots:\n			return ''\n"+R)
r('roots text',"		already_added = []\n		text = ''\n		for i, root in enumerate(self.roots):\n			if i > 0:\n				text += '\\n'\n			text += root.get_tree_str(already_added=already_added)\n		return text\n")
