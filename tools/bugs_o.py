"""The tree text."""
N='Node.py'
B='_BasicGraph.py'
EDITS=[]
def p(name,*ab,want={'C31'},f=N):
    EDITS.append((name,want,[(f,)+x for x in ([ab] if isinstance(ab[0],str) else ab)]))
LOOP="""			for child_num, child in enumerate(self.children):

				already_added.append(self)
"""
MARK="				already_added.append(self)\n"
p('no mark',MARK,'')
p('mark after',(MARK,''),("""VERTICAL + ' ', already_added=already_added
					)
""","""VERTICAL + ' ', already_added=already_added
					)
			already_added.append(self)
"""))
p('mark after each child',(MARK,''),("""VERTICAL + ' ', already_added=already_added
					)
""","""VERTICAL + ' ', already_added=already_added
					)
				already_added.append(self)
"""))
p('mark child',MARK,'				already_added.append(child)\n')
p('mark child and self',MARK,'				already_added += [self, child]\n')
p('mark label',MARK,'				already_added.append(self.label)\n')
p('mark from second',MARK,'				if child_num:\n	'+MARK)
p('mark only last',MARK,'				if child_num+1 == num_children:\n	'+MARK)
p('copy to children',"""VERTICAL + ' ', already_added=already_added
""","""VERTICAL + ' ', already_added=list(already_added)
""")
p('copy to last',"""indentation + '  ', already_added=already_added
""","""indentation + '  ', already_added=already_added[:]
""")
p('path only',(MARK,''),("already_added=already_added\n				)","already_added=already_added\n				)"),("			num_children = len(self.children)\n","			num_children = len(self.children)\n			already_added = already_added + [self]\n")) if 0 else p('path only',(MARK,''),("			num_children = len(self.children)\n","			num_children = len(self.children)\n			already_added = already_added + [self]\n"))
p('rebinding',MARK,'				already_added = already_added + [self]\n')
p('popped',"""VERTICAL + ' ', already_added=already_added
					)
""","""VERTICAL + ' ', already_added=already_added
					)
				already_added.pop()
""")
p('or []',"		if already_added is None:\n			already_added = []\n","		already_added = already_added or []\n")
p('not handed on',"""VERTICAL + ' ', already_added=already_added
""","""VERTICAL + ' '
""")
p('not handed to last',"""indentation + '  ', already_added=already_added
""","""indentation + '  '
""")
p('own list',"			already_added = []\n\n		tree","			already_added = []\n		already_added = list(already_added)\n\n		tree")
p('corner off by one','child_num+1 == num_children','child_num == num_children')
p('corner first','child_num+1 == num_children','child_num == 0')
p('corner ge','child_num+1 == num_children','child_num >= num_children - 2')
p('corner lt','child_num+1 == num_children','child_num+1 < num_children')
p('corner ne','child_num+1 == num_children','child_num+1 != num_children')
p('enumerate 1','enumerate(self.children)','enumerate(self.children, start=1)')
p('num of roots','num_children = len(self.children)','num_children = len(self.parents)')
p('num minus','num_children = len(self.children)','num_children = len(self.children) - 1')
p('num of distinct','num_children = len(self.children)','num_children = len(set(self.children))')
p('same sign','CORNER +',"TWO_WAY +")
p('same sign 2','indentation + TWO_WAY +',"indentation + CORNER +")
p('ind last',"indentation=indentation + '  '","indentation=indentation + VERTICAL + ' '")
p('ind not last',"indentation=indentation + VERTICAL + ' '","indentation=indentation + '  '")
p('ind same',"indentation=indentation + VERTICAL + ' '","indentation=indentation")
p('ind reset',"indentation=indentation + VERTICAL + ' '","indentation=VERTICAL + ' '")
p('ind front',"indentation=indentation + VERTICAL + ' '","indentation=VERTICAL + ' ' + indentation")
p('ind none',"tree_string += indentation + TWO_WAY","tree_string += TWO_WAY")
p('no star',"'*\\n'","'\\n'")
p('always star',"			tree_string += '\\n'\n","			tree_string += '*\\n'\n")
p('not in','if self in already_added','if self not in already_added')
p('label in','if self in already_added','if self.label in already_added')
p('last only','if self in already_added','if self in already_added[-1:]')
p('but last','if self in already_added','if self in already_added[:-1]')
p('in parents','if self in already_added','if self in already_added and self in self.parents')
p('children only','if self in already_added','if already_added and self.parents[0] in already_added')
p('children tail','enumerate(self.children)','enumerate(self.children[1:])')
p('children parents','enumerate(self.children)','enumerate(self.parents)')
p('children distinct','enumerate(self.children)','enumerate(dict.fromkeys(self.children))')
p('children not shown',MARK,"				if child in already_added:\n					continue\n"+MARK)
p('children not self',MARK,"				if child is self:\n					continue\n"+MARK)
p('break',"indentation + '  ', already_added=already_added\n					)\n","indentation + '  ', already_added=already_added\n					)\n\n				elif child in already_added:\n					break\n")
p('children own text','child.get_tree_str(\n						indentation=indentation + VERTICAL','self.get_tree_str(\n						indentation=indentation + VERTICAL')
p('return early',"			num_children = len","			if len(already_added) > 100:\n				return tree_string\n			num_children = len")
p('replaces','tree_string += indentation + TWO_WAY','tree_string = indentation + TWO_WAY')
p('set default','already_added: Optional[List[\'Node\']] = None','already_added: Optional[List[\'Node\']] = []')
p('roots own','root.get_tree_str(already_added=already_added)','root.get_tree_str()',f=B)
p('roots reset','		for root in self.roots:\n			tree_string','		for root in self.roots:\n			already_added = []\n			tree_string',f=B)
p('roots copy','root.get_tree_str(already_added=already_added)','root.get_tree_str(already_added=already_added[:])',f=B)
p('roots slice','		for root in self.roots:\n			tree_string','		for root in self.roots[:1]:\n			tree_string',f=B)
p('roots leaves','		for root in self.roots:\n			tree_string','		for root in self.leaves:\n			tree_string',f=B)
p('roots last',"			tree_strings.append(tree_string)\n		return '\\n'","			tree_strings = [tree_string]\n		return '\\n'",f=B)
p('roots skip shown',"			tree_strings.append(tree_string)\n		return '\\n'","			if root not in already_added:\n				tree_strings.append(tree_string)\n		return '\\n'",f=B)
p('roots seeded','		already_added = []\n		tree_strings','		already_added = self.roots\n		tree_strings',f=B)
p('roots set','			tree_strings.append(tree_string)\n		return','			if tree_string not in tree_strings:\n				tree_strings.append(tree_string)\n		return',f=B)
p('roots indented','root.get_tree_str(already_added=already_added)',"root.get_tree_str(indentation=VERTICAL, already_added=already_added)".replace('VERTICAL',"'  '"),f=B)
