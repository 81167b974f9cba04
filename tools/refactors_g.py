P='parse_indentations_function.py'
PB=open('/repo/abstract/'+P).read()
PB=PB[PB.index('	regex = '):]
def r(t,*ab):
    for a,b in ab:
        assert a in t, a
        t=t.replace(a,b,1)
    return t
def p(name,*ab,want=None): return (name,want,[(P,PB,r(PB,*ab))])
EDITS=[
p('parse del append',('stack[level:] = [index]','del stack[level:]\n			stack.append(index)')),
p('parse slice',('stack[level:] = [index]','stack = stack[:level] + [index]')),
p('parse if parent',('		yield index, level, content, (stack[level - 1] if level else None)','		if level > 0:\n			parent = stack[level - 1]\n		else:\n			parent = None\n		yield index, level, content, parent')),
p('parse continue',('			content = match.group(\'name\')\n		else:\n			content = \'\'\n','			content = match.group(\'name\')\n			yield index, level, content, (stack[level - 1] if level else None)\n			continue\n		content = \'\'\n')),
p('parse truth',('if len(line) > 0:','if line:')),
p('parse none',('if not match:','if match is None:')),
p('parse len',('if level > len(stack):','if len(stack) < level:')),
p('parse dict',('	stack = []','	parents = {-1: None}'),('if level > len(stack):','if level - 1 not in parents:'),('stack[level:] = [index]','parents[level] = index\n			for deeper in [x for x in parents if x > level]:\n				del parents[deeper]'),('(stack[level - 1] if level else None)','parents[level - 1]')),
p('parse names',('	regex = ','	unit = " " * 4\n	regex = '),('" " * 4, (len','unit, (len'),('index, line in enumerate(lines)','number, line in enumerate(lines, start=0)'),('[index]','[number]'),('yield index,','yield number,')),
p('parse unit',('(?: {4})*','(?:    )*')),
p('parse counter',('	level = 0\n','	level = 0\n	index = -1\n'),('for index, line in enumerate(lines):','for line in lines:\n		index += 1')),
p('parse strip',('''		if indent:
			# only the leading indentation, however often it occurs in the text after it
			line = line.replace(indent, " " * 4, (len(line) - len(line.lstrip(indent))) // len(indent))
''','''		if indent:
			depth = 0
			while line[depth * len(indent):].startswith(indent):
				depth += 1
			line = ' ' * 4 * depth + line[depth * len(indent):]
''')),
p('parse group',('len(match.group(\'indent\')) // 4','len(match.group(1)) // 4')),
p('parse local',('			level = len','			leading = match.group("indent")\n			level = len'),("len(match.group('indent'))",'len(leading)')),
p('parse result',('	stack = []\n','	stack = []\n	result = []\n'),('		yield index, level, content, (stack[level - 1] if level else None)','		result.append((index, level, content, stack[level - 1] if level else None))\n	yield from result')),
]
