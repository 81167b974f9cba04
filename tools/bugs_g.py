import os, importlib.util
_s=importlib.util.spec_from_file_location('rf',os.path.join(os.path.dirname(os.path.abspath(__file__)),'refactors_g.py')); _m=importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
globals().update({k:v for k,v in vars(_m).items() if k.isupper() and k!='EDITS'})
r=_m.r
def p(name,*ab): return _m.p(name,*ab,want={'C26'})
EDITS=[
p('parse push',('stack[level:] = [index]','stack[level:level + 1] = [index]')),
p('parse deeper',('stack[level:] = [index]','if level < len(stack):\n				stack[level] = index\n			else:\n				stack.append(index)')),
p('parse off',('stack[level:] = [index]','stack[level + 1:] = [index]')),
p('parse bound',('if level > len(stack):','if level > len(stack) + 1:')),
p('parse bound ge',('if level > len(stack):','if stack and level >= len(stack) + 1:')),
p('parse no bound',('			if level > len(stack):\n				raise ValueError(\'Indentation too deep: "{0}"\'.format(line))\n','')),
p('parse skip blank',("			content = ''\n","			continue\n")),
p('parse blank level',("			content = ''\n","			content = ''\n			stack[level:] = [index]\n")),
p('parse parent cur',('stack[level - 1] if level else None','stack[level] if level else None')),
p('parse parent last',('stack[level - 1] if level else None','stack[level - 1] if level > 1 else None')),
p('parse start one',('enumerate(lines)','enumerate(lines, 1)')),
p('parse unit 2',("{4})*","{2})*")),
p('parse level 2',("// 4\n","// 2\n")),
p('parse rep',('" " * 4, (len','" " * 2, (len')),
p('parse count',(') // len(indent))','))')),
p('parse nocount',('indent, " " * 4, (len(line) - len(line.lstrip(indent))) // len(indent))','indent, " " * 4)')),
p('parse limit',("(?: {4})*","(?: {4}){0,9}")),
p('parse skip bad',("""				raise ValueError(
					'Indentation not a multiple of spaces or tabs'.format(line)
				)
""","				continue\n")),
p('parse error',("raise ValueError('Indentation too","raise IndentationError('Indentation too")),
p('parse redetect',('if indent is None:\n			if','if True:\n			if')),
p('parse level moved',('			level = len','			depth = len'),('if level > len(stack)','if depth > len(stack)'),('stack[level:]','stack[depth:]'),("			content = match.group('name')","			content = match.group('name')\n			level = min(depth, level + 1)")),
p('parse name',("(?P<name>\\S.*)","(?P<name>\\S\\S*)")),
]
