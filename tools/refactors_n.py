"""Edits that keep the behaviour: the relatives of objects."""
A, D = 'get_ancestors.py', 'get_descendants.py'
LOOP = """		distance += 1
		next_layer = []
		for near_object in layer:
			for parent in near_object.__parents__():
				if parent not in objects_travelled:
					objects_travelled.append(parent)
					ancestors.append(parent)
					next_layer.append(parent)
		if len(next_layer) > 0:
			ancestors_dict[distance] = next_layer
		layer = next_layer
"""
HEADW = '	while len(layer) > 0 and (max_height is None or distance < max_height):\n'
DW = '	while len(layer) > 0 and (max_depth is None or distance < max_depth):\n'
EDITS = [
    ('truthy layer', None, [(A, 'while len(layer) > 0 and', 'while layer and')]),
    ('limit le', None, [(A, 'distance < max_height', 'distance + 1 <= max_height')]),
    ('limit not ge', None, [(A, '(max_height is None or distance < max_height)', 'not (max_height is not None and distance >= max_height)')]),
    ('limit flipped', None, [(A, '(max_height is None or distance < max_height)', '(max_height is None or max_height > distance)')]),
    ('break inside', None, [(A, HEADW, '	while layer:\n		if max_height is not None and distance >= max_height:\n			break\n')]),
    ('while true', None, [(A, HEADW, '	while True:\n		if len(layer) == 0:\n			break\n		if max_height is not None and distance >= max_height:\n			break\n')]),
    ('break when nothing new', None, [(A, '		if len(next_layer) > 0:\n			ancestors_dict[distance] = next_layer\n', '		if not next_layer:\n			break\n		ancestors_dict[distance] = next_layer\n')]),
    ('count at end', None, [(A, '		distance += 1\n', ''), (A, '		layer = next_layer\n', '		layer = next_layer\n		distance += 1\n'), (A, 'ancestors_dict[distance]', 'ancestors_dict[distance + 1]')]),
    ('count from one', None, [(A, '	distance = 0\n', '	distance = 1\n'), (A, 'distance < max_height', 'distance <= max_height'), (A, '		distance += 1\n', ''), (A, '		layer = next_layer\n', '		layer = next_layer\n		distance += 1\n')]),
    ('extend after', None, [(A, LOOP, """		distance += 1
		next_layer = []
		for near_object in layer:
			for parent in near_object.__parents__():
				if parent not in objects_travelled:
					objects_travelled.append(parent)
					next_layer.append(parent)
		ancestors.extend(next_layer)
		if next_layer:
			ancestors_dict[distance] = next_layer
		layer = next_layer
""")]),
    ('continue guard', None, [(A, """				if parent not in objects_travelled:
					objects_travelled.append(parent)
					ancestors.append(parent)
					next_layer.append(parent)
""", """				if parent in objects_travelled:
					continue
				objects_travelled.append(parent)
				ancestors.append(parent)
				next_layer.append(parent)
""")]),
    ('no travelled', None, [(A, '	objects_travelled = [obj]\n', ''), (A, 'if parent not in objects_travelled', 'if parent != obj and parent not in ancestors'), (A, '					objects_travelled.append(parent)\n', '')]),
    ('listing from table', None, [(A, '	ancestors = []\n', ''), (A, '					ancestors.append(parent)\n', ''), (A, '	return ancestors, ancestors_dict', '	return [x for near in ancestors_dict.values() for x in near], ancestors_dict')]),
    ('listing from travelled', None, [(A, '	ancestors = []\n', ''), (A, '					ancestors.append(parent)\n', ''), (A, '	return ancestors, ancestors_dict', '	return objects_travelled[1:], ancestors_dict')]),
    ('merged', None, [(D, """	descendants, descendants_dict = _get_descendants(obj=obj, max_depth=max_depth)
	if distance:
		return descendants_dict
	else:
		return descendants""", """	both = _get_descendants(obj, max_depth)
	return both[1] if distance else both[0]""")]),
    ('swap result', None, [(D, '	return descendants, descendants_dict', '	return descendants_dict, descendants'), (D, '	descendants, descendants_dict = _get_descendants(obj=obj', '	descendants_dict, descendants = _get_descendants(obj=obj')]),
    ('helper relatives', None, [(D, 'def _get_descendants(', """def _not_seen(near, seen):
	return [x for x in near if x not in seen]


def _get_descendants("""), (D, """			for child in near_object.__children__():
				if child not in objects_travelled:
					objects_travelled.append(child)
					descendants.append(child)
					next_layer.append(child)
""", """			for child in near_object.__children__():
				if child in objects_travelled:
					continue
				for found in (objects_travelled, descendants, next_layer):
					found.append(child)
""")]),
    ('tuple start', None, [(D, '	descendants = []\n	descendants_dict = {}\n	objects_travelled = [obj]\n	layer = [obj]\n	distance = 0\n', '	descendants, descendants_dict = [], {}\n	objects_travelled, layer = [obj], [obj]\n	distance = 0\n')]),
    ('dict call', None, [(D, 'descendants_dict = {}', 'descendants_dict = dict()'), (D, 'descendants = []', 'descendants = list()')]),
    ('len table', None, [(D, 'descendants_dict[distance] = next_layer', 'descendants_dict[len(descendants_dict) + 1] = next_layer')]),
    ('limit named', None, [(D, DW, '	def more():\n		return max_depth is None or distance < max_depth\n	while len(layer) > 0 and more():\n')]),
    ('limit infinite', None, [(D, '	distance = 0\n', "	distance = 0\n	limit = float('inf') if max_depth is None else max_depth\n"), (D, '(max_depth is None or distance < max_depth)', 'distance < limit')]),
    ('countdown', None, [(D, '	distance = 0\n', '	distance = 0\n	left = max_depth\n'), (D, '(max_depth is None or distance < max_depth)', '(left is None or left > 0)'), (D, '		distance += 1\n', '		distance += 1\n		if left is not None:\n			left -= 1\n')]),
    ('inline wrapper', None, [(D, '	descendants, descendants_dict = _get_descendants(obj=obj, max_depth=max_depth)\n', """	descendants = []
	descendants_dict = {}
	objects_travelled = [obj]
	layer = [obj]
	depth = 0
	while len(layer) > 0 and (max_depth is None or depth < max_depth):
		depth += 1
		next_layer = []
		for near_object in layer:
			for child in near_object.__children__():
				if child not in objects_travelled:
					objects_travelled.append(child)
					descendants.append(child)
					next_layer.append(child)
		if len(next_layer) > 0:
			descendants_dict[depth] = next_layer
		layer = next_layer
"""), ]),
    ('file before', None, [(D, '		next_layer = []\n', '		next_layer = []\n		seen_before = len(descendants)\n')]),
    ('set layer copy', None, [(D, '		layer = next_layer\n', '		layer = list(next_layer)\n')]),
    ('slice listing', None, [(D, LOOP.replace('__parents__', '__children__').replace('ancestors', 'descendants').replace('parent', 'child'), """		distance += 1
		next_layer = [child for near_object in layer for child in near_object.__children__() if child not in objects_travelled]
		next_layer = [child for at, child in enumerate(next_layer) if child not in next_layer[:at]]
		objects_travelled += next_layer
		descendants += next_layer
		if next_layer:
			descendants_dict[distance] = next_layer
		layer = next_layer
""")]),
    ('chain', None, [(A, 'from typing import', 'from itertools import chain\nfrom typing import'), (A, """		for near_object in layer:
			for parent in near_object.__parents__():
				if parent not in objects_travelled:
					objects_travelled.append(parent)
					ancestors.append(parent)
					next_layer.append(parent)
""", """		for parent in chain.from_iterable(x.__parents__() for x in layer):
			if parent not in objects_travelled:
				objects_travelled.append(parent)
				ancestors.append(parent)
				next_layer.append(parent)
""")]),
    ('walk helper', None, [(A, 'def _get_ancestors(', """def _next(layer, objects_travelled):
	result = []
	for x in layer:
		for y in x.__parents__():
			if y not in objects_travelled:
				objects_travelled.append(y)
				result.append(y)
	return result


def _get_ancestors("""), (A, LOOP, """		distance += 1
		layer = _next(layer, objects_travelled)
		ancestors.extend(layer)
		if layer:
			ancestors_dict[distance] = layer
""")]),
    ('copy filed', None, [(A, 'ancestors_dict[distance] = next_layer', 'ancestors_dict[distance] = next_layer[:]')]),
    ('setdefault', None, [(A, '		if len(next_layer) > 0:\n			ancestors_dict[distance] = next_layer\n', ''), (A, '					next_layer.append(parent)\n', '					next_layer.append(parent)\n					ancestors_dict.setdefault(distance, []).append(parent)\n')]),
    ('update table', None, [(A, 'ancestors_dict[distance] = next_layer', 'ancestors_dict.update({distance: next_layer})')]),
]
