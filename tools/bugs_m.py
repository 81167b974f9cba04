"""Relatives of objects."""
import os, importlib.util
_s=importlib.util.spec_from_file_location('rf',os.path.join(os.path.dirname(os.path.abspath(__file__)),'refactors_g.py')); _m=importlib.util.module_from_spec(_s); _s.loader.exec_module(_m)
A,D='get_ancestors.py','get_descendants.py'
EDITS=[]
def p(name,*ab,want={'C27'}):
    EDITS.append((name,want,[ab if len(ab)==3 and isinstance(ab[0],str) else x for x in ([ab] if isinstance(ab[0],str) else ab)]))
p('anc seen misses obj',A,'objects_travelled = [obj]','objects_travelled = []')
p('anc limit le',A,'distance < max_height','distance <= max_height')
p('anc limit truthy',A,'max_height is None or','not max_height or')
p('anc limit off',A,'distance < max_height','distance + 1 < max_height')
p('anc no limit',A,' and (max_height is None or distance < max_height)','')
p('anc children',A,'near_object.__parents__()','near_object.__children__()')
p('anc first only',A,'in layer:','in layer[:1]:')
p('anc met late',A,'			for parent in near_object.__parents__():\n				if parent not in objects_travelled:\n					objects_travelled.append(parent)\n','			for parent in near_object.__parents__():\n				if parent not in objects_travelled:\n')
p('anc layer seen only',A,'objects_travelled.append(parent)','objects_travelled = objects_travelled[-50:] + [parent]',want=None)
p('anc wrong list',A,'if parent not in objects_travelled','if parent not in ancestors')
p('anc dup list',(A,'if parent not in objects_travelled:\n					objects_travelled.append(parent)\n					ancestors.append(parent)\n					next_layer','ancestors.append(parent)\n				if parent not in objects_travelled:\n					objects_travelled.append(parent)\n					next_layer'))
p('anc distance late',(A,'		distance += 1\n',''),(A,'		layer = next_layer\n','		layer = next_layer\n		distance += 1\n'))
p('anc start one',A,'distance = 0','distance = 1')
p('anc not filed',A,'ancestors_dict[distance] = next_layer','ancestors_dict[distance] = layer')
p('anc break early',A,'		layer = next_layer\n','		if len(next_layer) == 1:\n			break\n		layer = next_layer\n',want={'C27'})
p('anc swap',A,'	if distance:\n		return ancestors_dict','	if not distance:\n		return ancestors_dict')
p('anc limit dropped',A,'max_height=max_height)','max_height=None)')
p('anc limit or',A,'max_height=max_height)','max_height=max_height or None)')
p('anc distance default',A,'distance: bool = True','distance: bool = False')
p('anc list table',A,'		return ancestors\n','		return ancestors_dict\n',want=None) if 0 else None
p('anc last table',A,'	else:\n		return ancestors','	else:\n		return list(ancestors_dict)')
p('anc stops at one parent',A,'		if len(next_layer) > 0:\n			ancestors_dict[distance] = next_layer','		if len(next_layer) > 1:\n			ancestors_dict[distance] = next_layer')
p('anc in layer',A,'if parent not in objects_travelled','if parent not in layer')
p('anc in next',(A,'if parent not in objects_travelled','if parent not in next_layer'))
p('anc skip self only',A,'if parent not in objects_travelled','if parent is not obj')
p('desc seen after layer',(D,'					objects_travelled.append(child)\n',''),(D,'		layer = next_layer\n','		layer = next_layer\n		objects_travelled.extend(next_layer)\n'))
p('desc seen misses obj',D,'objects_travelled = [obj]','objects_travelled = []')
p('desc parents',D,'near_object.__children__()','near_object.__parents__()')
p('desc from obj',D,'near_object.__children__()','obj.__children__()')
p('desc limit le',D,'distance < max_depth','distance <= max_depth')
p('desc limit gt',D,'(max_depth is None or distance < max_depth)','not (max_depth is not None and distance > max_depth)')
p('desc limit truthy',D,'(max_depth is None or distance < max_depth)','(not max_depth or distance < max_depth)')
p('desc file in loop',(D,'		if len(next_layer) > 0:\n			descendants_dict[distance] = next_layer\n',''),(D,'					next_layer.append(child)\n','					next_layer.append(child)\n					descendants_dict[distance] = [child]\n'))
p('desc listing last',D,'					descendants.append(child)\n','					descendants = [child]\n',want=None)
p('desc and',D,'(max_depth is None or distance < max_depth)','(max_depth is not None and distance < max_depth)')
p('desc stop when single',D,'while len(layer) > 0 and','while len(layer) > 1 and')
p('desc depth two',D,'distance += 1','distance += 2')
p('desc key 0',D,'descendants_dict[distance]','descendants_dict[distance - 1]')
p('desc loop skip first',D,'for child in near_object.__children__():','for child in near_object.__children__()[1:]:')
p('desc wrapper limit',D,'max_depth=max_depth)','max_depth=max_depth + 1 if max_depth else max_depth)')
p('desc same list',D,'	if distance:\n		return descendants_dict\n	else:\n		return descendants','	return descendants_dict or descendants')
p('desc seen reset',(D,'		next_layer = []\n','		next_layer = []\n		objects_travelled = [obj] + layer\n'))
p('anc insert front',A,'ancestors.append(parent)','ancestors.insert(0, parent)')
p('anc insert layer',A,'ancestors.append(parent)','ancestors.insert(len(next_layer), parent)',want=None)
p('anc drop some',A,'					ancestors.append(parent)\n','					if next_layer or not ancestors:\n						ancestors.append(parent)\n',want=None)
p('desc list when none',D,'	if distance:\n','	if distance and descendants:\n',want={'C27'})
p('desc union table',D,'		return descendants\n','		return descendants + [obj]\n',want={'C27'}) if 0 else None
p('desc limit zero wrap',D,'	descendants, descendants_dict = _get','	if not max_depth:\n		max_depth = None\n	descendants, descendants_dict = _get')
p('desc drop same',D,'					descendants.append(child)\n','					if str(child) != str(obj):\n						descendants.append(child)\n')
