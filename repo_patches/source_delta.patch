From f48f1b067a8bc8785ccb4f3765690cf30a1efa48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:21 +0000
Subject: [PATCH 01/41] fix: != between edges compares the full edge id, as ==
 does

---
 abstract/_GraphObj.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index 31a9672..f488619 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -138,7 +138,7 @@ class GraphObj:
 			raise TypeError(f'"{other}" is of type: {type(other)}')
 		if self.graph != other.graph:
 			raise ValueError('two GraphObj from different graphs cannot be compared')
-		return self.raw_id != other.raw_id
+		return self.id != other.id
 
 	def is_similar_to(self, other):
 		"""
-- 
2.43.0


From d2c05722d5bb04ea738f8e029eb64d25a3e8daf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:22 +0000
Subject: [PATCH 02/41] fix: "node in graph" works for Node objects

---
 abstract/_BasicGraph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 040afaa..7a8cb10 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -190,6 +190,8 @@ class BasicGraph:
 		Returns:
 			bool: True if the item is in the graph, False otherwise.
 		"""
+		if isinstance(item, Node):
+			return item.id in self._nodes_dict and self._nodes_dict[item.id] is item
 		return item in self._nodes_dict
 
 	@property
-- 
2.43.0


From f13e01b46ee67b218c35655636da995116db58b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:22 +0000
Subject: [PATCH 03/41] fix: add_node accepts integer names and rejects other
 types with TypeError

---
 abstract/_BasicGraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 7a8cb10..7b20e37 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -277,7 +277,7 @@ class BasicGraph:
 		Returns:
 			Node: The created node.
 		"""
-		if isinstance(name, str):
+		if isinstance(name, (str, int)):
 			if name in self.nodes_dict:
 				if if_node_exists == 'ignore':
 					pass
@@ -320,7 +320,7 @@ class BasicGraph:
 				self.nodes_dict[node.id] = node
 				return node
 		else:
-			raise TypeError(f'node of type {type(node)} is not supported!')
+			raise TypeError(f'node of type {type(name)} is not supported!')
 
 	def remove_node(self, node: Union[str, Node]):
 		"""
-- 
2.43.0


From d6c761b772b91f5a73f481ad3f2ce0e8fe085331 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:23 +0000
Subject: [PATCH 04/41] fix: add_node returns the node when it is already in
 the graph

---
 abstract/_BasicGraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 7b20e37..079a362 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -308,7 +308,7 @@ class BasicGraph:
 			if node.id in self.nodes_dict:
 				# if the node is already in the graph and node.graph is self then do nothing
 				if node.graph is self and self.nodes_dict[node.id] is node:
-					pass
+					return node
 				else:
 					raise ValueError(f'node with id "{node.id}" is already in a graph!')
 			else:
-- 
2.43.0


From 0f0901555eaf5fcb21f7c9edb35c1c7772468a49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 05/41] fix: a detached node added to a graph belongs to that
 graph

---
 abstract/_BasicGraph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 079a362..ac480e1 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -317,6 +317,7 @@ class BasicGraph:
 						raise ValueError(f'node with id "{node.id}" is already in a graph but not in the graph dictionary: {self.nodes_dict.keys()}')
 					else:
 						raise ValueError(f'node with id "{node.id}" is already in a graph!')
+				node._graph = self
 				self.nodes_dict[node.id] = node
 				return node
 		else:
-- 
2.43.0


From efb8d70200a7706598084faddaf830b9106e9836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:24 +0000
Subject: [PATCH 06/41] fix: creating a Node under a name already in use does
 not displace the existing node

---
 abstract/Node.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/abstract/Node.py b/abstract/Node.py
index 63f52f1..721a4ad 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -29,6 +29,9 @@ class Node(GraphObj):
 			**kwargs: Additional keyword arguments.
 		"""
 
+		if name in graph._nodes_dict:
+			raise KeyError(f'duplicate node id:"{name}"!')
+
 		super().__init__(
 			graph=graph, id=name, value=value, label=label, tooltip=tooltip, style=style,
 			# additional_styling_function=additional_styling_function,
-- 
2.43.0


From 090d5ee4139bdcc4782c600d89ee91044620949d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:25 +0000
Subject: [PATCH 07/41] fix: filter honours its direction argument

---
 abstract/_BasicGraph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index ac480e1..0563523 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -79,11 +79,11 @@ class BasicGraph:
 			node = self.get_node(node=x)
 			name = node.name
 			relatives[name] = 1
-			if direction == 'to' or 'to_and_from':
+			if direction in ('to', 'to_and_from'):
 				for ancestor in node.ancestors:
 					relatives[ancestor.name] = 1
 
-			if direction == 'from' or 'to_and_from':
+			if direction in ('from', 'to_and_from'):
 				for descendant in node.descendants:
 					relatives[descendant.name] = 1
 
-- 
2.43.0


From 5999593a9f8d81731d8be3c3f893a1521cd5ebc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:26 +0000
Subject: [PATCH 08/41] fix: connect reports a half-registered edge instead of
 failing on the comparison

---
 abstract/_BasicGraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 0563523..ef664c1 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -709,7 +709,7 @@ class BasicGraph:
 			if value is not None:
 				edge.value = value
 
-		elif edge_id in start.outward_edges and edge_id not in end.inward_edges:
+		elif edge_id in start.outward_edge_ids and edge_id not in end.inward_edge_ids:
 			raise ValueError(
 				f'This is very weird! Edge {edge_id} already in the outward edges of start node '
 				f'but not the inward edges of the end node!'
-- 
2.43.0


From 5b4463d1ddb4afe76d65245a9b56bf44386bdf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:47 +0000
Subject: [PATCH 09/41] fix: the dictionary form of a graph carries raw labels
 of nodes and edges

---
 abstract/_GraphObj.py            | 4 ++++
 abstract/_GraphWithoutDisplay.py | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/abstract/_GraphObj.py b/abstract/_GraphObj.py
index f488619..bc544bb 100755
--- a/abstract/_GraphObj.py
+++ b/abstract/_GraphObj.py
@@ -103,6 +103,10 @@ class GraphObj:
 	def label(self, label):
 		self._label = label
 
+	@property
+	def raw_label(self):
+		return self._label
+
 	def display_label(self):
 		if self._label_converter is not None:
 			return self._label_converter(self.label)
diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 32f52b2..88f68c2 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -527,7 +527,7 @@ class GraphWithoutDisplay(BasicGraph):
 		edges_list = []
 		for node in self.nodes:
 			nodes_dict[node.id] = {
-				'label': node.display_label_or_value,
+				'label': node.raw_label,
 				'value': node.value,
 				'style': node.style
 			}
-- 
2.43.0


From d373cecd74dfc00cf87d04a6ed1e8107b5e1fa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:48 +0000
Subject: [PATCH 10/41] fix: edge_styles given in a dictionary are kept as edge
 styles

---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 88f68c2..c423285 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -251,7 +251,7 @@ class GraphWithoutDisplay(BasicGraph):
 			self.nodes_dict[name].style.complement(style)
 
 		for edge_id, style in self._edge_style_overwrites.items():
-			self.edges_dict[edge_id].style = style
+			self.edges_dict[edge_id].style.complement(style)
 
 		for name, colour in self._node_colour_overwrites.items():
 			node = self.nodes_dict[name]
@@ -488,7 +488,7 @@ class GraphWithoutDisplay(BasicGraph):
 			if 'edge_styles' in dictionary:
 				for parent_child_edge_id, edge_style in dictionary['edge_styles'].items():
 					edge_id = edges_dict[parent_child_edge_id]
-					self._edge_colour_overwrites[edge_id] = edge_style
+					self._edge_style_overwrites[edge_id] = edge_style
 
 			if 'node_colours' in dictionary:
 				for name, colour in dictionary['node_colours'].items():
-- 
2.43.0


From 7a5f663f67cea6f1898da57880d8083586529259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:49 +0000
Subject: [PATCH 11/41] fix: edge_styles and edge_colours can be keyed by full
 edge id, as __graph__ writes them

---
 abstract/_GraphWithoutDisplay.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index c423285..6eeb476 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -470,11 +470,13 @@ class GraphWithoutDisplay(BasicGraph):
 					parent, child = parent_child_edge_dict
 					edge = self.connect(start=parent, end=child)
 					edges_dict[(parent, child)] = edge.id
+					edges_dict[edge.id] = edge.id
 
 				elif len(parent_child_edge_dict) == 3:
 					parent, child, edge_dict = parent_child_edge_dict
 					edge = self.connect(start=parent, end=child, **edge_dict)
 					edges_dict[(parent, child)] = edge.id
+					edges_dict[edge.id] = edge.id
 
 				elif len(parent_child_edge_dict) < 2:
 					raise ValueError('Too few objects in an edge definition!')
-- 
2.43.0


From 57401dc7075ffbdf27bc05a5a0a8464d1e52440f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:50 +0000
Subject: [PATCH 12/41] fix: __graph__ includes tooltip and edge colours, which
 append reads

---
 abstract/_GraphWithoutDisplay.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 6eeb476..4e373fd 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -552,11 +552,13 @@ class GraphWithoutDisplay(BasicGraph):
 			'colour_scheme': self._colour_scheme,
 			'label': self._label,
 			'label_url': self._label_url,
+			'tooltip': self._tooltip,
 			'node_styles': self._node_style_overwrites,
 			'edge_styles': self._edge_style_overwrites,
 			'global_node_style': self._global_node_style_overwrite,
 			'global_edge_style': self._global_edge_style_overwrite,
 			'node_colours': self._node_colour_overwrites,
+			'edge_colours': self._edge_colour_overwrites,
 			'nodes': nodes_dict,
 			'edges': edges_list
 		}
-- 
2.43.0


From 6db116d5d36b8bb5f0552ffffc6628ab60012d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:50 +0000
Subject: [PATCH 13/41] fix: __graph__ does not hand out the live style
 overwrite tables

---
 abstract/_GraphWithoutDisplay.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 4e373fd..9160ba6 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -553,12 +553,12 @@ class GraphWithoutDisplay(BasicGraph):
 			'label': self._label,
 			'label_url': self._label_url,
 			'tooltip': self._tooltip,
-			'node_styles': self._node_style_overwrites,
-			'edge_styles': self._edge_style_overwrites,
+			'node_styles': self._node_style_overwrites.copy(),
+			'edge_styles': self._edge_style_overwrites.copy(),
 			'global_node_style': self._global_node_style_overwrite,
 			'global_edge_style': self._global_edge_style_overwrite,
-			'node_colours': self._node_colour_overwrites,
-			'edge_colours': self._edge_colour_overwrites,
+			'node_colours': self._node_colour_overwrites.copy(),
+			'edge_colours': self._edge_colour_overwrites.copy(),
 			'nodes': nodes_dict,
 			'edges': edges_list
 		}
-- 
2.43.0


From fe8104c85e49e74e37825e9289485d06e76de076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:51 +0000
Subject: [PATCH 14/41] fix: a graph label survives the dictionary form
 unchanged, and may be None

---
 abstract/_GraphWithoutDisplay.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 9160ba6..1b969d0 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -435,7 +435,9 @@ class GraphWithoutDisplay(BasicGraph):
 				self._ordering = dictionary['ordering']
 
 			if 'label' in dictionary:
-				self._label = '\n' + dictionary['label']
+				self._label = dictionary['label']
+				if self._label is not None and not self._label.startswith('\n'):
+					self._label = '\n' + self._label
 
 			if 'tooltip' in dictionary:
 				self._tooltip = dictionary['tooltip']
-- 
2.43.0


From 974af8e68806ea8907e534cc6978eb3f94ebad95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 15/41] fix: adding graphs combines the values of both
 operands, including falsy ones

---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 1b969d0..017a1ea 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -641,7 +641,7 @@ class GraphWithoutDisplay(BasicGraph):
 		if add_values_function is None:
 			def add_values_function(x, y):
 				if x is None or y is None:
-					return x or y
+					return y if x is None else x
 				else:
 					return x + y
 
@@ -654,7 +654,7 @@ class GraphWithoutDisplay(BasicGraph):
 				for key in set(node1.keys()).union(node2.keys()):
 					if key in node1 and key in node2:
 						if key == 'value':
-							n[key] = add_values_function(node2[key], node2[key])
+							n[key] = add_values_function(node1[key], node2[key])
 						else:
 							n[key] = node1[key] or node2[key]
 					elif key in node1:
-- 
2.43.0


From 2bcfd7b6892af095305ac2c1c314c0a6ecea73be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:52 +0000
Subject: [PATCH 16/41] fix: adding graphs keeps node order instead of
 iterating over a set

---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 017a1ea..33366bb 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -646,7 +646,7 @@ class GraphWithoutDisplay(BasicGraph):
 					return x + y
 
 		nodes = {}
-		for the_id in set(d1['nodes'].keys()).union(d2['nodes'].keys()):
+		for the_id in {**d1['nodes'], **d2['nodes']}:
 			if the_id in d1['nodes'] and the_id in d2['nodes']:
 				node1 = d1['nodes'][the_id]
 				node2 = d2['nodes'][the_id]
-- 
2.43.0


From fe1ee841047eef14bda0bff72e6b73b3ab67507c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:53 +0000
Subject: [PATCH 17/41] fix: graphs built from another graph do not share its
 style objects

---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 33366bb..de41cd9 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -533,7 +533,7 @@ class GraphWithoutDisplay(BasicGraph):
 			nodes_dict[node.id] = {
 				'label': node.raw_label,
 				'value': node.value,
-				'style': node.style
+				'style': node.style.copy() if node.has_style() else None
 			}
 
 			for edge in node.outward_edges:
@@ -544,7 +544,7 @@ class GraphWithoutDisplay(BasicGraph):
 						'id': edge.raw_id,
 						'label': edge.raw_label,
 						'value': edge.value,
-						'style': edge.style
+						'style': edge.style.copy() if edge.has_style() else None
 					}
 				])
 
-- 
2.43.0


From c5fb2f04732535b72b227cb432b2fb6fff0b6d0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:22 +0000
Subject: [PATCH 18/41] fix: is_similar_to answers False, not KeyError, when
 node or edge ids differ

---
 abstract/Node.py        | 4 ++++
 abstract/_BasicGraph.py | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/abstract/Node.py b/abstract/Node.py
index 721a4ad..eb1002e 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -123,10 +123,14 @@ class Node(GraphObj):
 		if len(self._inward_edges_dict) != len(other._inward_edges_dict):
 			return False
 		for id, outward_edge in self._outward_edges_dict.items():
+			if id not in other._outward_edges_dict:
+				return False
 			other_outward_edge = other._outward_edges_dict[id]
 			if not outward_edge.is_similar_to(other=other_outward_edge):
 				return False
 		for id, inward_edge in self._inward_edges_dict.items():
+			if id not in other._inward_edges_dict:
+				return False
 			other_inward_edge = other._inward_edges_dict[id]
 			if not inward_edge.is_similar_to(other=other_inward_edge):
 				return False
diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index ef664c1..23d0ff6 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -751,6 +751,8 @@ class BasicGraph:
 			return False
 
 		for name, node in self._nodes_dict.items():
+			if name not in other._nodes_dict:
+				return False
 			other_node = other._nodes_dict[name]
 			if not node.is_similar_to(other=other_node):
 				return False
-- 
2.43.0


From 355c4c526b66983a07dd6701c7136b863aa11756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:23 +0000
Subject: [PATCH 19/41] fix: copies and pickles of a graph keep its label
 converters, options and style overwrites

---
 abstract/_BasicGraph.py          | 4 +++-
 abstract/_GraphWithoutDisplay.py | 7 +++++++
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 23d0ff6..afac6b3 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -31,7 +31,9 @@ class BasicGraph:
 		self._edge_label_converter = edge_label_converter
 		# if a dictionary or an object with a __graph__() method is passed use that to create the graph
 
-	_STATE_ATTRIBUTES = ['_nodes_dict', '_is_strict', '_ordering', '_node_counter']
+	_STATE_ATTRIBUTES = [
+		'_nodes_dict', '_is_strict', '_ordering', '_node_counter', '_node_label_converter', '_edge_label_converter'
+	]
 
 	#  for pickling and copying
 	def __getstate__(self) -> Dict:
diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index de41cd9..c49fe7c 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -108,6 +108,13 @@ class GraphWithoutDisplay(BasicGraph):
 		if obj:
 			self.append(obj=obj)
 
+	_STATE_ATTRIBUTES = BasicGraph._STATE_ATTRIBUTES + [
+		'_background_colour', '_direction', '_global_node_style_overwrite', '_global_edge_style_overwrite',
+		'_node_style_overwrites', '_edge_style_overwrites', '_node_colour_overwrites', '_edge_colour_overwrites',
+		'_label', '_label_location', '_label_colour', '_label_url', '_label_background_colour', '_tooltip',
+		'_font', '_font_size', '_kwargs', '_colour_scheme', '_stylist', '_style_overwrite_allowed'
+	]
+
 	def __getstate__(self) -> Dict:
 		"""
 		Returns the state of the graph for pickling.
-- 
2.43.0


From d9cd261001b388e462c7aed074edd91525d14f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:23 +0000
Subject: [PATCH 20/41] fix: copies and pickles of styles keep every attribute

---
 abstract/styling/EdgeStyle.py | 2 ++
 abstract/styling/NodeStyle.py | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index bd2b272..8e556d6 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -116,6 +116,7 @@ class EdgeStyle:
 			'_opacity': self._opacity,
 			'_font': self._font,
 			'_text_colour': self._text_colour,
+			'_text_colour_based_on_main_colour': self._text_colour_based_on_main_colour,
 			'_text_size': self._text_size,
 			'_arrow_size': self._arrow_size,
 			'_label_style': self._label_style,
@@ -127,6 +128,7 @@ class EdgeStyle:
 		self._opacity = state['_opacity']
 		self._font = state['_font']
 		self._text_colour = state['_text_colour']
+		self._text_colour_based_on_main_colour = state['_text_colour_based_on_main_colour']
 		self._text_size = state['_text_size']
 		self._arrow_size = state['_arrow_size']
 		self._label_style = state['_label_style']
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index d48223d..832a66b 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -166,6 +166,11 @@ class NodeStyle:
 			'_colour': self._colour,
 			'_fill_colour': self._fill_colour,
 			'_border_colour': self._border_colour,
+			'_fill_colour_based_on_main_colour': self._fill_colour_based_on_main_colour,
+			'_border_colour_based_on_main_colour': self._border_colour_based_on_main_colour,
+			'_text_colour_based_on_main_colour': self._text_colour_based_on_main_colour,
+			'_lighter_fill': self._lighter_fill,
+			'_opacity': self._opacity,
 			'_font': self._font,
 			'_text_colour': self._text_colour,
 			'_text_size': self._text_size,
@@ -177,6 +182,10 @@ class NodeStyle:
 		self._colour = state['_colour']
 		self._fill_colour = state['_fill_colour']
 		self._border_colour = state['_border_colour']
+		self._fill_colour_based_on_main_colour = state['_fill_colour_based_on_main_colour']
+		self._border_colour_based_on_main_colour = state['_border_colour_based_on_main_colour']
+		self._text_colour_based_on_main_colour = state['_text_colour_based_on_main_colour']
+		self._lighter_fill = state['_lighter_fill']
 		self._opacity = state['_opacity']
 		self._font = state['_font']
 		self._text_colour = state['_text_colour']
-- 
2.43.0


From 7732ad6d9f50375400f28fe8b79c88d230fb6bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:24 +0000
Subject: [PATCH 21/41] fix: NodeStyle.copy keeps lighter_fill and
 EdgeStyle.copy keeps label_style

---
 abstract/styling/EdgeStyle.py | 2 +-
 abstract/styling/NodeStyle.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index 8e556d6..70270e5 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -56,7 +56,7 @@ class EdgeStyle:
 		result = self.__class__(
 			colour=self._colour, opacity=self._opacity,
 			font=self._font, text_colour=self._text_colour, text_size=self._text_size,
-			arrow_size=self._arrow_size, line_width=self._line_width
+			arrow_size=self._arrow_size, label_style=self._label_style, line_width=self._line_width
 		)
 		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
 		return result
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index 832a66b..0717642 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -89,7 +89,7 @@ class NodeStyle:
 		result = self.__class__(
 			colour=self._colour, fill_colour=self._fill_colour, border_colour=self._border_colour,
 			opacity=self._opacity, font=self._font, text_colour=self._text_colour, text_size=self._text_size,
-			shape=self._shape, shape_style=self._shape_style
+			shape=self._shape, shape_style=self._shape_style, lighter_fill=self._lighter_fill
 		)
 		result._fill_colour_based_on_main_colour = self._fill_colour_based_on_main_colour
 		result._text_colour_based_on_main_colour = self._text_colour_based_on_main_colour
-- 
2.43.0


From 194132694e40073bedfe513ca72382f659fa5c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:25 +0000
Subject: [PATCH 22/41] fix: parse_indentations accepts text that starts with a
 blank line

---
 abstract/parse_indentations_function.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/abstract/parse_indentations_function.py b/abstract/parse_indentations_function.py
index 7c3e8c5..85410e4 100755
--- a/abstract/parse_indentations_function.py
+++ b/abstract/parse_indentations_function.py
@@ -15,6 +15,7 @@ def parse_indentations(lines: List[str], indent: Optional[str] = None) -> Genera
 	"""
 	regex = re.compile(r'^(?P<indent>(?: {4})*)(?P<name>\S.*)')
 	stack = []
+	level = 0
 
 	for index, line in enumerate(lines):
 		line = line.rstrip('\n')
-- 
2.43.0


From 41940a2b2cf0b474f0f2c5ea2fe464674280c102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:26 +0000
Subject: [PATCH 23/41] fix: the file format of a rendered graph follows the
 extension of the path

---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index c49fe7c..b156875 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -742,7 +742,7 @@ class GraphWithoutDisplay(BasicGraph):
 			to_save = self.get_graphviz_source(
 				direction=direction, pad=pad, dpi=dpi, height=height, width=width, output_format=output_format
 			)
-			to_save.render(filename=filename, view=view)
+			to_save.render(filename=filename, view=view, format=output_format or None)
 			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None)
 
 	"""
-- 
2.43.0


From 24a5ca2e3d1931a5d93db3c86c6c0ff91706b0ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:26 +0000
Subject: [PATCH 24/41] fix: height and width are not dropped when a graph is
 rendered without a path

---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index b156875..953fbe3 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -735,7 +735,7 @@ class GraphWithoutDisplay(BasicGraph):
 		self.stylize()
 
 		if path is None:
-			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None)# Source(source=self.get_graphviz_str(direction=direction, pad=pad, dpi=None))
+			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None, height=height, width=width)# Source(source=self.get_graphviz_str(direction=direction, pad=pad, dpi=None))
 		else:
 			filename, file_extension = os.path.splitext(path)
 			output_format = file_extension.lstrip('.')
@@ -743,7 +743,7 @@ class GraphWithoutDisplay(BasicGraph):
 				direction=direction, pad=pad, dpi=dpi, height=height, width=width, output_format=output_format
 			)
 			to_save.render(filename=filename, view=view, format=output_format or None)
-			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None)
+			return self.get_graphviz_source(direction=direction, pad=pad, dpi=None, height=height, width=width)
 
 	"""
 	def display_html(self, direction=None, pad=None, echo_errors=False, **kwargs):
-- 
2.43.0


From f30c3ce4e58aa4a4b336dc421324831243d0d7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:34 +0000
Subject: [PATCH 25/41] fix: quotes in names, labels, tooltips and styles are
 escaped in the DOT text

---
 abstract/Edge.py                 |  7 ++++---
 abstract/Node.py                 |  7 ++++---
 abstract/_GraphWithoutDisplay.py | 20 +++++++++++---------
 abstract/escape_quotes.py        | 19 +++++++++++++++++++
 abstract/styling/EdgeStyle.py    |  3 ++-
 abstract/styling/NodeStyle.py    |  3 ++-
 6 files changed, 42 insertions(+), 17 deletions(-)
 create mode 100644 abstract/escape_quotes.py

diff --git a/abstract/Edge.py b/abstract/Edge.py
index 8761318..49f3027 100755
--- a/abstract/Edge.py
+++ b/abstract/Edge.py
@@ -1,5 +1,6 @@
 from ._GraphObj import GraphObj
 from .styling.EdgeStyle import EdgeStyle
+from .escape_quotes import escape_quotes
 from .Node import Node
 from typing import Optional, Union, Dict, Tuple
 
@@ -144,9 +145,9 @@ class Edge(GraphObj):
 		label_or_value = self.display_label_or_value()
 		style = self.style
 		if label_or_value is not None:
-			parts.append(f'label="{label_or_value}"')
+			parts.append(f'label="{escape_quotes(label_or_value)}"')
 		if self._tooltip is not None:
-			parts.append(f'tooltip="{self._tooltip}"')
+			parts.append(f'tooltip="{escape_quotes(self._tooltip)}"')
 		if style is not None:
 			parts.append(style.get_graphviz_str())
 
@@ -155,7 +156,7 @@ class Edge(GraphObj):
 		else:
 			second_part = ''
 
-		return f'"{self.start.name}" -> "{self.end.name}"' + second_part
+		return f'"{escape_quotes(self.start.name)}" -> "{escape_quotes(self.end.name)}"' + second_part
 
 	@property
 	def start(self) -> Node:
diff --git a/abstract/Node.py b/abstract/Node.py
index eb1002e..f455e1f 100755
--- a/abstract/Node.py
+++ b/abstract/Node.py
@@ -1,5 +1,6 @@
 from ._GraphObj import GraphObj
 from .styling.NodeStyle import NodeStyle
+from .escape_quotes import escape_quotes
 from typing import Optional, Union, List, Dict
 
 
@@ -325,16 +326,16 @@ class Node(GraphObj):
 			str: The Graphviz representation.
 		"""
 
-		parts = [f'label="{self.display_label()}"']
+		parts = [f'label="{escape_quotes(self.display_label())}"']
 
 		if self._tooltip is not None:
-			parts.append(f'tooltip="{self._tooltip}"')
+			parts.append(f'tooltip="{escape_quotes(self._tooltip)}"')
 
 		style = self.style
 		if style is not None:
 			parts.append(style.get_graphviz_str())
 
-		return f'"{self.id}" [' + ' '.join(parts) + ']'
+		return f'"{escape_quotes(self.id)}" [' + ' '.join(parts) + ']'
 
 	def connect_to(self, node: 'Node', **kwargs) -> 'GraphObj':
 		"""
diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 953fbe3..c17bea9 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -3,12 +3,14 @@ from .styling.NodeStyle import NodeStyle
 from .styling.EdgeStyle import EdgeStyle
 from graphviz import Source
 import os
+from html import escape
 from functools import wraps
 import random
 from colouration import Colour
 from .styling import stylize_with_pensieve, stylize_randomly
 from typing import Optional, Union, Dict, Callable
 from .Node import Node
+from .escape_quotes import escape_quotes
 from .Edge import Edge
 
 DEFAULT_BACKGROUND_COLOUR_NAME = '#FAFAFA'
@@ -326,28 +328,28 @@ class GraphWithoutDisplay(BasicGraph):
 				attributes['label'] = f'{self._label}'
 			else:
 				if self._label_background_colour is not None:
-					html = f'<table border="0" cellborder="0"><tr><td bgcolor="{self._label_background_colour}" title="{self._label}">{self._label} </td></tr></table>'
+					html = f'<table border="0" cellborder="0"><tr><td bgcolor="{escape(str(self._label_background_colour))}" title="{escape(self._label)}">{escape(self._label)} </td></tr></table>'
 					if self._label_location[0] == 't':
 						attributes['label'] = f'<{html}\n>'
 					else:
 						attributes['label'] = f'<\n{html}>'
 				else:
-					attributes['label'] = f'"{self._label}"'
+					attributes['label'] = f'"{escape_quotes(self._label)}"'
 
 			if self._label_location is not None:
-				attributes['labelloc'] = f'"{self._label_location[0]}"'
+				attributes['labelloc'] = f'"{escape_quotes(self._label_location[0])}"'
 			if self._font_size is not None:
 				attributes['fontsize'] = f'{self._font_size}'
 			if self._font is not None:
-				attributes['fontname'] = f'"{self._font}"'
+				attributes['fontname'] = f'"{escape_quotes(self._font)}"'
 			if self._label_colour is not None:
-				attributes['fontcolor'] = f'"{self._label_colour}"'
+				attributes['fontcolor'] = f'"{escape_quotes(self._label_colour)}"'
 			if self._label_url is not None:
-				attributes['href'] = f'"{self._label_url}"'
+				attributes['href'] = f'"{escape_quotes(self._label_url)}"'
 				attributes['target'] = '"_blank"'
 
 		if self._tooltip is not None:
-			attributes['tooltip'] = f'"{self._tooltip}"'
+			attributes['tooltip'] = f'"{escape_quotes(self._tooltip)}"'
 
 		#if dpi is not None:
 		#	attributes['dpi'] = f'{dpi}'
@@ -355,7 +357,7 @@ class GraphWithoutDisplay(BasicGraph):
 			if isinstance(value, int):
 				attributes[key] = value
 			else:
-				attributes[key] = f'"{value}"'
+				attributes[key] = f'"{escape_quotes(value)}"'
 
 		if len(attributes) > 0:
 			second_part += '\t graph [' + ', '.join([f'{key} = {value}' for key, value in attributes.items()]) + ' ];\n'
@@ -380,7 +382,7 @@ class GraphWithoutDisplay(BasicGraph):
 
 		direction = direction.upper()
 		if direction != 'TB':
-			third_part = f'\trankdir="{direction}"'
+			third_part = f'\trankdir="{escape_quotes(direction)}"'
 		else:
 			third_part = ''
 
diff --git a/abstract/escape_quotes.py b/abstract/escape_quotes.py
new file mode 100644
index 0000000..cd1350d
--- /dev/null
+++ b/abstract/escape_quotes.py
@@ -0,0 +1,19 @@
+import re
+
+
+def escape_quotes(text) -> str:
+	"""
+	Escapes a text so that it can be put between double quotes in the DOT language.
+
+	Quotes that are already escaped and other DOT escape sequences, such as \\n and \\l, are left as they are.
+
+	Args:
+		text: The text to escape; anything else is converted to str.
+
+	Returns:
+		str: The escaped text.
+	"""
+	text = re.sub(r'(?<!\\)((?:\\\\)*)"', r'\1\\"', str(text))
+	if (len(text) - len(text.rstrip('\\'))) % 2 == 1:
+		text += '\\'
+	return text
diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index 70270e5..82e69a6 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -1,4 +1,5 @@
 from colouration import Colour
+from ..escape_quotes import escape_quotes
 
 
 DEFAULT_COLOUR = Colour(hexadecimal='#AAAAAA')
@@ -159,7 +160,7 @@ class EdgeStyle:
 				key = key.strip('"')
 
 			if isinstance(value, str):
-				value = value.strip('"')
+				value = escape_quotes(value.strip('"'))
 
 			if value is not None:
 				key_values.append((key, value))
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index 0717642..d1855d0 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -1,4 +1,5 @@
 from colouration import Colour
+from ..escape_quotes import escape_quotes
 
 
 DEFAULT_COLOUR = Colour(hexadecimal='#AAAAAA')
@@ -219,7 +220,7 @@ class NodeStyle:
 				key = key.strip('"')
 
 			if isinstance(value, str):
-				value = value.strip('"')
+				value = escape_quotes(value.strip('"'))
 
 			if value is not None:
 				key_values.append((key, value))
-- 
2.43.0


From 2a36672c872888a989f4a77e73f1c1d123ddba6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:50 +0000
Subject: [PATCH 26/41] fix: nodes of a loop that also have parents outside the
 loop get a style

---
 abstract/styling/stylize_with_pensieve.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/styling/stylize_with_pensieve.py b/abstract/styling/stylize_with_pensieve.py
index 9764f88..c17f538 100755
--- a/abstract/styling/stylize_with_pensieve.py
+++ b/abstract/styling/stylize_with_pensieve.py
@@ -31,7 +31,7 @@ def stylize_with_pensieve(
 
 	# branch nodes
 	for node in graph.nodes:
-		if not is_root_or_parents_are_in_loop(node) and not node.is_in_loop():
+		if not is_root_or_parents_are_in_loop(node):
 			if node.style is None:
 				node.style = inherit_style(
 					node=node, pale_ratio=pale_ratio, divergence_ratio=divergence_ratio, main_style=node_style
-- 
2.43.0


From c8a7c0717f8b6bfa2c540f5eaf7c7aeb8f9b3efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:51 +0000
Subject: [PATCH 27/41] fix: the arrow size of an edge depends on its own value
 only, and values need not be numbers

---
 abstract/styling/stylize_edges_based_on_nodes.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/abstract/styling/stylize_edges_based_on_nodes.py b/abstract/styling/stylize_edges_based_on_nodes.py
index 299c341..d199620 100755
--- a/abstract/styling/stylize_edges_based_on_nodes.py
+++ b/abstract/styling/stylize_edges_based_on_nodes.py
@@ -7,13 +7,13 @@ def stylize_edges_based_on_nodes(graph, edge_style=None, edge_darkness_ratio=0.1
 			colour = edge.start.style.colour.darken(ratio=edge_darkness_ratio)
 
 			if edge_style is None:
-				edge_style = EdgeStyle(colour=colour)
+				style = EdgeStyle(colour=colour)
 			else:
-				edge_style = edge_style.copy()
-				edge_style.reset_colours()
-				edge_style.colour = colour
+				style = edge_style.copy()
+				style.reset_colours()
+				style.colour = colour
 
-			if edge.value is not None:
-				edge_style._arrow_size *= edge.value
+			if isinstance(edge.value, (int, float)):
+				style._arrow_size *= edge.value
 
-			edge.style = edge_style
\ No newline at end of file
+			edge.style = style
\ No newline at end of file
-- 
2.43.0


From 147f973dd9725c0795abb62549302b940f85e727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:51 +0000
Subject: [PATCH 28/41] fix: a graph with the random stylist can be rendered
 repeatedly and keeps given node styles

---
 abstract/styling/stylize_randomly.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/abstract/styling/stylize_randomly.py b/abstract/styling/stylize_randomly.py
index ce200d7..7a797d0 100755
--- a/abstract/styling/stylize_randomly.py
+++ b/abstract/styling/stylize_randomly.py
@@ -30,7 +30,8 @@ def stylize_randomly(
 			style = node_style.copy()
 			style.reset_colours()
 			style.colour = colour
-		node.style = style
+		if node.style is None:
+			node.style = style
 
 	# branch edges
 	stylize_edges_based_on_nodes(graph=graph, edge_style=edge_style, edge_darkness_ratio=edge_darkness_ratio)
-- 
2.43.0


From 35bce5f4913ae520fc1187e511fd68ea16d8db5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 29/41] fix: a graph with a global node or edge style can be
 rendered repeatedly

---
 abstract/_GraphWithoutDisplay.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index c17bea9..7c9b970 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -245,11 +245,13 @@ class GraphWithoutDisplay(BasicGraph):
 				smart_global_node_style_overwrite = self._global_node_style_overwrite
 
 			for node in self.nodes:
-				node.style = smart_global_node_style_overwrite
+				if node.style is None:
+					node.style = smart_global_node_style_overwrite
 
 		if self._global_edge_style_overwrite is not None:
 			for edge in self.edges:
-				edge.style = self._global_edge_style_overwrite
+				if edge.style is None:
+					edge.style = self._global_edge_style_overwrite
 
 		if self._stylist == 'pensieve':
 			stylize_with_pensieve(graph=self)
-- 
2.43.0


From 06133bfdc39c31e344431f1352d76d5168f892fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:52 +0000
Subject: [PATCH 30/41] fix: node and edge colours given in a dictionary are
 applied when rendering

---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index 7c9b970..ee41d24 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -269,7 +269,7 @@ class GraphWithoutDisplay(BasicGraph):
 			style = node.style.copy()
 			style.reset_colours()
 			style.colour = colour
-			node.style = style
+			node._style = style
 
 		for edge_id, colour in self._edge_colour_overwrites.items():
 			edge = self.edges_dict[edge_id]
@@ -277,7 +277,7 @@ class GraphWithoutDisplay(BasicGraph):
 			style = edge.style.copy()
 			style.reset_colours()
 			style.colour = colour
-			edge.style = style
+			edge._style = style
 			_ = edge.style.colour
 
 		if self._global_node_style_overwrite is not None:
-- 
2.43.0


From 0acf080e935e0704c088f8ac6b6e12a1134d8441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:56 +0000
Subject: [PATCH 31/41] fix: global node and edge styles may be NodeStyle and
 EdgeStyle objects, as documented

---
 abstract/_GraphWithoutDisplay.py | 8 ++++----
 abstract/styling/EdgeStyle.py    | 2 ++
 abstract/styling/NodeStyle.py    | 2 ++
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index ee41d24..efdb54d 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -236,7 +236,7 @@ class GraphWithoutDisplay(BasicGraph):
 		"""Applies styles to the nodes and edges in the graph."""
 		if self._global_node_style_overwrite is not None:
 			smart_global_node_style_overwrite = None
-			if 'shape' in self._global_node_style_overwrite:
+			if isinstance(self._global_node_style_overwrite, dict) and 'shape' in self._global_node_style_overwrite:
 				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
 					if max([len(str(node.name)) for node in self.nodes]) < 3:
 						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
@@ -246,12 +246,12 @@ class GraphWithoutDisplay(BasicGraph):
 
 			for node in self.nodes:
 				if node.style is None:
-					node.style = smart_global_node_style_overwrite
+					node.style = smart_global_node_style_overwrite.copy()
 
 		if self._global_edge_style_overwrite is not None:
 			for edge in self.edges:
 				if edge.style is None:
-					edge.style = self._global_edge_style_overwrite
+					edge.style = self._global_edge_style_overwrite.copy()
 
 		if self._stylist == 'pensieve':
 			stylize_with_pensieve(graph=self)
@@ -282,7 +282,7 @@ class GraphWithoutDisplay(BasicGraph):
 
 		if self._global_node_style_overwrite is not None:
 			smart_global_node_style_overwrite = None
-			if 'shape' in self._global_node_style_overwrite:
+			if isinstance(self._global_node_style_overwrite, dict) and 'shape' in self._global_node_style_overwrite:
 				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
 					if max([len(str(node.name)) for node in self.nodes]) < 3:
 						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
diff --git a/abstract/styling/EdgeStyle.py b/abstract/styling/EdgeStyle.py
index 82e69a6..6c6c0c7 100755
--- a/abstract/styling/EdgeStyle.py
+++ b/abstract/styling/EdgeStyle.py
@@ -39,6 +39,8 @@ class EdgeStyle:
 		"""
 		:type dictionary: dict
 		"""
+		if isinstance(dictionary, EdgeStyle):
+			dictionary = dictionary.__getstate__()
 		for key, value in dictionary.items():
 			if hasattr(self, key):
 				setattr(self, key, value)
diff --git a/abstract/styling/NodeStyle.py b/abstract/styling/NodeStyle.py
index d1855d0..bde2c8d 100755
--- a/abstract/styling/NodeStyle.py
+++ b/abstract/styling/NodeStyle.py
@@ -44,6 +44,8 @@ class NodeStyle:
 		"""
 		:type dictionary: dict
 		"""
+		if isinstance(dictionary, NodeStyle):
+			dictionary = dictionary.__getstate__()
 		for key, value in dictionary.items():
 			if hasattr(self, key):
 				setattr(self, key, value)
-- 
2.43.0


From c3c83e9bb1108336b53066f5c625a9b0d2e0a01d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:57 +0000
Subject: [PATCH 32/41] fix: an automatic global node shape does not fail on a
 graph without nodes

---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index efdb54d..bb6ff06 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -238,7 +238,7 @@ class GraphWithoutDisplay(BasicGraph):
 			smart_global_node_style_overwrite = None
 			if isinstance(self._global_node_style_overwrite, dict) and 'shape' in self._global_node_style_overwrite:
 				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
-					if max([len(str(node.name)) for node in self.nodes]) < 3:
+					if max([len(str(node.name)) for node in self.nodes], default=0) < 3:
 						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
 						smart_global_node_style_overwrite['shape'] = 'circle'
 			if smart_global_node_style_overwrite is None:
@@ -284,7 +284,7 @@ class GraphWithoutDisplay(BasicGraph):
 			smart_global_node_style_overwrite = None
 			if isinstance(self._global_node_style_overwrite, dict) and 'shape' in self._global_node_style_overwrite:
 				if self._global_node_style_overwrite['shape'].lower().startswith('auto'):
-					if max([len(str(node.name)) for node in self.nodes]) < 3:
+					if max([len(str(node.name)) for node in self.nodes], default=0) < 3:
 						smart_global_node_style_overwrite = self._global_node_style_overwrite.copy()
 						smart_global_node_style_overwrite['shape'] = 'circle'
 			if smart_global_node_style_overwrite is None:
-- 
2.43.0


From 450c66cb7519ad205401b35b7d431f84d2ceb4d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:57 +0000
Subject: [PATCH 33/41] fix: ancestors and descendants by distance hold every
 relative once, at its shortest distance

---
 abstract/_BasicGraph.py | 49 ++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index afac6b3..6fdc889 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -515,23 +515,40 @@ class BasicGraph:
 		nodes_travelled.append(node)
 		parents = self.get_parents(node=node)
 		if len(parents) == 0:
-			return [], {}
+			return []
 		else:
 			ancestors = []
-			ancestors_dict = {1: []}
 			for parent in parents:
 				if parent not in ancestors:
 					ancestors.append(parent)
-					ancestors_dict[1].append(parent)
 
 				if parent not in nodes_travelled:
-					parent_ancestors, parent_ancestors_dict = self._get_ancestors(node=parent, nodes_travelled=nodes_travelled)
+					parent_ancestors = self._get_ancestors(node=parent, nodes_travelled=nodes_travelled)
 					for ancestor in parent_ancestors:
 						if ancestor not in ancestors:
 							ancestors.append(ancestor)
-							for distance in parent_ancestors_dict.keys():
-								ancestors_dict[distance+1] = parent_ancestors_dict[distance]
-			return ancestors, ancestors_dict
+			return ancestors
+
+	def _group_by_distance(self, node, relatives, get_neighbours):
+		"""
+		:type node: Node or str
+		:type relatives: list[Node]
+		:type get_neighbours: callable
+		:rtype: dict[int,list[Node]]
+		"""
+		result = {}
+		remaining = list(relatives)
+		layer = [self.get_node(node)]
+		while len(remaining) > 0:
+			next_layer = []
+			for near_node in layer:
+				for neighbour in get_neighbours(node=near_node):
+					if neighbour in remaining:
+						remaining.remove(neighbour)
+						next_layer.append(neighbour)
+			result[len(result) + 1] = next_layer
+			layer = next_layer
+		return result
 
 	def get_ancestors(self, node, distance=True):
 		"""
@@ -539,9 +556,9 @@ class BasicGraph:
 		:param bool distance: if True, ancestors and their respective distance to the node will be returned as dict
 		:rtype: dict[int,list[Node]] or list[Node]
 		"""
-		ancestors, ancestors_dict = self._get_ancestors(node=node, nodes_travelled=None)
+		ancestors = self._get_ancestors(node=node, nodes_travelled=None)
 		if distance:
-			return ancestors_dict
+			return self._group_by_distance(node=node, relatives=ancestors, get_neighbours=self.get_parents)
 		else:
 			return ancestors
 
@@ -574,22 +591,18 @@ class BasicGraph:
 		nodes_travelled.append(node)
 		children = self.get_children(node=node)
 		if len(children) == 0:
-			return [], {}
+			return []
 		else:
 			descendants = []
-			descendants_dict = {1: []}
 			for child in children:
 				if child not in nodes_travelled:
 					if child not in descendants:
 						descendants.append(child)
-						descendants_dict[1].append(child)
-					child_descendants, child_descendants_dict = self._get_descendants(node=child, nodes_travelled=nodes_travelled)
+					child_descendants = self._get_descendants(node=child, nodes_travelled=nodes_travelled)
 					for descendant in child_descendants:
 						if descendant not in descendants:
 							descendants.append(descendant)
-							for distance in child_descendants_dict.keys():
-								descendants_dict[distance+1] = child_descendants_dict[distance]
-			return descendants, descendants_dict
+			return descendants
 
 	def get_descendants(self, node, distance=True):
 		"""
@@ -597,9 +610,9 @@ class BasicGraph:
 		:param bool distance: if True, descendants and their respective distance to the node will be returned as dict
 		:rtype: dict[int,list[Node]] or list[Node]
 		"""
-		descendants, descendants_dict = self._get_descendants(node=node, nodes_travelled=None)
+		descendants = self._get_descendants(node=node, nodes_travelled=None)
 		if distance:
-			return descendants_dict
+			return self._group_by_distance(node=node, relatives=descendants, get_neighbours=self.get_children)
 		else:
 			return descendants
 
-- 
2.43.0


From a2d522fa9cbc08ec188031eaec5213ed31cee24f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:58 +0000
Subject: [PATCH 34/41] fix: relatives of objects are found within the maximum
 depth or height on any path, each at its shortest distance

---
 abstract/get_ancestors.py   | 50 +++++++++++++++----------------------
 abstract/get_descendants.py | 50 +++++++++++++++----------------------
 2 files changed, 40 insertions(+), 60 deletions(-)

diff --git a/abstract/get_ancestors.py b/abstract/get_ancestors.py
index 6f554b4..6161e6d 100755
--- a/abstract/get_ancestors.py
+++ b/abstract/get_ancestors.py
@@ -1,44 +1,34 @@
 from typing import List, Dict, Optional, Tuple, Union
 
-def _get_ancestors(obj, _objects_travelled: Optional[List] = None, max_height: Optional[int] = None) -> Tuple[List, Dict]:
+def _get_ancestors(obj, max_height: Optional[int] = None) -> Tuple[List, Dict]:
 	"""
-	Retrieves the ancestors of an object.
+	Retrieves the ancestors of an object, the nearest ones first.
 
 	Args:
 		obj: The object to retrieve ancestors from.
-		_objects_travelled (Optional[List]): List of objects already travelled.
 		max_height (Optional[int]): Maximum height for travelling through objects' parents.
 
 	Returns:
 		Tuple[List, Dict]: A tuple containing a list of ancestors and a dictionary of ancestors with their distances.
 	"""
-	if max_height is not None:
-		if max_height <= 0:
-			return [], {}
-		else:
-			max_height -= 1
-	_objects_travelled = _objects_travelled or []
-	_objects_travelled.append(obj)
-	parents = obj.__parents__()
-	if len(parents) == 0:
-		return [], {}
-	else:
-		ancestors = []
-		ancestors_dict = {1: []}
-		for parent in parents:
-			if parent not in _objects_travelled:
-				if parent not in ancestors:
+	ancestors = []
+	ancestors_dict = {}
+	objects_travelled = [obj]
+	layer = [obj]
+	distance = 0
+	while len(layer) > 0 and (max_height is None or distance < max_height):
+		distance += 1
+		next_layer = []
+		for near_object in layer:
+			for parent in near_object.__parents__():
+				if parent not in objects_travelled:
+					objects_travelled.append(parent)
 					ancestors.append(parent)
-					ancestors_dict[1].append(parent)
-				parent_ancestors, parent_ancestors_dict = _get_ancestors(
-					obj=parent, _objects_travelled=_objects_travelled, max_height=max_height
-				)
-				for ancestor in parent_ancestors:
-					if ancestor not in ancestors:
-						ancestors.append(ancestor)
-						for distance in parent_ancestors_dict.keys():
-							ancestors_dict[distance + 1] = parent_ancestors_dict[distance]
-		return ancestors, ancestors_dict
+					next_layer.append(parent)
+		if len(next_layer) > 0:
+			ancestors_dict[distance] = next_layer
+		layer = next_layer
+	return ancestors, ancestors_dict
 
 
 def get_ancestors(obj, distance: bool = True, max_height: Optional[int] = None) -> Union[List, Dict]:
@@ -53,7 +43,7 @@ def get_ancestors(obj, distance: bool = True, max_height: Optional[int] = None)
 	Returns:
 		Union[List, Dict]: A list of ancestors or a dictionary of ancestors with their distances.
 	"""
-	ancestors, ancestors_dict = _get_ancestors(obj=obj, _objects_travelled=None, max_height=max_height)
+	ancestors, ancestors_dict = _get_ancestors(obj=obj, max_height=max_height)
 	if distance:
 		return ancestors_dict
 	else:
diff --git a/abstract/get_descendants.py b/abstract/get_descendants.py
index 4771e5e..f776a41 100755
--- a/abstract/get_descendants.py
+++ b/abstract/get_descendants.py
@@ -1,44 +1,34 @@
 from typing import List, Dict, Optional, Tuple, Union
 
-def _get_descendants(obj, _objects_travelled: Optional[List] = None, max_depth: Optional[int] = None) -> Tuple[List, Dict]:
+def _get_descendants(obj, max_depth: Optional[int] = None) -> Tuple[List, Dict]:
 	"""
-	Retrieves the descendants of an object.
+	Retrieves the descendants of an object, the nearest ones first.
 
 	Args:
 		obj: The object to retrieve descendants from.
-		_objects_travelled (Optional[List]): List of objects already travelled.
 		max_depth (Optional[int]): Maximum depth for travelling through objects' children.
 
 	Returns:
 		Tuple[List, Dict]: A tuple containing a list of descendants and a dictionary of descendants with their distances.
 	"""
-	if max_depth is not None:
-		if max_depth <= 0:
-			return [], {}
-		else:
-			max_depth -= 1
-	_objects_travelled = _objects_travelled or []
-	_objects_travelled.append(obj)
-	children = obj.__children__()
-	if len(children) == 0:
-		return [], {}
-	else:
-		descendants = []
-		descendants_dict = {1: []}
-		for child in children:
-			if child not in _objects_travelled:
-				if child not in descendants:
+	descendants = []
+	descendants_dict = {}
+	objects_travelled = [obj]
+	layer = [obj]
+	distance = 0
+	while len(layer) > 0 and (max_depth is None or distance < max_depth):
+		distance += 1
+		next_layer = []
+		for near_object in layer:
+			for child in near_object.__children__():
+				if child not in objects_travelled:
+					objects_travelled.append(child)
 					descendants.append(child)
-					descendants_dict[1].append(child)
-				child_descendants, child_descendants_dict = _get_descendants(
-					obj=child, _objects_travelled=_objects_travelled, max_depth=max_depth
-				)
-				for descendant in child_descendants:
-					if descendant not in descendants:
-						descendants.append(descendant)
-						for distance in child_descendants_dict.keys():
-							descendants_dict[distance + 1] = child_descendants_dict[distance]
-		return descendants, descendants_dict
+					next_layer.append(child)
+		if len(next_layer) > 0:
+			descendants_dict[distance] = next_layer
+		layer = next_layer
+	return descendants, descendants_dict
 
 
 def get_descendants(obj, distance: bool = True, max_depth: Optional[int] = None) -> Union[List, Dict]:
@@ -53,7 +43,7 @@ def get_descendants(obj, distance: bool = True, max_depth: Optional[int] = None)
 	Returns:
 		Union[List, Dict]: A list of descendants or a dictionary of descendants with their distances.
 	"""
-	descendants, descendants_dict = _get_descendants(obj=obj, _objects_travelled=None, max_depth=max_depth)
+	descendants, descendants_dict = _get_descendants(obj=obj, max_depth=max_depth)
 	if distance:
 		return descendants_dict
 	else:
-- 
2.43.0


From c3fa836b6ae34ca97ad242e09422ee6355ccb0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:58 +0000
Subject: [PATCH 35/41] fix: from_object adds all nodes before it connects
 them, and each only once

---
 abstract/_BasicGraph.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 6fdc889..0b0991f 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -139,19 +139,20 @@ class BasicGraph:
 		descendants = get_descendants(obj=obj, distance=False, max_depth=max_depth)
 		ancestors = get_ancestors(obj=obj, distance=False, max_height=max_height)
 
+		for relative in descendants + ancestors:
+			graph.add_node(name=relative.__hash__(), label=str(relative), if_node_exists='ignore')
+
 		obj_and_descendants = [obj] + descendants
 		for child in descendants:
 			for parent in child.__parents__():
 				if parent in obj_and_descendants:
-					graph.add_node(name=child.__hash__(), label=str(child))
-					graph.connect(start=parent.__hash__(), end=child.__hash__())
+					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')
 
 		obj_and_ancestors = [obj] + ancestors
 		for parent in ancestors:
 			for child in parent.__children__():
 				if child in obj_and_ancestors:
-					graph.add_node(name=parent.__hash__(), label=str(parent))
-					graph.connect(start=parent.__hash__(), end=child.__hash__())
+					graph.connect(start=parent.__hash__(), end=child.__hash__(), if_edge_exists='ignore')
 
 		return graph
 
-- 
2.43.0


From e9cac24034e3917f03efbaea015bec73445db765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 36/41] fix: an update refused because the node or edge is
 frozen leaves its style and label alone

---
 abstract/_BasicGraph.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index 0b0991f..c95c160 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -290,6 +290,8 @@ class BasicGraph:
 					raise KeyError(f'duplicate node id:"{name}"!')
 
 				node = self.get_node(node=name)
+				if value is not None and node.is_frozen:
+					raise RuntimeError('GraphObj is frozen!')
 				if style is not None:
 					node.style = style
 				if label is not None:
@@ -718,6 +720,8 @@ class BasicGraph:
 				raise ValueError(f'Error! Edge {edge_id} already exists!')
 
 			edge = start.get_outward_edge(id=edge_id)
+			if value is not None and edge.is_frozen:
+				raise RuntimeError('GraphObj is frozen!')
 			if style is not None:
 				edge.style = style
 			if label is not None:
-- 
2.43.0


From 573a8022410570b3d4e14f6f801711630f54cc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:48 +0000
Subject: [PATCH 37/41] fix: a graph can be rendered after a node or edge with
 a style or colour overwrite is removed

---
 abstract/_GraphWithoutDisplay.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index bb6ff06..a2242b3 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -259,12 +259,16 @@ class GraphWithoutDisplay(BasicGraph):
 			stylize_randomly(graph=self)
 
 		for name, style in self._node_style_overwrites.items():
-			self.nodes_dict[name].style.complement(style)
+			if name in self.nodes_dict:
+				self.nodes_dict[name].style.complement(style)
 
 		for edge_id, style in self._edge_style_overwrites.items():
-			self.edges_dict[edge_id].style.complement(style)
+			if edge_id in self.edges_dict:
+				self.edges_dict[edge_id].style.complement(style)
 
 		for name, colour in self._node_colour_overwrites.items():
+			if name not in self.nodes_dict:
+				continue
 			node = self.nodes_dict[name]
 			style = node.style.copy()
 			style.reset_colours()
@@ -272,6 +276,8 @@ class GraphWithoutDisplay(BasicGraph):
 			node._style = style
 
 		for edge_id, colour in self._edge_colour_overwrites.items():
+			if edge_id not in self.edges_dict:
+				continue
 			edge = self.edges_dict[edge_id]
 			_ = edge.style.colour
 			style = edge.style.copy()
-- 
2.43.0


From 41e9a63e9ddb334b55244700e0a01fbdd124434c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:49 +0000
Subject: [PATCH 38/41] fix: a label with a background colour does not need a
 label location

---
 abstract/_GraphWithoutDisplay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index a2242b3..b8212ee 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -337,7 +337,7 @@ class GraphWithoutDisplay(BasicGraph):
 			else:
 				if self._label_background_colour is not None:
 					html = f'<table border="0" cellborder="0"><tr><td bgcolor="{escape(str(self._label_background_colour))}" title="{escape(self._label)}">{escape(self._label)} </td></tr></table>'
-					if self._label_location[0] == 't':
+					if self._label_location is not None and self._label_location[0] == 't':
 						attributes['label'] = f'<{html}\n>'
 					else:
 						attributes['label'] = f'<\n{html}>'
-- 
2.43.0


From 3447fa935546ae79d5b97bbad48accbfb198fe17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:49 +0000
Subject: [PATCH 39/41] fix: get_edges lists a loop edge once, as Node.edges
 does

---
 abstract/_BasicGraph.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/abstract/_BasicGraph.py b/abstract/_BasicGraph.py
index c95c160..1a0e1f5 100755
--- a/abstract/_BasicGraph.py
+++ b/abstract/_BasicGraph.py
@@ -400,7 +400,7 @@ class BasicGraph:
 		Returns:
 			List[Edge]: All edges of the node.
 		"""
-		return self.get_outward_edges(node=node)+self.get_inward_edges(node=node)
+		return self.get_node(node=node).edges
 
 	def get_parents(self, node: Union[str, Node]) -> List[Node]:
 		"""
-- 
2.43.0


From a6b1c9dc896d7c74bcc0e3416079710e9eb6f8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:07:17 +0000
Subject: [PATCH 40/41] fix: parse_indentations leaves the text after the
 indentation as it is

---
 abstract/parse_indentations_function.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/abstract/parse_indentations_function.py b/abstract/parse_indentations_function.py
index 85410e4..58c91de 100755
--- a/abstract/parse_indentations_function.py
+++ b/abstract/parse_indentations_function.py
@@ -22,8 +22,9 @@ def parse_indentations(lines: List[str], indent: Optional[str] = None) -> Genera
 		if indent is None:
 			if line.startswith('\t') or line.startswith(' '):
 				indent = re.findall(pattern=r'^[ \t]+', string=line)[0]
-		if indent is not None:
-			line = line.replace(indent, " " * 4, len(line) - len(line.lstrip(indent)))
+		if indent:
+			# only the leading indentation, however often it occurs in the text after it
+			line = line.replace(indent, " " * 4, (len(line) - len(line.lstrip(indent))) // len(indent))
 		if len(line) > 0:
 			match = regex.match(line)
 			if not match:
-- 
2.43.0


From 37df63078bfa45995f1dffccf79a7a681bdbc8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:18:25 +0000
Subject: [PATCH 41/41] fix: a graph with an overwrite of a removed edge can be
 rebuilt from its dictionary

---
 abstract/_GraphWithoutDisplay.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/abstract/_GraphWithoutDisplay.py b/abstract/_GraphWithoutDisplay.py
index b8212ee..8a37666 100755
--- a/abstract/_GraphWithoutDisplay.py
+++ b/abstract/_GraphWithoutDisplay.py
@@ -508,7 +508,7 @@ class GraphWithoutDisplay(BasicGraph):
 
 			if 'edge_styles' in dictionary:
 				for parent_child_edge_id, edge_style in dictionary['edge_styles'].items():
-					edge_id = edges_dict[parent_child_edge_id]
+					edge_id = edges_dict.get(parent_child_edge_id, parent_child_edge_id)
 					self._edge_style_overwrites[edge_id] = edge_style
 
 			if 'node_colours' in dictionary:
@@ -517,7 +517,7 @@ class GraphWithoutDisplay(BasicGraph):
 
 			if 'edge_colours' in dictionary:
 				for parent_child_edge_id, colour in dictionary['edge_colours'].items():
-					edge_id = edges_dict[parent_child_edge_id]
+					edge_id = edges_dict.get(parent_child_edge_id, parent_child_edge_id)
 					self._edge_colour_overwrites[edge_id] = colour
 
 			return self
-- 
2.43.0

