import json
P=[]
FILES={'BasicGraph':'abstract/_BasicGraph.py','GraphWithoutDisplay':'abstract/_GraphWithoutDisplay.py','Graph':'abstract/Graph.py','Node':'abstract/Node.py','Edge':'abstract/Edge.py','GraphObj':'abstract/_GraphObj.py','NodeStyle':'abstract/styling/NodeStyle.py','EdgeStyle':'abstract/styling/EdgeStyle.py','parse_indentations':'abstract/parse_indentations_function.py','get_ancestors':'abstract/get_ancestors.py','get_descendants':'abstract/get_descendants.py','stylize_with_pensieve':'abstract/styling/stylize_with_pensieve.py','stylize_randomly':'abstract/styling/stylize_randomly.py','inherit_style':'abstract/styling/inherit_style.py'}
def where(q,files):
    return FILES[q.split('.')[0]]+':'+q
def p(id,title,statement,over,text,why,files,symbols=()):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":{"files":files,"mechanism":[{"name":q,"where":where(q,files)} for q in symbols] or [{"name":"whole package","where":"abstract/"}]}})
B='abstract/_BasicGraph.py';N='abstract/Node.py';E='abstract/Edge.py';G='abstract/_GraphWithoutDisplay.py';O='abstract/_GraphObj.py';GR='abstract/Graph.py'
S='abstract/styling/'
p('C01','Every edge is recorded at both of its ends, and removed from both',
 "Whenever an operation of the library returns or raises, an edge is listed among the outward edges of its start node exactly when it is listed among the inward edges of its end node, in both places under its id (start name, end name, own id). No operation records, removes or re-targets an edge at one end only.",
 ['histories','inputs'],'every sequence of connect, disconnect, remove_self, remove_node and construction calls, on every graph, loop edges and parallel edges included',
 'The tests build a few small graphs and look at one end of a few edges; they never compare the two ends after removals, errors or loops.',
 [N,E,B],['Edge.__init__','Edge.remove_self','BasicGraph.disconnect','BasicGraph.connect','Node.remove_edges'])
p('C02','Removing a node removes exactly the node and its incident edges',
 "remove_node takes the node and every edge that starts or ends at it, loop edges included, out of the graph, and leaves every other node and edge in place. Afterwards the removed node belongs to no graph, and no remaining node lists an edge to or from it.",
 ['inputs','histories'],'every graph and every node of it, given by name or as object, with loop edges, parallel edges and cycles',
 'No test removes a node that has a loop edge, parallel edges or both inward and outward edges and then looks at the neighbours.',
 [B,N,E],['BasicGraph.remove_node','Node.remove_edges','Edge.remove_self'])
p('C03','A node name stands for one node of a graph',
 "add_node with a new name adds one node under exactly that name; with a name that is present it adds nothing and, depending on if_node_exists, warns, raises KeyError or does neither, and unless it raises it returns the existing node with only those of style, label and value changed that were given (not None). A Node object is only ever added under its own name, belongs to the graph afterwards, and is refused when it belongs to another graph or its name is taken.",
 ['inputs','histories'],'every name (str or int), every combination of given and omitted attributes and policies, on every graph',
 'Tests add two or three differently named nodes with one policy; the combinations of policy, omitted, falsy and given attributes are not sampled.',
 [B,N],['BasicGraph.add_node','Node.__init__','GraphWithoutDisplay.add_node'])
p('C04','An edge id stands for one edge of a graph',
 "connect with a new (start, end, id) creates one edge with that start, end and id; with one that is present it creates nothing and, depending on if_edge_exists, warns, raises ValueError or does neither, and unless it raises it returns the existing edge with only those of style, label and value changed that were given (not None). Edges between the same nodes with different ids are kept apart.",
 ['inputs','histories'],'every pair of nodes, every id including falsy ones such as 0, every combination of given and omitted attributes and policies',
 'Tests connect fresh pairs with default arguments; repeated edges with falsy ids, values or labels are not sampled.',
 [B,E,N],['BasicGraph.connect','Edge.__init__','GraphWithoutDisplay.connect'])
p('C05',"connect joins two nodes of the graph itself, in the given direction",
 "connect looks up both ends, given as names or node objects, among the nodes of the graph and makes the edge from the node found for start to the node found for end; it raises KeyError for a name that is not in the graph and TypeError for anything else, never creating a node. connect_to and connect_from do the same with the calling node as start and end respectively, and pass on every option.",
 ['inputs'],'every graph, every pair of names, node objects and other objects as ends',
 'Tests only connect existing names; foreign node objects, missing names and reversed helpers are not compared.',
 [B,N],['BasicGraph.connect','BasicGraph.get_node','Node.connect_to','Node.connect_from'])
p('C06','A refused operation changes nothing',
 "When add_node, connect, remove_node, disconnect, a value assignment or a style assignment raises because of the request (unknown or duplicate name, unsupported type, frozen object, protected style, wrong graph), the nodes, the edges and the attributes of existing nodes and edges are as they were before the call.",
 ['inputs','fault_sequences'],'every raising path of the mutating operations, for every graph and every argument',
 'Tests check at most that an exception is raised, not that the graph is the same after it, and only for a few of the paths.',
 [B,N,E,O],['BasicGraph.add_node','BasicGraph.connect','BasicGraph.remove_node','Edge.__init__'])
p('C07','Queries do not change the graph or hand out its storage',
 "Asking a graph, node or edge for anything (nodes, edges, relatives, roots, leaves, loops, text forms, styles, dictionary form, similarity) changes nothing observable, and the answer always reflects the current graph. Lists and dictionaries returned by queries are new objects, so changing them does not change the graph or later answers (nodes_dict, outward_edges_dict and inward_edges_dict are documented as live).",
 ['inputs','histories'],'every query on every graph, repeated and interleaved with modifications',
 'A test that asks once cannot see a cache that goes stale or an alias that is changed later.',
 [B,N,E,G,O])
p('C08','Neighbour queries give exactly the adjacent nodes and edges',
 "parents, children, siblings, co-parents (spouses), inward, outward and all edges of a node, and the edges of a graph, are exactly those that follow from the recorded edges: no relative is missing, invented or reversed, siblings and spouses leave out the node itself, and edges lists each edge once. The graph-level and node-level forms agree, and num_... and has_... agree with the lists.",
 ['inputs'],'every graph, parallel edges, loop edges and cycles included, and every node of it',
 'Tests check a handful of relatives on two small acyclic graphs.',
 [B,N],['BasicGraph.get_parents','BasicGraph.get_children','BasicGraph.get_siblings','BasicGraph.get_spouses','Node.siblings','Node.co_parents','Node.edges'])
p('C09','Ancestors and descendants are complete, and found on cyclic graphs too',
 "ancestors (descendants) of a node are exactly the nodes from which it can be reached (that can be reached from it) along edges, each listed once (a node on a loop is among its own ancestors; a node is not listed among its own descendants), and the computation ends on every finite graph, cycles included. With distances, every one of them is filed once, under its shortest distance.",
 ['inputs'],'every finite directed graph, with cycles, diamonds, parallel edges and loop edges, and every start node',
 'Tests cover two fixed graphs; completeness and termination on all shapes cannot be sampled.',
 [B,N],['BasicGraph._get_ancestors','BasicGraph._get_descendants','BasicGraph.get_ancestors','BasicGraph.get_descendants','BasicGraph._group_by_distance'])
p('C10','Loop queries agree with reachability',
 "A node is reported in a loop exactly when it is its own ancestor, two nodes are in the same loop exactly when each is an ancestor of the other, and an edge is in a loop exactly when its start and end are. loop_nodes lists exactly the nodes in a loop, and graph-level and node-level answers agree.",
 ['inputs'],'every graph and every node, pair of nodes and edge of it',
 'One test looks at loops of one graph.',
 [B,N,E],['BasicGraph.is_node_in_loop','BasicGraph.are_nodes_in_same_loop','BasicGraph.loop_nodes','Edge.is_in_loop'])
p('C11','Roots, absolute roots and leaves are the right nodes',
 "absolute_roots are exactly the nodes without parents and leaves exactly the nodes without children. roots contain every absolute root, every node of the graph is a root or a descendant of one, and no root is a descendant of another root.",
 ['inputs'],'every graph, cyclic components included',
 'Tests look at roots of one acyclic and one cyclic example.',
 [B],['BasicGraph.roots','BasicGraph.absolute_roots','BasicGraph.leaves'])
p('C12','filter keeps or drops exactly the requested nodes, in a new graph',
 "filter('include') returns a copy with exactly the given nodes and their ancestors (direction 'to'), descendants ('from') or both ('to_and_from'); filter('exclude') returns a copy with exactly the other nodes. The original graph is not changed.",
 ['inputs','configurations'],'every graph, every list of nodes by name or object, every direction and filter type',
 'Tests do not call filter with all directions and both types.',
 [B],['BasicGraph.filter'])
p('C13','Copies and pickles keep the whole graph, and are independent of it',
 "A copy, deep copy or unpickled graph has equal nodes, edges, labels, values, styles, tooltips, parameters, frozen marks, indexes and graph options, and its nodes and edges refer to the copied graph and to each other, not to the original. The next node index, label converters and style overwrites are kept too.",
 ['inputs','configurations'],'every graph with any options and attributes',
 'Tests copy one graph and compare part of it; each attribute that may be lost is a separate case.',
 [B,G,N,E,O,S+'NodeStyle.py',S+'EdgeStyle.py'],['BasicGraph.__getstate__','BasicGraph.__setstate__','Node.__getstate__','Node.__setstate__','Edge.__getstate__','Edge.__setstate__','GraphWithoutDisplay.update_nodes'])
p('C14','The dictionary form of a graph rebuilds the same graph',
 "A graph built from the __graph__() dictionary of another has the same nodes and edges under the same names and ids in the same order, with the same labels, values and styles, and the same strict, ordering, label (with a leading line break where it has none), label_url and tooltip options, global styles, and node and edge style and colour overwrites. The dictionary does not share the graph's own overwrite tables or the style objects of its nodes and edges.",
 ['inputs','configurations'],'every graph with any attributes and options',
 'Tests rebuild one graph and compare a few fields; a key that one side writes and the other ignores passes unnoticed.',
 [G],['GraphWithoutDisplay.__graph__','GraphWithoutDisplay.append','GraphWithoutDisplay.from_dict'])
p('C15','The sum of two graphs has the nodes and edges of both',
 "graph1 + graph2 has every node and every edge of both operands, once per name or id, in the order of the first and then the second; where both have one, the value is add_values_function(value in first, value in second), by default their sum when both are given and the given one otherwise, and label and style are the first's unless missing there. The operands are not changed.",
 ['inputs'],'every pair of graphs, overlapping in any way, values falsy or missing included',
 'Tests add one pair of graphs.',
 [G],['GraphWithoutDisplay.add','GraphWithoutDisplay.__add__'])
p('C16','User text cannot break out of its quotes in the DOT text',
 "In the DOT text, names, labels, tooltips, urls, fonts and other user-given text between double quotes (nodes, edges, styles and graph header) never end the quoted string early, and text inside the HTML label is HTML-escaped.",
 ['inputs'],'every text containing quotes, backslashes, angle brackets or newlines, in every place user text can go',
 'Tests use plain words.',
 [N,E,G,S+'NodeStyle.py',S+'EdgeStyle.py','abstract/escape_quotes.py'],['Node.get_graphviz_str','Edge.get_graphviz_str','GraphWithoutDisplay.get_graphviz_header'])
p('C17','The DOT text describes every node and edge once, and correctly',
 "get_graphviz_str has one statement per node, by name, and one per edge, from start to end, each with its display label (for edges the label, else the value), its tooltip when there is one and its style when there is one. The graph is a strict digraph exactly when the graph is strict, and ordering=out is written exactly when ordering is off.",
 ['inputs','configurations'],'every graph with any combination of labels, tooltips, styles and options',
 'Tests do not parse the DOT text.',
 [G,N,E],['GraphWithoutDisplay.get_graphviz_str','GraphWithoutDisplay.get_graphviz_header','Node.get_graphviz_str','Edge.get_graphviz_str'])
p('C18','Render options reach the rendered text and file',
 "direction, height, width and pad given to render, get_svg, get_graphviz_source or get_graphviz_str appear in the DOT text that is returned and saved, direction defaulting to the graph's own; rendering to a path writes to that path in the format its extension names, and view is passed on. Rendering always styles the graph first.",
 ['configurations','inputs'],'every combination of given and omitted options',
 'Tests render with defaults only, or not at all.',
 [G,GR],['GraphWithoutDisplay.render','GraphWithoutDisplay.get_graphviz_source','Graph.get_svg','GraphWithoutDisplay.get_graphviz_header'])
p('C19','A style that is set is not replaced unless the graph allows it',
 "Once a node or edge has a style, assigning another raises RuntimeError unless the graph was made with style_overwrite_allowed; assigning None changes nothing, a dictionary becomes a style with those settings, and any other type raises TypeError. Automatic styling only fills in missing styles and never replaces the style object of a node or edge that has one, except where the graph itself holds an explicit colour overwrite for it.",
 ['inputs','histories'],'every graph, every stylist, every order of assignments and renderings',
 'Tests assign a style at most once.',
 [N,E,G,S+'stylize_with_pensieve.py',S+'stylize_randomly.py',S+'stylize_edges_based_on_nodes.py'],['Node.style','Edge.style','GraphWithoutDisplay.stylize'])
p('C20','A frozen node or edge keeps its value',
 "While a node or edge is frozen, its value cannot be changed through assignment, add_node or connect (RuntimeError is raised and the value stays); after unfreeze it can. Only freeze and unfreeze change the frozen mark, and a new node or edge starts unfrozen.",
 ['histories'],'every sequence of freeze, unfreeze, assignments and repeated add_node / connect calls',
 'Tests do not freeze anything.',
 [O,B],['GraphObj.value','GraphObj.freeze','GraphObj.unfreeze','BasicGraph.add_node','BasicGraph.connect'])
p('C21','Styling gives every node and edge a style, on any graph, any number of times',
 "After a graph is stylised with the pensieve or random stylist, every node and every edge has a style, whatever the shape of the graph (empty, cyclic, nodes fed by loops and by other nodes, nodes styled beforehand); style and colour overwrites of nodes or edges that no longer exist are ignored. Stylising again changes nothing more and does not fail.",
 ['inputs','histories'],'every graph shape, every combination of given styles and overwrites, repeated rendering',
 'Tests render two shapes once.',
 [G,S+'stylize_with_pensieve.py',S+'stylize_randomly.py',S+'stylize_edges_based_on_nodes.py',S+'inherit_style.py',S+'is_root_or_parents_are_in_loop.py'],['GraphWithoutDisplay.stylize','stylize_with_pensieve','inherit_style'])
p('C22','The same calls give the same result in every process',
 "Node order, edge order, DOT text, colours and dictionary form depend only on the calls made and the graph's contents: not on hash randomisation, object addresses, the clock, the environment or the unseeded global random generator (Graph.random without a seed is the one exception).",
 ['configurations','histories'],'every process, hash seed and prior use of the random module',
 'A test runs in one process with a fixed hash seed.',
 [G,B,N,S+'stylize_randomly.py'],['GraphWithoutDisplay.add','stylize_randomly'])
p('C23','Graph.random makes the graph it is asked for',
 "Graph.random makes num_nodes nodes named by consecutive integers from start_index, considers every ordered pair of nodes once, connects pairs from smaller to larger only unless cycle is set (then any pair), draws against the connection probability clipped to 0..1, and with a seed makes the same graph every time. strict and ordering are passed on.",
 ['inputs','configurations'],'every num_nodes, start_index, probability, cycle and seed',
 'A random construction is sampled at most once by a test.',
 [G],['GraphWithoutDisplay.random'])
p('C24','Comparisons of nodes and edges are consistent',
 "Nodes are equal exactly when index and name are equal, nodes are ordered by index and then name, != is the negation of ==, <= and >= agree with <, > and ==, and equal nodes have equal hashes. Edges are equal exactly when their ids (start, end, own id) are; comparing with another type, or edges of different graphs, raises.",
 ['inputs'],'every pair of nodes and of edges',
 'Tests compare two or three pairs.',
 [N,O,E],['Node.__eq__','Node.__lt__','Node.__hash__','GraphObj.__eq__','GraphObj.__ne__'])
p('C25','is_similar_to always answers, and only says yes to the same structure',
 "is_similar_to returns True or False for every pair of graphs, never raising because one has nodes or edges the other lacks, and answers True only if the node names, edge ids, node and edge values, parameters and styles, strictness and ordering all agree; a graph is similar to itself.",
 ['inputs'],'every pair of graphs',
 'Tests compare a graph with its copy only.',
 [B,N,E,O],['BasicGraph.is_similar_to','Node.is_similar_to','Edge.is_similar_to','GraphObj.is_similar_to'])
p('C26','Indented text gives one node per line under the right parent',
 "parse_indentations yields one item per line, in order, with the line's index, its level, its text without indentation, and as parent the index of the nearest preceding line one level up (none at level 0); a line indented deeper than one level below its predecessor's chain or by a partial level raises ValueError. from_indented_text connects every line's node to its parent's node, or to the root.",
 ['inputs'],'every list of lines with tabs or spaces, blank lines included',
 'No test parses indented text.',
 ['abstract/parse_indentations_function.py',B],['parse_indentations','BasicGraph.from_indented_text'])
p('C27','Relatives of objects are complete within the depth limit, cycles included',
 "get_ancestors and get_descendants of an object return every object reachable through __parents__ / __children__ within max_height / max_depth steps (all of them when it is None), each once, never the object itself, in order of distance, and with distances each under its shortest one; they end on cyclic object structures.",
 ['inputs'],'every finite object structure, diamonds and cycles included, and every depth limit, 0 included',
 'Tests do not use objects with cyclic relations or depth limits.',
 ['abstract/get_ancestors.py','abstract/get_descendants.py'],['get_ancestors','get_descendants'])
p('C28','Labels shown are the label, else the name, through the label converter',
 "A node shows its label as text if it has a non-empty one and its name otherwise, an edge shows its label if it has one and its value otherwise, and if the graph has a label converter for nodes (edges) the shown label is what the converter makes of it. Changing a label changes only that label.",
 ['inputs','configurations'],'every label, value and converter',
 'Tests do not use converters or missing labels.',
 [O,N,E],['Node.label','GraphObj.display_label','GraphObj.display_label_or_value'])
p('C29','Copying or inverting a style leaves the original alone and loses nothing',
 "A copy of a node or edge style has every setting of the original (colours, which colours were derived, opacity, font, text size, shape, shape style, arrow size, label style, line width, fill direction), as do pickled styles, and changing the copy does not change the original. invert_colours returns a new style and leaves the original as it was.",
 ['inputs'],'every style with any settings',
 'Tests do not copy styles.',
 [S+'NodeStyle.py',S+'EdgeStyle.py'],['NodeStyle.copy','EdgeStyle.copy','NodeStyle.invert_colours','EdgeStyle.invert_colours'])
p('C30','Graphs built from lists or objects have exactly the given nodes and edges',
 "from_lists makes a node for every distinct start and end name and, for every row, one edge from its start to its end with the row number as id and the row's edge label. from_object makes one node for the object and for each of its relatives within the limits, and connects each parent to each child among the object and its descendants and among the object and its ancestors.",
 ['inputs'],'all lists with repeated names and rows, all object structures',
 'Tests build one graph from lists, none from cyclic objects.',
 [B],['BasicGraph.from_lists','BasicGraph.from_object'])
p('C31','The tree text ends on every graph and shows every node',
 "get_tree_str ends on cyclic graphs, shows each root and, under each node, each of its children, expanding a node's children only the first time it is met and marking it with * when met again after that; the last child of a node gets the corner sign and the others the branch sign. What is below a child is indented two places further than it, behind a vertical line while more children of the same node follow. The nodes shown are remembered across all the children of a node and all the roots of a graph, and forgotten from one text to the next.",
 ['inputs'],'every graph, cycles and diamonds included',
 'No test prints a tree with shared or cyclic nodes.',
 [N,B],['Node.get_tree_str','BasicGraph.get_tree_str'])
p('C32','Dictionary and list input is taken over completely, or refused',
 "append and the constructor take every node and every edge of a dictionary (nodes as list or with attributes, edges as pairs or with attributes), each option they support and each style or colour overwrite, an edge style or colour given for (start, end) or for a full edge id going to that edge; lists of such inputs are all taken. Edges with fewer than two or more than three parts raise ValueError, and objects without dictionary form raise TypeError.",
 ['inputs'],'every well-formed and malformed dictionary or object',
 'Tests build from one well-formed dictionary.',
 [G],['GraphWithoutDisplay.append','GraphWithoutDisplay.__init__'])
p('C33','No operation fails on its own internals',
 "No code path of the package, however rarely taken, uses a variable before it is assigned, a name, attribute, method or module that does not exist, or calls one of the package's own functions with arguments it does not accept. Error paths raise the intended error.",
 ['inputs','programs'],'every statement of every function of the package',
 'Tests execute only part of the statements.',
 ['abstract'],[])
p('C34','Pictures look right and stay within layout limits','The rendered picture (SVG or other format) produced by Graphviz places every node and edge visibly, without overlaps, in the requested size and direction.',
 ['inputs'],'every graph and size','No test looks at a picture.',[G,GR],['Graph.get_svg'])
p('C35','Derived colours are legible and distinct','Colours derived for children, edges and text contrast with their background, differ between siblings and follow the parents of a node.',
 ['inputs'],'every graph, scheme and style','Tests do not look at colours.',[S+'inherit_style.py',S+'NodeStyle.py'],['inherit_style'])
p('C36','Large and deep graphs are handled without exhausting the stack','Every query, copy and rendering works on paths of any length and takes time polynomial in the size of the graph.',
 ['inputs'],'every graph size and depth','Tests use graphs with fewer than twenty nodes.',[B,N],['BasicGraph._get_ancestors','Node.get_tree_str'])
with open('/verif/properties.jsonl','w') as f:
    for x in P: f.write(json.dumps(x)+'\n')
print(len(P))
