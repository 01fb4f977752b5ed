"""Property texts: single source of properties.jsonl and MANIFEST.json (python3 tool/mkmanifest.py)."""
P = []
def prop(id, title, statement, over, quant, why, files, mech, observe):
    P.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': quant}, why_tests_cant=why,
                  anchors={'files': ['src/' + f for f in files], 'mechanism': [{'name': n, 'where': 'src/' + w} for n, w in mech], 'observe_at': observe, 'hook_needed': None}))
I = ['inputs']
LS = 'libscotch/'
prop('C01', 'Graph consistency check accepts exactly the well-formed graphs',
 'Checking a graph reports success if and only if the data describe a well-formed graph: vertex ranges lie within bounds and are ordered, every neighbour index is a valid vertex, there are no self-loops or duplicated arcs, every arc has its reverse arc with the same load, loads are valid, and the recorded vertex, edge, degree and load totals are those of the arrays. The check never modifies the graph.',
 I, 'all graph arrays within the documented index ranges, any base value, compact or not, with or without loads', 'the tests check a handful of correct sample graphs and no damaged ones',
 [LS+'graph_check.c', LS+'library_graph_check.c'], [('graphCheck', LS+'graph_check.c')], ['return value of SCOTCH_graphCheck'])
prop('C02', 'Rebasing a graph changes only the numbering base',
 'Changing the base value of a graph shifts every vertex range bound and every neighbour index by the difference between the two bases and changes nothing else: loads, labels, adjacency order and unused array slots keep their values. The previous base value is returned, and rebasing back restores the original arrays exactly.',
 I, 'all well-formed graphs (compact or not, with or without optional arrays) and all pairs of base values', 'tests rebase one sample graph from 0 to 1',
 [LS+'graph_base.c', LS+'library_graph_base.c', LS+'library_graph.c'], [('graphBase', LS+'graph_base.c')], ['SCOTCH_graphBase, SCOTCH_graphData'])
prop('C03', 'Induced subgraphs contain exactly the selected vertices and their edges',
 'Inducing a subgraph on a vertex list or on one part of a partition yields a well-formed graph whose vertices are exactly the selected ones, in the given order (increasing order for a part), each recording its original number and keeping its load. Two vertices are linked in the subgraph exactly when they were linked in the original graph, with the same edge load and in the same adjacency order, and all counts and totals match.',
 I, 'all well-formed graphs, all duplicate-free lists and all two-way or multi-way part arrays', 'tests induce a few fixed lists on one sample graph and compare nothing',
 [LS+'graph_induce.c', LS+'library_graph_induce.c'], [('graphInduceList', LS+'graph_induce.c'), ('graphInducePart', LS+'graph_induce.c')], ['SCOTCH_graphInduceList, SCOTCH_graphInducePart'])
prop('C04', 'Graph colouring is proper and uses a contiguous range of colours',
 'Colouring a graph gives every vertex a colour between zero and the returned number of colours minus one, uses every colour of that range, and never gives the same colour to two neighbouring vertices.',
 I+['histories'], 'all well-formed graphs, any base, any pseudo-random generator state', 'the test colours two sample graphs and checks nothing about neighbours',
 [LS+'library_graph_color.c'], [('SCOTCH_graphColor', LS+'library_graph_color.c')], ['SCOTCH_graphColor'])
prop('C05', 'Orderings are permutations with a consistent block elimination tree',
 'Ordering a graph with any strategy returns a direct and an inverse permutation that are inverse of each other over the based vertex range (over the listed vertices first, when a list is given), together with column blocks that exactly tile the ordering, each non-empty, whose father block always comes later in the ordering or is marked as a root. Checking an ordering accepts exactly the valid orderings.',
 I+['configurations'], 'all well-formed graphs, all ordering strategies, all base values', 'tests order a few sample graphs with few strategies',
 [LS+'order.c', LS+'order_check.c', LS+'library_graph_order.c', LS+'hgraph_order_nd.c', LS+'hgraph_order_cp.c', LS+'hgraph_order_cc.c', LS+'hgraph_order_gp.c', LS+'hgraph_order_hd.c', LS+'hgraph_order_hf.c', LS+'hgraph_order_kp.c', LS+'hgraph_order_si.c', LS+'hgraph_order_bl.c', LS+'hall_order_hx.c', LS+'hgraph_induce.c'],
 [('orderPeri', LS+'order.c'), ('orderRang', LS+'order.c'), ('orderTree', LS+'order.c'), ('orderCheck', LS+'order_check.c')], ['SCOTCH_graphOrder*, SCOTCH_graphOrderCheck'])
AR = 'Every target architecture of this family describes a fixed set of processors: repeatedly bipartitioning the whole domain splits each domain into two disjoint non-empty halves down to single processors, each processor number appearing exactly once, and domain size, weight, number and inclusion always agree with the set of processors the domain contains. '
prop('C06', 'Complete-graph targets: domains, weights and distances are consistent',
 AR + 'Distinct processors are at distance one, weights are those given when building the architecture, and architectures and domains survive being written to and read from a file; in the variable-sized variant the same holds for every domain reachable by bipartitioning.',
 I, 'all sizes and processor weights, all reachable domains and pairs of domains', 'tests build one or two small targets and query a few domains',
 [LS+'arch_cmplt.c', LS+'arch_cmpltw.c', LS+'arch_vcmplt.c', LS+'arch.c', LS+'library_arch.c'], [('archCmplt*', LS+'arch_cmplt.c'), ('archCmpltw*', LS+'arch_cmpltw.c'), ('archVcmplt*', LS+'arch_vcmplt.c')], ['SCOTCH_archCmplt, SCOTCH_archCmpltw, SCOTCH_archVcmplt, SCOTCH_archDom*'])
prop('C07', 'Mesh and torus targets: domains partition the grid, distances are exact',
 AR + 'The distance between two processors is the Manhattan distance of their coordinates, taken around the ring in every dimension of a torus and never around it in a mesh, and architectures and domains survive being written to and read from a file.',
 I, 'all dimension counts up to the maximum, all dimension sizes, all reachable domains and pairs of domains', 'tests build one small target per kind and query a few domains',
 [LS+'arch_mesh.c', LS+'arch_torus.c', LS+'arch.c', LS+'library_arch.c'], [('archMesh2Dom*, archMesh3Dom*, archMeshXDom*', LS+'arch_mesh.c'), ('archTorus*DomDist', LS+'arch_torus.c')], ['SCOTCH_archMesh2/3/X, SCOTCH_archTorus2/3/X, SCOTCH_archDom*'])
prop('C08', 'Hypercube targets: domains are sub-cubes, distances are Hamming distances',
 AR + 'The distance between two processors is the number of bits in which their numbers differ, and architectures and domains survive being written to and read from a file; in the variable-sized variant the same holds for every domain reachable by bipartitioning.',
 I, 'all dimensions, all reachable domains and pairs of domains', 'tests build one small cube and query a few domains',
 [LS+'arch_hcub.c', LS+'arch_vhcub.c', LS+'arch.c', LS+'library_arch.c'], [('archHcubDom*', LS+'arch_hcub.c'), ('archVhcubDom*', LS+'arch_vhcub.c')], ['SCOTCH_archHcub, SCOTCH_archVhcub, SCOTCH_archDom*'])
prop('C09', 'Tree-leaf targets: domains follow the tree, distances follow the link costs',
 AR + 'The distance between two processors is the sum of the link costs of the levels up to their lowest common ancestor, processor labels follow the label permutation of labelled trees, and architectures and domains survive being written to and read from a file.',
 I, 'all level counts, arities, link costs and label permutations, all reachable domains and pairs of domains', 'tests build one small tree and query a few domains',
 [LS+'arch_tleaf.c', LS+'arch.c', LS+'library_arch.c'], [('archTleafDom*, archLtleafDom*', LS+'arch_tleaf.c')], ['SCOTCH_archTleaf, SCOTCH_archLtleaf, SCOTCH_archDom*'])
prop('C10', 'Mappings and partitions place every vertex validly',
 'Mapping or partitioning a graph with any strategy gives every vertex a number in the range of the processors or parts of the target; fixed vertices keep the place they were given; the graph and any old mapping passed for remapping are not modified; in a partition with overlap, two neighbouring vertices either lie in the same part or one of them belongs to the separator. With a single thread, the same calls made from the same generator state give the same result.',
 I+['configurations', 'histories'], 'all well-formed graphs, target architectures, strategies, fixed-vertex and old-mapping arrays, and generator states', 'tests map a few sample graphs with few strategies and check little beyond the return code',
 [LS+'library_graph_map.c', LS+'library_graph_part_ovl.c', LS+'mapping.c', LS+'kgraph.c', LS+'kgraph_map_rb_map.c', LS+'kgraph_map_rb_part.c', LS+'kgraph_map_rb.c', LS+'kgraph_map_bd.c', LS+'kgraph_map_cp.c', LS+'kgraph_map_df.c', LS+'kgraph_map_ex.c', LS+'kgraph_map_fm.c', LS+'kgraph_map_ml.c', LS+'kgraph_store.c', LS+'kgraph_band.c', LS+'bgraph.c', LS+'bgraph_bipart_gp.c', LS+'bgraph_bipart_fm.c', LS+'wgraph.c', LS+'wgraph_part_rb.c', LS+'wgraph_part_es.c', LS+'wgraph_part_fm.c'],
 [('graphMapCompute2', LS+'library_graph_map.c'), ('mapTerm', LS+'mapping.c'), ('kgraphMapRbVfloSplit', LS+'kgraph_map_rb.c'), ('wgraphPartRb3One', LS+'wgraph_part_rb.c')], ['SCOTCH_graphMap, SCOTCH_graphMapFixed, SCOTCH_graphRemap*, SCOTCH_graphPart*, SCOTCH_graphPartOvl'])
prop('C12', 'A built graph reports back exactly the data and statistics of its arrays',
 'Building a graph from user arrays, with any combination of omitted optional arrays, keeps every number and array as given, and computes the vertex load sum, edge load sum and maximum degree of the arrays, which it does not modify. Queries return exactly that data: sizes, base, array addresses (null for the arrays not given), smallest, largest and total loads and degrees, averages and deviations, through a plain graph or a graph bound to a context, and touch only the outputs asked for. The pseudo-diameter is the longest weighted distance from some vertex, at least half of the diameter when vertices have no loads, and the largest number exactly when the graph is not connected.',
 I, 'all well-formed graphs, any base, compact or not, any subset of optional arrays and of requested outputs', 'no test checks the statistics or sums of a graph',
 [LS+'library_graph.c', LS+'graph.c', LS+'graph_diam.c', LS+'library_graph_diam.c', LS+'fibo.c'], [('SCOTCH_graphBuild', LS+'library_graph.c'), ('SCOTCH_graphData', LS+'library_graph.c'), ('SCOTCH_graphStat', LS+'library_graph.c'), ('graphDiamPV', LS+'graph_diam.c')], ['SCOTCH_graphBuild, SCOTCH_graphSize, SCOTCH_graphData, SCOTCH_graphStat, SCOTCH_graphDiamPV'])
prop('C13', 'Saved graphs, mappings and orderings load back as the same data',
 'Writing a graph to a stream and reading it back, with any base value requested at load time, gives the same graph: the same vertices, labels, loads and arcs in the same order, with vertex numbers moved to the requested base, and the load sums and maximum degree of that data. Loading with the flags that drop vertex or edge loads drops exactly those. A file whose header, labels, degrees, arc ends or counts are inconsistent, or that ends early, is refused with an error and no access outside the arrays. Partitions written for a graph, labelled or not, are read back unchanged for every vertex, and orderings come back as the same permutation. Chaco, Matrix Market and geometry files keep the structure, loads and coordinates that their format can hold.',
 I, 'all well-formed graphs, any base at save and at load, any subset of labels and loads; all partitions and permutations; all texts for the refusal clause', 'tests load a few sample files and never compare what was written with what is read',
 [LS+'graph_io.c', LS+'common_integer.c', LS+'library_graph_map_io.c', LS+'mapping_io.c', LS+'order_io.c', LS+'graph_io_chac.c', LS+'graph_io_mmkt.c', LS+'graph_io_scot.c'],
 [('graphSave', LS+'graph_io.c'), ('graphLoad', LS+'graph_io.c'), ('graphLoad2', LS+'graph_io.c'), ('intLoad', LS+'common_integer.c'), ('SCOTCH_graphTabLoad', LS+'library_graph_map_io.c'), ('orderLoad', LS+'order_io.c')],
 ['SCOTCH_graphSave/Load, SCOTCH_graphTabSave/Load, SCOTCH_graphMapSave, SCOTCH_graphOrderSave/Load, SCOTCH_graphGeomSave/Load*'])
prop('C14', 'Meshes: consistency check, conversion to graphs, rebasing and files are exact',
 'Building a mesh from arrays and reading it back gives the same element and node ranges, arrays, load sums, maximum degree and statistics; ranges that are not disjoint and consecutive are refused. Checking a mesh reports success if and only if elements and nodes refer only to each other, every arc has exactly one reverse arc, degrees, load sums and the number of isolated elements are exact and loads positive. Turning a mesh into a graph gives a well-formed graph: the node graph joins two nodes exactly when they belong to a common element and keeps node loads; the dual graph joins two elements exactly when they share enough common nodes (the requested number, or all but one of the nodes of one of them, whichever is smallest) and keeps element loads. Rebasing a mesh changes only the numbering. Saving a mesh and loading it with any base gives the same mesh, with the loads that were saved; files with negative or inconsistent counts, cut files and foreign files are refused, a failed write is reported, and node coordinates and elemental matrix files are read with the numbers they give.',
 I, 'all well-formed meshes (elements first or nodes first, compact or not, with or without loads), any base, any number of common nodes; all texts for the refusal clause', 'tests convert two sample meshes and never compare the graph with the mesh',
 [LS+'library_mesh.c', LS+'library_mesh_graph.c', LS+'mesh_check.c', LS+'mesh_graph.c', LS+'mesh_io.c', LS+'mesh_io_scot.c', LS+'mesh_io_habo.c', LS+'mesh.c'],
 [('meshCheck', LS+'mesh_check.c'), ('meshGraph', LS+'mesh_graph.c'), ('meshGraphDual', LS+'mesh_graph.c'), ('meshLoad', LS+'mesh_io.c'), ('meshSave', LS+'mesh_io.c'), ('SCOTCH_meshBuild', LS+'library_mesh.c'), ('meshBase', LS+'mesh.c')],
 ['SCOTCH_meshBuild/Size/Data/Stat/Check, SCOTCH_meshGraph, SCOTCH_meshGraphDual, SCOTCH_meshLoad/Save, SCOTCH_meshGeomLoad*', 'internal: meshBase'])
prop('C16', 'Random generators, contexts and sorts give reproducible and exact results',
 'Seeding the random generator gives the same sequence of values every time, resetting restarts it, every value is below the given bound, and a saved state that is loaded back continues the same sequence with the same seed and process number, while truncated or foreign states are refused. A context that cloned the generator starts from its current state and from then on neither disturbs nor depends on it, while contexts that did not clone share it. Setting a context option changes that option only, except that asking for deterministic behaviour also fixes the seed, for values set by number or parsed from a string; unknown options are refused; contexts never affect one another or the default values. Sorting returns the given tuples in order, random permutation and the initial ascending fill return exactly the expected multiset, and nothing outside the table is written.',
 I, 'all seeds, bounds and states; all options and values; all tables, including equal and extreme keys', 'tests only print a few random values and sort nothing but one random table',
 [LS+'common_integer.c', LS+'common_sort.c', LS+'common_psort.c', LS+'common_values.c', LS+'common_context.c', LS+'library_context.c', LS+'library_random.c'],
 [('intRandVal', LS+'common_integer.c'), ('intPerm', LS+'common_integer.c'), ('contextValuesSetInt', LS+'common_values.c'), ('SCOTCH_contextOptionSetNum', LS+'library_context.c'), ('contextRandomClone', LS+'common_context.c')], ['SCOTCH_random*, SCOTCH_contextRandom*, SCOTCH_contextOption*', 'internal: intSort*, intPerm, intAscn'])
