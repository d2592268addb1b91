prop('C01', 'The graph consistency check accepts exactly the well-formed graphs',
     'For every set of graph arrays that can be read, the graph consistency check returns success if and only if the arrays describe a well-formed graph: '
     'every arc end is a vertex of the graph, no vertex is its own neighbour or has the same neighbour twice, every arc has a reverse arc of same load, loads are not negative, '
     'the announced number of arcs is the real one, and the sums of vertex and edge loads fit in an integer. The check does not modify the graph.',
     ['inputs'], 'all readable graph arrays, compact or not, any base value, with or without loads and labels, well-formed or corrupted in any way',
     'The tests call the check on a few well-formed files and on no malformed graph; a missing or over-strict clause is invisible to them.',
     [L + 'graph_check.c', L + 'library_graph_check.c', L + 'library_graph.c'],
     [('graphCheck', L + 'graph_check.c'), ('SCOTCH_graphBuild', L + 'library_graph.c')],
     'Exhaustive for graphs of at most 3 vertices of degree 2 (39874 structures enumerated by TLC and replayed), sampled for larger graphs with random corruptions; the verdict is computed by the specification.',
     ['SCOTCH_graphBuild', 'SCOTCH_graphCheck'])

prop('C02', 'Native graph files hold exactly the graph, and load back to it',
     'Saving a graph writes a file that holds exactly its vertices, arcs, loads and labels, and loading that file gives the same graph with the requested base value, minus the loads whose removal was requested. '
     'Files that are truncated, miscounted or refer to unknown or duplicate labels are refused without damage. Changing the base value of a graph in place changes nothing else.',
     ['inputs'], 'all graphs, all requested base values and load flags, all token sequences as files',
     'The tests load a dozen fixed files and never compare the loaded graph with the file, let alone for malformed ones.',
     [L + 'graph_io.c', L + 'graph_base.c', L + 'common_integer.c', L + 'library_graph_base.c'],
     [('graphLoad', L + 'graph_io.c'), ('graphSave', L + 'graph_io.c'), ('graphBase', L + 'graph_base.c')],
     'The file grammar is an operator of the specification; files written by the library must equal it and files read must give the graph it denotes. Inputs are sampled; the round trip is proved on the model for all graphs of at most 3 vertices of degree 2.',
     ['SCOTCH_graphSave', 'SCOTCH_graphLoad', 'SCOTCH_graphBase', 'SCOTCH_graphData'])

prop('C03', 'Foreign graph formats are read and written faithfully',
     'Graphs read from Chaco, Matrix Market and Harwell-Boeing files have exactly the adjacency, loads and labels that the file denotes (matrices being symmetrised and stripped of their diagonal), graphs written in the Chaco and Matrix Market formats denote the graph that was written, '
     'and geometry files give every vertex the coordinates recorded for its label. Malformed, truncated or inconsistent files are refused without damage.',
     ['inputs'], 'all graphs, matrices and coordinate sets, and all corruptions of their files',
     'The tests convert a handful of files and only look at exit codes.',
     [L + 'graph_io_chac.c', L + 'graph_io_mmkt.c', L + 'graph_io_habo.c', L + 'graph_io_scot.c', L + 'geom.c'],
     [('graphGeomLoadChac/graphGeomSaveChac', L + 'graph_io_chac.c'), ('graphGeomLoadMmkt/SaveMmkt', L + 'graph_io_mmkt.c'),
      ('graphGeomLoadHabo', L + 'graph_io_habo.c'), ('graphGeomLoadScot/SaveScot', L + 'graph_io_scot.c')],
     'Formats are operators of the specification; sampled graphs, matrices and corruptions.',
     ['SCOTCH_graphGeomLoad*', 'SCOTCH_graphGeomSave*'])

prop('C04', 'Induced subgraphs are exactly the restriction of the graph',
     'The graph induced by a list of vertices, or by the vertices of a given part, has exactly the selected vertices in the given order, the arcs of the original graph between them and their loads, whatever the base value, array layout or execution context. The original graph is left unchanged.',
     ['inputs'], 'all graphs and all vertex lists or part arrays, including empty and full ones, and subgraphs of subgraphs',
     'Tests induce one subgraph of one file and check that the result is consistent, not that it is the right one.',
     [L + 'graph_induce.c', L + 'library_graph_induce.c'],
     [('graphInduceList', L + 'graph_induce.c'), ('graphInducePart', L + 'graph_induce.c')],
     'Induce is an operator of the specification applied to every recorded call; inputs sampled.',
     ['SCOTCH_graphInduceList', 'SCOTCH_graphInducePart'])

prop('C05', 'Coarsening merges matched vertices and preserves all loads',
     'Whenever a graph is coarsened, every fine vertex belongs to exactly one coarse vertex made of one or two fine vertices, which are neighbours (or, unless merging is forbidden, one of them is isolated), and the coarse graph is exactly the quotient: vertex loads add up and the load of a coarse arc is the sum of the loads of the fine arcs it stands for. '
     'The requested minimum size and maximum ratio are enforced through the return value. This holds whatever the number of threads and for matings computed by the library or given by the user.',
     ['inputs', 'schedules', 'configurations'], 'all graphs, thresholds, flags, thread counts and thread schedules',
     'Tests coarsen two files once per thread count and check the consistency of the result only.',
     [L + 'graph_coarsen.c', L + 'graph_match.c', L + 'graph_match_scan.c', L + 'library_graph_coarsen.c'],
     [('graphCoarsen3', L + 'graph_coarsen.c'), ('graphMatch', L + 'graph_match.c')],
     'The quotient construction is an operator of the specification applied to every recorded call; inputs and thread schedules sampled.',
     ['SCOTCH_graphCoarsen', 'SCOTCH_graphCoarsenMatch', 'SCOTCH_graphCoarsenBuild'])

prop('C06', 'Graph colouring is proper and uses every announced colour',
     'The colour array filled for a graph gives different colours to any two neighbouring vertices, and the set of colours used is exactly the interval from zero to the announced number of colours minus one. The graph is left unchanged.',
     ['inputs'], 'all graphs and all states of the random generator',
     'The test colours one file and does not look at conflicts.',
     [L + 'library_graph_color.c'], [('SCOTCH_graphColor', L + 'library_graph_color.c')],
     'Exhaustive for all graphs of at most 5 vertices (enumerated by TLC), sampled beyond.',
     ['SCOTCH_graphColor'])

prop('C14', 'Target architectures decompose consistently into their processors',
     'For every kind of target architecture, recursive bipartitioning of the whole machine splits every non-terminal domain into two disjoint domains whose sizes and weights add up to those of the father, down to every processor exactly once; the numbers, sizes, weights and '
     'distances of terminal domains are those that the definition of the architecture gives (mesh, torus, hypercube, tree-leaf, complete, weighted complete, sub-architecture), distances are symmetric and null only between a processor and itself.',
     ['inputs'], 'all architectures of any shape, including sub-architectures of sub-architectures',
     'Tests build a handful of fixed architectures and print them.',
     [L + 'arch*.c', L + 'library_arch*.c'],
     [('archDomTerm/archDomBipart/archDomDist', L + 'arch.c'), ('archMeshXDomDist', L + 'arch_mesh.c'), ('archSubArchBuild', L + 'arch_sub.c'), ('archTleafDomBipart', L + 'arch_tleaf.c')],
     'The tree of domains of an architecture is recorded in full and compared with the definition of the architecture in the specification; architectures are sampled, all small ones are covered.',
     ['SCOTCH_arch*', 'SCOTCH_archDom*'])

prop('C15', 'Architecture files and graph-described architectures are faithful',
     'A target architecture written to a file and read back is the same architecture (same processors, numbers, weights, distances and saved text), files follow the documented grammar, malformed files are refused without damage; architectures built from a graph, or from some of its vertices, have exactly these '
     'vertices as processors, with their loads as weights and, for type 1 decompositions without edge loads, the shortest path lengths of the graph as distances.',
     ['inputs'], 'all architectures, graphs, vertex lists, array layouts and corruptions of files',
     'Tests load valid files only and never compare distances.',
     [L + 'arch*.c', L + 'arch_build.c', L + 'arch_build2.c', L + 'arch_deco*.c'],
     [('archLoad/archSave', L + 'arch.c'), ('archDecoArchBuild', L + 'arch_build.c'), ('archDeco2ArchBuild', L + 'arch_build2.c')],
     'Sampled architectures and graphs; file texts compared with the grammar of the specification.',
     ['SCOTCH_archLoad', 'SCOTCH_archSave', 'SCOTCH_archBuild*', 'SCOTCH_archSub'])

prop('C07', 'Mappings and partitions are complete, in range and balanced',
     'Whatever the graph, target architecture, strategy and number of threads, partitioning and mapping calls succeed and give every vertex a processor number of the target, leave their input untouched and write only the result array; with default and built strategies the load of each processor stays within the requested imbalance of its weighted share (up to vertex granularity), cuts of grids are near the best known ones, and clusterings use disjoint domains that are split down to the requested size.',
     ['inputs', 'schedules'], 'all graphs, architectures, strategies (including user-written strategy strings) and thread counts',
     'Tests map a few meshes with default strategies and never look at the result.',
     [L + 'kgraph_map_*.c', L + 'bgraph_bipart_*.c', L + 'library_graph_map.c', L + 'mapping.c'],
     [('SCOTCH_graphMapCompute', L + 'library_graph_map.c'), ('kgraphMapSt', L + 'kgraph_map_st.c'), ('kgraphMapRb', L + 'kgraph_map_rb.c'), ('bgraphBipartSt', L + 'bgraph_bipart_st.c')],
     'Sampled graphs of up to 120 vertices (grids of up to 576) and random strategies of all documented methods; balance is bounded, not optimal.',
     ['SCOTCH_graphMap', 'SCOTCH_graphPart', 'SCOTCH_graphMapCompute', 'SCOTCH_stratGraphMapBuild', 'SCOTCH_stratGraphClusterBuild'])

prop('C08', 'Fixed vertices stay fixed, and remapping is a mapping',
     'Mapping, partitioning, remapping and repartitioning with fixed vertices put every fixed vertex on the processor asked for and every other vertex on some processor of the target, for any set of fixed vertices, old mapping (including unmapped vertices), migration costs, migration cost ratio, strategy and architecture, and leave all input arrays untouched.',
     ['inputs', 'schedules'], 'all graphs, architectures, fixed-vertex arrays, old mappings, migration costs and strategies',
     'Tests run one graph with a few fixed vertices and default strategies.',
     [L + 'kgraph_map_*.c', L + 'bgraph*.c', L + 'kgraph_band.c', L + 'library_graph_map.c'],
     [('SCOTCH_graphMapFixedCompute', L + 'library_graph_map.c'), ('SCOTCH_graphRemapCompute', L + 'library_graph_map.c'), ('kgraphMapRbVfloSplit', L + 'kgraph_map_rb.c'), ('kgraphBand', L + 'kgraph_band.c')],
     'Sampled graphs of up to 120 vertices; the quality of the migration is not judged.',
     ['SCOTCH_graphMapFixed', 'SCOTCH_graphPartFixed', 'SCOTCH_graphRemap', 'SCOTCH_graphRemapFixed', 'SCOTCH_graphRepart', 'SCOTCH_graphRepartFixed'])

prop('C09', 'Partitions with overlap separate their parts',
     'Partitioning with overlap gives every vertex one of the requested parts or the separator, no edge links two different parts, and the call succeeds for any graph, number of parts, strategy and number of threads, leaving its input untouched.',
     ['inputs', 'schedules'], 'all graphs, numbers of parts, overlap strategies and thread counts',
     'Tests run the default strategy on one mesh.',
     [L + 'wgraph*.c', L + 'vgraph_separate_*.c', L + 'library_graph_part_ovl.c'],
     [('SCOTCH_graphPartOvl', L + 'library_graph_part_ovl.c'), ('wgraphPartSt', L + 'wgraph_part_st.c'), ('wgraphPartRb2', L + 'wgraph_part_rb.c')],
     'Sampled graphs of up to 120 vertices and random strategies.',
     ['SCOTCH_graphPartOvl', 'SCOTCH_stratGraphPartOvl', 'SCOTCH_stratGraphPartOvlBuild'])

prop('C10', 'Block orderings are permutations with consistent column blocks',
     'Whatever the graph, list of vertices to order, strategy and number of threads, ordering calls succeed and give a permutation of the vertices with its inverse, column blocks that tile the index range in order, and fathers of blocks that come after them; vertices of the list come before all others, '
     'the ordering check accepts the result, results that are not asked for change nothing, and the input is left untouched.',
     ['inputs', 'schedules'], 'all graphs, lists of vertices, ordering strategies (including user-written strategy strings), wanted result arrays and thread counts',
     'Tests order a few meshes with default strategies and never look at the result.',
     [L + 'hgraph_order_*.c', L + 'hall_order_*.c', L + 'library_graph_order.c', L + 'order.c', L + 'order_check.c'],
     [('SCOTCH_graphOrderComputeList', L + 'library_graph_order.c'), ('hgraphOrderSt', L + 'hgraph_order_st.c'), ('hgraphOrderCp', L + 'hgraph_order_cp.c'), ('hgraphOrderCc', L + 'hgraph_order_cc.c'),
      ('hallOrderHxBuild', L + 'hall_order_hx.c'), ('orderRang/orderTree/orderPeri', L + 'order.c')],
     'Sampled graphs of up to 120 vertices and random strategies.',
     ['SCOTCH_graphOrder', 'SCOTCH_graphOrderList', 'SCOTCH_graphOrderCompute', 'SCOTCH_graphOrderComputeList', 'SCOTCH_graphOrderCheck', 'SCOTCH_stratGraphOrder', 'SCOTCH_stratGraphOrderBuild'])

prop('C11', 'Separator trees separate, and orderings limit fill-in',
     'In the separator tree given with a nested dissection ordering, no edge of the graph links two different branches of the tree (up to the chains of blocks into which separators may be split), so that branches can be factored independently; on grids, the fill-in of the orderings '
     'computed by default and built strategies remains of the order of n log n.',
     ['inputs', 'schedules'], 'all graphs, nested dissection strategies and thread counts; fill-in on grids of up to 14 by 14',
     'Tests never look at the tree nor at the fill-in.',
     [L + 'hgraph_order_nd.c', L + 'vgraph_separate_*.c', L + 'order.c', L + 'hgraph_induce.c', L + 'hall_order_*.c'],
     [('hgraphOrderNd', L + 'hgraph_order_nd.c'), ('vgraphSeparateSt', L + 'vgraph_separate_st.c'), ('orderTree', L + 'order.c')],
     'The assembly of blocks is proved correct on all dissections of all graphs of 4 (quick) or 5 (thorough) vertices; the implementation is sampled, on graphs of up to 160 vertices.',
     ['SCOTCH_graphOrder', 'SCOTCH_graphOrderList', 'SCOTCH_graphOrderCompute'])

prop('C16', 'Files of mappings and orderings hold exactly what was computed, and load back',
     'Saving a mapping writes one line per vertex with its label and its target, saving an ordering writes one line per vertex with its label and its rank (and its column block, or the father block, in the other two files); loading such files, whatever the order of their lines, restores the same mapping or ordering, '
     'vertices without a line being left unmapped in mappings. Truncated, inconsistent or ill-formed files are refused or ignored as documented, without writing outside of the arrays.',
     ['inputs'], 'all graphs (with or without labels, any base value), mappings and orderings, and all token sequences as files',
     'Tests never load a mapping or an ordering back, and never load a wrong one.',
     [L + 'mapping_io.c', L + 'order_io.c', L + 'library_graph_map_io.c', L + 'library_graph_order.c', L + 'library_graph_map.c'],
     [('SCOTCH_graphTabLoad', L + 'library_graph_map_io.c'), ('orderLoad/orderSave/orderSaveMap/orderSaveTree', L + 'order_io.c'), ('mapSave', L + 'mapping_io.c')],
     'File formats are operators of the specification; sampled graphs, results and corruptions.',
     ['SCOTCH_graphTabLoad', 'SCOTCH_graphTabSave', 'SCOTCH_graphMapLoad', 'SCOTCH_graphMapSave', 'SCOTCH_graphOrderLoad', 'SCOTCH_graphOrderSave', 'SCOTCH_graphOrderSaveMap', 'SCOTCH_graphOrderSaveTree'])

prop('C17', 'Reported statistics are those of the graph, mapping or partition',
     'Graph statistics, pseudo-diameters, and the statistics displayed on mappings, remappings and partitions with overlap (loads, numbers of neighbors, dilation, expansion, cut, distribution of loads by distance, part diameters, migration figures) are the values defined by the graph, the target architecture '
     'and the part arrays; displaying them changes nothing.',
     ['inputs'], 'all graphs, architectures, part arrays (with unmapped vertices), old part arrays, migration costs and execution contexts',
     'Tests print statistics and do not look at them.',
     [L + 'library_graph.c', L + 'library_graph_diam.c', L + 'graph_diam.c', L + 'library_graph_map_view.c', L + 'library_graph_part_ovl.c', L + 'fibo.c'],
     [('SCOTCH_graphStat', L + 'library_graph.c'), ('graphDiamPV', L + 'graph_diam.c'), ('graphMapView', L + 'library_graph_map_view.c')],
     'The pseudo-diameter is only required to be an eccentricity of at least about half the diameter; sampled inputs.',
     ['SCOTCH_graphStat', 'SCOTCH_graphDiamPV', 'SCOTCH_graphMapView', 'SCOTCH_graphMapViewRaw', 'SCOTCH_graphRemapView', 'SCOTCH_graphRemapViewRaw', 'SCOTCH_graphPartOvlView'])

prop('C12', 'Meshes are checked, saved, loaded and turned into graphs faithfully',
     'Building or loading a mesh accepts exactly the well-formed bipartite element/node structures and keeps them unchanged, for every base value, element-first or node-first numbering, layout, loads and labels; saving and loading back gives the same mesh; the node (and dual) graphs built from a mesh '
     'have exactly the edges defined by sharing an element (or enough nodes); sizes, statistics and geometry are those of the mesh; malformed files are refused without reading or writing outside of arrays.',
     ['inputs'], 'all meshes (with isolated elements and nodes, loads, labels, both numberings) and all token sequences given as files',
     'Tests use two meshes, without labels or loads, and never look at the results.',
     [L + 'mesh.c', L + 'mesh_check.c', L + 'mesh_io.c', L + 'mesh_graph.c', L + 'mesh_io_scot.c', L + 'library_mesh.c', L + 'library_mesh_graph.c'],
     [('meshCheck', L + 'mesh_check.c'), ('meshLoad/meshSave', L + 'mesh_io.c'), ('meshGraph/meshGraphDual', L + 'mesh_graph.c')],
     'Sampled meshes and files; Harwell-Boeing input is not covered.',
     ['SCOTCH_meshBuild', 'SCOTCH_meshCheck', 'SCOTCH_meshData', 'SCOTCH_meshSize', 'SCOTCH_meshStat', 'SCOTCH_meshLoad', 'SCOTCH_meshSave', 'SCOTCH_meshGraph', 'SCOTCH_meshGraphDual', 'SCOTCH_meshGeomLoadScot', 'SCOTCH_meshGeomSaveScot'])

prop('C13', 'Mesh orderings are block permutations of the nodes whose separators separate',
     'For every mesh and every mesh ordering strategy, the computed direct and inverse permutations are inverse bijections of the nodes, column blocks cover the range in order, the elimination tree is a forest with fathers after sons, '
     'and no element links two nodes of columns blocks of which none is an ancestor of the other (for nested dissection and block trees); the mesh is left unchanged and nothing is written outside of the arrays given.',
     ['inputs', 'schedules'], 'all meshes (isolated elements and nodes, loads, both numberings, all base values) and mesh ordering strategies, with concurrent nested dissection',
     'Tests order two meshes with one strategy and only check that the permutation is valid.',
     [L + 'hmesh_order_nd.c', L + 'hmesh_order_cp.c', L + 'hmesh_order_hx.c', L + 'hmesh_induce.c', L + 'mesh_induce_sepa.c', L + 'vmesh_separate_fm.c', L + 'vmesh_separate_ml.c', L + 'library_mesh_order.c'],
     [('hmeshOrderNd', L + 'hmesh_order_nd.c'), ('hmeshInducePart', L + 'hmesh_induce.c'), ('meshInduceSepa', L + 'mesh_induce_sepa.c'), ('hmeshOrderCp', L + 'hmesh_order_cp.c')],
     'Sampled meshes up to 90 nodes and strategies; compression within nested dissection leaves is refused by the library and not generated.',
     ['SCOTCH_meshOrder', 'SCOTCH_meshOrderInit', 'SCOTCH_meshOrderCompute', 'SCOTCH_meshOrderCheck', 'SCOTCH_stratMeshOrder', 'SCOTCH_stratMeshOrderBuild'])

prop('C22', 'Distributed graphs are accepted exactly when consistent and described faithfully',
     'For any number of processes and any distribution of the vertices (empty processes, holes in the global numbering, non-compact arrays, labels), SCOTCH_dgraphBuild followed by SCOTCH_dgraphCheck accepts exactly the consistent graphs, on all processes alike; the data read back is the graph given, on every process; '
     'ghost vertices are the remote neighbors in increasing global order and the ghost edge array points to them; halo exchanges (synchronous or not, of any datatype) bring to each process the values of exactly its ghosts; statistics are those of the global graph; grids built in a distributed way are the grids asked for.',
     ['inputs', 'schedules'], 'all distributed graphs (weights, labels, holes, base values, distributions) over any number of processes, and all single inconsistencies in the arrays of one process',
     'Tests run three graphs on 3 processes and never read the distributed data back.',
     [L + 'dgraph_build.c', L + 'dgraph_check.c', L + 'dgraph_ghst.c', L + 'dgraph_halo.c', L + 'dgraph_build_grid3d.c', L + 'library_dgraph.c', L + 'library_dgraph_stat.c'],
     [('dgraphBuild', L + 'dgraph_build.c'), ('dgraphCheck', L + 'dgraph_check.c'), ('dgraphGhst2', L + 'dgraph_ghst.c'), ('dgraphHaloSync', L + 'dgraph_halo.c')],
     'Histories of 1 to 6 (quick) or 8 processes merged into one global history checked against the global graph; sampled graphs of up to 40 vertices, natural schedules of MPI over shared memory.',
     ['SCOTCH_dgraphBuild', 'SCOTCH_dgraphCheck', 'SCOTCH_dgraphData', 'SCOTCH_dgraphSize', 'SCOTCH_dgraphGhst', 'SCOTCH_dgraphHalo', 'SCOTCH_dgraphHaloAsync', 'SCOTCH_dgraphHaloWait', 'SCOTCH_dgraphStat', 'SCOTCH_dgraphBuildGrid3D'])

prop('C23', 'Moving, inducing, saving and loading distributed graphs preserves the graph',
     'Gathering a distributed graph gives on the root (or everywhere) the centralized graph, scattering gives back its blocks; redistributing places each vertex on the process asked for, in the order of the permutation or of the global indices, with the same edges, loads and labels; induced distributed subgraphs are the induced subgraphs; '
     'saved fragments describe the same graph and load back to it with the requested base and loads; centralized files load into blocks; ill-formed or inconsistent files are refused by all processes, without deadlock and without accesses outside of the arrays.',
     ['inputs', 'schedules', 'histories'], 'all distributed graphs, roots, destination and permutation arrays, chains of operations, and all corruptions of the files of one process',
     'Tests only check return values on three graphs.',
     [L + 'dgraph_gather.c', L + 'dgraph_gather_all.c', L + 'dgraph_scatter.c', L + 'dgraph_redist.c', L + 'dgraph_induce.c', L + 'dgraph_io_load.c', L + 'dgraph_io_save.c'],
     [('dgraphRedist2', L + 'dgraph_redist.c'), ('dgraphGatherAll2', L + 'dgraph_gather_all.c'), ('dgraphInduce2', L + 'dgraph_induce.c'), ('dgraphLoadCent/dgraphLoadDist', L + 'dgraph_io_load.c')],
     'Sampled graphs, operations and corruptions, 1 to 6 (quick) or 8 processes; loading of one centralized file per process is not implemented by the library and not covered.',
     ['SCOTCH_dgraphGather', 'SCOTCH_dgraphScatter', 'SCOTCH_dgraphRedist', 'SCOTCH_dgraphInducePart', 'SCOTCH_dgraphSave', 'SCOTCH_dgraphLoad'])

prop('C24', 'Distributed growing, band extraction and coarsening obey their contracts',
     'SCOTCH_dgraphGrow colors exactly the vertices within the given distance of a seed, each with the color of a nearest seed, ghosts included; SCOTCH_dgraphBand returns the graph induced by the vertices within the given distance of the frontier, with their loads and labels and the edges that the documentation keeps; '
     'SCOTCH_dgraphCoarsen returns 1 when the thresholds are not met and otherwise a graph whose multinodes are matched pairs of adjacent (or same-process) vertices covering each fine vertex once, with summed loads and the quotient edges, below the announced bounds, folded and duplicated on the processes the documentation announces.',
     ['inputs', 'schedules', 'histories'], 'all distributed graphs, seeds, distances, thresholds, folding modes, thread counts and numbers of processes',
     'Tests call each routine once and do not look at the result.',
     [L + 'library_dgraph_grow.c', L + 'library_dgraph_band.c', L + 'dgraph_band_grow.c', L + 'dgraph_coarsen.c', L + 'dgraph_match.c', L + 'dgraph_match_scan.c', L + 'dgraph_match_sync_coll.c', L + 'dgraph_match_sync_ptop.c', L + 'dgraph_fold.c', L + 'dgraph_fold_dup.c', L + 'dgraph_fold_comm.c'],
     [('SCOTCH_dgraphGrow', L + 'library_dgraph_grow.c'), ('SCOTCH_dgraphBand', L + 'library_dgraph_band.c'), ('dgraphCoarsen', L + 'dgraph_coarsen.c'), ('dgraphFold2', L + 'dgraph_fold.c'), ('dgraphMatchSyncColl', L + 'dgraph_match_sync_coll.c')],
     'Sampled graphs on 1 to 6 (quick) or 8 processes; contents of objects on processes that do not hold the folded graph are not specified.',
     ['SCOTCH_dgraphGrow', 'SCOTCH_dgraphBand', 'SCOTCH_dgraphCoarsen', 'SCOTCH_dgraphCoarsenVertLocMax'])

prop('C25', 'Distributed mappings are complete, in range, balanced and reported faithfully',
     'Partitioning and mapping of distributed graphs succeed on every process for any graph, distribution, strategy, target, number of processes and threads, give every local vertex a processor number of the target and touch nothing but the result array; with default and built strategies loads stay within the requested imbalance (up to vertex granularity), and clusterings are split down to the requested size; '
     'SCOTCH_dgraphMapSave writes one line per vertex with its label (or global number) and its target; SCOTCH_dgraphMapStat and SCOTCH_dgraphMapView report the loads, neighbors, dilation, cut and expansion of the mapping, whichever processes ask for them.',
     ['inputs', 'schedules', 'histories'], 'all distributed graphs, targets, strategies, thread counts and numbers of processes',
     'Tests run default strategies on three graphs and do not look at the mapping.',
     [L + 'library_dgraph_map.c', L + 'library_dgraph_map_stat.c', L + 'library_dgraph_map_view.c', L + 'dmapping.c', L + 'dmapping_io.c', L + 'kdgraph_map_rb.c', L + 'kdgraph_map_rb_part.c', L + 'kdgraph_map_st.c', L + 'bdgraph_bipart_bd.c', L + 'bdgraph_bipart_df.c', L + 'bdgraph_bipart_ex.c', L + 'bdgraph_bipart_ml.c', L + 'bdgraph_bipart_sq.c', L + 'bdgraph_bipart_st.c', L + 'bdgraph_gather_all.c', L + 'bdgraph_store.c'],
     [('SCOTCH_dgraphMapCompute', L + 'library_dgraph_map.c'), ('kdgraphMapRbPart2', L + 'kdgraph_map_rb_part.c'), ('dmapTerm', L + 'dmapping.c'), ('dmapSave', L + 'dmapping_io.c'), ('SCOTCH_dgraphMapStat', L + 'library_dgraph_map_stat.c')],
     'Sampled graphs on 1 to 6 (quick) or 8 processes; targets are complete (weighted or not) and variable-sized complete graphs, the ones the parallel mapper supports; averages over weighted targets are not specified.',
     ['SCOTCH_dgraphPart', 'SCOTCH_dgraphMap', 'SCOTCH_dgraphMapInit', 'SCOTCH_dgraphMapCompute', 'SCOTCH_dgraphMapExit', 'SCOTCH_dgraphMapSave', 'SCOTCH_dgraphMapStat', 'SCOTCH_dgraphMapView', 'SCOTCH_stratDgraphMap', 'SCOTCH_stratDgraphMapBuild', 'SCOTCH_stratDgraphClusterBuild'])

prop('C26', 'Distributed orderings are permutations with consistent separator trees',
     'Ordering a distributed graph succeeds on every process for any graph, distribution, strategy, number of processes and threads, and SCOTCH_dgraphOrderPerm gives every local vertex a row such that all rows together are a permutation, also when the ordering is computed several times; before any computation the permutation is identity; '
     'the centralized ordering gathered by SCOTCH_dgraphOrderGather has the same permutation, with column blocks and a father tree that cover the rows and, for nested dissection, separate the parts of the graph; the distributed tree of SCOTCH_dgraphOrderCblkDist and TreeDist is the same on all processes, a single tree whose sizes add up and whose sibling parts share no edge; '
     'SCOTCH_dgraphOrderSave, SaveMap and SaveTree write this ordering with one line per vertex label (or number).',
     ['inputs', 'schedules', 'histories'], 'all distributed graphs, ordering strategies, thread counts, numbers of processes and root processes',
     'Tests order one graph with the default strategy and look at no permutation or tree.',
     [L + 'dorder.c', L + 'dorder_gather.c', L + 'dorder_io.c', L + 'dorder_io_tree.c', L + 'dorder_perm.c', L + 'dorder_tree_dist.c', L + 'hdgraph_gather.c', L + 'hdgraph_fold.c', L + 'hdgraph_induce.c', L + 'hdgraph_order_nd.c', L + 'hdgraph_order_si.c', L + 'hdgraph_order_sq.c', L + 'hdgraph_order_st.c', L + 'library_dgraph_order.c', L + 'library_dgraph_order_gather.c', L + 'vdgraph_separate_bd.c', L + 'vdgraph_separate_df.c', L + 'vdgraph_separate_ml.c', L + 'vdgraph_separate_sq.c', L + 'vdgraph_separate_st.c', L + 'vdgraph_gather_all.c'],
     [('SCOTCH_dgraphOrderCompute', L + 'library_dgraph_order.c'), ('dorderPerm', L + 'dorder_perm.c'), ('dorderGather', L + 'dorder_gather.c'), ('dorderTreeDist', L + 'dorder_tree_dist.c'), ('hdgraphOrderNd2', L + 'hdgraph_order_nd.c')],
     'Sampled graphs on 1 to 6 (quick) or 8 processes; saving an ordering which has not been computed is not specified; the vertex list of SCOTCH_dgraphOrderComputeList is ignored by the library (undocumented) and not generated.',
     ['SCOTCH_dgraphOrderInit', 'SCOTCH_dgraphOrderExit', 'SCOTCH_dgraphOrderCompute', 'SCOTCH_dgraphOrderPerm', 'SCOTCH_dgraphOrderGather', 'SCOTCH_dgraphCorderInit', 'SCOTCH_dgraphCorderExit', 'SCOTCH_dgraphOrderSave', 'SCOTCH_dgraphOrderSaveMap', 'SCOTCH_dgraphOrderSaveTree', 'SCOTCH_dgraphOrderCblkDist', 'SCOTCH_dgraphOrderTreeDist', 'SCOTCH_stratDgraphOrder', 'SCOTCH_stratDgraphOrderBuild'])


prop('C18', 'Strategy strings mean what the grammar says, and are saved faithfully',
     'For every string, the routines that fill a strategy accept it if and only if it belongs to the documented grammar of its kind of strategy (methods, parameters and their types, sequences, selections, groups, conditions), and reject anything else with an error and no other effect; '
     'the text written by SCOTCH_stratSave, for strings given by users as for strategies built by the library, is an accepted string with the same meaning: same structure, same conditions, every given parameter with its value and the others with one default value per method; '
     'conditions select the branch that their value on the current graph designates, with the documented precedence and the documented graph variables.',
     ['inputs', 'histories'], 'all character strings, for all kinds of strategies',
     'Tests use a handful of valid strings and never read back what is saved.',
     [L + 'parser.c', L + 'parser_yy.y', L + 'parser_ll.l', L + 'library_strat.c', L + 'library_graph_map.c', L + 'library_graph_order.c', L + 'library_mesh_order.c', L + 'library_dgraph_map.c', L + 'library_dgraph_order.c', L + 'hgraph_order_st.c', L + 'kgraph_map_st.c', L + 'bgraph_bipart_st.c', L + 'vgraph_separate_st.c', L + 'bdgraph_bipart_st.c', L + 'hdgraph_order_st.c', L + 'vdgraph_separate_st.c', L + 'wgraph_part_st.c'],
     [('stratParserParse', L + 'parser_yy.y'), ('stratSave', L + 'parser.c'), ('stratTestEval', L + 'parser.c'), ('stratTestSave', L + 'parser.c'), ('SCOTCH_stratSave', L + 'library_strat.c')],
     'Strings of up to 300 characters, random derivations of the grammar and random mutations of them; numbers are within the range of integers and of 15 digits; arithmetic in conditions is checked on values that are exact in quarters; method tables are those of the user guides plus undocumented methods of the code.',
     ['SCOTCH_stratInit', 'SCOTCH_stratExit', 'SCOTCH_stratSave', 'SCOTCH_stratGraphMap', 'SCOTCH_stratGraphOrder', 'SCOTCH_stratGraphPartOvl', 'SCOTCH_stratMeshOrder', 'SCOTCH_stratDgraphMap', 'SCOTCH_stratDgraphOrder'])


prop('C20', 'Thread contexts run every task on all threads, under every schedule',
     'In any interleaving of the threads, a context with N threads runs each launched task exactly once on each of its N threads with distinct numbers, and returns only when all are done; a barrier lets no thread pass before all have reached it and tells exactly one of them that it was last; '
     'reductions combine the values of all threads exactly once, at the requested root, and scans give each thread the combination of the values of the threads before it and of its own; no schedule deadlocks, misuses a lock or loses a wake-up; '
     'a context can be launched any number of times, split into two contexts that share its threads, rebuilt with imported threads, and ended, after which no thread of it remains.',
     ['schedules', 'histories'], 'all interleavings of the threads of contexts of up to 7 threads, all sequences of launches, barriers, reductions, scans, splits and imports',
     'Tests run one reduction and one scan under the schedules that the operating system happens to give.',
     [L + 'common_thread.c', L + 'common_thread_system.c', L + 'common_context.c', L + 'context.c', L + 'library_context.c'],
     [('threadContextBarrier', L + 'common_thread.c'), ('threadLaunch', L + 'common_thread.c'), ('threadReduce', L + 'common_thread.c'), ('threadScan', L + 'common_thread.c'), ('threadContextImport1', L + 'common_thread.c'), ('contextThreadLaunchSplit', L + 'common_context.c')],
     'The algorithm (barrier, launch, end) is checked exhaustively on the model for up to 4 threads; the real code is run under a controlled scheduler with random schedules of varied granularity, spurious wake-ups included, and every recorded history is validated. Memory is sequentially consistent at the level of instrumented accesses.',
     ['SCOTCH_contextThreadSpawn', 'SCOTCH_contextThreadImport1', 'SCOTCH_contextThreadImport2', 'SCOTCH_contextInit', 'SCOTCH_contextExit'])

prop('C19', 'Results are reproducible from the state of the random generator',
     'Resetting a generator, seeding it again, or loading its saved state brings it back to the same position, from which the same calls give exactly the same values and results, in the same process or in another one; this holds for the global generator and for the generators that contexts clone from it, which evolve independently; '
     'random values are within the requested range, and different seeds or instance numbers give different sequences; malformed saved states are refused; '
     'in contexts set to be deterministic, results do not depend on the number of threads nor on their schedule; context options keep the value they are given, by number or by string, a deterministic behaviour implying a fixed seed, and invalid ones are refused.',
     ['histories', 'schedules', 'inputs'], 'all histories of generator and context calls, all graphs and strategies, thread counts and schedules',
     'Tests compare one sequence of random values; no test compares the results of two runs of an algorithm.',
     [L + 'common_integer.c', L + 'library_random.c', L + 'common_context.c', L + 'common_values.c', L + 'context.c', L + 'library_context.c', L + 'graph_match.c', L + 'graph_match_scan.c', L + 'kgraph_map_rb_part.c', L + 'wgraph_part_rb.c', L + 'hgraph_order_nd.c'],
     [('intRandReset', L + 'common_integer.c'), ('intRandLoad', L + 'common_integer.c'), ('contextRandomClone', L + 'common_context.c'), ('contextThreadLaunchSplit', L + 'common_context.c'), ('SCOTCH_contextOptionSetNum', L + 'library_context.c'), ('SCOTCH_contextOptionParse', L + 'library_context.c'), ('graphMatchInit', L + 'graph_match.c')],
     'Sampled histories, graphs, strategies and controlled schedules, up to 5 threads; results of different processes are compared through the specification; the values themselves are not specified, only that they are a function of the history of the generator.',
     ['SCOTCH_randomReset', 'SCOTCH_randomSeed', 'SCOTCH_randomProc', 'SCOTCH_randomVal', 'SCOTCH_randomSave', 'SCOTCH_randomLoad', 'SCOTCH_contextInit', 'SCOTCH_contextRandomClone', 'SCOTCH_contextRandomReset', 'SCOTCH_contextRandomSeed', 'SCOTCH_contextOptionSetNum', 'SCOTCH_contextOptionGetNum', 'SCOTCH_contextOptionParse', 'SCOTCH_graphPart', 'SCOTCH_graphMap', 'SCOTCH_graphOrder', 'SCOTCH_graphPartOvl', 'SCOTCH_graphColor', 'SCOTCH_graphCoarsenMatch'])

prop('C21', 'Multi-threaded algorithms are correct under every thread schedule',
     'Coarsening, colouring, partitioning, static mapping with or without fixed vertices, partitioning with overlap and ordering keep all their guarantees - valid mates and exact quotient graph, every vertex in a legal part, fixed vertices in place, separators that separate, permutations with consistent trees, input data left untouched - '
     'when they run in a context of several threads, whatever the interleaving of these threads: no schedule makes them fail, crash, deadlock or give a result that the sequential algorithm could not give.',
     ['schedules', 'inputs'], 'all interleavings of the threads of contexts of up to 5 threads, all graphs and strategies',
     'Tests run the multi-threaded algorithms on a few graphs under the schedules that the operating system happens to give, which seldom preempt a thread between two accesses.',
     [L + 'graph_match.c', L + 'graph_match_scan.c', L + 'graph_coarsen.c', L + 'graph_coarsen_edge.c', L + 'bgraph_bipart_df.c', L + 'kgraph_map_df.c', L + 'kgraph_map_rb_part.c', L + 'hgraph_order_nd.c', L + 'wgraph_part_rb.c', L + 'order.c', L + 'graph_induce.c', L + 'common_context.c', L + 'common_thread.c'],
     [('graphMatchThrBeg*', L + 'graph_match_scan.c'), ('graphMatch', L + 'graph_match.c'), ('graphCoarsen2', L + 'graph_coarsen.c'), ('kgraphMapRbPart3', L + 'kgraph_map_rb_part.c'), ('bgraphBipartDfLoop', L + 'bgraph_bipart_df.c'), ('wgraphPartRb2', L + 'wgraph_part_rb.c')],
     'Random controlled schedules that preempt threads at memory accesses of the library, with random granularity; contracts are those of C05 to C11. Memory is sequentially consistent at the level of instrumented accesses.',
     ['SCOTCH_graphCoarsen', 'SCOTCH_graphCoarsenMatch', 'SCOTCH_graphColor', 'SCOTCH_graphPart', 'SCOTCH_graphMap', 'SCOTCH_graphMapFixed', 'SCOTCH_graphPartOvl', 'SCOTCH_graphOrder'])

prop('C27', 'Deterministic distributed computations do not depend on timing',
     'In a context set to be deterministic, partitioning, ordering and coarsening a distributed graph give, on every process, the same results whenever they are called at the same position of the generator on the same distributed graph with the same number of processes: whatever the order in which messages arrive, the delays of the processes, the number of threads of the context and the schedule of these threads.',
     ['schedules', 'histories', 'inputs'], 'all message orders and delays, thread counts and schedules, all distributed graphs and strategies, several calls in a row',
     'Tests never compare two runs, and message orders on one machine hardly vary.',
     [L + 'dgraph_match_sync_ptop.c', L + 'dgraph_match.c', L + 'dgraph_match_scan.c', L + 'dgraph_band_grow.c', L + 'dgraph_coarsen.c', L + 'dgraph_fold.c', L + 'dgraph_fold_dup.c', L + 'graph_match.c', L + 'common_context.c', L + 'context.c', L + 'kdgraph_map_rb_part.c', L + 'hdgraph_order_nd.c'],
     [('dgraphMatchSyncPtop', L + 'dgraph_match_sync_ptop.c'), ('dgraphFoldDup', L + 'dgraph_fold_dup.c'), ('dgraphCoarsenBuildThr', L + 'dgraph_coarsen.c'), ('contextThreadLaunchSplit', L + 'common_context.c')],
     'Sampled graphs, strategies and message orders on 2 to 6 (quick) or 8 processes; completed messages are handed over in a random order by a stand-in for MPI_Waitany and processes are delayed at random at MPI calls; coarse graphs are compared by contents, not by layout of their arrays.',
     ['SCOTCH_contextBindDgraph', 'SCOTCH_contextOptionSetNum', 'SCOTCH_dgraphPart', 'SCOTCH_dgraphOrderCompute', 'SCOTCH_dgraphOrderPerm', 'SCOTCH_dgraphCoarsen'])
