# The property table: properties.jsonl and MANIFEST.json are generated from it (gen.py).
PROPS = []
def P(id, title, statement, over, text, why, files, mech, note, na=None, observe=()):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier={'over': over, 'text': text}, why_tests_cant=why,
                      anchors={'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': list(observe), 'hook_needed': None}, note=note, na=na))

P('C01', 'compute_partition returns a valid, balanced partition and its exact edge cut',
  'For every graph, preset, k >= 2, imbalance parameter and coarsening depth, compute_partition terminates, assigns every node a block in [0, k), returns exactly the edge cut of that assignment in the original graph, leaves copied input arrays untouched, and never accesses memory out of bounds; for unit node weights (where the limits are feasible) every block respects its weight limit, for every preset that ends with a balancer.',
  ['inputs', 'configurations'], 'all small graphs, node and edge weights, presets, numbers of blocks, coarsening depths',
  'The end-to-end tests partition a handful of graphs with the default preset; the guarantee is over all graphs and configurations, and the degenerate ones (empty, disconnected, fewer nodes than blocks, infeasible limits) are where it breaks.',
  ['kaminpar-shm/kaminpar.cc', 'kaminpar-shm/partitioning/deep/deep_multilevel.cc', 'kaminpar-shm/partitioning/deep/vcycle_deep_multilevel.cc', 'kaminpar-shm/partitioning/partition_utils.cc', 'kaminpar-shm/partitioning/helper.cc', 'kaminpar-shm/refinement/balancer/greedy_balancer.cc', 'kaminpar-shm/presets.cc'],
  [('KaMinPar::compute_partition', 'kaminpar-shm/kaminpar.cc'), ('extend_partition, uncoarsening loop', 'kaminpar-shm/partitioning/deep/deep_multilevel.cc'), ('GreedyBalancer', 'kaminpar-shm/refinement/balancer/greedy_balancer.cc')],
  'All graphs with up to 4 nodes (structure), symbolic node and edge weights on 2-3 nodes; one fixed random sequence; the model of oneTBB runs the pieces sequentially.')
P('C05', 'Variable-length integer codecs are lossless and announce their exact length',
  'For every 32- and 64-bit value, signed or unsigned, with or without a marker bit, encoding with any of the variable-length encoders and decoding with any of the matching decoders returns the same value (and marker). The encoder writes, and the decoder consumes, exactly the number of bytes that the length function announces, which never exceeds the announced maximum; nothing outside these bytes is read or written.',
  ['inputs'], 'all values of the 32/64-bit types, both marker values, pairs of consecutive encodings in one buffer',
  'The unit test tries random and power-of-two values; the quantifier is over all 2^32 / 2^64 values and every byte-length boundary, with exact-size buffers.',
  ['kaminpar-common/graph_compression/varint.h'], [('varint encoders, decoders and length functions', 'kaminpar-common/graph_compression/varint.h')],
  'Complete over all values of the 32- and 64-bit types for the portable encoders and decoders.')
P('C07', 'Contraction yields exactly the quotient graph of the clustering',
  'For every graph, every clustering of its nodes and every contraction algorithm, the coarse graph has one node per non-empty cluster whose weight is the sum of its members, and exactly one edge (per direction) between every two adjacent clusters, whose weight is the sum of the fine edges between them; there are no self-loops, and its totals, degrees and maxima match. Projecting a coarse partition up gives every fine node the block of its cluster, and projecting down inverts this; reusing the contraction memory for another contraction changes nothing.',
  ['inputs', 'configurations'], 'all graphs, node and edge weights, clusterings with arbitrary labels, contraction algorithms, task splits, compressed and uncompressed inputs',
  'The tests contract a handful of tiny unit-weight graphs with the buffered algorithm; they never reach the overflow/flush and second-phase code and cannot range over weights and clusterings.',
  ['kaminpar-shm/coarsening/contraction/cluster_contraction.cc', 'kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc', 'kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc', 'kaminpar-shm/coarsening/contraction/cluster_contraction_preprocessing.cc'],
  [('contract_clustering', 'kaminpar-shm/coarsening/contraction/cluster_contraction.cc'), ('NeighborhoodsBuffer and two-phase aggregation', 'kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc')],
  'All graphs with 3 nodes and all clusterings (4-5 nodes: selected structures), symbolic weights, all algorithms; buffer capacities are scaled down so that flush and second-phase code runs.')
P('C17', 'Partitions, block weights and quality metrics always agree',
  'Whatever sequence of (successful or refused) node moves is applied to a partitioned graph or to a delta overlay on top of it, each block weight equals the sum of the weights of the nodes in that block, and a capacity-checked move succeeds exactly if the target stays within the limit and otherwise changes nothing. An overlay never alters the base partition and vanishes when cleared. Edge cut, overload and balance metrics equal their definitions for every partition.',
  ['inputs', 'histories'], 'all small graphs, weights up to 10^6, partitions, limits and move sequences',
  'The tests evaluate a few fixed partitions; the claim is over every partition, weight and operation history.',
  ['kaminpar-shm/datastructures/partitioned_graph.h', 'kaminpar-shm/datastructures/delta_partitioned_graph.h', 'kaminpar-shm/metrics.h'],
  [('set_block / move', 'kaminpar-shm/datastructures/partitioned_graph.h'), ('delta set_block / clear', 'kaminpar-shm/datastructures/delta_partitioned_graph.h'), ('edge_cut, total_overload, is_balanced', 'kaminpar-shm/metrics.h')],
  'Graphs with up to 3-4 nodes, 2-3 blocks, operation sequences of length 3-5, symbolic weights and limits.')
P('C02', 'Block weight limits match the requested imbalance and always stay feasible',
  'For every graph, number of blocks, imbalance parameter or explicit list of limits, the limits that the partition context hands out are the requested ones (the average block weight, rounded up, times 1 + epsilon, rounded), never below the perfectly balanced weight, and their totals over any block range are the sums of the single limits; relaxing a limit adds at most the heaviest node weight. The contexts derived for intermediate block counts and for bipartitions give each block the sum of the limits of the final blocks it stands for (on coarse levels: plus at most the heaviest node), so that a feasible partition always exists.',
  ['inputs', 'configurations'], 'node weights, numbers of blocks, imbalance parameters, explicit limits, relaxation, tree levels',
  'The arithmetic mixes rounding, floating point and integer division; single examples do not show that no weight/k/epsilon combination rounds the wrong way.',
  ['kaminpar-shm/kaminpar.cc', 'kaminpar-shm/partitioning/helper.cc'], [('PartitionContext::setup', 'kaminpar-shm/kaminpar.cc'), ('create_kway_context, create_twoway_context', 'kaminpar-shm/partitioning/helper.cc')],
  'Two-node graphs (limits depend only on totals and the maximum), symbolic weights up to a few dozen, listed imbalance parameters.')
P('C03', 'Intermediate blocks split into exactly the requested k final blocks',
  'For every k, the recursion tree of block numbers is consistent: at every level the numbers of final blocks of the blocks sum to k, differ by at most one, their ranges of final blocks are contiguous and disjoint, a child range partitions its parent range, and the two halves of a bipartition get the ceiling and the floor of half of them. The intermediate block count chosen for a graph of n nodes is monotone in n, lies between 2 and k and is a power of two unless it is k, and the next block count doubles until k is reached; the number of copies and of threads for initial partitioning lies between 1 and the number of threads. Nothing overflows up to the limits of the integer types.',
  ['inputs'], 'all k, all levels, all blocks, graph sizes and contraction limits',
  'A test can try some k; the arithmetic must be right for every k and every level, including the largest.',
  ['kaminpar-shm/partitioning/partition_utils.cc', 'kaminpar-shm/partitioning/partition_utils.h'], [('compute_final_k, compute_first_sub_block, split_number', 'kaminpar-shm/partitioning/partition_utils.cc'), ('compute_k_for_n, compute_num_copies, compute_num_threads_for_parallel_ip', 'kaminpar-shm/partitioning/partition_utils.cc')],
  'All k up to 2^31-1 for the tree functions; k up to 64 for the explicit ranges.')
P('C04', 'Compressed graphs decode to exactly the graph that was encoded',
  'Compressing a graph and traversing the result gives, for every node, exactly its neighbors, each once and with its edge weight, through every traversal function (full, limited, early stop, parallel); number of nodes and edges, degrees, maximum degree, node weights, weight totals and maxima, degree buckets and the sorted flag equal their definitions. This holds for every target ID gap, interval, high-degree split and edge weight, for the sequential and the parallel builder under every split of the work, and for converting back to an uncompressed graph.',
  ['inputs', 'configurations'], 'all neighborhoods and weights within the bounds, all small graphs, all codec configurations, splits of the work',
  'Tests compress a few fixed graphs; byte lengths, interval boundaries, part boundaries and signed gaps range over all values.',
  ['kaminpar-common/graph_compression/compressed_edges_builder.h', 'kaminpar-common/graph_compression/compressed_neighborhoods.h', 'kaminpar-common/graph_compression/compressed_neighborhoods_builder.h', 'kaminpar-shm/graphutils/compressed_graph_builder.cc', 'kaminpar-shm/graphutils/parallel_compressed_graph_builder.h', 'kaminpar-shm/datastructures/csr_graph.cc'],
  [('CompressedEdgesBuilder::add', 'kaminpar-common/graph_compression/compressed_edges_builder.h'), ('CompressedNeighborhoods::adjacent_nodes', 'kaminpar-common/graph_compression/compressed_neighborhoods.h'), ('parallel_compress', 'kaminpar-shm/graphutils/parallel_compressed_graph_builder.h')],
  'Symbolic neighborhoods with up to 4 targets in graphs of up to 9000 nodes; all graphs with up to 4 nodes as a whole.')
P('C23', 'Integer and range arithmetic is exact for every value',
  'Splitting [0, n) into p parts gives contiguous, disjoint ranges that cover it and whose sizes differ by at most one, and mapping an element to its part agrees with the ranges; floor/ceil logarithms, power-of-two tests, rounding division and proportional splits return the mathematically defined value for every input of their type, and looking up the owner of an element in a distribution array returns the unique part that contains it.',
  ['inputs'], 'all values of the argument types within the stated bounds',
  'Boundary values (zero, powers of two, type limits, uneven remainders) are what breaks and what samples miss.',
  ['kaminpar-common/math.h'], [('compute_local_range, find_in_distribution, floor_log2, ceil_log2, div_ceil, split_integral', 'kaminpar-common/math.h')],
  'Full 32/64-bit ranges for logarithms; n up to 2^16 and up to 5 parts for the ranges.')

P('C08', 'Label propagation clustering respects cluster weights and communities',
  'For every graph, node and edge weights, maximum cluster weight and configuration (implementation, tie breaking, two-hop and isolated-node strategies, relabeling), the clustering assigns every node a label below n; every cluster with more than one node weighs at most the maximum cluster weight; and, if communities are given, all nodes of a cluster belong to the same community. This stays true when the clusterer is used again.',
  ['inputs', 'configurations'], 'all small graphs, weights, limits, communities, strategies',
  'Each strategy has its own admission check; a missing or stale one only shows for particular weights, and tests do not look at cluster weights or communities at all.',
  ['kaminpar-shm/label_propagation.h', 'kaminpar-shm/coarsening/clustering/lp_clusterer.cc'], [('try_node_move, handle_two_hop_nodes, handle_isolated_nodes, relabel_clusters', 'kaminpar-shm/label_propagation.h'), ('select_best_cluster, accept_neighbor', 'kaminpar-shm/coarsening/clustering/lp_clusterer.cc')],
  'Graphs with 3-4 nodes, symbolic weights and limits; the pieces of a parallel loop run one after another.')
P('C09', 'Label propagation refinement never overloads a block or worsens the cut',
  'For every graph, partition, limits and configuration, label propagation refinement keeps all block IDs valid and the block weights equal to the sums of their node weights; no block ends up heavier than the larger of its limit and its previous weight; run sequentially, it never increases the edge cut; with communities set, nodes only join blocks of neighbors in their own community.',
  ['inputs', 'configurations'], 'all small graphs, weights, partitions, limits, strategies, communities',
  'The hard weight constraint and the gain computation must hold for every weight and every partition, including infeasible ones that no test starts from.',
  ['kaminpar-shm/refinement/lp/lp_refiner.cc', 'kaminpar-shm/label_propagation.h'], [('select_best_cluster, move_cluster_weight', 'kaminpar-shm/refinement/lp/lp_refiner.cc'), ('find_best_cluster, try_node_move', 'kaminpar-shm/label_propagation.h')],
  'Graphs with 3-4 nodes, 2-3 blocks, symbolic weights and limits; the pieces of a parallel loop run one after another.')
P('C10', 'The balancer only reduces overload and balances unit-weight partitions',
  'For every graph, partition and limits, the greedy balancer terminates, keeps block IDs and block weights consistent, never raises a block above its limit or above its previous weight, leaves a balanced partition as it is, and reports success exactly if the result is balanced. With unit node weights and limits that admit all nodes, the result is balanced.',
  ['inputs', 'configurations'], 'all small graphs, weights, partitions, uniform and explicit limits',
  'Failures need particular weights (a node that fits nowhere, limits that are met exactly); tests have no infeasible starting points.',
  ['kaminpar-shm/refinement/balancer/greedy_balancer.cc', 'kaminpar-common/datastructures/binary_heap.h'], [('perform_round, init_pq, add_to_pq, compute_gain', 'kaminpar-shm/refinement/balancer/greedy_balancer.cc')],
  'Graphs with 3-4 nodes, 2-3 blocks, node weights up to 3.')
P('C11', 'FM refinement keeps partitions balanced and never worsens the cut',
  'For every graph, partition, limits, gain cache and seed setting, k-way FM refinement keeps block IDs and block weights consistent, leaves no block heavier than the larger of its limit and its previous weight (so a balanced partition stays balanced), and never increases the edge cut; this also holds when the refiner is used again.',
  ['inputs', 'configurations'], 'all small graphs, weights, partitions, limits, gain caches, seed settings',
  'Rolled-back local moves, delta gain caches and stale priorities must agree for every move sequence; tests do not run FM at all.',
  ['kaminpar-shm/refinement/fm/fm_refiner.cc', 'kaminpar-shm/refinement/gains/sparse_gain_cache.h', 'kaminpar-shm/refinement/gains/compact_hashing_gain_cache.h', 'kaminpar-shm/refinement/gains/delta_gain_caches.h', 'kaminpar-shm/datastructures/delta_partitioned_graph.h'], [('LocalizedFMRefiner::run_batch', 'kaminpar-shm/refinement/fm/fm_refiner.cc')],
  'Graphs with 3-4 nodes, 2-3 blocks, weights up to 3; workers run one after another.')
P('C12', 'Jet refinement never returns a worse cut and keeps partitions consistent',
  'For every graph, partition, limits and number of rounds, Jet refinement terminates, keeps block IDs and block weights consistent and never returns a partition with a larger edge cut than it was given; with unit node weights, a balanced partition stays balanced.',
  ['inputs', 'configurations'], 'all small graphs, weights, partitions, limits, rounds',
  'Jet moves through worse and unbalanced partitions and must roll back to the best one; the roll-back conditions depend on every intermediate cut.',
  ['kaminpar-shm/refinement/jet/jet_refiner.cc', 'kaminpar-shm/refinement/balancer/greedy_balancer.cc', 'kaminpar-shm/refinement/gains/sparse_gain_cache.h'], [('JetRefiner::refine', 'kaminpar-shm/refinement/jet/jet_refiner.cc')],
  'Graphs with 3-4 nodes, 2-3 blocks, weights up to 3.')

P('C13', 'Initial bipartitioning returns valid, balanced bipartitions',
  'For every graph and random draw, the initial bipartitioners (5 BFS variants, greedy graph growing, random, the pool and the multilevel bipartitioner, for graphs compressed or not) put every node into block 0 or 1 and report the right block weights; flat and pool bipartitions of graphs with unit node weights respect the limits (limits of at least 1 that suffice for the graph); greedy growing of a connected graph grows a connected block; the 2-way FM refinement increases neither cut nor overload; the sequential coarsening returns exact quotient graphs whose clusters respect the maximum cluster weight, up to the largest weights, and uncoarsening projects partitions exactly; all of these objects can be reused for other graphs.',
  ['inputs', 'random draws', 'operation histories'], 'all small graphs, partitions, limits, random draws, reuse histories',
  'Every partition starts from these bipartitions; refinement later hides an invalid or poor one, and pooled objects carry state from one graph to the next, which no end-to-end test isolates.',
  ['kaminpar-shm/initial_partitioning/'], [('InitialFlatBipartitioner subclasses', 'kaminpar-shm/initial_partitioning/initial_bfs_bipartitioner.cc, initial_ggg_bipartitioner.cc, initial_random_bipartitioner.cc'), ('InitialFMRefiner::refine', 'kaminpar-shm/initial_partitioning/initial_fm_refiner.cc'), ('InitialCoarsener, SequentialGraphHierarchy', 'kaminpar-shm/initial_partitioning/initial_coarsener.cc, sequential_graph_hierarchy.cc'), ('InitialPoolBipartitioner, InitialMultilevelBipartitioner, InitialBipartitionerWorkerPool', 'kaminpar-shm/initial_partitioning/initial_pool_bipartitioner.cc, initial_multilevel_bipartitioner.cc')],
  'Graphs with up to 6 nodes, weights up to 9 (coarsening: up to 7 * 10^8); quality beyond monotonicity is not claimed.')
P('C14', 'Extracted subgraphs are the block-induced ones and copying back is consistent',
  'For every graph (weighted or not, compressed or not) and partition, every extracted subgraph has exactly the nodes and edges inside its block with their weights, the mapping numbers the nodes of each block one-to-one, extracting the halves of a bipartitioned subgraph within the shared memory leaves the other subgraphs intact, and copying the partitions of the subgraphs back puts every node into its sub-block of its old block.',
  ['inputs', 'operation histories'], 'all small graphs, partitions, bipartition sequences, final block counts',
  'Recursive bipartitioning rewrites overlapping memory in place; a wrong offset or stale buffer silently drops edges or moves nodes to other blocks, which end-to-end tests cannot see.',
  ['kaminpar-shm/graphutils/subgraph_extractor.cc', 'kaminpar-shm/graphutils/subgraph_extractor.h'], [('extract_subgraphs, extract_subgraphs_sequential, extract_subgraph, lazy_extract_subgraphs_preprocessing, copy_subgraph_partitions', 'kaminpar-shm/graphutils/subgraph_extractor.cc')],
  'Graphs with 3-4 nodes; compressed graphs with concrete edge weights.')
P('C15', 'Reordering and isolated-node handling preserve the graph',
  'Node permutations are bijections that sort by bucket and by old number inside a bucket, and their inverse is consistent; the rearranged graph is isomorphic to the input under the stored mapping including all weights; reordering neighborhoods keeps the neighbors and weights and yields the order of the compressed graph; cutting off isolated nodes and putting them back restores the graph, its totals and its degree buckets; isolated nodes are assigned without moving other nodes and without overloading blocks whenever the limits leave room for the heaviest node.',
  ['inputs', 'operation histories'], 'all small graphs, degree sequences, bucket assignments, neighborhoods, weights',
  'A wrong offset only shows for particular degree sequences and thread counts, and then silently permutes the result that the user gets back.',
  ['kaminpar-shm/graphutils/permutator.cc', 'kaminpar-shm/graphutils/permutator.h', 'kaminpar-shm/datastructures/csr_graph.cc', 'kaminpar-shm/datastructures/compressed_graph.cc'], [('compute_node_permutation_by_generic_buckets, build_permuted_graph', 'kaminpar-shm/graphutils/permutator.h'), ('sort_by_compression, assign_isolated_nodes, rearrange_by_degree_buckets', 'kaminpar-shm/graphutils/permutator.cc'), ('remove_isolated_nodes, integrate_isolated_nodes', 'kaminpar-shm/datastructures/csr_graph.cc')],
  'Up to 5-6 nodes; neighborhoods in a universe of 7-9 nodes, high-degree thresholds scaled down.')
P('C16', 'Gain caches agree with the partition after any moves',
  'For every graph, partition and sequence of moves, also by several threads at the same time, each gain cache (sparse, dense, hashing, compact hashing, on the fly) reports for every node the exact connection to every block, the exact gain of every move, exactly the adjacent (or all other) blocks with the right value, and whether the node is at the border; delta caches report this for their delta partition and leave the cache below untouched; a cache that is reused for another graph behaves like a new one.',
  ['inputs', 'operation histories', 'schedules'], 'all small graphs, weights, partitions, moves, reuse, interleavings of atomic operations with few preemptions',
  'All refiners decide by cached gains; a wrong entry width, a hash collision or a lost update only appears for particular weights, degrees, block counts or interleavings and then silently steers every later move.',
  ['kaminpar-shm/refinement/gains/sparse_gain_cache.h', 'kaminpar-shm/refinement/gains/dense_gain_cache.h', 'kaminpar-shm/refinement/gains/hashing_gain_cache.h', 'kaminpar-shm/refinement/gains/compact_hashing_gain_cache.h', 'kaminpar-shm/refinement/gains/on_the_fly_gain_cache.h', 'kaminpar-shm/refinement/gains/delta_gain_caches.h', 'kaminpar-common/datastructures/compact_hash_map.h'], [('initialize, move, gains, conn', 'kaminpar-shm/refinement/gains/compact_hashing_gain_cache.h'), ('GenericDeltaGainCache, LargeKGenericDeltaGainCache', 'kaminpar-shm/refinement/gains/delta_gain_caches.h')],
  'Graphs with 3-5 nodes, 2-5 blocks, 1-2 moves, two threads.')
P('C18', 'Priority queues always return an element with the best key',
  'After every sequence of operations, the addressable, shared and dynamic binary heaps and the heap forest hold exactly the inserted elements with their current keys, return an element with the best key first, drain in key order, and keep their position tables and sizes consistent.',
  ['operation histories', 'inputs'], 'all heaps of up to 9 elements with symbolic keys, all short operation sequences',
  'A broken sift only shows for particular key orders at particular positions; the refiners keep running with it but pick wrong moves.',
  ['kaminpar-common/datastructures/binary_heap.h'], [('SharedBinaryHeap, BinaryHeap, DynamicBinaryHeap, DynamicBinaryForest', 'kaminpar-common/datastructures/binary_heap.h')],
  'Up to 6 (9) elements, keys in [-60,60], 2-3 operations.')
P('C19', 'Maps, markers, queues and arrays behave like their mathematical counterparts',
  'After every sequence of operations, the hash maps, sparse maps, rating maps, compact hash maps, markers, fast-reset arrays, queues, bounded vectors, compact arrays, bit vectors with rank, static arrays and navigable linked lists give the same answers as a plain map, set or sequence, including after collisions, growth, clears, wrap-arounds and reuse.',
  ['operation histories', 'inputs'], 'all short operation sequences over colliding keys, symbolic values',
  'Collisions, full tables, stale entries after a clear and counter overflow need particular sequences; the existing tests do not cover these containers.',
  ['kaminpar-common/datastructures/' + f for f in ('dynamic_map.h', 'fixed_size_sparse_map.h', 'sparse_map.h', 'rating_map.h', 'compact_hash_map.h', 'marker.h', 'fast_reset_array.h', 'concurrent_fast_reset_array.h', 'queue.h', 'maxsize_vector.h', 'compact_static_array.h', 'bitvector_rank.h', 'static_array.h', 'ts_navigable_linked_list.h')],
  [('DynamicFlatMap, DynamicRememberingFlatMap', 'kaminpar-common/datastructures/dynamic_map.h'), ('CompactHashMap', 'kaminpar-common/datastructures/compact_hash_map.h'), ('Marker', 'kaminpar-common/datastructures/marker.h'), ('RatingMap', 'kaminpar-common/datastructures/rating_map.h')],
  'Tables of 4-16 slots, 3-6 operations; see the units.')
P('C21', 'Parallel primitives compute what their sequential definitions say',
  'For every input and every division into pieces, parallel sums, maxima, maximum differences and prefix sums equal the sequential results; chunked and deterministic loops visit every element exactly once with the right buffer or CPU number; aligned prefix sums give aligned, disjoint, tightly packed ranges; thread-local vectors combine to the sum of all updates; atomics behave like plain integers; degree buckets cover every degree without overlap.',
  ['inputs', 'schedules'], 'all small inputs, symbolic values, 1-3 pieces, 1-4 threads',
  'Piece boundaries and empty pieces only occur for particular sizes and thread counts, which tests on one machine never vary.',
  ['kaminpar-common/parallel/algorithm.h', 'kaminpar-common/parallel/loops.h', 'kaminpar-common/parallel/aligned_prefix_sum.h', 'kaminpar-common/parallel/vector_ets.h', 'kaminpar-common/parallel/atomic.h', 'kaminpar-common/degree_buckets.h', 'kaminpar-common/ranges.h'], [('prefix_sum, max_difference, accumulate', 'kaminpar-common/parallel/algorithm.h'), ('chunked_for, deterministic_for', 'kaminpar-common/parallel/loops.h'), ('aligned_prefix_sum', 'kaminpar-common/parallel/aligned_prefix_sum.h')],
  'Up to 4-6 elements; pieces run one after another.')
P('C24', 'Distributed graphs, exchange and metrics agree with the global graph',
  'However a graph is distributed over the ranks (ranks without nodes too), every rank holds exactly its nodes, their edges and weights and the remote neighbors as ghost nodes; sizes, owners, ID translations, communication volumes, block weights, balance and edge cut agree with the global graph on every rank; ghost nodes learn the blocks of their owners; and every sparse all-to-all exchange (direct, via MPI_Alltoallv, via the grid topology) delivers every message exactly once, unchanged and in order, to the right rank, and all ranks return.',
  ['inputs', 'distributions', 'messages'], 'all small graphs, distributions, weights, partitions, messages, rank counts',
  'kaminpar-dist is not built or tested by the existing suite; a wrong offset shows up only for particular distributions such as empty ranks or incomplete grids.',
  ['kaminpar-dist/datastructures/', 'kaminpar-dist/graphutils/synchronization.cc', 'kaminpar-dist/graphutils/communication.h', 'kaminpar-dist/metrics.cc', 'kaminpar-mpi/'], [('DistributedCSRGraph, CompactGhostNodeMapping', 'kaminpar-dist/datastructures/distributed_csr_graph.h, ghost_node_mapper.h'), ('dKaMinPar::import_graph', 'kaminpar-dist/dkaminpar.cc'), ('sparse_alltoall, GridTopology', 'kaminpar-mpi/sparse_alltoall.h, grid_alltoall.h, alltoall.h, grid_topology.cc'), ('sparse_alltoall_interface_to_pe, sparse_alltoall_interface_to_ghost', 'kaminpar-dist/graphutils/communication.h')],
  'Graphs with up to 3 (thorough: 4) nodes, 2-3 ranks (exchanges: up to 6); one thread per rank; MPI itself is modelled; compressed distributed graphs and distributed file readers are not covered.')
P('C25', 'Distributed contraction builds the quotient graph and projects partitions',
  'For every distributed graph and every clustering, global contraction returns on every rank its part of exactly the quotient graph (one coarse node per cluster with the total node weight, edges with total weights, no self-loops), whatever rank owns the cluster and however coarse nodes migrate to balance the ranks, and projecting a partition of the coarse graph gives every node, ghost nodes included, the block of its cluster.',
  ['inputs', 'distributions', 'configurations'], 'all small graphs, distributions, weights, clusterings, migration settings, coarse partitions',
  'Which ranks own, send and renumber coarse nodes depends on distribution and clustering together; the existing suite never runs this code.',
  ['kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc'], [('contract_clustering, GlobalCoarseGraphImpl::project', 'kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc')],
  'Graphs with 3 (thorough: 4) nodes, 2-3 ranks; local-only contraction is not covered (unused).')
P('C26', 'dKaMinPar returns a balanced k-way partition and its cut on every rank',
  'For every distributed graph, preset (default, strong, Jet), k, contraction limit and partitioning mode, compute_partition terminates on all ranks, assigns every node a block between 0 and k-1, returns on every rank the edge cut of exactly that partition, and with unit node weights every block respects (1 + epsilon) * ceil(n / k).',
  ['inputs', 'distributions', 'configurations'], 'all small graphs, distributions, weights, configurations',
  'All ranks have to make matching collective calls in every branch; a mismatch hangs or corrupts only for particular distributions.',
  ['kaminpar-dist/dkaminpar.cc', 'kaminpar-dist/partitioning/', 'kaminpar-dist/coarsening/', 'kaminpar-dist/refinement/', 'kaminpar-dist/graphutils/'], [('dKaMinPar::compute_partition', 'kaminpar-dist/dkaminpar.cc'), ('DeepMultilevelPartitioner, KWayMultilevelPartitioner', 'kaminpar-dist/partitioning/')],
  'Graphs with up to 3 nodes, 2-3 ranks, one thread per rank, fixed random seed.')
P('C27', 'Distributed clustering and refinement keep all ranks consistent',
  'For every distributed graph, partition and limits, distributed label propagation and matching clusterers and the LP, colored LP, Jet and balancing refiners terminate on all ranks and leave owned and ghost nodes with the same cluster or block on every rank, and block weights that are exact on every rank; matchings consist of pairs within the weight limit; Jet and the balancers keep balanced partitions balanced, Jet never returns a larger cut for them, and the balancers do not increase the total overload.',
  ['inputs', 'distributions'], 'all small graphs, distributions, weights, partitions, limits',
  'Ranks decide concurrently on stale ghost data and then reconcile; wrong reconciliation leaves ranks with different views that later phases silently build on.',
  ['kaminpar-dist/coarsening/clustering/', 'kaminpar-dist/refinement/'], [('GlobalLPClusterer, HEMClusterer', 'kaminpar-dist/coarsening/clustering/'), ('LPRefiner, ColoredLPRefiner, JetRefiner, NodeBalancer, ClusterBalancer', 'kaminpar-dist/refinement/')],
  'Graphs with 3 (thorough: 4) nodes, 2 ranks, one thread per rank, limits that leave room for the heaviest node. Not claimed: cluster weight limits of label propagation, balance and cut after probabilistic LP moves.')
P('C30', 'Results stay consistent when threads interleave',
  'For every interleaving of the atomic operations of concurrently running threads: block weights match the partition and limited moves never overload a block; label propagation refinement, balancing and Jet respect limits as when run alone, FM keeps block weights consistent; clusterings contain valid labels; contraction yields the exact quotient graph; extracted subgraphs are the block-induced ones; parallel compression preserves the graph; and compute_partition terminates with a complete, balanced partition and the right cut value.',
  ['schedules', 'inputs'], 'two threads, all interleavings of atomic operations with few preemptions, small graphs and configurations',
  'A lost update or check-then-act race appears in one of thousands of schedules, so tests that pass almost always say nothing about it.',
  ['kaminpar-shm/datastructures/partitioned_graph.h', 'kaminpar-shm/label_propagation.h', 'kaminpar-shm/refinement', 'kaminpar-shm/coarsening/contraction', 'kaminpar-shm/graphutils/subgraph_extractor.cc', 'kaminpar-shm/graphutils/parallel_compressed_graph_builder.h'], [('move, move_block_weight, set_block', 'kaminpar-shm/datastructures/partitioned_graph.h'), ('move_node_if_possible', 'kaminpar-shm/refinement/balancer/greedy_balancer.cc')],
  'Two threads, 1-3 preemptions, placed at atomic operations only (sequential consistency; races of plain accesses and weak memory are outside).')
P('C20', 'Graph and partition files are read and written without loss',
  'Every well-formed METIS text file (comments, additional spaces, node sizes, node and edge weights, isolated nodes, missing final newline) and every ParHIP file (any combination of width flags that the build supports, any node order) is read, uncompressed or compressed, as exactly the graph that it describes; with a degree-bucket order the graph is the described one under the reported permutation. Writing a graph (METIS, ParHIP, compressed binary), a partition or block sizes and reading the file again gives the same object. Files with unsupported widths are rejected. The input validator accepts every undirected simple graph and rejects graphs with multi-edges, missing reverse edges or reverse edges of different weight. No byte beyond the end of a file is read.',
  ['inputs', 'configurations'], 'graphs, weights, digits, text layout, width flags, readers, node orders',
  'No test reads or writes a graph file; the defects sit in layouts, flags and sizes (empty graphs, files that fill whole pages, node sizes) that nobody tries.',
  ['apps/io/shm_metis_parser.cc', 'apps/io/shm_parhip_parser.cc', 'apps/io/shm_compressed_graph_binary.cc', 'apps/io/shm_io.cc', 'apps/io/file_toker.h', 'apps/io/shm_input_validator.cc'],
  [('parse_header, parse_graph, csr_read, compress_read, write', 'apps/io/shm_metis_parser.cc'), ('ParHIPHeader, readers, write', 'apps/io/shm_parhip_parser.cc'), ('read, write', 'apps/io/shm_compressed_graph_binary.cc'), ('validate_undirected_graph', 'apps/io/shm_input_validator.cc')],
  'Graphs with up to 3 nodes; the file system is an in-memory model whose mappings end exactly at the end of the file.')
