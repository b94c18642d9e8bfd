# The units (harnesses) that decide each property. See check.py for the meaning of the keys.
ASSUME_COMMON = [
    'environment stubs: logging and timers are no-ops; assertions (KASSERT) at the release level are checked, not assumed',
    'oneTBB is replaced by a model (engine/stubs/tbb): sequential pieces unless the harness says it explores interleavings; sequentially consistent atomics',
    'malloc/new succeed',
]
ASSUME = {}
UNITS = {}
def U(pid, name, src, entry, **kw):
    UNITS.setdefault(pid, []).append(dict(pid=pid, name=name, src=src, entry=entry, **kw))

for e, t in (('u32', '32-bit'), ('u64', '64-bit'), ('m32', 'marked 32-bit'), ('m64', 'marked 64-bit'), ('s32', 'signed 32-bit'), ('s64', 'signed 64-bit'), ('q32', 'two 32-bit back to back'), ('q64', 'two 64-bit back to back')):
    U('C05', 'varint_' + e, 'varint.cc', e, bounds='every value of the type (%s); exact-length buffers' % t, reach=['done'], timeout=(60, 300))
CORE = ['kaminpar-shm/kaminpar.cc', 'kaminpar-shm/datastructures/csr_graph.cc', 'kaminpar-shm/datastructures/graph.cc', 'kaminpar-shm/datastructures/compressed_graph.cc', 'kaminpar-shm/partitioning/partition_utils.cc']
U('C17', 'metrics', 'pgraph.cc', 'ctor_metrics', repo=CORE, bounds={'quick': 'all graphs with 3 nodes (thorough: 4), up to 3 blocks, every partition (symbolic), weights in [1,10^6], limits in [0,4*10^6]', 'thorough': 'all graphs with 4 nodes, otherwise the same'}, reach=['done'])
U('C17', 'pg_moves', 'pgraph.cc', 'pg_moves', repo=CORE, bounds={'quick': '3 nodes, 2 blocks, every sequence of 3 operations', 'thorough': '4 nodes, 3 blocks, every sequence of 5 operations'}, reach=['done'])
U('C17', 'delta_moves', 'pgraph.cc', 'delta_moves', repo=CORE, bounds={'quick': '3 nodes, 2 blocks, every sequence of 3 operations', 'thorough': '4 nodes, 3 blocks, every sequence of 5 operations'}, reach=['done'])
CGB = ['kaminpar-shm/graphutils/compressed_graph_builder.cc']
CONTR = CORE + CGB + ['kaminpar-shm/coarsening/contraction/%s.cc' % x for x in ('cluster_contraction', 'cluster_contraction_preprocessing', 'buffered_cluster_contraction', 'legacy_buffered_cluster_contraction', 'naive_unbuffered_cluster_contraction', 'unbuffered_cluster_contraction')]
RW_CONTR = [('kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc', r'kMaxNumNodes = 4096', 'kMaxNumNodes = 3'), ('kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc', r'kMaxNumEdges = 32768', 'kMaxNumEdges = 4'), ('kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc', r'EdgeWeight, 65536>', 'EdgeWeight, 8>'),
            ('kaminpar-shm/coarsening/contraction/unbuffered_cluster_contraction.cc', r'kParallelIterationGrainsize = 2000', 'kParallelIterationGrainsize = 1'),
            ('kaminpar-shm/coarsening/contraction/buffered_cluster_contraction.cc', r'edge_count >= 100000', 'edge_count >= 1'), ('kaminpar-common/datastructures/rating_map.h', r'Value, 128>', 'Value, 8>'), ('kaminpar-common/datastructures/fixed_size_sparse_map.h', r'fixed_size = 32768', 'fixed_size = 16')]
for e in ('buffered', 'legacy', 'naive', 'single_phase', 'two_phase', 'growing'):
    kw = dict(repo=CONTR, rewrite=RW_CONTR, reach=['done'])
    U('C07', e + '_all', 'contraction.cc', e + '_all', timeout=(60, 600), bounds='3 nodes: all graphs, all 27 label vectors, weights in [1,10^6], 1-3 pieces, weighted and unweighted', **kw)
    U('C07', e + '_big', 'contraction.cc', e + '_big', timeout=(60, 900), bounds={'quick': '4 nodes: path, star, cycle, complete graph; all set partitions with two labelling schemes', 'thorough': '5 nodes: the same'}, **kw)
    U('C07', e + '_z', 'contraction.cc', e + '_z', timeout=(60, 600), bounds='3 nodes as above, compressed input graph', thorough_only=e not in ('buffered', 'two_phase'), **kw)
U('C07', 'reuse', 'contraction.cc', 'reuse', timeout=(60, 600), bounds='2 nodes, two contractions that share one memory context, every algorithm', **kw)
PU = ['kaminpar-shm/partitioning/partition_utils.cc']
U('C03', 'tree', 'putils.cc', 'tree', repo=PU, ubsan="shift", bounds='all levels 2^0..2^30, every block count up to 2^31-1, every block of the level', reach=['done'], timeout=(120, 600))
U('C03', 'ranges', 'putils.cc', 'ranges', repo=PU, bounds={'quick': 'levels up to 2^5, every k up to 64, every block', 'thorough': 'levels up to 2^5, every k up to 256'}, tdefs=['MAXK=256'], reach=['done'], timeout=(120, 600))
U('C03', 'sum', 'putils.cc', 'sum', repo=PU, bounds='levels up to 2^3, every k up to 2^31-1', reach=['done'], timeout=(120, 600))
U('C03', 'levels', 'putils.cc', 'levels', repo=PU, bounds='every n, every k < 2^31, contraction limits 2, 3, 20, 2000, 2^20', reach=['done'], timeout=(120, 600))
U('C03', 'copies', 'putils.cc', 'copies', repo=PU, bounds='contraction limit up to 8, n up to 200, up to 9 threads', reach=['done'], timeout=(120, 600))
U('C03', 'ipthreads', 'putils.cc', 'ipthreads', repo=PU, bounds='up to 512 threads', reach=['done'], timeout=(120, 600))
for e, b in (('lrange32', 'n up to 2^16, up to 5 parts'), ('lrange64', 'n up to 2^10, up to 5 parts'), ('log32', 'every 32-bit value'), ('log64', 'every 64-bit value'), ('pow2_32', 'values up to 2^31'), ('divceil', 'every 32-bit dividend, divisors up to 40'), ('split', 'values up to 300'), ('finddist', 'up to 4 parts, bounds up to 2^40')):
    U('C23', e, 'putils.cc', e, repo=PU, bounds=b, reach=['done'], timeout=(60, 600))
import glob
SHM_ALL = sorted(p[len('/repo/'):] for p in glob.glob('/repo/kaminpar-shm/**/*.cc', recursive=True))
INITP = [p for p in SHM_ALL if '/initial_partitioning/' in p]
HELP = CORE + INITP + ['kaminpar-shm/partitioning/helper.cc', 'kaminpar-shm/graphutils/subgraph_extractor.cc']
U('C02', 'uniform', 'ctx.cc', 'uniform', repo=CORE, bounds={'quick': '2 nodes of weight up to 24, k up to 5, five imbalance parameters, strict and relaxed', 'thorough': 'node weights up to 60'}, tdefs=['MAXW=60', 'KWK=3'], reach=['done'], timeout=(120, 800))
U('C02', 'explicit_weights', 'ctx.cc', 'explicit_weights', repo=CORE, bounds='2 nodes of weight up to 6, 2-3 blocks with limits up to 9, strict and relaxed', reach=['done'], timeout=(120, 800))
for e, kb in (('kway', 'k up to 4 (thorough: 5)'), ('twoway', 'k up to 5, limits up to 20'), ('twoway_uniform', 'k up to 5, four imbalance parameters')):
    U('C02', e, 'ctx.cc', e, repo=HELP, bounds='2 nodes of weight up to 4, every level, ' + kb, tdefs=['MAXW=60', 'KWK=3'], reach=['done'], timeout=(120, 800))
PCG = ['kaminpar-shm/graphutils/parallel_compressed_graph_builder.cc']
ZB = {'quick': '', 'thorough': ''}
RW_ZIP2 = [('kaminpar-common/graph_compression/compressed_neighborhoods.h', r'kHighDegreeThreshold = 10000', 'kHighDegreeThreshold = 2'), ('kaminpar-common/graph_compression/compressed_neighborhoods.h', r'kHighDegreePartLength = 1000', 'kHighDegreePartLength = 2')]
RW_ZIP = [('kaminpar-common/graph_compression/compressed_neighborhoods.h', r'kHighDegreeThreshold = 10000', 'kHighDegreeThreshold = 4'), ('kaminpar-common/graph_compression/compressed_neighborhoods.h', r'kHighDegreePartLength = 1000', 'kHighDegreePartLength = 3'), ('kaminpar-shm/graphutils/parallel_compressed_graph_builder.h', r'kNumChunks = 5000', 'kNumChunks = 2')]
for e, b in (('nb_u', '70 nodes, degree up to 4 (thorough: 5), any targets'), ('nb_w', '70 nodes, degree up to 3 (4), weights up to 100'), ('nb_big', '9000 nodes, degree up to 3 (4)'), ('nb_bigw', '12 nodes, degree up to 2, weights up to 2^31-1'), ('nb_two', 'two adjacent nodes of 70 with degree up to 2 (3), weights up to 60'), ('nb_64', '64-bit IDs, 70 nodes, degree up to 2 (3)'), ('nb_tiny', '8 nodes, degree up to 5 (6)')):
    U('C04', e, 'cgraph.cc', e, repo=CORE + CGB + PCG, bounds=b, defs=['NGR=4'], tdefs=['ND=5'], reach=['done'], timeout=(60, 800))
    if e in ('nb_u', 'nb_w', 'nb_tiny'): U('C04', e + '_parts', 'cgraph.cc', e, repo=CORE + CGB + PCG, bounds=b + '; high-degree threshold and part length scaled down to 2', defs=['NGR=4'], tdefs=['ND=5'], rewrite=RW_ZIP2, reach=['done'], timeout=(60, 800))
    if e in ('nb_u', 'nb_w', 'nb_tiny'): U('C04', e + '_svb', 'cgraph.cc', e, repo=CORE + CGB + PCG, bounds=b + '; StreamVByte gap encoding switched on', defs=['NGR=4', 'KAMINPAR_COMPRESSION_STREAMVBYTE_ENCODING'], tdefs=['ND=5'], reach=['done'], timeout=(60, 800))
for e in ('whole_seq', 'whole_par', 'csr_header'):
    U('C04', e, 'cgraph.cc', e, repo=CORE + CGB + PCG, bounds={'quick': 'all graphs with up to 4 nodes' , 'thorough': 'all graphs with up to 4 nodes; path, star, cycle, complete graph with up to 7'}, defs=[], qdefs=['NGR=4'], tdefs=['NGR=7'], rewrite=RW_ZIP, reach=['done'], timeout=(60, 800))

ALLSHM = [p for p in SHM_ALL if not p.endswith(('/context_io.cc',))]
E2E = dict(repo=ALLSHM, extra=['cio.cc'], reach=['done'], kse=['--uninit-concrete', '--fuel', '30000000', '--fuel-violation'])
PRE = '9 presets, k in 2..%s, contraction limit 1 or default'
U('C01', 'small', 'e2e.cc', 'small', bounds='all graphs with up to 4 nodes, unit weights, ' + PRE % 4, timeout=(200, 600), **E2E)
U('C01', 'wsym', 'e2e.cc', 'wsym', bounds='path, star, complete graph with 3 nodes; all graphs with 2 nodes; node and edge weights 1-2, ' + PRE % 3, timeout=(100, 600), **E2E)
U('C01', 'esym', 'e2e.cc', 'esym', bounds='all graphs with 3 nodes, edge weights 1-2 (thorough: 1-4), ' + PRE % 3, tdefs=['EV=4'], timeout=(100, 600), **E2E)

LPC = CORE + CGB + ['kaminpar-shm/coarsening/clustering/lp_clusterer.cc', 'kaminpar-shm/presets.cc']
RW_LP = [('kaminpar-shm/label_propagation.h', r'kRatingMapThreshold = 10000', 'kRatingMapThreshold = 2')]
LPK = dict(repo=LPC, reach=['done'], kse=['--uninit-concrete'])
U('C08', 'core', 'lpc.cc', 'core', bounds={'quick': 'path and complete graph with 3 nodes, node and edge weights up to 1000, any limit, 3 implementations, 2 tie-breaking strategies, 1-2 iterations', 'thorough': 'also the cycle with 4 nodes, symbolic random draws, two clusterings with the same object'}, timeout=(80, 1200), **LPK)
U('C08', 'twohop', 'lpc.cc', 'twohop', bounds='all graphs with 3 nodes, star and path with 4 nodes, node weights up to 1000, any limit, 5 two-hop strategies, 5 isolated nodes strategies (thorough: 1-2 pieces, two clusterings with the same object)', timeout=(80, 1200), **LPK)
U('C08', 'communities', 'lpc.cc', 'communities', bounds='all graphs with 3 nodes, star and path with 4 nodes, two communities, any limit up to 6, all strategies and implementations', timeout=(80, 1200), **LPK)
U('C08', 'second', 'lpc.cc', 'second', rewrite=RW_LP, bounds='connected graphs with 3 nodes, star with 4 nodes; rating map threshold scaled down to 2; with and without relabeling', timeout=(80, 1200), **LPK)
U('C08', 'relabel_communities', 'lpc.cc', 'relabel_communities', rewrite=RW_LP, bounds='connected graphs with 3 nodes, star with 4 nodes, two communities, relabeling', timeout=(80, 1200), **LPK)
U('C08', 'relabel', 'lpc.cc', 'relabel', rewrite=RW_LP, bounds='connected graphs with 3 nodes and weights up to 3, path with 4 nodes (thorough: all connected graphs with 4 nodes, clustered twice), relabeling, 5 two-hop strategies, 1-2 iterations, the first 3 (4) random draws symbolic', timeout=(80, 1200), **LPK)
U('C08', 'compressed', 'lpc.cc', 'compressed', bounds='all graphs with 3 nodes, compressed', timeout=(80, 1200), **LPK)

RBASE = CORE + CGB + ['kaminpar-shm/presets.cc']
def RU(pid, entry, macro, repo, bounds, **kw):
    kw.setdefault('kse', ['--uninit-concrete']); kw.setdefault('timeout', (80, 1200)); kw['defs'] = [macro] + kw.get('defs', [])
    U(pid, entry, 'refine.cc', entry, repo=RBASE + repo, bounds=bounds, reach=['done'], **kw)
LPR = ['kaminpar-shm/refinement/lp/lp_refiner.cc']
for e, b in (('lp', 'path and complete graph with 3 nodes, 2 blocks, every partition, node weights and edge weights up to 15 (quick: one of them up to 3 or 1), limits 0-45, 3 implementations, 2 tie-breaking strategies'),
             ('lp3', 'all graphs with 3 nodes, path and star (thorough: cycle) with 4 nodes, 3 blocks, limits 0-3'), ('lp_comm', 'all graphs with 3 nodes, path and star with 4 nodes, two communities, 2 pieces'),
             ('lp_z', 'all graphs with 3 nodes, compressed, node weights up to 15'), ('lp_second', 'path and complete graph with 3 nodes, second phase (rating map threshold scaled down to 2), 2 pieces')):
    RU('C09', e, 'R_LP', LPR, b, **(dict(rewrite=RW_LP) if e == 'lp_second' else {}))
BAL = ['kaminpar-shm/refinement/balancer/greedy_balancer.cc']
for e, b in (('uniform', 'path and complete graph with 3 nodes, node weights up to 3, edge weights up to 2, 2-3 blocks, three imbalance parameters, every partition'), ('unit', 'all graphs with 3 nodes, path, star, cycle with 4 nodes, unit node weights, 2-3 (thorough: 4) blocks, compressed and not, 1-2 pieces'),
             ('limits', 'path and complete graph with 3 nodes, node weights up to 3, 2 (thorough: 3) blocks with explicit limits 1-4'), ('unit_limits', 'all graphs with 3 nodes, path and star with 4 nodes, 2-3 blocks with explicit limits 1-3')):
    RU('C10', e, 'R_BAL', BAL, b, kse=['--uninit-concrete', '--fuel', '3000000', '--fuel-violation'])
FMR = ['kaminpar-shm/refinement/fm/%s.cc' % x for x in ('fm_refiner', 'batch_stats', 'general_stats')]
JET = BAL + ['kaminpar-shm/refinement/jet/jet_refiner.cc']
for pid, macro, rp in (('C11', 'R_FM', FMR), ('C12', 'R_JET', JET)):
    for e, b in (('unit', 'all graphs with 3 nodes, path, star, cycle with 4 nodes, unit weights, 2-3 blocks, compressed and not, 1-2 workers'), ('edges', 'path and complete graph with 3 nodes, edge weights up to 3, 2-3 blocks, every partition, three imbalance parameters'), ('nodes', 'path and complete graph with 3 nodes, node weights up to 3, 2 blocks with explicit limits 2-5')):
        RU(pid, e, macro, rp, b, kse=['--uninit-concrete', '--fuel', '10000000', '--fuel-violation'])

PQ = dict(src='pq.cc', kassert=30, reach=['done'], timeout=(60, 600))
def PU_(name, bounds, **kw): U('C18', name, entry=name, bounds=bounds, **{**PQ, **kw})
for e in ('heap_max', 'heap_min', 'shared_max'):
    PU_(e, {'quick': 'every heap of 6 elements with keys in [-60,60], then every sequence of 2 operations', 'thorough': 'every heap of 6 elements, 3 operations'}, tdefs=['NOPS=3'])
PU_('heap_second_level', 'a heap with 9 elements on three levels, one arbitrary key change, complete drain')
PU_('dyn_drain', '5 (thorough: 6) elements with any keys, complete drain, min and max', tdefs=['ND=6'])
PU_('heap_drain', '5 (thorough: 6) elements with any keys, complete drain, min and max', tdefs=['ND=6'])
PU_('forest', '2 heaps, 3 elements with any keys, then every sequence of 2 operations')
RW_DS = [('kaminpar-common/datastructures/rating_map.h', r'Value, 128>', 'Value, 8>'), ('kaminpar-common/datastructures/fixed_size_sparse_map.h', r'fixed_size = 32768', 'fixed_size = 16'), ('kaminpar-common/datastructures/ts_navigable_linked_list.h', r'1 << 15', '1 << 2')]
for e, b in (('flat', '5 colliding keys and one other (plus 5 more so that the table grows), any values, every sequence of 3 operations after every prefix of insertions'), ('remembering', 'the same'), ('fixed', 'table of 8 slots, the same keys, growing'), ('sparse', '4 keys, every sequence of 3 (thorough: 4) operations'), ('rating', 'sizes scaled down to 8 and 16 slots, 3 uses with every selection of maps, any ratings'),
             ('compact_map', '4 slots, 5 (thorough: 6) keys, any insertion order, 2 (thorough: 3) operations'), ('compact_map_full', '2-4 slots that may be full, 4 keys'), ('compact_map_8', '8 slots, 9 keys, 8-bit entries'), ('marker', '3 elements, every sequence of 4 operations'), ('marker2', 'two markers, 3 elements, every sequence of 3 (thorough: 4) operations'), ('marker_late', 'every stamp that can be reached by up to 2^63 resets'), ('marker8', '8-bit stamps, 3 operations, up to 3 * 128 resets'),
             ('reset_array', '4 elements, 3 (thorough: 4) operations'), ('conc_reset_array', '4 elements, 2 (thorough: 3) rounds'), ('queue', 'capacity 4, every sequence of 5 (thorough: 6) operations'), ('maxsize', 'capacity 5, every sequence of 5 (thorough: 6) operations'), ('compact_array', '3 elements, every byte width, any values'), ('bitvector', 'blocks of 128 bits, lengths up to 300, the last 8 bits arbitrary'), ('static_arr', 'up to 3 elements'), ('linked_list', 'chunks of 4, up to 3 segments of up to 5 elements')):
    U('C19', e, 'ds.cc', e, kassert=30, rewrite=RW_DS, bounds=b, reach=['done'], timeout=(40, 600), tdefs=['MK=6'], **({'thorough_only': True} if e == 'compact_map_8' else {}))
for e, b in (('reduce', 'up to 4 (thorough: 6) arbitrary 64-bit values, 1-3 pieces'), ('extrema', 'up to 4 (thorough: 6) arbitrary values, 1-3 pieces'), ('chunked', 'up to 3 (thorough: 5) buffers with up to 2 elements each, 1-3 pieces'), ('det', 'up to 6 indices, 1-4 threads'), ('aligned', 'up to 5 (thorough: 7) values up to 100, alignments 0-8, 1-3 threads'), ('ets', 'vectors of length 3, 6 updates, 1-3 pieces'), ('atomic', 'every operation, values in [-1000,1000]'), ('buckets', 'every 32-bit and 64-bit degree'), ('ranges', 'up to 3 elements')):
    U('C21', e, 'par.cc', e, kassert=30, bounds=b, reach=['done'], timeout=(40, 600), tdefs=['N=6'])
PERM = CORE + CGB + ['kaminpar-shm/graphutils/permutator.cc', 'kaminpar-shm/presets.cc']
RW_Z4 = [('kaminpar-common/graph_compression/compressed_neighborhoods.h', r'kHighDegreeThreshold = [0-9]+', 'kHighDegreeThreshold = 4'), ('kaminpar-common/graph_compression/compressed_neighborhoods.h', r'kHighDegreePartLength = [0-9]+', 'kHighDegreePartLength = 3')]
for e, b in (('buckets', 'up to 5 (thorough: 6) nodes, 3 buckets, 1-3 threads'), ('degrees', 'up to 4 (thorough: 5) nodes, degrees 0-4, isolated nodes first or last'), ('rearrange', 'all graphs with up to 4 nodes, three structures with 5 nodes, weights up to 1000, weighted or not, CSR and compressed'), ('reorder', 'every neighborhood in 7 (thorough: 9) nodes, every rotation, reversed or not, weighted or not'), ('reorder_parts', 'the same with neighborhoods stored in parts (thresholds scaled down to 4 and 3)'), ('assign', '2 connected nodes, 1-3 isolated nodes with any weights up to 15, 2-3 blocks, any limit')):
    U('C15', e, 'perm.cc', e, repo=PERM, kse=['--uninit-concrete'], bounds=b, reach=['done'], timeout=(60, 900), **({'rewrite': RW_Z4} if e == 'reorder_parts' else {}))
SUBG = CORE + CGB + ['kaminpar-shm/graphutils/subgraph_extractor.cc']
for e, b in (('extract', '1-3 blocks'), ('lazy', '1-3 blocks'), ('bisect', '1-2 blocks, every bipartition of every block, one further bipartition'), ('uneven', '2 blocks that will have 1-3 final blocks each, every bipartition, one further bipartition')):
    U('C14', e, 'sub.cc', e, repo=SUBG, kse=['--uninit-concrete'], bounds='all graphs with 3 nodes, path, star, cycle, complete graph with 4 nodes, every partition, weighted or not, compressed or not; ' + b, reach=['done'], timeout=(60, 900))
GAIN = dict(repo=CORE + CGB + ['kaminpar-shm/presets.cc'], src='gain.cc', reach=['done'], timeout=(60, 900), kse=['--uninit-concrete'], tdefs=['MOVES=2'])
GB = 'complete graph with 3 nodes, an edge and an isolated node, star with 4 nodes, sorted by degree buckets or not, %s, 2-5 blocks, every partition into two (quick) or all blocks, '
GM = {'quick': '1 move of any node to any block, in the partition or a delta partition', 'thorough': '2 moves, also with a single block, graphs with 5 nodes'}
for e, w in (('sparse', 'edge weights up to 10^6'), ('sparse_large', 'edge weights up to 10^6'), ('dense', 'edge weights up to 10^8'), ('dense_large', 'edge weights up to 10^8'), ('hashing', 'edge weights up to 10^6'), ('hashing_large', 'edge weights up to 10^6'), ('compact', 'edge weights of 3 (thorough: 8) magnitudes so that entries have 1-8 bytes'), ('compact_large', 'edge weights of 3 (thorough: 8) magnitudes'), ('fly', 'edge weights up to 10^8'),
             ('fly_adjacent', 'edge weights up to 10^8'), ('fly_conn', 'edge weights up to 10^8'), ('dense_exact', 'edge weights up to 10^8'), ('sparse_exact', 'edge weights up to 10^6'), ('sparse_large_exact', 'edge weights up to 10^6')):
    U('C16', e, entry=e, bounds={k: GB % w + v for k, v in GM.items()}, **{**GAIN, 'thorough_only': e.startswith('fly_') or e.endswith('_exact')})
    if e in ('sparse', 'dense', 'hashing', 'compact') or e.endswith('_large'): U('C16', e + '_again', entry=e + '_again', bounds=w + ', a cache first used for another graph and number of blocks', **{**GAIN, 'thorough_only': e.endswith('_large')})
U('C16', 'compressed', entry='compressed', bounds='connected (thorough: all) graphs with 3 nodes, unit edge weights, 3 (2-3) blocks, compressed, 5 caches', **GAIN)
for e in ('sparse', 'hashing', 'compact', 'dense'): U('C16', 'conc_' + e, entry='conc_' + e, bounds='complete graph with 3 nodes, star with 4 nodes, edge weights up to 4, 2 and 5 blocks, two threads that each move a node, every interleaving of their atomic operations with up to 2 (thorough: 3) preemptions', mt=True, **GAIN)
# two threads
RW_MT = [('kaminpar-shm/label_propagation.h', r'kMinChunkSize = 1024', 'kMinChunkSize = 1')]
def MT(name, src, entry, bounds, **kw):
    kw['kse'] = ['--uninit-concrete', '--fuel', '3000000']; kw.setdefault('timeout', (80, 1200))
    U('C30', name, src, entry, bounds=bounds, reach=['done'], mt=True, **kw)
MT('lp_clustering', 'lpc.cc', 'mt_lp', 'connected graphs with 3 nodes, path with 4 nodes, limits 2-3, 3 implementations; chunk size scaled down to 1; two threads, every interleaving of their atomic operations with up to 1 (thorough: 2) preemptions', repo=LPC, rewrite=RW_MT, tdefs=['PRE=2'])
MT('twohop_clustering', 'lpc.cc', 'mt_twohop', 'star with 4 nodes, graphs with 3 nodes, 5 two-hop strategies, 5 isolated nodes strategies; two threads, every interleaving of their atomic operations with up to 1 (thorough: 2) preemptions', repo=LPC, rewrite=RW_MT, tdefs=['PRE=2'])
MT('relabel_clustering', 'lpc.cc', 'mt_relabel', 'connected graphs with 3 nodes, path with 4 nodes, second phase, relabeling, 2 two-hop strategies; two threads, every interleaving of their atomic operations with up to 1 (thorough: 2) preemptions', repo=LPC, rewrite=RW_MT + RW_LP, tdefs=['PRE=2'])
MT('lp_refinement', 'refine.cc', 'mt_lp', 'star and complete graph (thorough: all shapes with 3-4 nodes), 2 blocks with any limits up to 3, every partition, 3 implementations; two threads, every interleaving of their atomic operations with up to 1 (thorough: 2) preemptions', repo=RBASE + LPR, rewrite=RW_MT, defs=['R_LP'], tdefs=['PRE=2'])
MT('balancer', 'refine.cc', 'mt', 'path and star with 4 nodes, 2 (thorough: 2-3) blocks with limits 1-3, every partition; 2 (3) preemptions; two threads, every interleaving of their atomic operations with that many preemptions', repo=RBASE + BAL, defs=['R_BAL'], qdefs=['PRE=2'], tdefs=['PRE=3'])
MT('fm', 'refine.cc', 'mt', 'path and complete graph with 3 nodes, 2 blocks with limits 2-3, every partition, 2 gain caches; two threads, every interleaving of their atomic operations with up to 1 (thorough: 2) preemptions', repo=RBASE + FMR, defs=['R_FM'], tdefs=['PRE=2'])
MT('jet', 'refine.cc', 'mt', 'path and complete graph with 3 nodes, 2 blocks with limits 2-3, every partition, 1-2 rounds; two threads, every interleaving of their atomic operations with up to 1 (thorough: 2) preemptions', repo=RBASE + JET, defs=['R_JET'], tdefs=['PRE=2'])
MT('contraction', 'contraction.cc', 'mt', 'cycle and star with 4 nodes, 4 clusterings, 6 algorithms; 2 (thorough: 3) preemptions; two threads, every interleaving of their atomic operations with that many preemptions', repo=CONTR, rewrite=RW_CONTR, tdefs=['PRE=3'])
MT('moves', 'pgraph.cc', 'mt_moves', 'two threads with two limited moves each, 4 nodes, node weights up to 100, 2-3 blocks, any limit; 2 (3) preemptions; two threads, every interleaving of their atomic operations with that many preemptions', repo=CORE, tdefs=['PRE=3'])
MT('subgraphs', 'sub.cc', 'mt', 'graphs with 3 nodes, cycle with 4 nodes, every bipartition, both extraction methods, copying back; 2 (3) preemptions; two threads, every interleaving of their atomic operations with that many preemptions', repo=SUBG, tdefs=['PRE=3'])
MT('compression', 'cgraph.cc', 'mt', 'star and cycle with 4 nodes, weighted or not; 2 (3) preemptions; two threads, every interleaving of their atomic operations with that many preemptions', repo=CORE + CGB + PCG, rewrite=RW_ZIP, tdefs=['PRE=3'], defs=['NGR=4'])
MT('partition', 'e2e.cc', 'mt', 'compute_partition: path and cycle with 4 nodes, 4 presets, k = 2 and 3; two threads, every interleaving of their atomic operations with up to 1 (thorough: 2) preemptions', repo=ALLSHM, extra=['cio.cc'], rewrite=RW_MT, tdefs=['PRE=2'])

IOS = ['apps/io/%s.cc' % x for x in ('shm_io', 'shm_metis_parser', 'shm_parhip_parser', 'shm_compressed_graph_binary')]
IO = dict(repo=CORE + CGB + PCG + ['kaminpar-shm/graphutils/permutator.cc'] + IOS, stubs=['io'], rewrite=[('apps/io/shm_compressed_graph_binary.cc', r'std::filesystem::file_size\(', 'kse_io::size(')])
def UIO(name, entry, bounds, **kw): U('C20', name, 'io.cc', entry, bounds=bounds, **{**IO, 'reach': ['done'], 'timeout': (60, 600), 'defs': ['DEG=3'], **kw})
IOB = ', node and edge weights'
ST = 'n up to 3 (thorough: 4), every graph, adjacency lists forwards and backwards, with and without weights; '
N4 = dict(tdefs=['NV=4'])
UIO('metis_csr', 'metis_csr', 'METIS text, uncompressed graph; n up to 3, every graph; symbolic digits (one number of 4 digits or all numbers of 1 digit); plain, extra spaces, comments, node sizes, no final newline')
UIO('metis_zip', 'metis_zip', 'METIS text, compressed graph; otherwise the same')
UIO('metis_write', 'metis_write', ST + 'symbolic weights up to 12; written as METIS text and read again', **N4)
UIO('parhip_read', 'parhip_read', ST + 'symbolic weights (uncompressed readers), every combination of version flags, six readers, 1-2 pieces', **N4)
UIO('parhip_write', 'parhip_write', ST + 'symbolic weights (uncompressed readers); written in ParHIP format and read again by six readers, 1-2 pieces', **N4)
UIO('zbin', 'zbin', ST + 'compressed graphs in natural order and sorted by degree, symbolic node weights; written and read again', **N4)
UIO('parts', 'parts', 'up to 3 nodes, 13 blocks, every partition; with and without a final newline; partitions and block sizes')
UIO('validator', 'validator', '3 nodes, up to 3 arbitrary targets per node, edge weights 1-2', repo=CORE + ['apps/io/shm_input_validator.cc'])
B64 = ['KAMINPAR_64BIT_NODE_IDS', 'KAMINPAR_64BIT_EDGE_IDS', 'KAMINPAR_64BIT_WEIGHTS']
for x in ('metis_csr', 'parhip_read', 'parhip_write', 'zbin'): UIO(x + '_64', x, 'as above with n up to 3 (parhip_read: 2, thorough: 3), 64-bit build', defs=['DEG=3'] + B64, qdefs=['NV=2'] if x == 'parhip_read' else [], tdefs=['NV=3'], thorough_only=x in ('metis_csr', 'zbin'))

INP = HELP + CGB + ['kaminpar-shm/presets.cc']
def UI(name, bounds, **kw): U('C13', name, 'initp.cc', name, bounds=bounds, **{**dict(repo=INP, reach=['done'], timeout=(90, 800), tdefs=['BUDGET=4'], kse=['--uninit-concrete', '--fuel', '3000000', '--fuel-violation']), **kw})
AG = {'quick': 'all graphs with 3 nodes, ', 'thorough': 'all graphs with up to 4 nodes, '}
Q3 = {'quick': 'path, star (4 nodes) and cycle (5 nodes), ', 'thorough': 'all graphs with up to 4 nodes, '}
bq = lambda d, t: {k: v + t for k, v in d.items()}
FB = 'unit weights, uniform limits (3 imbalances) and explicit limits, then a second graph; 2 (thorough: 4) arbitrary random draws, then fixed ones'
UI('flat_bfs', bq(AG, '5 queue strategies, ' + FB)); UI('flat_ggg', bq(AG, FB)); UI('flat_rnd', bq(AG, FB))
UI('flat_w', 'path with 3 and star with 3 (thorough: 4) nodes, 7 algorithms, symbolic node and edge weights up to 9, explicit limits; 1 arbitrary random draw')
UI('fm2', 'complete graph with 3 and star with 4 nodes (thorough: 4 structures), edge weights up to 4 (thorough: 7), one heavy node, every bipartition, 1-2 rounds, both stopping policies (the adaptive one with unit weights), then a second graph; 1 (4) arbitrary random draws')
UI('coarse', bq(AG, 'unit weights, limits 0-3, a coarsener first used for another graph or not, up to 2 levels; 2 (thorough: 4) arbitrary random draws'))
UI('coarse_w', 'path and complete graph with 3 nodes, node weights up to 1000, any limit up to 3000')
UI('coarse_huge', 'path with 2 (thorough: 3) nodes, node weights up to 7 * 10^8')
UI('coarse_deep', '5 structures with 1-6 nodes, limits 2-5, 2 levels')
UI('far', bq(AG, '1-2 iterations, fresh and reused data structures; 3 (thorough: 5) arbitrary random draws'))
UI('pool', bq(Q3, 'with and without refinement, 1-2 repetitions, unit weights or a heavy node (thorough: weights 1-3), uniform and explicit limits, then a second graph; fixed random draws'))
UI('multilevel', bq(Q3, 'compressed or not, contraction limits 1-2, k = 2-3, unit weights or a heavy node (thorough: weights 1-3), then a second graph; fixed random draws'))

DIST_ALL = sorted(p[len('/repo/'):] for p in glob.glob('/repo/kaminpar-dist/**/*.cc', recursive=True))
DGRAPH = ['kaminpar-dist/' + x for x in ('presets.cc', 'datastructures/distributed_csr_graph.cc', 'datastructures/distributed_graph.cc', 'datastructures/distributed_partitioned_graph.cc', 'datastructures/distributed_compressed_graph.cc', 'metrics.cc', 'context.cc', 'graphutils/synchronization.cc', 'dkaminpar.cc')] + ['kaminpar-mpi/grid_topology.cc', 'kaminpar-shm/presets.cc']
DST = dict(repo=DGRAPH, stubs=['mpi'], extra=['dio.cc'], reach=['done'], timeout=(90, 800), kse=['--uninit-concrete', '--fuel', '3000000', '--fuel-violation'])
def UD(prop, name, bounds, **kw): U(prop, name, 'dist.cc', name, bounds=bounds, **{**DST, **kw})
G2 = '2 ranks, any distribution of the nodes (ranks without nodes too), all graphs with up to {} nodes, weighted or not'
gn = lambda t, q='3', th='4': {'quick': G2.format(q) + t, 'thorough': G2.format(th) + t}
UD('C24', 'graph', gn('; symbolic weights up to 15'))
UD('C24', 'graph3', '3 ranks, all graphs with 3 nodes and distributions; symbolic weights up to 15')
UD('C24', 'partition', gn('; symbolic weights up to 15, every partition into up to 2 blocks, every change of it'))
UD('C24', 'exchange_edges', gn(' (unweighted), every set of sending nodes, symbolic messages'))
UD('C24', 'exchange_nodes', gn(' (unweighted), every set of sending nodes, symbolic messages'))
UD('C24', 'alltoall', {'quick': '1-3 ranks, 3 algorithms, up to 4 non-empty buffers with 1-2 symbolic messages', 'thorough': '1-3 ranks, 3 algorithms, up to 5 non-empty buffers with 1-2 symbolic messages'})
UD('C24', 'alltoall_many', '4-6 ranks, 3 algorithms, up to 2 non-empty buffers with symbolic messages')
UD('C24', 'alltoall_grid', '7-12 ranks, grid topology; all ranks send to all ranks, all but one pair, or one pair; fixed messages')
UD('C24', 'graph_sparse', '2 ranks, 160 nodes split at 1, 80 or 159, up to 2 remote edges (ghost nodes in a hash table), symbolic weights up to 15')
DCON = dict(repo=DGRAPH + ['kaminpar-dist/coarsening/contraction/global_cluster_contraction.cc'], defs=['WITH_CONTRACTION'])
CLS = '; symbolic weights up to 15, every clustering {}, every partition of the coarse graph into 3 blocks'
cls = {'quick': CLS.format('that names clusters after one of their nodes'), 'thorough': CLS.format('with any cluster names')}
UD('C25', 'contract', {t: gn(cls[t])[t] for t in cls}, **DCON)
UD('C25', 'contract_migrate', {t: G2.format('3' if t == 'quick' else '4') + cls[t] + '; coarse nodes migrate to balance the ranks (limits 1.0 and 1.5, prefix and suffix migration, perfect or not)' for t in cls}, **DCON)
UD('C25', 'contract3', '3 ranks, all graphs with 3 nodes and distributions; symbolic weights up to 15, every clustering, with and without migration', **DCON)
DALL = [p for p in DIST_ALL if not p.endswith(('/context_io.cc', '/timer.cc', '/heap_profiler.cc'))]
DE2E = dict(repo=ALLSHM + DALL + ['kaminpar-mpi/grid_topology.cc'], extra=['cio.cc', 'dio.cc'], defs=['WITH_E2E'], kse=['--uninit-concrete', '--fuel', '30000000', '--fuel-violation'])
PRE = ' presets default, strong and jet, k = 2-3, contraction limits 1 and 2000, '
UD('C26', 'small', gn(' (unweighted),' + PRE + 'deep and k-way mode; fixed random seed'), tdefs=['NV=4'], **DE2E)
UD('C26', 'small3', '3 ranks, any distribution, all graphs with 2-3 nodes,' + PRE + 'deep mode', **DE2E)
UD('C26', 'split', {'quick': '4 ranks that own up to 2 nodes (the last one: the rest), path, cycle and star with 5 nodes, presets default, strong and jet, k = 2-3, contraction limit 2 (the graph is replicated for groups of ranks), deep mode', 'thorough': 'the same with any distribution'}, **DE2E)
UD('C26', 'esym', '2 ranks, any distribution, all graphs with 3 nodes, symbolic edge weights up to 3,' + PRE + 'deep and k-way mode', **DE2E)
UD('C26', 'wsym', {'quick': '2 ranks, any distribution, all graphs with 2 nodes, symbolic node and edge weights up to 3,' + PRE + 'deep and k-way mode', 'thorough': 'the same with 3 nodes'}, **DE2E)
DPARTS = dict(repo=DALL + CORE + ['kaminpar-mpi/grid_topology.cc', 'kaminpar-shm/presets.cc'], extra=['cio.cc', 'dio.cc'], defs=['WITH_PARTS'], kse=DE2E['kse'])
UD('C27', 'clusters', {'quick': '2 ranks, all graphs with 3 nodes and distributions, weights up to 7, limits 7-20; global LP, global HEM, HEM then LP', 'thorough': 'the same with 4 nodes'}, **DPARTS)
REF = {'quick': '2 ranks, all graphs with 3 nodes and distributions, unweighted or weights up to 4, every bipartition, symbolic limits that leave room for every node', 'thorough': 'the same with 4 nodes and up to 3 blocks'}
for x in ('lp', 'clp', 'jet', 'node_balancer', 'cluster_balancer'): UD('C27', x, REF, **DPARTS)
