#!/usr/bin/env python3
"""writes properties.jsonl and MANIFEST.json from one list, so that they stay in step (python3 run/gen.py)"""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
from run.props import PROPS, NOTES
C = 'modules/collections/src/'
COL = [C + 'list.c']
P = []


def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text}, 'why_tests_cant': why,
              'anchors': {'files': files, 'state': state or [], 'mechanism': [{'name': a, 'where': b} for a, b in mech],
                          'observe_at': observe or [], 'hook_needed': None}})


p('C01', 'ArrayList behaves as a growable sequence',
  'After any sequence of append, insert, replace, remove, pop and clear operations an array list holds exactly the elements a mathematical sequence would hold, in the same order. Storage grows when needed without losing or corrupting an element, indices out of range are refused without changing the list, and no operation reads or writes outside the list\'s storage.',
  ['inputs', 'histories'], 'every element size, every content, every history of operations and every index',
  'the suite runs one scripted sequence on ints; reallocation boundaries, every index position and other element sizes are not reached',
  [C + 'list.c'], [('growth to the next power of two and shifting of the tail', C + 'list.c: array_list_append, array_list_insert_at, array_list_remove_at')],
  ['array_list_value_at', 'array_list_size'])
p('C02', 'Searching a list or a set finds an element exactly when it is there',
  'Looking up a value in an unordered array list returns the first index that holds an equal element. Looking it up in a set, or in a list declared to be sorted, returns an index that holds an equal element. In each case the answer is -1 exactly when no element is equal.',
  ['inputs'], 'every list, every sorted list or set, and every sought value', 'the tests look up a handful of ints, none at the boundaries of the bisection or past duplicates',
  [C + 'set.c'], [('linear scan and binary search', C + 'list.c: array_list_find; ' + C + 'set.c: binary_search, set_find')], ['array_list_find', 'set_find'])
p('C03', 'A set stays sorted and duplicate-free and holds exactly what was inserted',
  'After any history of insertions and removals a set contains exactly the values inserted and not removed since, each once, in ascending order of its comparator. Insertion reports whether the value was new, removal whether it was present, and positional access and removal deliver the element at that rank.',
  ['inputs', 'histories'], 'every history of set operations over every element size and totally ordered comparator', 'the tests insert one fixed sequence; ordering and membership after arbitrary interleavings are not reached',
  [C + 'set.c'], [('sorted array with binary search', C + 'set.c: set_insert, set_remove, set_remove_at')], ['set_value_at', 'set_find', 'set_size'])
p('C04', 'The hash table is a finite map',
  'After any history of insertions, replacements, removals and clearings a lookup returns the value most recently stored under that key, or reports it missing when there is none. The key set and the size always agree with the stored entries, replacing a value hands back the old one, removing hands back the stored one, and entries whose keys collide never disturb one another.',
  ['inputs', 'histories'], 'every history over every supported key and value type, every bucket count and every collision pattern', 'the tests use few keys of one type, hardly any colliding, and never compare the key set with the chains after removals',
  [C + 'hashtable.c', C + 'linkedlist.c'], [('bucket chains plus a sorted key set', C + 'hashtable.c: hashtable_insert, hashtable_remove, hashtable_clear')], ['hashtable_lookup', 'hashtable_size'])
p('C05', 'The doubly linked list keeps order, links and size consistent',
  'After any history of additions at the front, at the tail or next to a node, and of removals, a linked list enumerates exactly the elements a sequence would hold, in the same order forwards and backwards. Its size, head and tail agree with the chain, and the ends of the chain point nowhere.',
  ['inputs', 'histories'], 'every history of list operations, every element value and size', 'the tests add and remove a few ints and never check the back links, removals in the middle or at the tail',
  [C + 'linkedlist.c'], [('prev/next links and cached ends', C + 'linkedlist.c: linkedlist_node_unhook, linkedlist_front_add, linkedlist_tail_add')], ['linkedlist_value_at', 'linkedlist_lookup'])
p('C06', 'Comparators are total orders that agree with the numeric order',
  'Each provided comparator returns a negative, zero or positive number exactly as the first value is below, equal to or above the second, for the whole domain of its type (NaN excepted), so it is antisymmetric and transitive. Outlier scores are ordered by score, then core distance, then point number, and clusters by label.',
  ['inputs'], 'all pairs of values of each type', 'overflow at the extremes of a type and tie-breaking are never sampled by the tests',
  ['modules/utils/src/utils.c', 'src/outlier_score.c', 'src/cluster.c'], [('explicit comparisons', 'modules/utils/src/utils.c: int_compare ...; src/outlier_score.c: outlier_score_compare; src/cluster.c: cluster_compare')])
p('C07', 'Hash functions give equal keys equal buckets',
  'Equal keys hash to the same bucket, bit patterns that compare equal included (such as positive and negative zero), and the bucket of a key is always in range. Hashing depends on the key and the bucket count only.',
  ['inputs'], 'all pairs of keys of each type and all bucket counts', 'the tests look at a few positive keys; extremes and signed zero never occur',
  ['modules/utils/src/utils.c'], [('hash functions', 'modules/utils/src/utils.c: int_hash, long_hash, double_hash ...')])
p('C08', 'Bucket counts and list capacities are always adequate',
  'The bucket count picked for a requested capacity is the largest tabulated prime strictly below it for every capacity the table covers, and at least 3 for smaller ones, and every created hash table has at least one bucket. A growing list always obtains a capacity strictly above its current size.',
  ['inputs'], 'every requested capacity', 'the test for primes fails already at the baseline for unrelated reasons and only samples some values',
  [C + 'primes.c', C + 'hashtable.c', C + 'list.c'], [('binary search in the prime table', C + 'primes.c: find_prime_less_than'), ('power-of-two growth', 'modules/utils/src/utils.c: highestPowerof2')])
p('C09', 'Containers release what they own exactly once',
  'Clearing or destroying a list, set, linked list, hash table, graph, cluster or distance object, or removing an element from one, releases every block of memory that belonged to what is gone exactly once, and nothing else. A destructor, when given, runs once for every element still held. An object that was cleared stays usable and refers to nothing that was released.',
  ['inputs', 'histories'], 'every object and every history of insertions, removals, clearings and destructions', 'the tests check no allocation; leaks and stale pointers stay invisible without inspection of the heap',
  [C + 'list.c', C + 'linkedlist.c', C + 'hashtable.c', 'src/undirected_graph.c', 'src/cluster.c', 'src/distance.c'],
  [('clearing and destroying', C + 'hashtable.c: hashtable_clear, hashtable_destroy, hashtable_remove; ' + C + 'linkedlist.c: linkedlist_clear; src/undirected_graph.c: graph_clean; src/cluster.c: cluster_destroy; src/distance.c: distance_clean')])
D = 'src/distance.c'
p('D01', 'Pairwise distances are stored without overlap and read back symmetrically',
  'Each unordered pair of distinct points owns exactly one cell of the distance storage, inside it, for every number of points the types allow. Reading the distance between two points gives the value stored for that pair whichever way round they are named, and 0 for a point and itself.',
  ['inputs'], 'every number of points and every pair of points', 'index collisions and overflow only appear for particular pairs or very large data sets',
  [D], [('linearised upper triangle', D + ': distance_get, distance_compute')], ['distance_get'])
p('D02', 'Computed distances are the Euclidean distances of the rows',
  'For each of the six supported element types the distance stored for two points is the square root of the sum over all columns of the squared differences of their coordinates. No coordinate, row or column is skipped, counted twice or taken from elsewhere, and extreme integer coordinates do not overflow.',
  ['inputs'], 'every data set, shape and element type', 'the tests compute double data only and compare clusters, not distances',
  [D], [('triple loop over rows and columns', D + ': distance_compute')], ['distance_get'])
p('D03', 'Core distances are exact order statistics',
  'The core distance of a point is exactly the (k+1)-th smallest of its distances to all points, itself included, where k is the configured number of neighbours; with ties counted as often as they occur. With no more than k points it is the largest representable distance.',
  ['inputs'], 'every matrix of distances, with and without ties, and every number of neighbours', 'the insertion and its early exits go wrong only for particular orders and ties of distances',
  [D], [('insertion into a sorted window of k+1 values', D + ': distance_get_core_distances')])
G = 'src/undirected_graph.c'
p('G01', 'Sorting the edges orders weights and keeps edges intact',
  'After sorting, the edge weights of a graph ascend and the list of edges, each with its two end points and its weight, is a permutation of the list before. Sorting terminates and stays inside its working storage for every number of edges and pattern of ties.',
  ['inputs'], 'every list of edges and weights', 'partition errors show for particular orders and ties only, and the clusters of the tests do not expose a misplaced edge',
  [G], [('iterative quicksort with explicit stack', G + ': graph_quicksort_by_edge_weight, graph_partition, graph_swap_edges')])
p('G02', 'Adjacency lists mirror the edge list and edge removal is exact',
  'A new graph lists each edge in the adjacency of both end points, a self edge once, and nothing else. Removing an edge removes one occurrence of each end point from the adjacency of the other, if there, and leaves every other adjacency entry and the edge list unchanged.',
  ['inputs', 'histories'], 'every edge list, self and parallel edges included, and every history of removals', 'tests never inspect adjacency lists',
  [G], [('adjacency lists', G + ': graph_init, graph_remove_edge')])
H = 'src/hdbscan.c'
p('G03', 'The minimum spanning tree is a minimum spanning tree',
  'The tree edges built for a data set span all points without a cycle, each carrying the mutual reachability distance of its end points (the largest of their distance and two core distances), and no spanning tree has a smaller total. When self edges are enabled each point has one, weighted with its core distance.',
  ['inputs'], 'every matrix of distances, with ties, and every number of points from one (two when self edges are disabled)', 'the tests compare final clusters of a few data sets; a wrong attachment usually yields the same clusters',
  [H], [('Prim\'s algorithm', H + ': hdbscan_construct_mst')])
p('T01', 'Detaching points accounts size, stability and death of a cluster',
  'When points leave a cluster at a level its size drops by their number, its stability grows by their number times the difference of the inverse level and the inverse birth level, and nothing else changes; when the last points leave, that level becomes its death level. A new cluster starts with the given label, parent, birth level and size and empty accounts, and its parent is marked as having children.',
  ['inputs'], 'every cluster state, number of points and level', 'the tests see only the clusters finally selected',
  ['src/cluster.c'], [('cluster accounting', 'src/cluster.c: cluster_init, cluster_detach_points')])
p('T02', 'A cluster propagates the better of itself and its descendants',
  'Propagating a cluster passes to its parent the lowest death level beneath it and either the cluster itself with its own stability, when it has no children, satisfies more constraints than its descendants, or satisfies as many and is at least as stable, or otherwise its selected descendants with their total. A root propagates nothing, and no other cluster changes.',
  ['inputs'], 'every combination of constraints, stabilities, death levels and descendants', 'constraints and ties in stability do not occur in the tests\' data',
  ['src/cluster.c'], [('propagation rule', 'src/cluster.c: cluster_propagate')])
p('T03', 'Tree propagation visits each cluster once, children first',
  'Propagation over the cluster tree propagates every cluster exactly once and only after all its children, so the root ends up with the selection of greatest total stability. It reports infinite stability exactly when some cluster\'s stability is infinite.',
  ['inputs', 'schedules'], 'every cluster tree in which parents have smaller labels than their children', 'deep or irregular trees and infinite stability do not occur in the tests',
  [H], [('descending label order over a work set', H + ': hdbscan_propagate_tree')])
p('T04', 'Flat labels come from the selected clusters',
  'Each point gets the label of the selected cluster it belongs to at the level just below that cluster\'s birth, and the noise label 0 when it belongs to none. Every selected cluster labels all the points it was born with and no others.',
  ['inputs'], 'every hierarchy and selection', 'the tests compare a few data sets with few levels',
  [H], [('labels from hierarchy level of birth', H + ': hdbscan_find_prominent_clusters')])
p('T05', 'Outlier scores follow their formula and order',
  'The outlier score of a point is 1 minus the ratio of the lowest death level beneath its last cluster to the level at which it became noise, and 0 when that level is 0. Each point has exactly one entry, with its core distance, and the entries are sorted by score, then core distance, then point number.',
  ['inputs'], 'every set of noise levels, last clusters and death levels', 'the tests never look at outlier scores',
  [H, 'src/outlier_score.c'], [('score loop and sort', H + ': hdbscsan_calculate_outlier_scores')])
p('T06', 'The hierarchy records the successive splits of the spanning tree',
  'Removing the spanning tree\'s edges by descending weight, a connected part of at least the minimum number of points is a cluster, smaller parts become noise at that weight, and a cluster is replaced only when at least two of its parts are clusters. Each recorded level holds every point\'s label just before that weight\'s removal, and every point\'s noise level and last cluster agree with this.',
  ['inputs', 'histories'], 'every weighted tree with self edges, minimum cluster size and pattern of ties', 'the tests compare final labels of four data sets; wrong noise levels, tie handling and split order stay invisible',
  [H], [('edge removal loop with component exploration', H + ': hdbscan_compute_hierarchy_and_cluster_tree')])
p('S01', 'The cluster map groups the points of a range by label',
  'The cluster map of a range of labels has one entry per distinct label in the range, and the entry lists, in ascending order, exactly the indices of the range carrying that label.',
  ['inputs'], 'every label array and range', 'the tests build maps from whole label arrays of fixed data',
  [H], [('grouping loop', H + ': hdbscan_create_cluster_map')])
p('S02', 'Cluster distance ranges are the true extremes',
  'For each cluster the recorded largest core and pairwise distances are the true maxima over its members and pairs; the smallest are the minima over the non-zero values, a zero core distance counting only when it is the first member\'s. A cluster without a non-zero pairwise distance keeps an empty pairwise range.',
  ['inputs'], 'every cluster map and every matrix of distances', 'zero distances and extremes at the end of a list occur only for particular data',
  [H], [('pair loop', H + ': hdbscan_get_min_max_distances')])
p('S03', 'Clustering statistics follow their definitions',
  'Mean, maximum, sample variance, standard deviation, skewness and kurtosis of the clusters\' distance ratios follow their textbook formulas over all clusters, whatever the statistics structure held before. Each cluster\'s confidence is the distance of its ratio from the largest ratio, as a percentage of the largest.',
  ['inputs'], 'every set of ratios and every previous content of the structure', 'the tests do not compare a single statistic with its definition',
  [H], [('two-pass sums', H + ': hdbscan_calculate_stats_helper, hdbscan_calculate_stats, hdbscan_skew_kurt_1')])
p('S04', 'The validity verdict depends only on the signs of skewness and kurtosis',
  'The verdict is the sum of one contribution for the pairwise and one for the core distances: 2 when skewness and kurtosis are both positive, 1 when skewness is negative and kurtosis positive, 0 when skewness is positive and kurtosis negative, and -1 otherwise. It depends on nothing else.',
  ['inputs'], 'all values, zeros, infinities and NaN included', 'tests reach two or three of the sign combinations',
  [H], [('decision table', H + ': hdbscan_analyse_stats')])
p('S05', 'Sorting clusters orders them by the requested key',
  'Sorting clusters by similarity or by length returns exactly the requested clusters (all clusters when none are given), each once, in ascending order of the confidence of the requested kind or of the number of points. Each cluster is ranked by its own value, and sorting ends even when some confidence is undefined.',
  ['inputs'], 'every map of clusters, every selection and every pattern of ties', 'the tests sort a few fixed maps',
  [H], [('paired quicksort', H + ': partition, hdbscan_quicksort, hdbscan_sort_by_similarity, hdbscan_sort_by_length')])
p('L01', 'Every data set can be clustered, re-clustered and released safely',
  'For every non-empty data set of any supported shape, element type and layout, running, re-running with another neighbourhood size, cleaning and destroying never accesses memory it does not own, releases each resource exactly once, and leaves one label per point. Cleaning makes the object reusable.',
  ['inputs', 'histories', 'configurations'], 'every data set shape, from one point, and every sequence of run, rerun, clean and destroy', 'the tests run four data sets of hundreds of points, once each, without sanitizers',
  [H, D, G], [('ownership of results', H + ': hdbscan_init, hdbscan_run, hdbscan_rerun, hdbscan_minimal_clean, hdbscan_clean')])
p('L02', 'Results do not depend on how the run was reached',
  'Re-running with a neighbourhood size gives the same labels, hierarchy, core distances and outlier scores as a fresh run with that size. Repeating a run gives the same results again, also with several threads.',
  ['inputs', 'histories', 'schedules'], 'every data set, every sequence of neighbourhood sizes and every thread schedule', 'the tests never re-run and compare',
  [H, D], [('state reset before a rerun', H + ': hdbscan_rerun, hdbscan_minimal_clean')])
p('L03', 'A run is the composition of its stages',
  'After a run or a rerun the distances, core distances, sorted spanning tree, hierarchy, selected clusters, labels and outlier scores are those obtained by applying the stages one after another (distances, core distances with minimum points minus one neighbours, spanning tree with self edges, ascending sort by weight, hierarchy, propagation, prominent clusters, outlier scores) to the data set given, with the configured minimum number of points, for every element type, layout and shape of the data set.',
  ['inputs', 'histories'], 'every data set, element type, layout, shape and neighbourhood size', 'the tests compare a few labels of fixed data sets and no intermediate stage',
  [H, D, 'src/outlier_score.c', 'src/undirected_graph.c'], [('the run', H + ': hdbscan_run, hdbscan_do_run, hdbscan_rerun')])
p('B01', 'The C++, Python and Java-facing interfaces give the same results as the C core',
  'Clustering the same data through the object interface gives the same labels, hierarchy and scores as the C functions.',
  ['inputs'], 'every data set', 'the tests use one interface per test and never compare',
  ['src/hdbscan.cpp', 'src/distance.cpp', 'src/undirected_graph.cpp'], [('forwarding member functions', 'src/hdbscan.cpp')])

NA = {'B01': 'the object interface is C++ with std::map/std::string containers; no deductive verifier for C++ is installed (cbmc\'s C++ front end rejects libstdc++, /verif/dv has no model of the containers), and each member function only forwards to a C function that is verified under the other properties'}
if __name__ == '__main__':
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for q in P:
            assert len(q['title']) <= 80, q['title']
            f.write(json.dumps(q) + '\n')
    checks, na = [], []
    for q in P:
        i = q['id']
        if i in PROPS:
            level = PROPS[i].get('level', 'proof')
            checks.append({'property': i, 'quick_cmd': 'python3-vt run/check.py ' + i, 'thorough_cmd': 'python3-vt run/check.py ' + i,
                           'evidence_file': 'evidence/%s.json' % i,
                           'technique': 'contract-based deductive verification of the extracted C code' if level == 'proof' else 'contract-based deductive verification where in reach, labelled bounded stand-in for the rest',
                           'level': level, 'level_note': NOTES.get(i, 'see DESIGN.md')})
        else:
            na.append({'property': i, 'reason': NA.get(i, 'machinery for this property is still under construction')})
    m = {'version': 1, 'setup_cmd': 'bash run/setup.sh', 'checks': checks, 'not_applicable': na,
         'notes': 'no hooks in /repo: the C sources are verified as they are. DESIGN.md describes the verifier, what each property rests on, and the repaired defects (known_findings.txt).'}
    json.dump(m, open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')


def table():
    """the tables of DESIGN.md"""
    import re
    titles = {x['id']: x['title'] for x in P}
    rows = ['| id | property | level | functions under contract (dv; CBMC leaf contracts) | bounded harness (quick/thorough cases) |', '|---|---|---|---|---|']
    for i, v in PROPS.items():
        fn = ', '.join(v.get('dv', [])) + ('; CBMC: ' + ', '.join(x.split(':', 1)[1] for x in v['leaf']) if v.get('leaf') else '')
        rows.append('| %s | %s | %s | %s | %s %d/%d%s |' % (i, titles[i], v.get('level', 'proof'), fn or '-', *v['h'], ' + OpenMP build' if v.get('omp') else ''))
    sd = ['| change | property | what it breaks | needs | caught by |', '|---|---|---|---|---|']
    for d in sorted(os.listdir(V + '/seeded')):
        m = json.load(open('%s/seeded/%s/meta.json' % (V, d)))
        sd.append('| %s | %s | %s | %s | %s |' % (d, m['property'], m['what_it_breaks'], m['needs'], m.get('caught', 'harness of %s' % m['property'])))
    s = open(V + '/DESIGN.md').read()
    for k, t in (('state', rows), ('seeded', sd)):
        s = re.sub('(<!-- %s -->).*(<!-- /%s -->)' % (k, k), lambda mm: mm.group(1) + '\n' + '\n'.join(t) + '\n' + mm.group(2), s, flags=re.S)
    open(V + '/DESIGN.md', 'w').write(s)


table()
