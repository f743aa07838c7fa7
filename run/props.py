"""which functions, harness and leaf proofs decide each property"""
LIST = ['array_list_init', 'array_list_value_at', 'array_list_replace_at', 'array_list_append', 'array_list_insert_at', 'array_list_size',
        'array_list_empty', 'array_list_clear', 'array_list_remove_at', 'array_list_remove', 'array_list_pop', 'array_list_delete']
SET = ['set_init', 'set_insert', 'set_remove', 'set_remove_at', 'set_find', 'set_value_at', 'set_size', 'set_empty', 'set_clear', 'set_delete']
LL = ['linkedlist_init', 'linkedlist_front_add', 'linkedlist_tail_add', 'linkedlist_node_front_add', 'linkedlist_node_tail_add',
      'linkedlist_lookup_helper', 'linkedlist_lookup', 'linkedlist_remove', 'linkedlist_value_at', 'linkedlist_head', 'linkedlist_tail',
      'linkedlist_empty', 'linkedlist_clear', 'linkedlist_delete']
HT = ['get_htype_size', 'hashtable_init_size', 'hashtable_lookup_entry', 'hashtable_lookup', 'hashtable_insert', 'hashtable_remove',
      'hashtable_size', 'hashtable_empty', 'hashtable_clear', 'hashtable_destroy']

# id: dv functions, CBMC leaf proofs, harness (source, quick cases, thorough cases), run the OpenMP build of the harness too
PROPS = {
    'C01': dict(dv=LIST, h=('C01', 6000, 120000)),
    'C02': dict(dv=['array_list_find', 'binary_search', 'set_find'], h=('C02', 12000, 200000)),
    'C03': dict(dv=SET, h=('C03', 8000, 150000)),
    'C04': dict(dv=HT, h=('C04', 8000, 150000)),
    'C05': dict(dv=LL, h=('C05', 8000, 150000)),
    'C06': dict(leaf=['C06:' + f for f in 'int_compare short_compare long_compare char_compare double_compare float_compare int_ptr_compare short_ptr_compare long_ptr_compare char_ptr_compare double_ptr_compare float_ptr_compare outlier_score_compare cluster_compare ptr_compare'.split()], h=('C06', 4000, 100000)),
    'C07': dict(leaf=['C07:' + f + r for f in 'int_hash long_hash short_hash char_hash double_hash float_hash'.split() for r in ('', ':r')] + ['C07:double_hash_zero:r', 'C07:float_hash_zero:r'], h=('C07', 4000, 100000)),
    'C08': dict(leaf=['C08:find_prime_less_than', 'C08:find_prime_less_than:r'], h=('C08', 2000, 4000)),
    'C09': dict(dv=['array_list_delete', 'array_list_clear', 'set_delete', 'linkedlist_remove', 'linkedlist_clear', 'linkedlist_delete', 'hashtable_remove', 'hashtable_clear', 'hashtable_destroy', 'graph_clean', 'graph_destroy', 'cluster_destroy', 'distance_init', 'distance_clean', 'distance_destroy'], h=('C09', 16000, 300000)),
    'D01': dict(dv=['$distance-facts', 'TRIANGULAR_H', 'distance_get', 'distance_compute'], h=('D01', 20000, 400000)),
    'D02': dict(dv=['$distance-facts', 'TRIANGULAR_H', 'distance_compute'], h=('D02', 40000, 600000), omp=True),
    'D03': dict(dv=['$distance-facts', 'TRIANGULAR_H', 'distance_get', 'distance_get_core_distances', 'distance_compute'], h=('D03', 40000, 600000), omp=True),
    'G01': dict(dv=['graph_swap_edges', 'graph_select_pivot_index', 'graph_partition', 'graph_quicksort', 'graph_quicksort_by_edge_weight'], h=('G01', 20000, 300000)),
    'G02': dict(dv=['$graph-facts', 'graph_init', 'graph_remove_edge'], h=('G02', 20000, 300000), omp=True),
    'G03': dict(dv=['hdbscan_construct_mst'], h=('G03', 30000, 400000), omp=True),
    'T01': dict(dv=['cluster_init', 'cluster_detach_points', 'set_init'], h=('T01', 40000, 800000)),
    'T02': dict(dv=['cluster_propagate'], h=('T02', 30000, 600000)),
    'T03': dict(h=('T03', 30000, 400000), omp=True, level='exploration'),
    'T04': dict(h=('T04', 30000, 400000), omp=True, level='exploration'),
    'T05': dict(dv=['hdbscsan_calculate_outlier_scores'], h=('T05', 30000, 400000), omp=True),
    'T06': dict(h=('T06', 30000, 600000), omp=True, level='exploration'),
    'S01': dict(dv=['hdbscan_create_cluster_map'], h=('S01', 20000, 300000)),
    'S02': dict(dv=['hdbscan_get_min_max_distances'], h=('S02', 30000, 400000)),
    'S03': dict(dv=['hdbscan_calculate_stats_helper', 'hdbscan_calculate_stats'], h=('S03', 30000, 400000), omp=True),
    'S04': dict(leaf=['S04:hdbscan_analyse_stats'], h=('S04', 30000, 200000)),
    'S05': dict(dv=['partition', 'hdbscan_quicksort', 'hdbscan_sort_by_length', 'hdbscan_sort_by_similarity'], h=('S05', 40000, 400000), omp=True),
    'L01': dict(h=('L01', 10000, 200000), omp=True, level='exploration'),
    'L03': dict(h=('L03', 12000, 200000), omp=True, level='exploration'),
    'L02': dict(h=('L02', 8000, 120000), omp=True, level='exploration'),
}
_G = 'assumes: allocation succeeds, sequential reading of OpenMP pragmas, trusted verifier /verif/dv and solvers. '
NOTES = {
    'C01': 'Every operation proved against a sequence contract for all inputs (memory safety, content, frame). ' + _G + 'highestPowerof2 is a trusted contract, array_list_sort (libc qsort) bounded only.',
    'C02': 'Proved for all inputs with an abstract comparator that is a total preorder. ' + _G,
    'C03': 'Every set operation proved against a sorted-sequence contract for all inputs. ' + _G,
    'C04': 'Every hash table operation proved against a finite-map contract for all inputs, comparator and hash abstract. Destructor callbacks bounded only. ' + _G,
    'C05': 'Every list operation proved against a sequence contract for all inputs. ' + _G,
    'C06': 'Comparator contracts enforced by CBMC over the full domain (loop-free code, complete unwinding). ' + _G,
    'C07': 'Hash contracts and relational facts proved by CBMC over the full domain. ' + _G,
    'D01': 'Cell index of a pair proved injective and in range by non-linear lemmas; every write of distance_compute and every read of distance_get proved to go to that cell. ' + _G,
    'D02': 'Triple loop proved for the six element types against a recursive sum of squares over uninterpreted IEEE operations (order of summation as in the code). Storage below 2^47 bytes. ' + _G,
    'D03': 'Proved: cntLT(x)<=k and cntLE(x)>k for the stored value over all points (order statistic), for every matrix without NaN. ' + _G,
    'T01': 'Field-by-field contracts proved for all inputs; floating-point operations uninterpreted, in the order of the code. ' + _G,
    'T02': 'The selection rule, the accounts and the appended descendants proved for every cluster and parent, with unbounded descendant lists. ' + _G,
    'T05': 'The score formula, the ordering of the scores, the identity permutation and the frame proved for every number of points. libc qsort is a trusted contract. ' + _G,
    'G01': 'Partition, recursive and iterative quicksort proved: ascending weights, permutation of whole edges, every access inside the working stacks. Termination is bounded only. ' + _G,
    'G02': 'graph_init proved to build lists whose counts equal a recursive count over the edge list, in both allocation modes; graph_remove_edge proved entry by entry with a frame. ' + _G,
    'G03': 'Prim\'s loops proved for every number of points with ghost order of attachment: every point joins an earlier one, the edge weighs their mutual reachability distance, and no pair across the cut is nearer when it joins; self edges carry core distances; adjacency from the contract of graph_init. The cut property (such a tree is minimal) is the textbook theorem, compared with Kruskal by the harness. ' + _G,
    'S01': 'Grouping loop proved: one list per label, sizes equal a recursive count, every point at its place. Hash table used through a map view (client contract). ' + _G,
    'S02': 'Three nested loops proved: each recorded extreme bounds all values of its cluster and is one of them, for every cluster. Hash table used through a map view (client contract). ' + _G,
    'S03': 'Sums, moments, extremes and confidences proved as the formulas of the code over uninterpreted IEEE operations, for every number of clusters. ' + _G,
    'S05': 'Partition, recursive quicksort and both sorting functions proved: ascending keys, key/label pairs preserved, exactly the requested clusters. Termination bounded only. ' + _G,
    'C08': 'Prime search contract proved by CBMC for every argument (recursion completely unwound, unwinding assertions). List growth: see C01.',
}
