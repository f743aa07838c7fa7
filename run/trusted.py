COMMON = [
    'the verifier of /verif/dv (IR front end, symbolic semantics, loop-invariant inference, obligation generation) and its solvers z3 and cvc5 are trusted',
    'clang 18 translates the C source to the LLVM IR that is verified (-O0 then mem2reg/SROA and loop-simplify); the production build uses gcc -O3',
    'OpenMP pragmas are dropped: parallel loops are verified as sequential loops',
    'every allocation succeeds and is at most 2^47 bytes',
    'integer arithmetic is modelled exactly (wrapping is an obligation or modelled); floating-point operations are uninterpreted or axiomatised where stated',
]
PER = {
    'C01': ['highestPowerof2 (log2/pow in floating point) is assumed to return a value in (n, 2n] for 1 <= n <= 2^48; bounded-tested under C08', 'array_list_sort (libc qsort) is only bounded-tested'],
    'C02': ['the comparator is a pure total preorder on elements'],
    'C03': ['the comparator is a pure total preorder on elements (proved for the library comparators by C06)'],
    'C04': ['the comparator is a pure total order on keys, and equal keys hash alike (C06, C07)', 'destructor callbacks passed to clear/destroy are only bounded-tested; the proof covers NULL callbacks'],
    'C05': ['fewer than 2^31 elements, element size below 2^31'],
    'C09': ['the contracts demand the blocks be released (a heap map of allocated blocks is part of every contract); the element destructors passed by the caller are only bounded-tested (heap balance measured by AddressSanitizer)', 'objects of a graph, cluster or distance object are separate storage, as their constructors establish'],
    'D01': ['the storage of the distances is below 2^47 bytes'],
    'D02': ['IEEE facts used: a-b is a number for finite a, b; sums of non-negative numbers, squares and roots of non-negative numbers are non-negative numbers; commutativity of + and *', 'coordinates are finite', 'the storage of the distances is below 2^47 bytes'],
    'D03': ['no distance is NaN', 'counting functions cntLT/cntLE are defined by recursion; their monotonicity is proved by induction steps ($distance-facts)'],
    'T05': ['libc qsort permutes the elements and orders them by its comparator when that comparator is a total preorder (trusted contract; outlier_score_compare is proved by C06)', 'the order is claimed when no score and no core distance is NaN', 'the last cluster of every point is an existing cluster, all arrays have one entry for each point (preconditions)', 'fewer than 2^31 points'],
    'G01': ['no edge weight is NaN; fewer than 2^31 edges; the three edge lists have separate storage', 'a permutation is the least relation that is reflexive, transitive and contains every exchange of two edges (definition, not axiomatised further)', 'termination is not proved (partial correctness); the harness would hang or time out'],
    'G03': ['the cut property: a spanning tree grown by joining, at every step, a nearest pair across the cut is minimal (textbook theorem, not mechanised; the harness compares totals with Kruskal\'s)', 'distances and core distances are numbers, not NaN (precondition); mutual reachability distances above D_MAX count as D_MAX', 'at least one point, at least two when self edges are disabled (precondition); fewer than 2^31 points', 'the array of attached points holds 0 and 1 only and attaches one point per store (recognised by the ghost code; anything else is refused)', 'graph_init and distance_get through their contracts (G02, D01)'],
    'G02': ['at least one vertex, fewer than 2^32 edges, every end point is a vertex (preconditions)', 'adjacency lists of different vertices are separate objects (established by graph_init, assumed by graph_remove_edge)', 'int_compare is zero exactly on equal numbers (C06)', 'the prefix-count lemma is an induction whose base and step are discharged ($graph-facts); the induction principle itself is meta-level'],
    'T01': ['no more points are detached than the cluster has (its callers: T06)'],
    'T02': ['a cluster and its parent are different and their descendant lists separate; fewer than 2^32-1 descendants'],
    'S01': ['the hash table is used through a map view (client contracts of lookup/insert/init): has, value and key order as a function of memory owned by the table alone; C04 proves the table operations against the representation, the step from there to the view is not machine-checked', 'fewer than 2^31-1 points in the range'],
    'S02': ['the hash table is used through a map view (client contract, see S01)', 'no distance or core distance is NaN', 'every list of the map holds at least one point and only points of the data set (established by S01)', 'verified on the IR after early-cse and simplifycfg as well (shared loads, merged short-circuit conditions)'],
    'S03': ['the hash table is used through a map view (client contract, see S01)', 'the range objects of different labels are separate', 'pow, sqrt and the floating-point operations are uninterpreted functions, fixed by the order of the code'],
    'S05': ['the hash table is used through a map view (client contract, see S01)', 'no confidence is NaN for the order (termination with undefined confidences is bounded only)', 'termination of the quicksort is not proved', 'at most 2^31-2 clusters'],
}
