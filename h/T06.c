/* hierarchy of a weighted tree against a direct simulation */
#include "sim.h"
void run_case(unsigned long id) {
    n = (int)(id < 12 ? id + 1 : 1 + rnd(id % 20 == 19 ? N - 2 : 22)); minp = 2 + (int)rnd(id % 3 == 0 ? 2 : 6); uint64_t dom = id % 4 == 0 ? 3 : id % 4 == 1 ? 8 : 1000000; m = 0;
    int shape = (int)(id / 4 % 4);
    for (int v = 1; v < n; v++) { int p = shape == 0 ? v - 1 : shape == 1 ? 0 : shape == 2 ? v / 2 : (int)rnd((uint64_t)v); ea[m] = v; eb[m] = p; if (rnd(2)) { ea[m] = p; eb[m] = v; } ew[m] = (double)(1 + rnd(dom)) / 4; if (id % 7 == 5) ew[m] *= 1 + (double)rnd(3) * (id % 2 ? 4e-16 : 1e-11); m++; }
    int self = id % 5 != 4; if (n == 1) self = 1;
    if (self) for (int v = 0; v < n; v++) { double w = 1e9; for (int e = 0; e < n - 1; e++) if ((ea[e] == v || eb[e] == v) && ew[e] < w) w = ew[e]; if (w == 1e9) w = 1; if (rnd(2)) w *= rndu(); if (rnd(12) == 0) w = 0; ea[m] = eb[m] = v; ew[m++] = w; }
    int perm[N]; for (int v = 0; v < n; v++) perm[v] = v;
    for (int i = n; i > 1; i--) { int j = (int)rnd((uint64_t)i), t = perm[i - 1]; perm[i - 1] = perm[j]; perm[j] = t; }
    hdbscan *sc = hdbscan_init(NULL, (index_t)minp); sc->numPoints = (index_t)n;
    ArrayList *A = array_list_init((size_t)m, sizeof(index_t), int_compare), *B = array_list_init((size_t)m, sizeof(index_t), int_compare), *W = array_list_init((size_t)m, sizeof(distance_t), double_compare);
    for (int e = 0; e < m; e++) { index_t a, b; ea[e] = perm[ea[e]]; eb[e] = perm[eb[e]]; a = (index_t)ea[e]; b = (index_t)eb[e]; array_list_append(A, &a); array_list_append(B, &b); array_list_append(W, ew + e); }
    sc->mst = graph_init(NULL, (index_t)n, A, B, W); graph_quicksort_by_edge_weight(sc->mst);
    sc->clusters = ptr_array_list_init(4, cluster_compare); sc->hierarchy = hashtable_init(16, H_LONG, H_PTR, long_compare);
    double *pn = malloc((size_t)n * sizeof *pn); label_t *pl = malloc((size_t)n * sizeof *pl); for (int v = 0; v < n; v++) { pn[v] = -1; pl[v] = 9999; }
    simulate();
    hdbscan_compute_hierarchy_and_cluster_tree(sc, 0, pn, pl);
    check_hierarchy(sc);
    for (int v = 0; v < n; v++) CHECK(pn[v] == noise[v] && pl[v] == (label_t)map[last[v]], "%d points, minimum %d: point %d became noise at %g from cluster %u, expected %g and %d", n, minp, v, pn[v], pl[v], noise[v], map[last[v]]);
    if (nk > 2) nontrivial();
    free(pn); free(pl); hdbscan_destroy(sc);
}
