/* life cycle over all shapes, types and layouts; sanitizers watch memory, and the heap must be balanced at the end */
#include "common.h"
#include "hdbscan/hdbscan.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define HEAP() __sanitizer_get_current_allocated_bytes()
#endif
#endif
#ifndef HEAP
#define HEAP() 0
#endif
static const int T[] = {H_DOUBLE, H_FLOAT, H_INT, H_LONG, H_SHORT, H_CHAR}; static const size_t SZ[] = {8, 4, 4, 8, 2, 1};
static void *data(int t, size_t cnt, uint64_t dom) {
    void *p = malloc(cnt * SZ[t]);
    for (size_t k = 0; k < cnt; k++) { int64_t v = (int64_t)rnd(dom) - 5; switch (t) { case 0: ((double *)p)[k] = (double)v / 3; break; case 1: ((float *)p)[k] = (float)v / 4; break; case 2: ((int *)p)[k] = (int)v; break;
        case 3: ((long *)p)[k] = v; break; case 4: ((short *)p)[k] = (short)v; break; default: ((char *)p)[k] = (char)v; } }
    return p;
}
static void use(hdbscan *sc, index_t n, int prn) {
    CHECK(sc->numPoints == n && sc->clusterLabels && sc->outlierScores && sc->hierarchy && sc->clusters, "a result is missing after running on %u points", n);
    size_t nc = sc->clusters->size;
    for (index_t i = 0; i < n; i++) CHECK(sc->clusterLabels[i] < nc && sc->clusterLabels[i] != 1, "%u points: label %u of point %u, %zu clusters", n, sc->clusterLabels[i], i, nc);
    for (index_t i = 0; i < n; i++) CHECK(sc->outlierScores[i].id < n, "outlier score of no point");
    hashtable *t = hdbscan_create_cluster_map(sc->clusterLabels, 0, n), *m = hdbscan_get_min_max_distances(sc, t); clustering_stats st;
    hdbscan_calculate_stats(m, &st); hdbscan_analyse_stats(&st);
    ArrayList *a = hdbscan_sort_by_similarity(m, NULL, CORE_DISTANCE_TYPE), *b = hdbscan_sort_by_length(t, NULL);
    CHECK(a->size == b->size && a->size == hashtable_size(t), "sorted lists");
    if (prn) { hdbscan_print_cluster_map(t); hdbscan_print_cluster_sizes(t); hdbscan_print_distance_map(m); hdbscan_print_stats(&st); hdbscan_print_outlier_scores(sc->outlierScores, n);
        hdbscan_print_hierarchies(sc->hierarchy, n, rnd(2) ? NULL : "hier"); graph_print(sc->mst); distances_print(&sc->distanceFunction); }
    array_list_delete(a); array_list_delete(b); hdbscan_destroy_distance_map(m); hdbscan_destroy_cluster_map(t);
}
static void life(unsigned long id) {
    hdbscan *sc = hdbscan_init(id % 3 == 2 ? malloc(sizeof *sc) : NULL, (index_t)(2 + rnd(5)));
    if (id % 9 == 8) hdbscan_clean(sc);
    int cycles = 1 + (int)rnd(3);
    for (int q = 0; q < cycles; q++) {
        int t = (int)rnd(6), rowwise = rnd(4) != 0; index_t r = (index_t)(id < 20 ? 1 + id / 2 : 1 + rnd(id % 15 == 14 ? 90 : 12)), c = (index_t)(1 + rnd(rowwise ? 5 : 4));
        if (!rowwise && r > 25) r = 25;
        void *p = data(t, (size_t)r * c, rnd(3) == 0 ? 3 : 100); index_t n = rowwise ? r : r * c;
        CHECK(hdbscan_run(sc, p, r, c, rowwise, (index_t)T[t]) == HDBSCAN_SUCCESS, "run failed on %u x %u", r, c);
        if (rnd(2)) { free(p); p = NULL; }
        use(sc, n, id % 6 == 5);
        for (int k = (int)rnd(3); k > 0; k--) { CHECK(hdbscan_rerun(sc, (index_t)(2 + rnd(7))) == HDBSCAN_SUCCESS, "rerun failed"); use(sc, n, 0); }
        free(p); nontrivial();
        if (q + 1 < cycles) { hdbscan_clean(sc); if (rnd(4) == 0) hdbscan_clean(sc); }
    }
    if (id % 4 == 3) { hdbscan_clean(sc); free(sc); } else hdbscan_destroy(sc);
}
void run_case(unsigned long id) {
    static int warm; if (!warm) { warm = 1; uint64_t s = rng_s; life(5); rng_s = s; }
    size_t a = HEAP(); life(id); size_t b = HEAP();
    CHECK(a == b, "%ld bytes were not released", (long)(b - a));
}
