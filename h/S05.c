/* sorting clusters by confidence and by number of points */
#include "common.h"
#include "hdbscan/hdbscan.h"
void run_case(unsigned long id) {
    size_t n = rnd(id % 10 == 9 ? 120 : 9); int ties = id % 2, mode = (int)(id / 2 % 3), given = (int)(id / 6 % 3); static label_t key[200]; static double val[200]; static distance_values *dv[200];
    if (n == 0 && id % 4) n = 1;
    hashtable *t = hashtable_init_size(n ? n : 1, H_INT, H_PTR, int_compare);
    for (size_t i = 0; i < n; i++) {
        key[i] = (label_t)(i * 5 + rnd(5));
        if (mode == 2) { size_t len = rnd(ties ? 4 : 60); ArrayList *l = array_list_init(len + 1, sizeof(index_t), int_compare); for (index_t k = 0; k < len; k++) array_list_append(l, &k); val[i] = (double)len; hashtable_insert(t, key + i, &l); }
        else { dv[i] = malloc(sizeof **dv); dv[i]->cr_confidence = ties ? (double)rnd(3) : rndu() * 100; dv[i]->dr_confidence = ties ? (double)rnd(3) : rndu() * 100; if (id % 11 == 7 && rnd(3) == 0) dv[i]->cr_confidence = dv[i]->dr_confidence = NAN; val[i] = mode ? dv[i]->dr_confidence : dv[i]->cr_confidence; hashtable_insert(t, key + i, dv + i); }
    }
    ArrayList *in = NULL; int want[1200] = {0}; size_t wn = 0;
    if (given == 0) { for (size_t i = 0; i < n; i++) want[key[i]]++; wn = n; }
    else { in = array_list_init(4, sizeof(label_t), int_compare); size_t m = given == 1 ? 0 : n; size_t perm[200]; for (size_t i = 0; i < n; i++) perm[i] = i;
        for (size_t i = n; i > 1; i--) { size_t j = rnd(i), x = perm[i - 1]; perm[i - 1] = perm[j]; perm[j] = x; }
        for (size_t i = 0; i < m; i++) if (rnd(4)) { array_list_append(in, key + perm[i]); want[key[perm[i]]]++; wn++; }
        if (wn == 0) { for (size_t i = 0; i < n; i++) want[key[i]]++; wn = n; } }
    ArrayList *o = mode == 2 ? hdbscan_sort_by_length(t, in) : hdbscan_sort_by_similarity(t, in, mode ? INTRA_DISTANCE_TYPE : CORE_DISTANCE_TYPE);
    CHECK(o && (!in || o == in), "another list came back");
    CHECK(o->size == wn, "%zu clusters, expected %zu", o->size, wn);
    double last = -1;
    for (size_t i = 0; i < wn; i++) { label_t k = ((label_t *)o->data)[i]; CHECK(k < 1200 && want[k] == 1, "cluster %u is not one of those requested, or is repeated", k); want[k] = 2;
        double v = -7; for (size_t q = 0; q < n; q++) if (key[q] == k) v = val[q];
        if (isnan(v)) continue; CHECK(v >= last, "position %zu of %zu: cluster %u has %g after %g", i, wn, k, v, last); last = v; }
    if (wn > 1) nontrivial();
    array_list_delete(o);
    if (mode == 2) hdbscan_destroy_cluster_map(t); else hdbscan_destroy_distance_map(t);
}
