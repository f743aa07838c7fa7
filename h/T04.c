/* flat labels from synthetic hierarchies */
#include "common.h"
#include "hdbscan/hdbscan.h"
void run_case(unsigned long id) {
    index_t n = (index_t)(1 + rnd(id % 10 == 9 ? 300 : 25)); int L = (int)(1 + rnd(id % 7 == 6 ? 60 : 8)), m = (int)(1 + rnd(id % 6 == 5 ? 40 : 8));
    hdbscan *sc = hdbscan_init(NULL, 2); sc->numPoints = n;
    sc->clusters = ptr_array_list_init(4, cluster_compare); cluster *nul = NULL; array_list_append(sc->clusters, &nul);
    cluster *C[64]; int sel[64] = {0};
    for (int i = 1; i <= m; i++) { C[i] = cluster_init(NULL, (label_t)i, i == 1 ? NULL : C[1], 5, 10); array_list_append(sc->clusters, C + i);
        C[i]->offset = i == 1 ? 0 : (int64_t)rnd((uint64_t)L); if (i > 1 && rnd(3)) { sel[i] = 1; array_list_append(C[1]->propagatedDescendants, C + i); } }
    /* shuffle the selection */
    ArrayList *pd = C[1]->propagatedDescendants;
    for (size_t i = pd->size; i > 1; i--) { size_t j = rnd(i); cluster **d = (cluster **)pd->data, *t = d[i - 1]; d[i - 1] = d[j]; d[j] = t; }
    label_t *own = calloc(n, sizeof *own);           /* selected cluster of each point, 0: none */
    for (index_t j = 0; j < n; j++) { int c = 1 + (int)rnd((uint64_t)m); own[j] = sel[c] ? (label_t)c : 0; }
    sc->hierarchy = hashtable_init(L < 4 ? 16 : (size_t)L, H_LONG, H_PTR, long_compare);
    for (int64_t l = 0; l <= L; l++) {
        hierarchy_entry *e = hdbscan_create_hierarchy_entry(); e->edgeWeight = (double)(L - l); e->labels = malloc(n * sizeof(label_t));
        for (index_t j = 0; j < n; j++) {
            label_t v;
            do v = (label_t)rnd((uint64_t)m + 2); while (v && v <= (label_t)m && sel[v] && C[v]->offset + 1 == l);   /* not a cluster born here */
            if (own[j] && C[own[j]]->offset + 1 == l) v = own[j];
            e->labels[j] = v;
        }
        hashtable_insert(sc->hierarchy, &l, &e);
    }
    hdbscan_find_prominent_clusters(sc, (int32_t)rnd(2));
    CHECK(sc->clusterLabels, "no labels");
    for (index_t j = 0; j < n; j++) CHECK(sc->clusterLabels[j] == own[j], "%u points: label of %u is %u, expected %u", n, j, sc->clusterLabels[j], own[j]);
    if (pd->size) nontrivial();
    free(own); hdbscan_destroy(sc);
}
