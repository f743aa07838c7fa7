/* the cluster map of a range of labels */
#include "common.h"
#include "hdbscan/hdbscan.h"
void run_case(unsigned long id) {
    index_t n = (index_t)(id < 40 ? id % 20 : rnd(id % 10 == 9 ? 2000 : 40)), dom = (index_t)(1 + rnd(id % 3 == 0 ? 3 : id % 3 == 1 ? 60 : 100000));
    label_t *l = malloc((n + 1) * sizeof *l); for (index_t i = 0; i < n; i++) l[i] = (label_t)rnd(dom) * (id % 4 == 3 ? 37 : 1);
    index_t b = rnd(2) ? 0 : (index_t)rnd(n + 1u), e = rnd(2) ? n : b + (index_t)rnd(n - b + 1u);
    label_t *cp = malloc((n + 1) * sizeof *cp); memcpy(cp, l, n * sizeof *l);
    hashtable *t = hdbscan_create_cluster_map(l, b, e);
    CHECK(t && !memcmp(cp, l, n * sizeof *l), "labels changed");
    size_t distinct = 0, total = 0;
    for (index_t i = b; i < e; i++) {
        int first = 1; if (n < 300) { for (index_t k = b; k < i; k++) if (l[k] == l[i]) first = 0; } else { first = rnd(20) == 0; }
        if (!first) continue;
        distinct++; ArrayList *g = NULL;
        CHECK(hashtable_lookup(t, l + i, &g) == 1 && g, "label %u missing", l[i]);
        size_t k = 0;
        for (index_t j = b; j < e; j++) if (l[j] == l[i]) { CHECK(k < g->size && ((index_t *)g->data)[k] == j, "range [%u,%u): entry %zu of label %u is wrong", b, e, k, l[i]); k++; }
        CHECK(k == g->size, "label %u has %zu points, expected %zu", l[i], g->size, k);
        total += k;
    }
    if (n < 300) { CHECK(hashtable_size(t) == distinct, "%zu labels, expected %zu", hashtable_size(t), distinct); CHECK(total == e - b, "points"); }
    if (e > b) nontrivial();
    hdbscan_destroy_cluster_map(t); free(l); free(cp);
}
