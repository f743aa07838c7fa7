/* smallest and largest core and pairwise distances of each cluster */
#include "common.h"
#include "hdbscan/hdbscan.h"
void run_case(unsigned long id) {
    index_t n = (index_t)(1 + rnd(id % 10 == 9 ? 60 : 14)), dom = (index_t)(1 + rnd(5)); int vals = id % 2 ? 4 : 100000;
    hdbscan *sc = hdbscan_init(NULL, 2); sc->numPoints = n; distance *d = &sc->distanceFunction; d->rows = n; d->cols = 1;
    size_t cells = (size_t)n * (n - 1) / 2; d->distances = malloc((cells ? cells : 1) * sizeof(double)); d->coreDistances = malloc(n * sizeof(double));
    for (size_t i = 0; i < cells; i++) d->distances[i] = (double)rnd((uint64_t)vals) / 4;
    for (index_t i = 0; i < n; i++) d->coreDistances[i] = (double)rnd((uint64_t)vals) / 4;
    label_t *l = malloc(n * sizeof *l); for (index_t i = 0; i < n; i++) l[i] = (label_t)rnd(dom);
    hashtable *t = hdbscan_create_cluster_map(l, 0, n), *m = hdbscan_get_min_max_distances(sc, t);
    CHECK(hashtable_size(m) == hashtable_size(t), "%zu entries for %zu clusters", hashtable_size(m), hashtable_size(t));
    for (index_t i = 0; i < n; i++) {
        int first = 1; for (index_t k = 0; k < i; k++) if (l[k] == l[i]) first = 0;
        if (!first) continue;
        double nc = d->coreDistances[i], xc = nc, nd = D_MAX, xd = 0; int any = 0;
        for (index_t j = i; j < n; j++) if (l[j] == l[i]) {
            double c = d->coreDistances[j]; if (c != 0 && c < nc) nc = c; if (c > xc) xc = c;
            for (index_t k = j + 1; k < n; k++) if (l[k] == l[i]) { double q = distance_get(d, j, k); if (q != 0) { any = 1; if (q < nd) nd = q; if (q > xd) xd = q; } } }
        distance_values *v = NULL; CHECK(hashtable_lookup(m, l + i, &v) == 1 && v, "cluster %u missing", l[i]);
        CHECK(v->min_cr == nc, "cluster %u: smallest core distance %g, expected %g", l[i], v->min_cr, nc);
        CHECK(v->max_cr == xc, "cluster %u: largest core distance %g, expected %g", l[i], v->max_cr, xc);
        if (any) { CHECK(v->min_dr == nd, "cluster %u: smallest distance %g, expected %g", l[i], v->min_dr, nd); CHECK(v->max_dr == xd, "cluster %u: largest distance %g, expected %g", l[i], v->max_dr, xd); }
        else CHECK(v->min_dr > v->max_dr, "cluster %u: range of a cluster without distances", l[i]);
        CHECK(v->cr_confidence == 0 && v->dr_confidence == 0, "confidences do not start at 0");
        nontrivial();
    }
    hdbscan_destroy_distance_map(m); hdbscan_destroy_cluster_map(t); free(l); hdbscan_destroy(sc);
}
