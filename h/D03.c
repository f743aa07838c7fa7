/* core distances against sorting */
#include "common.h"
#include "hdbscan/distance.h"
static int cd(const void *a, const void *b) { double x = *(const double *)a, y = *(const double *)b; return x < y ? -1 : x > y; }
void run_case(unsigned long id) {
    index_t n = (index_t)(id < 12 ? id + 1 : 1 + rnd(id % 40 == 39 ? 90 : 14)), k = (index_t)rnd(id % 5 == 4 ? 20 : 6);
    distance d; memset(&d, 0, sizeof d); distance_init(&d, _EUCLIDEAN, H_DOUBLE);
    int vals = id % 3 == 0 ? 2 : id % 3 == 1 ? 5 : 1000000;
    int direct = id % 4 != 3;
    if (direct) {
        d.rows = n; d.cols = 1; d.numNeighbors = k;
        size_t cells = (size_t)n * (n - 1) / 2;
        d.distances = malloc((cells ? cells : 1) * sizeof(distance_t)); d.coreDistances = malloc(n * sizeof(distance_t));
        for (size_t i = 0; i < cells; i++) d.distances[i] = (double)rnd((uint64_t)vals) / 4;
        if (id % 7 == 6) for (size_t i = 0; i < cells; i++) d.distances[i] = (double)(id % 2 ? i : cells - i);
        distance_get_core_distances(&d);
    } else {
        double *x = malloc(2 * n * sizeof *x); for (index_t i = 0; i < 2 * n; i++) x[i] = (double)rnd((uint64_t)vals) / 2;
        distance_compute(&d, x, n, 2, k); free(x);
    }
    double *r = malloc(n * sizeof *r);
    for (index_t i = 0; i < n; i++) {
        for (index_t j = 0; j < n; j++) r[j] = distance_get(&d, i, j);
        qsort(r, n, sizeof *r, cd);
        double e = k < n ? r[k] : D_MAX;
        CHECK(d.coreDistances[i] == e, "%u points, %u neighbours: core distance of %u is %.17g, expected %.17g", n, k, i, d.coreDistances[i], e);
        nontrivial();
    }
    free(r); distance_clean(&d);
}
