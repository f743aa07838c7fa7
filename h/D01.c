/* storage of pairwise distances: every pair its own cell, symmetric reading, also where 32-bit products overflow */
#include "common.h"
#include "hdbscan/distance.h"
void run_case(unsigned long id) {
    distance d; memset(&d, 0, sizeof d); distance_init(&d, _EUCLIDEAN, H_DOUBLE);
    if (id % 4 != 3) {
        /* through the interface: one-dimensional data whose pairwise distances are all different */
        index_t n = (index_t)(id < 60 ? id / 4 * 3 + id % 4 + 1 : 1 + rnd(60));
        double *x = malloc(n * sizeof *x), v = 0;
        for (index_t i = 0; i < n; i++) { v += 1 + (double)rnd(1u << 30); x[i] = v; }
        for (index_t i = n; i-- > 1;) { index_t j = (index_t)rnd(i + 1u); double t = x[i]; x[i] = x[j]; x[j] = t; }
        distance_compute(&d, x, n, 1, (index_t)rnd(4));
        for (index_t i = 0; i < n; i++) for (index_t j = 0; j < n; j++) {
            double g = distance_get(&d, i, j), e = fabs(x[i] - x[j]);
            CHECK(g == e, "%u points: distance(%u,%u) is %.17g, expected %.17g", n, i, j, g, e); nontrivial(); }
        free(x); distance_clean(&d);
    } else {
        /* huge sets: the storage is reserved address space, only the cells touched exist */
        static const index_t big[] = {46340, 46341, 46342, 65535, 65536, 65537, 65538, 92681, 92682, 92683, 100000, 131072, 131073, 200001};
        index_t n = rnd(3) ? big[rnd(sizeof big / sizeof *big)] : (index_t)(40000 + rnd(150000));
        size_t cells = (size_t)n * (n - 1) / 2, bytes = (cells * sizeof(distance_t) + 4095) / 4096 * 4096;
        char *m = mmap(NULL, bytes + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (m == MAP_FAILED) return;
        d.rows = n; d.cols = 1; d.distances = (distance_t *)m;
        for (int k = 0; k < 40; k++) {
            index_t i = (index_t)rnd(n), j = (index_t)rnd(n);
            int m = (int)rnd(6);
            if (m == 0) i = n - 1; else if (m == 1) i = n - 2; else if (m == 2) { i = n - 2; j = n - 1; } else if (m == 3) { i = 0; j = n - 1; }
            if (i == j) { CHECK(distance_get(&d, i, j) == 0, "distance(%u,%u) is not 0", i, j); continue; }
            index_t a = i < j ? i : j, b = i < j ? j : i;
            size_t c = (size_t)a * n - (size_t)a * (a + 1) / 2 + (b - a - 1);
            CHECK(c < cells, "harness");
            d.distances[c] = 1.5 + k;
            double g = distance_get(&d, i, j);
            CHECK(g == 1.5 + k, "%u points: reading (%u,%u) does not give the value of its cell", n, i, j);
            g = distance_get(&d, j, i);
            CHECK(g == 1.5 + k, "%u points: reading (%u,%u) does not give the value of its cell", n, j, i);
            d.distances[c] = 0; nontrivial();
        }
        munmap(m, bytes + 4096);
    }
}
