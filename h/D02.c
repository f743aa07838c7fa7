/* Euclidean distances of all six element types against a long double reference */
#include "common.h"
#include "hdbscan/distance.h"
static long double get(const void *p, int t, size_t k) {
    switch (t) { case 0: return ((const double *)p)[k]; case 1: return ((const float *)p)[k]; case 2: return ((const int *)p)[k];
        case 3: return ((const long *)p)[k]; case 4: return ((const short *)p)[k]; default: return ((const char *)p)[k]; } }
void run_case(unsigned long id) {
    static const int T[] = {H_DOUBLE, H_FLOAT, H_INT, H_LONG, H_SHORT, H_CHAR}; static const size_t SZ[] = {8, 4, 4, 8, 2, 1};
    int t = (int)(id % 6), ext = (int)(id / 6 % 3);
    index_t n = (index_t)(1 + rnd(id % 50 == 49 ? 120 : 12)), c = (index_t)(1 + rnd(7));
    void *p = malloc((size_t)n * c * SZ[t]);
    for (size_t k = 0; k < (size_t)n * c; k++) {
        uint64_t r = rnd64(); int small = ext == 0 || rnd(3) == 0;
        switch (t) {
        case 0: ((double *)p)[k] = small ? (double)(int64_t)(r % 4001) / 8 - 250 : (rndu() - 0.5) * pow(10, (double)rnd(40) - 10); break;
        case 1: ((float *)p)[k] = (float)((double)(int64_t)(r % (small ? 4001 : 400001)) / 8 - (small ? 250 : 25000)); break;
        case 2: ((int *)p)[k] = small ? (int)(r % 201) - 100 : rnd(3) == 0 ? (rnd(2) ? INT32_MAX : INT32_MIN) : (int)r; break;
        case 3: ((long *)p)[k] = small ? (long)(r % 201) - 100 : rnd(3) == 0 ? (rnd(2) ? INT64_MAX : INT64_MIN) : (long)r; break;
        case 4: ((short *)p)[k] = small ? (short)((int)(r % 201) - 100) : rnd(3) == 0 ? (rnd(2) ? INT16_MAX : INT16_MIN) : (short)r; break;
        default: ((char *)p)[k] = small ? (char)(r % 50) : (char)r; break; }
    }
    distance d; memset(&d, 0, sizeof d); distance_init(&d, _EUCLIDEAN, (enum HTYPES)T[t]);
    index_t k = (index_t)rnd(4);
    distance_compute(&d, p, n, c, k);
    CHECK(d.rows == n && d.cols == c && d.numNeighbors == k, "shape not recorded");
    for (index_t i = 0; i < n; i++) for (index_t j = 0; j < n; j++) {
        long double s = 0;
        for (index_t q = 0; q < c; q++) { long double x = get(p, t, (size_t)i * c + q) - get(p, t, (size_t)j * c + q); s += x * x; }
        double e = (double)sqrtl(s), g = distance_get(&d, i, j);
        CHECK(fabs(g - e) <= 1e-11 * e, "type %d, %u x %u: distance(%u,%u) is %.17g, expected %.17g", t, n, c, i, j, g, e);
        nontrivial();
    }
    free(p); distance_clean(&d);
}
