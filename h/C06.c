/* comparators: sign of the mathematical comparison, over boundary values and random ones */
#include "common.h"
#include <limits.h>
#include "hdbscan/utils.h"
#include "hdbscan/outlier_score.h"
#include "hdbscan/cluster.h"
#define T(t, f, fp, gen) do { t a = gen, b = rnd(4) ? gen : a; int w = (a > b) - (a < b); int r = f(&a, &b); CHECK((r > 0) - (r < 0) == w, #f "(%.17g, %.17g) gave %d", (double)a, (double)b, r); \
    t *pa = &a, *pb = &b; r = fp(&pa, &pb); CHECK((r > 0) - (r < 0) == w, #fp "(%.17g, %.17g) gave %d", (double)a, (double)b, r); } while (0)
static long gl(void) { static const long s[] = {0, 1, -1, 2, -2, 127, -128, 32767, -32768, INT_MAX, INT_MIN, LONG_MAX, LONG_MIN, LONG_MAX - 1, LONG_MIN + 1, 1L << 32, -(1L << 32), (1L << 32) + 1, (1L<<53)+1, 1L<<53}; return rnd(3) ? s[rnd(20)] : (long)rnd64(); }
static double gd(void) { static const double s[] = {0.0, -0.0, 1, -1, 1e-300, -1e-300, DBL_MAX, -DBL_MAX, DBL_MIN, INFINITY, -INFINITY, 1 + DBL_EPSILON, 0.25, 0.75, 1.5, 1e10, 1e10 + 1}; return rnd(3) ? s[rnd(17)] : (rndu() - 0.5) * pow(10, (double)rnd(20) - 10); }
void run_case(unsigned long id) {
    for (int i = 0; i < 40; i++) {
        T(int32_t, int_compare, int_ptr_compare, (int32_t)gl()); T(long, long_compare, long_ptr_compare, gl()); T(short, short_compare, short_ptr_compare, (short)gl());
        T(char, char_compare, char_ptr_compare, (char)gl()); T(double, double_compare, double_ptr_compare, gd());
        T(float, float_compare, float_ptr_compare, (float)(fabs(gd()) > 1e30 ? INFINITY : gd() > 1e30 ? 1.f : 0.5f + (float)rnd(3)));
        void *pa = (void *)(uintptr_t)(rnd(3) * 4096), *pb = (void *)(uintptr_t)(rnd(3) * 4096); if (rnd(4) == 0) pa = (void *)(uintptr_t)rnd64(); int w = ((uintptr_t)pa > (uintptr_t)pb) - ((uintptr_t)pa < (uintptr_t)pb); int r = ptr_compare(&pa, &pb);
        CHECK((r > 0) - (r < 0) == w, "ptr_compare is wrong");
        outlier_score s1 = {gd(), gd(), (index_t)rnd(4)}, s2 = {gd(), gd(), (index_t)rnd(4)}; (void)s1; (void)s2;
        outlier_score a, b; a.score = gd(); b.score = rnd(2) ? a.score : gd(); a.coreDistance = gd(); b.coreDistance = rnd(2) ? a.coreDistance : gd(); a.id = (index_t)(rnd(3) ? rnd(4) : rnd(2147483647)); b.id = (index_t)(rnd(3) ? rnd(4) : rnd(2147483647));
        w = a.score != b.score ? (a.score > b.score ? 1 : -1) : a.coreDistance != b.coreDistance ? (a.coreDistance > b.coreDistance ? 1 : -1) : (a.id > b.id) - (a.id < b.id);
        r = outlier_score_compare(&a, &b); CHECK((r > 0) - (r < 0) == w, "outlier_score_compare gave %d, expected sign %d", r, w);
        cluster c1, c2; memset(&c1, 0, sizeof c1); memset(&c2, 0, sizeof c2); c1.label = (label_t)gl(); c2.label = rnd(3) ? (label_t)gl() : c1.label; w = (c1.label > c2.label) - (c1.label < c2.label);
        r = cluster_compare(&c1, &c2); CHECK((r > 0) - (r < 0) == w, "cluster_compare(%u, %u) gave %d", c1.label, c2.label, r);
        nontrivial();
    }
    (void)id;
}
