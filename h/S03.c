/* statistics of the clusters' distance ratios against their definitions */
#include "common.h"
#include "hdbscan/hdbscan.h"
static int near(double g, long double e, double tol, double scale) { return fabsl(g - e) <= tol * (fabsl(e) + scale) || (isnan(g) && isnan((double)e)) || (isinf((double)e) && g == (double)e); }
static void one(const stats_values *s, const double *x, size_t n, const char *w) {
    long double mean = 0, max = x[0], var = 0, m3 = 0, m4 = 0;
    for (size_t i = 0; i < n; i++) { mean += x[i]; if (x[i] > max) max = x[i]; }
    mean /= n;
    for (size_t i = 0; i < n; i++) { long double t = x[i] - mean; var += t * t; m3 += t * t * t; m4 += t * t * t * t; }
    CHECK(near(s->mean, mean, 1e-9, 0), "%s: mean %.17g, expected %.17Lg (%zu clusters)", w, s->mean, mean, n);
    CHECK(s->max == (double)max, "%s: maximum %g, expected %Lg", w, s->max, max);
    if (n < 2) return;
    var /= n - 1; long double sd = sqrtl(var);
    CHECK(near(s->variance, var, 1e-7, 1e-12), "%s: variance %.17g, expected %.17Lg (%zu clusters)", w, s->variance, var, n);
    CHECK(near(s->standardDev, sd, 1e-7, 1e-7), "%s: standard deviation %.17g, expected %.17Lg", w, s->standardDev, sd);
    if (sd < 1e-3) return;
    CHECK(near(s->skewness, m3 / (n * sd * sd * sd), 1e-6, 1e-6), "%s: skewness %.17g, expected %.17Lg", w, s->skewness, m3 / (n * sd * sd * sd));
    CHECK(near(s->kurtosis, m4 / (n * sd * sd * sd * sd) - 3, 1e-6, 1e-6), "%s: kurtosis %.17g, expected %.17Lg", w, s->kurtosis, m4 / (n * sd * sd * sd * sd) - 3);
}
void run_case(unsigned long id) {
    size_t n = 1 + rnd(id % 10 == 9 ? 200 : 10); static double cr[300], dr[300]; static label_t key[300];
    clustering_stats st; memset(&st, id % 3 == 0 ? 0 : id % 3 == 1 ? 0x41 : 0xff, sizeof st);
    hashtable *t = hashtable_init_size(n, H_INT, H_PTR, int_compare);
    for (size_t i = 0; i < n; i++) {
        distance_values *v = malloc(sizeof *v); memset(v, 0x3f, sizeof *v);
        v->min_cr = 0.25 + (double)rnd(8) / 4; v->max_cr = v->min_cr + (double)rnd(100) / 4; v->min_dr = 0.25 + (double)rnd(8) / 4; v->max_dr = v->min_dr + (double)rnd(100) / 4;
        key[i] = (label_t)(i * 3 + rnd(3)); cr[i] = v->max_cr / v->min_cr; dr[i] = v->max_dr / v->min_dr; hashtable_insert(t, key + i, &v); }
    hdbscan_calculate_stats(t, &st);
    CHECK(st.count == n, "count %u, expected %zu", (unsigned)st.count, n);
    one(&st.coreDistanceValues, cr, n, "core distances"); one(&st.intraDistanceValues, dr, n, "pairwise distances");
    double mc = 0, md = 0; for (size_t i = 0; i < n; i++) { if (cr[i] > mc) mc = cr[i]; if (dr[i] > md) md = dr[i]; }
    for (size_t i = 0; i < n; i++) {
        distance_values *v = NULL; CHECK(hashtable_lookup(t, key + i, &v) == 1 && v, "a cluster vanished");
        CHECK(near(v->cr_confidence, (mc - cr[i]) / mc * 100, 1e-12, 1e-12), "core confidence of %u is %g, expected %g", key[i], v->cr_confidence, (mc - cr[i]) / mc * 100);
        CHECK(near(v->dr_confidence, (md - dr[i]) / md * 100, 1e-12, 1e-12), "confidence of %u is %g, expected %g", key[i], v->dr_confidence, (md - dr[i]) / md * 100);
        CHECK(v->max_cr / v->min_cr == cr[i] && v->max_dr / v->min_dr == dr[i], "the ranges changed"); }
    if (n > 1) nontrivial();
    hdbscan_destroy_distance_map(t);
}
