/* outlier scores: formula, completeness, order */
#include "common.h"
#include "hdbscan/hdbscan.h"
void run_case(unsigned long id) {
    index_t n = (index_t)(1 + rnd(id % 10 == 9 ? 400 : 25)); int m = (int)(1 + rnd(8)), few = id % 3 == 0;
    hdbscan *sc = hdbscan_init(NULL, 2); sc->numPoints = n;
    sc->clusters = ptr_array_list_init(4, cluster_compare); cluster *nul = NULL; array_list_append(sc->clusters, &nul);
    cluster *C[64];
    for (int i = 1; i <= m; i++) { C[i] = cluster_init(NULL, (label_t)i, NULL, 5, 10); C[i]->propagatedLowestChildDeathLevel = rnd(8) ? few ? (double)rnd(3) : rndu() * 3 : D_MAX; C[i]->deathLevel = rndu(); array_list_append(sc->clusters, C + i); }
    double *lv = malloc(n * sizeof *lv), *core = malloc(n * sizeof *core); label_t *last = malloc(n * sizeof *last);
    for (index_t j = 0; j < n; j++) { lv[j] = rnd(6) ? few ? (double)(1 + rnd(3)) : 0.5 + rndu() * 9 : 0; if (id % 6 == 3) lv[j] *= 1 + (double)rnd(3) * (id % 4 == 3 ? 4e-16 : 1e-11); core[j] = few ? (double)rnd(3) : rndu(); last[j] = (label_t)(1 + rnd((uint64_t)m)); }
    sc->distanceFunction.coreDistances = core;
    int r = hdbscsan_calculate_outlier_scores(sc, lv, last, (boolean)rnd(2));
    CHECK(r == 1 && sc->outlierScores, "failed");
    char *seen = calloc(n, 1);
    for (index_t k = 0; k < n; k++) {
        outlier_score *o = sc->outlierScores + k; CHECK(o->id < n && !seen[o->id], "entry %u repeats point %u", k, (unsigned)o->id); seen[o->id] = 1;
        index_t j = (index_t)o->id; double em = C[last[j]]->propagatedLowestChildDeathLevel, e = lv[j] != 0 ? 1 - em / lv[j] : 0;
        CHECK(o->score == e || fabs(o->score - e) <= 1e-13 * fabs(e), "score of %u is %.17g, expected %.17g", j, o->score, e);
        CHECK(o->coreDistance == core[j], "core distance of %u", j);
        if (k) { outlier_score *p = o - 1; CHECK(p->score < o->score || (p->score == o->score && (p->coreDistance < o->coreDistance || (p->coreDistance == o->coreDistance && p->id < o->id))), "entries %u and %u out of order", k - 1, k); }
    }
    if (n > 1) nontrivial();
    free(seen); free(lv); free(last); hdbscan_destroy(sc);
}
