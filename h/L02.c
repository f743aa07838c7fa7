/* a rerun equals a fresh run, and a repeated run equals itself */
#include "common.h"
#include "hdbscan/hdbscan.h"
static void same(hdbscan *a, hdbscan *b, const char *w) {
    index_t n = a->numPoints; CHECK(b->numPoints == n, "%s: number of points", w);
    CHECK(a->minPoints == b->minPoints, "%s: minimum points %u and %u", w, a->minPoints, b->minPoints);
    for (index_t i = 0; i < n; i++) {
        CHECK(a->distanceFunction.coreDistances[i] == b->distanceFunction.coreDistances[i], "%s: core distance of point %u: %.17g and %.17g", w, i, a->distanceFunction.coreDistances[i], b->distanceFunction.coreDistances[i]);
        CHECK(a->clusterLabels[i] == b->clusterLabels[i], "%s: label of point %u: %u and %u", w, i, a->clusterLabels[i], b->clusterLabels[i]);
        outlier_score *p = a->outlierScores + i, *q = b->outlierScores + i;
        CHECK(p->id == q->id && (p->score == q->score || (isnan(p->score) && isnan(q->score))) && p->coreDistance == q->coreDistance, "%s: outlier score %u", w, i);
    }
    CHECK(hashtable_size(a->hierarchy) == hashtable_size(b->hierarchy), "%s: %zu and %zu levels", w, hashtable_size(a->hierarchy), hashtable_size(b->hierarchy));
    for (int64_t l = 0; l < (int64_t)hashtable_size(a->hierarchy); l++) {
        hierarchy_entry *x = NULL, *y = NULL; hashtable_lookup(a->hierarchy, &l, &x); hashtable_lookup(b->hierarchy, &l, &y);
        CHECK(x && y && x->edgeWeight == y->edgeWeight && !memcmp(x->labels, y->labels, n * sizeof(label_t)), "%s: level %ld differs", w, (long)l);
    }
    CHECK(a->clusters->size == b->clusters->size, "%s: number of clusters", w);
    for (size_t i = 1; i < a->clusters->size; i++) { cluster *x = ((cluster **)a->clusters->data)[i], *y = ((cluster **)b->clusters->data)[i];
        CHECK(x->label == y->label && x->offset == y->offset && x->deathLevel == y->deathLevel && (x->stability == y->stability || isnan(x->stability)) && x->numPoints == y->numPoints &&
              x->propagatedDescendants->size == y->propagatedDescendants->size, "%s: cluster %zu differs", w, i); }
}
void run_case(unsigned long id) {
    index_t n = (index_t)(2 + rnd(id % 10 == 9 ? 150 : 25)), c = (index_t)(1 + rnd(3)); double *x = malloc((size_t)n * c * sizeof *x); uint64_t dom = id % 3 == 0 ? 4 : id % 3 == 1 ? 12 : 1000000;
    int blobs = 1 + (int)rnd(4); for (index_t i = 0; i < n; i++) for (index_t k = 0; k < c; k++) x[i * c + k] = (double)rnd(dom) + (id % 2 ? (double)(dom * 3 * (i % (index_t)blobs)) : 0);
    hdbscan *a = hdbscan_init(NULL, (index_t)(2 + rnd(6))); hdbscan_run(a, x, n, c, 1, H_DOUBLE);
    for (int q = 0; q < 3; q++) {
        index_t mp = (index_t)(2 + rnd(8));
        hdbscan *b = hdbscan_init(NULL, mp); hdbscan_run(b, x, n, c, 1, H_DOUBLE);
        if (q == 0) { hdbscan *r = hdbscan_init(NULL, mp); hdbscan_run(r, x, n, c, 1, H_DOUBLE); same(r, b, "repeated run"); hdbscan_destroy(r); }
        hdbscan_rerun(a, mp); same(a, b, "rerun against fresh run");
        hdbscan_destroy(b); nontrivial();
    }
    if (id % 2) { index_t mp = (index_t)(2 + rnd(6)); hdbscan *b = hdbscan_init(NULL, mp); hdbscan_run(b, x, n, c, 1, H_DOUBLE); hdbscan_clean(a); a->minPoints = mp; hdbscan_run(a, x, n, c, 1, H_DOUBLE); same(a, b, "run after clean"); hdbscan_destroy(b); }
    free(x); hdbscan_destroy(a);
}
