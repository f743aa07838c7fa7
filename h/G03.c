/* minimum spanning tree against Kruskal */
#include "common.h"
#include "hdbscan/hdbscan.h"
static int cd(const void *a, const void *b) { double x = *(const double *)a, y = *(const double *)b; return x < y ? -1 : x > y; }
typedef struct { double w; index_t a, b; } E;
static int ce(const void *x, const void *y) { double p = ((const E *)x)->w, q = ((const E *)y)->w; return p < q ? -1 : p > q; }
static index_t uf[300]; static index_t find(index_t x) { while (uf[x] != x) x = uf[x] = uf[uf[x]]; return x; }
void run_case(unsigned long id) {
    index_t n = (index_t)(id < 10 ? id + 1 : 1 + rnd(id % 30 == 29 ? 120 : 15)), k = (index_t)(1 + rnd(5)); int vals = id % 3 == 0 ? 3 : id % 3 == 1 ? 10 : 100000000;
    hdbscan *sc = hdbscan_init(NULL, k + 1);
    sc->selfEdges = id % 4 != 3; if (n == 1 && !sc->selfEdges) n = 2; sc->numPoints = n;
    distance *d = &sc->distanceFunction;
    if (id % 2) {
        d->rows = n; d->cols = 1; d->numNeighbors = k; size_t cells = (size_t)n * (n - 1) / 2;
        d->distances = malloc((cells ? cells : 1) * sizeof(double)); d->coreDistances = malloc(n * sizeof(double));
        for (size_t i = 0; i < cells; i++) { d->distances[i] = (double)rnd((uint64_t)vals) / 8; if (id % 8 == 7) d->distances[i] *= 1 + (double)rnd(3) * 1e-11; }
        if (id % 6 == 5) for (index_t i = 0; i < n; i++) d->coreDistances[i] = (double)rnd((uint64_t)vals) / 8; else distance_get_core_distances(d);
    } else {
        double *x = malloc(2 * n * sizeof *x); for (index_t i = 0; i < 2 * n; i++) x[i] = (double)rnd((uint64_t)vals) / 4;
        distance_compute(d, x, n, 2, k); free(x);
    }
    int r = hdbscan_construct_mst(sc);
    CHECK(r == HDBSCAN_SUCCESS && sc->mst, "construction failed");
    UndirectedGraph *g = sc->mst; size_t m = g->edgeWeights->size;
    CHECK(g->numVertices == n && g->verticesA->size == m && g->verticesB->size == m, "lists of different lengths");
    CHECK(m == (size_t)(n - 1) + (sc->selfEdges ? n : 0), "%u points: %zu edges", n, m);
    double tw[300]; size_t nt = 0; char self[300] = {0}; for (index_t i = 0; i < n; i++) uf[i] = i;
    for (size_t i = 0; i < m; i++) {
        index_t a = ((index_t *)g->verticesA->data)[i], b = ((index_t *)g->verticesB->data)[i]; double w = ((double *)g->edgeWeights->data)[i];
        CHECK(a < n && b < n, "%u points: edge %zu joins %u and %u", n, i, a, b);
        if (a == b) { CHECK(!self[a], "two self edges at %u", a); self[a] = 1; CHECK(w == d->coreDistances[a], "the self edge of %u has weight %g, core distance %g", a, w, d->coreDistances[a]); continue; }
        double e = distance_get(d, a, b); if (d->coreDistances[a] > e) e = d->coreDistances[a]; if (d->coreDistances[b] > e) e = d->coreDistances[b];
        CHECK(w == e, "%u points: edge (%u,%u) has weight %.17g, mutual reachability distance %.17g", n, a, b, w, e);
        CHECK(find(a) != find(b), "%u points: edge (%u,%u) closes a cycle", n, a, b); uf[find(a)] = find(b); tw[nt++] = w;
    }
    CHECK(nt == (size_t)(n - 1), "%u points: %zu tree edges", n, nt);
    for (index_t i = 0; i < n; i++) CHECK(self[i] == (sc->selfEdges ? 1 : 0), "self edge of %u", i);
    /* Kruskal: all minimum spanning trees have the same multiset of weights */
    E *es = malloc((size_t)n * n * sizeof *es); size_t q = 0;
    for (index_t a = 0; a < n; a++) for (index_t b = a + 1; b < n; b++) { double e = distance_get(d, a, b); if (d->coreDistances[a] > e) e = d->coreDistances[a];
        if (d->coreDistances[b] > e) e = d->coreDistances[b]; es[q++] = (E){e, a, b}; }
    qsort(es, q, sizeof *es, ce); double kw[300]; size_t nk = 0; for (index_t i = 0; i < n; i++) uf[i] = i;
    for (size_t i = 0; i < q; i++) if (find(es[i].a) != find(es[i].b)) { uf[find(es[i].a)] = find(es[i].b); kw[nk++] = es[i].w; }
    qsort(tw, nt, sizeof *tw, cd);
    for (size_t i = 0; i < nt; i++) CHECK(tw[i] == kw[i], "%u points: the tree is not minimal: weight %zu is %.17g, Kruskal has %.17g", n, i, tw[i], kw[i]);
    if (n > 1) nontrivial();
    free(es); hdbscan_destroy(sc);
}
