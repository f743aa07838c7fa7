/* a whole run against independent references of every stage */
#include "sim.h"
typedef struct { double w; int a, b; } Ed;
static int ced(const void *x, const void *y) { double p = ((const Ed *)x)->w, q = ((const Ed *)y)->w; return p < q ? -1 : p > q; }
static double *X; static int P, dim;            /* the points */
static double D[N][N], core[N];
static double refd(int i, int j) { long double s = 0; for (int q = 0; q < dim; q++) { long double e = (long double)X[i * dim + q] - X[j * dim + q]; s += e * e; } return (double)sqrtl(s); }
static void verify(hdbscan *sc, int mp, const char *how) {
    distance *d = &sc->distanceFunction; n = P; minp = mp;
    CHECK(sc->numPoints == (index_t)n, "%s: %u points recorded, expected %d", how, sc->numPoints, n);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { double e = refd(i, j), g = distance_get(d, (index_t)i, (index_t)j);
        CHECK(fabs(g - e) <= 1e-11 * e, "%s, %d points: distance(%d,%d) is %.17g, expected %.17g", how, n, i, j, g, e); D[i][j] = g; }
    for (int i = 0; i < n; i++) { int lt = 0, le = 0; double x = d->coreDistances[i]; for (int j = 0; j < n; j++) { lt += D[i][j] < x; le += D[i][j] <= x; }
        CHECK(n <= mp - 1 ? x == D_MAX : lt <= mp - 1 && le > mp - 1, "%s, %d points, minimum %d: core distance %g of point %d has rank %d to %d", how, n, mp, x, i, lt, le); core[i] = x; }
    UndirectedGraph *g = sc->mst; m = (int)g->edgeWeights->size; CHECK(m == 2 * n - 1, "%s: %d edges", how, m);
    Ed es[N * N / 2]; int ne = 0; double tw[N], kw[N]; int nt = 0, nkk = 0;
    for (int v = 0; v < n; v++) uf[v] = v;
    for (int e = 0; e < m; e++) {
        ea[e] = (int)((index_t *)g->verticesA->data)[e]; eb[e] = (int)((index_t *)g->verticesB->data)[e]; ew[e] = ((double *)g->edgeWeights->data)[e];
        CHECK(ea[e] >= 0 && ea[e] < n && eb[e] >= 0 && eb[e] < n, "%s: edge %d", how, e);
        double w = ea[e] == eb[e] ? 0 : D[ea[e]][eb[e]]; if (core[ea[e]] > w) w = core[ea[e]]; if (core[eb[e]] > w) w = core[eb[e]];
        CHECK(ew[e] == w, "%s, %d points: edge (%d,%d) weighs %g, mutual reachability distance %g", how, n, ea[e], eb[e], ew[e], w);
        CHECK(!e || ew[e] >= ew[e - 1], "%s, %d points: the edges of the tree are not sorted at %d", how, n, e);
        if (ea[e] != eb[e]) { CHECK(find(ea[e]) != find(eb[e]), "%s: cycle", how); uf[find(ea[e])] = find(eb[e]); tw[nt++] = w; }
    }
    for (int a = 0; a < n; a++) for (int b = a + 1; b < n; b++) { double w = D[a][b]; if (core[a] > w) w = core[a]; if (core[b] > w) w = core[b]; es[ne++] = (Ed){w, a, b}; }
    qsort(es, (size_t)ne, sizeof *es, ced); for (int v = 0; v < n; v++) uf[v] = v;
    for (int e = 0; e < ne; e++) if (find(es[e].a) != find(es[e].b)) { uf[find(es[e].a)] = find(es[e].b); kw[nkk++] = es[e].w; }
    CHECK(nt == nkk, "%s: %d tree edges", how, nt); for (int e = 0; e < nt; e++) CHECK(tw[e] == kw[e], "%s, %d points: not a minimum spanning tree", how, n);
    simulate(); check_hierarchy(sc);
    /* selection: descending labels, as parents are older than their children */
    static double st[4 * N], low[4 * N]; static int ns[4 * N], sel[4 * N][N]; int ord[4 * N];
    for (int c = 1; c < nk; c++) { st[c] = 0; low[c] = D_MAX; ns[c] = 0; ord[map[c]] = c; }
    for (int l = nk - 1; l > 1; l--) {
        int c = ord[l], p = k[c].parent; if (low[c] == D_MAX) low[c] = k[c].death; if (low[c] < low[p]) low[p] = low[c];
        double own = ((cluster **)sc->clusters->data)[l]->stability;
        if (!k[c].kids || own >= st[c]) { st[p] += own; sel[p][ns[p]++] = c; }
        else { st[p] += st[c]; for (int q = 0; q < ns[c]; q++) sel[p][ns[p]++] = sel[c][q]; }
    }
    for (int c = 1; c < nk; c++) { cluster *q = ((cluster **)sc->clusters->data)[map[c]];
        CHECK(q->propagatedLowestChildDeathLevel == low[c], "%s, %d points: lowest death level beneath cluster %d is %g, expected %g", how, n, map[c], q->propagatedLowestChildDeathLevel, low[c]);
        CHECK(q->propagatedDescendants->size == (size_t)ns[c], "%s, %d points: %zu clusters selected under %d, expected %d", how, n, q->propagatedDescendants->size, map[c], ns[c]); }
    int exp[N] = {0};
    for (int q = 0; q < ns[1]; q++) { int c = sel[1][q]; for (int v = 0; v < n; v++) if (k[c].off < nlev && lev[k[c].off][v] == c) exp[v] = map[c]; }
    for (int v = 0; v < n; v++) CHECK(sc->clusterLabels[v] == (label_t)exp[v], "%s, %d points, minimum %d: label of point %d is %u, expected %d", how, n, mp, v, sc->clusterLabels[v], exp[v]);
    char seen[N] = {0};
    for (int q = 0; q < n; q++) { outlier_score *o = sc->outlierScores + q; int v = (int)o->id; CHECK(v >= 0 && v < n && !seen[v], "%s: outlier entries", how); seen[v] = 1;
        double e = noise[v] != 0 ? 1 - low[last[v]] / noise[v] : 0; CHECK(o->score == e || (isnan(e) && isnan(o->score)) || fabs(o->score - e) <= 1e-12 * fabs(e), "%s, %d points: outlier score of %d is %g, expected %g", how, n, v, o->score, e);
        CHECK(o->coreDistance == core[v], "%s: core distance in the outlier entry of %d", how, v);
        if (q && !isnan(e) && !isnan(o[-1].score)) CHECK(o[-1].score < o->score || (o[-1].score == o->score && o[-1].coreDistance <= o->coreDistance), "%s: outlier scores out of order at %d", how, q); }
    if (nk > 2) nontrivial();
}
static void *data(int t, int cnt, uint64_t dom, int groups) {
    static const size_t SZ[] = {8, 4, 4, 8, 2, 1}; void *p = malloc((size_t)cnt * SZ[t]); X = malloc((size_t)cnt * sizeof *X);
    for (int q = 0; q < cnt; q++) { int64_t v = (int64_t)rnd(dom) + (groups ? (int64_t)((uint64_t)(q / dim % groups) * (t == 5 ? 18 : dom * 4)) : 0); if (t == 5) v -= 40;
        switch (t) { case 0: X[q] = ((double *)p)[q] = (double)v / 3; break; case 1: X[q] = ((float *)p)[q] = (float)v / 4; break; case 2: X[q] = ((int *)p)[q] = (int)v; break;
        case 3: X[q] = (double)(((long *)p)[q] = (long)v); break; case 4: X[q] = ((short *)p)[q] = (short)v; break; default: X[q] = ((signed char *)p)[q] = (signed char)v; } }
    return p;
}
void run_case(unsigned long id) {
    static const index_t T[] = {H_DOUBLE, H_FLOAT, H_INT, H_LONG, H_SHORT, H_CHAR};
    int t = id % 3 ? 0 : (int)(id / 3 % 6), rowwise = id % 7 != 6, r = (int)(id < 12 ? 1 + id : 1 + rnd(id % 25 == 24 ? 90 : id % 2 ? 40 : 14)), c = (int)(1 + rnd(rowwise ? 4 : 3)), mp = 2 + (int)rnd(id % 2 ? 3 : 6);
    if (!rowwise && r > 20) r = 20;
    P = rowwise ? r : r * c; dim = rowwise ? c : 1;
    uint64_t dom = t == 5 ? 12 : id % 4 == 0 ? 5 : id % 4 == 1 ? 40 : 1000; int groups = (int)rnd(5);
    void *p = data(t, r * c, dom, groups);
    hdbscan *sc = hdbscan_init(NULL, (index_t)mp);
    CHECK(hdbscan_run(sc, p, (index_t)r, (index_t)c, (boolean)rowwise, T[t]) == HDBSCAN_SUCCESS, "run failed");
    verify(sc, mp, "run");
    if (id % 2) { int q = 2 + (int)rnd(7); hdbscan_rerun(sc, (index_t)q); verify(sc, q, "rerun"); }
    if (id % 5 == 4) { free(p); free(X); t = (int)rnd(5); r = 1 + (int)rnd(25); P = rowwise ? r : r * c; p = data(t, r * c, dom, groups);
        hdbscan_clean(sc); sc->minPoints = (index_t)mp; sc->selfEdges = TRUE; CHECK(hdbscan_run(sc, p, (index_t)r, (index_t)c, (boolean)rowwise, T[t]) == HDBSCAN_SUCCESS, "run failed"); verify(sc, mp, "run after clean"); }
    free(p); free(X); hdbscan_destroy(sc);
}
