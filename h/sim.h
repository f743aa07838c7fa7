/* direct simulation of the hierarchy of a weighted tree */
#include "common.h"
#include "hdbscan/hdbscan.h"
#define N 130
typedef struct { double birth, death, st; int parent, n0, n, off, kids; } K;
static K k[4 * N]; static int nk, n, minp, m, ea[2 * N], eb[2 * N], gone[2 * N], cur[N], prv[N], comp[N]; static double ew[2 * N], noise[N]; static int last[N];
static int lev[3 * N][N], nlev; static double levw[3 * N]; static int map[4 * N], inv[8 * N];
static int cdd(const void *a, const void *b) { double x = *(const double *)a, y = *(const double *)b; return x > y ? -1 : x < y; }
static int uf[N]; static int find(int x) { while (uf[x] != x) x = uf[x] = uf[uf[x]]; return x; }
static void detach(int c, int cnt, double w) { k[c].n -= cnt; k[c].st += cnt * (1 / w - 1 / k[c].birth); if (k[c].n == 0) k[c].death = w; }
static void simulate(void) {
    double ws[2 * N]; int nw = 0;
    for (int e = 0; e < m; e++) { gone[e] = 0; ws[nw++] = ew[e]; }
    qsort(ws, (size_t)nw, sizeof *ws, cdd);
    nk = 2; memset(k, 0, sizeof k); k[1].birth = NAN; k[1].n = k[1].n0 = n; nlev = 0;
    for (int v = 0; v < n; v++) cur[v] = prv[v] = 1;
    for (int q = 0; q < nw; q++) {
        double w = ws[q]; if (q && ws[q - 1] == w) continue;
        char aff[4 * N] = {0}; int any = 0;
        for (int e = 0; e < m; e++) if (!gone[e] && ew[e] == w) { gone[e] = 1; if (cur[ea[e]]) { aff[cur[ea[e]]] = 1; any = 1; } }
        if (!any) continue;
        for (int v = 0; v < n; v++) uf[v] = v;
        for (int e = 0; e < m; e++) if (!gone[e]) uf[find(ea[e])] = find(eb[e]);
        int top = nk; levw[nlev] = w; memcpy(lev[nlev], prv, sizeof prv); nlev++;
        for (int c = 1; c < top; c++) if (aff[c]) {
            int size[N] = {0}, valid = 0;
            for (int v = 0; v < n; v++) if (cur[v] == c) size[find(v)]++;
            for (int r = 0; r < n; r++) if (size[r] >= minp) valid++;
            int nl[N] = {0};
            for (int r = 0; r < n; r++) if (size[r]) {
                if (size[r] < minp) { detach(c, size[r], w); nl[r] = 0; }
                else if (valid >= 2) { detach(c, size[r], w); k[c].kids = 1; k[nk].birth = w; k[nk].n = k[nk].n0 = size[r]; k[nk].parent = c; k[nk].off = nlev; nl[r] = nk++; }
                else nl[r] = c;
            }
            int old[N]; memcpy(old, cur, sizeof old);
            for (int v = 0; v < n; v++) if (old[v] == c) { cur[v] = nl[find(v)]; if (!cur[v]) { noise[v] = w; last[v] = c; } }
        }
        memcpy(prv, cur, sizeof prv);
    }
}
/* the clusters and levels recorded in sc are those of the simulation (map: simulated label -> recorded label) */
static void check_hierarchy(hdbscan *sc) {
    CHECK(sc->clusters->size == (size_t)nk, "%d points, minimum %d: %zu clusters, expected %d", n, minp, sc->clusters->size - 1, nk - 1);
    CHECK(hashtable_size(sc->hierarchy) == (size_t)nlev + 1, "%d points: %zu levels, expected %d", n, hashtable_size(sc->hierarchy), nlev + 1);
    memset(map, 0, sizeof map); memset(inv, 0, sizeof inv); map[1] = inv[1] = 1;
    for (int64_t l = 0; l <= nlev; l++) {
        hierarchy_entry *h = NULL; CHECK(hashtable_lookup(sc->hierarchy, &l, &h) == 1 && h && h->labels, "level %ld missing", (long)l);
        CHECK(h->edgeWeight == (l ? levw[l - 1] : 0.0), "level %ld has weight %g, expected %g", (long)l, h->edgeWeight, l ? levw[l - 1] : 0.0);
        for (int v = 0; v < n; v++) {
            int e = l ? lev[l - 1][v] : 0; label_t g = h->labels[v];
            CHECK(g < (label_t)nk, "label %u at level %ld", g, (long)l);
            CHECK((e == 0) == (g == 0), "%d points, minimum %d, level %ld: point %d is %s", n, minp, (long)l, v, g ? "labelled, expected noise" : "noise, expected a label");
            if (e && !map[e] && !inv[g]) { map[e] = (int)g; inv[g] = e; }
            CHECK(!e || (map[e] == (int)g && inv[g] == e), "%d points, minimum %d, level %ld: point %d is in the wrong cluster", n, minp, (long)l, v);
        }
    }
    for (int c = 1; c < nk; c++) {
        CHECK(map[c], "a cluster never appears"); cluster *g = ((cluster **)sc->clusters->data)[map[c]];
        CHECK(g->label == (label_t)map[c], "cluster %d is stored at position %d", g->label, map[c]);
        CHECK(c == 1 ? isnan(g->birthLevel) && !g->parent : g->birthLevel == k[c].birth && g->parent && g->parent->label == (label_t)map[k[c].parent], "%d points: birth level or parent of a cluster", n);
        CHECK(g->numPoints == (index_t)k[c].n && g->deathLevel == k[c].death, "%d points, minimum %d: a cluster has %u points left and death level %g, expected %d and %g", n, minp, g->numPoints, g->deathLevel, k[c].n, k[c].death);
        CHECK((isnan(k[c].st) && isnan(g->stability)) || k[c].st == g->stability || fabs(k[c].st - g->stability) <= 1e-9 * (fabs(k[c].st) + n / k[c].death), "%d points: stability %.17g, expected %.17g", n, g->stability, k[c].st);
        CHECK(g->offset == k[c].off, "%d points: offset %ld, expected %d", n, (long)g->offset, k[c].off); CHECK((g->hasChildren != 0) == k[c].kids, "children mark of a cluster");
    }
}
