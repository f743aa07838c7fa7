/* propagation over random cluster trees against a reference */
#include "common.h"
#include "hdbscan/hdbscan.h"
static cluster *C[400]; static int kid[400];
typedef struct { double st; unsigned cons; double low; int n; int sel[400]; } R;
static R res[400];
void run_case(unsigned long id) {
    int m = (int)(1 + rnd(id % 20 == 19 ? 300 : 12)), shape = (int)(id % 4), inf = 0;
    hdbscan *sc = hdbscan_init(NULL, 2);
    sc->clusters = ptr_array_list_init(4, cluster_compare); cluster *nul = NULL; array_list_append(sc->clusters, &nul);
    memset(kid, 0, sizeof kid);
    int par[400] = {0};
    for (int i = 1; i <= m; i++) {
        par[i] = i == 1 ? 0 : shape == 0 ? i - 1 : shape == 1 ? i / 2 : shape == 2 ? 1 : (int)(1 + rnd((uint64_t)i - 1));
        C[i] = cluster_init(NULL, (label_t)i, par[i] ? C[par[i]] : NULL, i == 1 ? NAN : 5, 10);
        if (par[i]) kid[par[i]]++;
        C[i]->stability = i == 1 ? NAN : (double)rnd(30); if (id % 7 == 6) C[i]->stability *= 1 + (double)rnd(3) * 1e-11; C[i]->deathLevel = (double)(1 + rnd(30)); if (id % 3 == 2) { C[i]->numConstraintsSatisfied = (index_t)rnd(3); }
        if (id % 5 == 4 && rnd((uint64_t)m) == 0 && i > 1) { C[i]->stability = INFINITY; inf = 1; }
        array_list_append(sc->clusters, C + i);
    }
    for (int i = 1; i <= m; i++) { res[i].st = 0; res[i].cons = 0; res[i].low = D_MAX; res[i].n = 0; }
    for (int i = m; i > 1; i--) {
        R *p = res + par[i]; double low = res[i].low == D_MAX ? C[i]->deathLevel : res[i].low; if (low < p->low) p->low = low;
        int self = !kid[i] || C[i]->numConstraintsSatisfied > res[i].cons || (C[i]->numConstraintsSatisfied == res[i].cons && C[i]->stability >= res[i].st);
        if (self) { p->st += C[i]->stability; p->cons += C[i]->numConstraintsSatisfied; p->sel[p->n++] = i; }
        else { p->st += res[i].st; p->cons += res[i].cons; for (int k = 0; k < res[i].n; k++) p->sel[p->n++] = res[i].sel[k]; }
    }
    boolean got = hdbscan_propagate_tree(sc);
    CHECK((got != 0) == inf, "reported infinite stability %d, expected %d", got, inf);
    for (int i = 1; i <= m; i++) {
        double low = res[i].low == D_MAX && i > 1 ? C[i]->deathLevel : res[i].low;
        CHECK(C[i]->propagatedLowestChildDeathLevel == low, "%d clusters: lowest death level beneath %d is %g, expected %g", m, i, C[i]->propagatedLowestChildDeathLevel, low);
        CHECK(C[i]->propagatedStability == res[i].st, "%d clusters: stability propagated to %d is %g, expected %g", m, i, C[i]->propagatedStability, res[i].st);
        CHECK(C[i]->propagatedNumConstraintsSatisfied == res[i].cons, "constraints propagated to %d", i);
        CHECK(C[i]->propagatedDescendants->size == (size_t)res[i].n, "%d clusters: %zu descendants selected under %d, expected %d", m, C[i]->propagatedDescendants->size, i, res[i].n);
        char seen[400] = {0}; for (int k = 0; k < res[i].n; k++) seen[res[i].sel[k]] = 1;
        for (int k = 0; k < res[i].n; k++) { label_t l = ((cluster **)C[i]->propagatedDescendants->data)[k]->label; CHECK(l <= (label_t)m && seen[l] == 1, "cluster %u wrongly selected (or twice) under %d", l, i); seen[l] = 2; }
    }
    if (m > 2) nontrivial();
    hdbscan_destroy(sc);
}
