/* adjacency lists and edge removal against multisets */
#include "common.h"
#include "hdbscan/undirected_graph.h"
#include "collections/list.h"
static int cnt[40][40];
static UndirectedGraph *g; static index_t nv;
static void same(const char *op) {
    for (index_t v = 0; v < nv; v++) {
        int c[40] = {0}; size_t tot = 0;
        for (size_t i = 0; i < g->edges[v]->size; i++) { index_t u = ((index_t *)g->edges[v]->data)[i]; CHECK(u < nv, "after %s: neighbour %u of %u", op, u, v); c[u]++; }
        for (index_t u = 0; u < nv; u++) { CHECK(c[u] == cnt[v][u], "after %s: vertex %u lists %u %d times, expected %d", op, v, u, c[u], cnt[v][u]); tot += (size_t)c[u]; }
    }
}
void run_case(unsigned long id) {
    nv = (index_t)(1 + rnd(id % 20 == 19 ? 39 : 8)); size_t m = rnd(id % 4 == 3 ? 400 : 30);
    memset(cnt, 0, sizeof cnt);
    ArrayList *A = array_list_init(m + 1, sizeof(index_t), int_compare), *B = array_list_init(m + 1, sizeof(index_t), int_compare),
              *W = array_list_init(m + 1, sizeof(distance_t), double_compare);
    static index_t ea[400], eb[400];
    for (size_t i = 0; i < m; i++) {
        ea[i] = (index_t)rnd(nv); eb[i] = rnd(5) ? (index_t)rnd(nv) : ea[i]; double w = (double)i;
        array_list_append(A, ea + i); array_list_append(B, eb + i); array_list_append(W, &w);
        cnt[ea[i]][eb[i]]++; if (ea[i] != eb[i]) cnt[eb[i]][ea[i]]++;
    }
    g = graph_init(id % 2 ? NULL : malloc(sizeof *g), nv, A, B, W);
    CHECK(g->numVertices == nv && g->verticesA == A && g->verticesB == B && g->edgeWeights == W, "the graph does not hold its edge lists");
    same("graph_init");
    for (int k = 0; k < 60; k++) {
        index_t a = (index_t)rnd(nv), b = (index_t)rnd(nv);
        if (m && rnd(4)) { size_t i = rnd(m); a = ea[i]; b = eb[i]; if (rnd(2)) { index_t t = a; a = b; b = t; } }
        graph_remove_edge(g, a, b);
        if (cnt[a][b] > 0) cnt[a][b]--;
        if (cnt[b][a] > 0) cnt[b][a]--;
        same("graph_remove_edge"); nontrivial();
        CHECK(A->size == m && B->size == m && W->size == m, "removal changed the edge list");
    }
    for (size_t i = 0; i < m; i++) CHECK(((index_t *)A->data)[i] == ea[i] && ((index_t *)B->data)[i] == eb[i] && ((double *)W->data)[i] == (double)i, "the edge list changed");
    graph_destroy(g);
}
