/* edge sorting: ascending weights, edges intact */
#include "common.h"
#include "hdbscan/undirected_graph.h"
#include "collections/list.h"
typedef struct { double w; index_t a, b; } E;
static int ce(const void *x, const void *y) { const E *p = x, *q = y; if (p->w != q->w) return p->w < q->w ? -1 : 1;
    if (p->a != q->a) return p->a < q->a ? -1 : 1; return p->b < q->b ? -1 : p->b > q->b; }
void run_case(unsigned long id) {
    size_t m = id < 30 ? id : rnd(id % 30 == 29 ? 1500 : 40); index_t nv = (index_t)(1 + rnd(20));
    ArrayList *A = array_list_init(m + 1, sizeof(index_t), int_compare), *B = array_list_init(m + 1, sizeof(index_t), int_compare),
              *W = array_list_init(m + 1, sizeof(distance_t), double_compare);
    E *e = malloc((m + 1) * sizeof *e); int pat = (int)rnd(7); uint64_t dom = rnd(2) ? 3 : 1000000;
    for (size_t i = 0; i < m; i++) {
        e[i].a = (index_t)rnd(nv); e[i].b = (index_t)rnd(nv);
        e[i].w = pat == 0 ? 1.0 : pat == 1 ? (double)i : pat == 2 ? (double)(m - i) : pat == 3 ? (double)(i < m / 2 ? i : m - i) : (double)rnd(dom) / 4;
        if (pat == 6 && rnd(9) == 0) e[i].w = D_MAX;
        array_list_append(A, &e[i].a); array_list_append(B, &e[i].b); array_list_append(W, &e[i].w);
    }
    UndirectedGraph *g = graph_init(NULL, nv, A, B, W);
    if (id % 5 == 4 && m < 400) graph_quicksort(g, 0, (int64_t)m - 1); else graph_quicksort_by_edge_weight(g);
    CHECK(A->size == m && B->size == m && W->size == m, "the number of edges changed");
    E *o = malloc((m + 1) * sizeof *o);
    for (size_t i = 0; i < m; i++) { o[i].w = ((double *)W->data)[i]; o[i].a = ((index_t *)A->data)[i]; o[i].b = ((index_t *)B->data)[i];
        CHECK(i == 0 || o[i - 1].w <= o[i].w, "%zu edges: weight %zu is out of order (%g after %g)", m, i, o[i].w, o[i - 1].w); }
    qsort(e, m, sizeof *e, ce); qsort(o, m, sizeof *o, ce);
    for (size_t i = 0; i < m; i++) CHECK(!ce(e + i, o + i), "%zu edges: an edge was lost or changed: got (%u,%u,%g), expected (%u,%u,%g)", m, o[i].a, o[i].b, o[i].w, e[i].a, e[i].b, e[i].w);
    if (m > 1) nontrivial();
    free(e); free(o); graph_destroy(g);
}
