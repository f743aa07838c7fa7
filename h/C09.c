/* whatever a container allocates during a random history is released when it is destroyed, once (ASan), destructors run once per element */
#include "common.h"
#include "hdbscan/hdbscan.h"
#include "collections/linkedlist.h"
#include "collections/hashtable.h"
#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define HEAP() __sanitizer_get_current_allocated_bytes()
#endif
#endif
#ifndef HEAP
#define HEAP() 0
#endif
static unsigned vcnt, kcnt; static void vd(void *p) { vcnt++; free(p); } static void kd(void *p) { kcnt++; free(p); }
static int32_t lcmp(const void *a, const void *b) { long x, y; memcpy(&x, a, 8); memcpy(&y, b, 8); return (x > y) - (x < y); }
static void lists(int set) {
    ArrayList *l = set ? set_init(8, lcmp) : array_list_init(1 + rnd(6), 8, lcmp); long v, w; int q = (int)rnd(300);
    while (q--) { v = (long)rnd(120); switch (rnd(set ? 8 : 9)) { case 0: if (set) set_remove(l, &v); else array_list_remove(l, &v); break;
        case 1: if (l->size) { if (set) set_remove_at(l, rnd(l->size), &w); else array_list_remove_at(l, rnd(l->size), &w); } break;
        case 2: if (rnd(20) == 0) { if (set) set_clear(l); else array_list_clear(l, (int)rnd(2)); } else if (!set) array_list_pop(l, &w); break;
        case 8: if (l->size) array_list_insert_at(l, &v, rnd(l->size)); break;
        default: if (set) set_insert(l, &v); else array_list_append(l, &v); } }
    if (set) CHECK(set_delete(l) == NULL, "deleting a set hands something back"); else CHECK(array_list_delete(l) == NULL, "deleting a list hands something back");
    CHECK(array_list_delete(NULL) == NULL, "deleting nothing"); }
static void linked(void) {
    linkedlist *l = linkedlist_init(8); long v; int q = (int)rnd(80);
    while (q--) { v = (long)rnd(20); switch (rnd(6)) { case 0: linkedlist_remove(l, &v, lcmp); break; case 1: linkedlist_front_add(l, &v); break; case 5: if (rnd(12) == 0) { linkedlist_clear(l); CHECK(l->size == 0 && !l->head && !l->tail, "clear"); } break;
        default: linkedlist_tail_add(l, &v); } }
    linkedlist_delete(l); }
static void table(int ptrs) {
    hashtable *h = ptrs ? hashtable_init(1 + rnd(30), H_INT, H_PTR, int_compare) : hashtable_init(1 + rnd(30), H_INT, H_LONG, int_compare); int q = (int)rnd(150); unsigned made = 0, back = 0; vcnt = 0;
    while (q--) { int k = (int)rnd(60) - 10; switch (rnd(5)) {
        case 0: { long *d = NULL; if (hashtable_remove(h, &k, &d) == 1 && ptrs) { free(d); back++; } } break;
        case 1: if (rnd(15) == 0) hashtable_clear(h, NULL, ptrs ? vd : NULL); break;
        default: { long x = (long)rnd(1000), *p = NULL; if (ptrs) { p = malloc(8); made++; } void *a = ptrs ? (void *)&p : (void *)&x;
            if (hashtable_insert(h, &k, a) != 1 && ptrs) { free(p); back++; } } } }
    hashtable_destroy(h, NULL, ptrs ? vd : NULL); if (ptrs) CHECK(vcnt + back == made, "%u values made, %u handed back, %u released by the destructor", made, back, vcnt); }
static void graph(int inplace) {
    index_t nv = (index_t)(1 + rnd(12)); size_t ne = rnd(40); ArrayList *a = array_list_init(1 + rnd(40), sizeof(index_t), int_compare), *b = array_list_init(4, sizeof(index_t), int_compare), *w = array_list_init(4, sizeof(distance_t), double_compare);
    for (size_t i = 0; i < ne; i++) { index_t x = (index_t)rnd(nv), y = (index_t)rnd(nv); distance_t d = rndu(); array_list_append(a, &x); array_list_append(b, &y); array_list_append(w, &d); }
    UndirectedGraph *m = inplace ? malloc(sizeof *m) : NULL, *g = graph_init(m, nv, a, b, w); CHECK(g && (!m || m == g), "graph_init");
    graph_quicksort_by_edge_weight(g); for (size_t q = rnd(6); q; q--) graph_remove_edge(g, (index_t)rnd(nv), (index_t)rnd(nv));
    if (inplace) { graph_clean(g); graph_clean(g); free(g); } else graph_destroy(g); graph_destroy(NULL); }
static void clus(int inplace) {
    cluster *m = inplace ? malloc(sizeof *m) : NULL, *p = cluster_init(NULL, 2, NULL, 1.0, 9), *c = cluster_init(m, 3, p, .5, 4); CHECK(c && (!m || m == c), "cluster_init");
    for (size_t q = rnd(30); q; q--) { index_t x = (index_t)rnd(50); set_insert(c->virtualChildCluster, &x); } cluster_detach_points(c, (index_t)rnd(5), .25); cluster_propagate(c);
    if (rnd(3) == 0) { set_delete(c->virtualChildCluster); c->virtualChildCluster = NULL; }
    if (rnd(3) == 0) { array_list_delete(c->propagatedDescendants); c->propagatedDescendants = NULL; }
    cluster_destroy(c); cluster_destroy(p); cluster_destroy(NULL); }
static void dist(int inplace) {
    distance *m = inplace ? malloc(sizeof *m) : NULL, *d = distance_init(m, _EUCLIDEAN, H_DOUBLE); CHECK(d && (!m || m == d), "distance_init");
    for (int q = (int)rnd(3); q; q--) { index_t r = (index_t)(1 + rnd(9)), c = (index_t)(1 + rnd(3)); double *x = malloc(sizeof(double) * r * c); for (size_t i = 0; i < (size_t)r * c; i++) x[i] = rndu(); distance_compute(d, x, r, c, (index_t)rnd(4)); free(x);
        if (q > 1 || rnd(2)) { distance_clean(d); CHECK(!d->distances && !d->coreDistances, "cleaned distances keep a pointer"); } }
    distance_destroy(d); }
static void one(unsigned long id) { int k = (int)(id & 8) != 0;
    switch (id % 8) { case 0: lists(0); break; case 1: lists(1); break; case 2: linked(); break; case 3: table(0); break; case 4: table(1); break; case 5: graph(k); break; case 6: clus(k); break; default: dist(k); } }
void run_case(unsigned long id) {
    (void)kd; static int warm; if (!warm) { warm = 1; uint64_t s = rng_s; for (unsigned long i = 0; i < 16; i++) one(i); rng_s = s; }
    size_t a = HEAP(); one(id); size_t b = HEAP(); CHECK(a == b, "%ld bytes of a %s were not released", (long)(b - a), (const char *[]){"list", "set", "linked list", "hash table", "hash table with pointers", "graph", "cluster", "distance object"}[id % 8]); nontrivial(); }
