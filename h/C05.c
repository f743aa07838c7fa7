/* doubly linked list against an array, walked in both directions */
#include "common.h"
#include "collections/linkedlist.h"
typedef struct { int k; int tag; } E;
static int32_t cmp_key(const void *a, const void *b) { int x = *(const int *)a, y = *(const int *)b; return x < y ? -3 : x > y ? 5 : 0; }
static E ref[1200]; static int n; static linkedlist *L;
static void same(const char *op) {
    CHECK(L->size == n, "after %s: size %d, expected %d", op, L->size, n);
    CHECK((linkedlist_empty(L) != 0) == (n > 0), "after %s: linkedlist_empty wrong at size %d", op, n);
    node *x = L->head, *prev = NULL;
    for (int i = 0; i < n; i++) { CHECK(x, "after %s: the chain ends after %d of %d elements", op, i, n); E *e = x->data; CHECK(e->k == ref[i].k && e->tag == ref[i].tag, "after %s: element %d is wrong", op, i);
        CHECK(x->prev == prev, "after %s: back link of element %d of %d is wrong", op, i, n); prev = x; x = x->next; }
    CHECK(x == NULL, "after %s: the chain goes on after %d elements", op, n); CHECK(L->tail == prev, "after %s: tail is wrong at size %d", op, n);
    E *h = linkedlist_head(L, 0), *t = linkedlist_tail(L, 0);
    CHECK(n ? h && h->tag == ref[0].tag : !h, "after %s: head() is wrong", op); CHECK(n ? t && t->tag == ref[n - 1].tag : !t, "after %s: tail() is wrong", op);
    for (int i = 0; i < n; i++) { E g = {0, 0}; CHECK(linkedlist_value_at(L, i, &g) == i && g.tag == ref[i].tag && g.k == ref[i].k, "after %s: value_at(%d) of %d is wrong", op, i, n); }
    E g; CHECK(linkedlist_value_at(L, n, &g) == -1, "value_at(size) succeeded");
}
void run_case(unsigned long id) {
    L = linkedlist_init(sizeof(E)); n = 0; same("init"); int dom = id % 3 == 0 ? 4 : 60, ops = 6 + (int)rnd(id % 9 == 0 ? 300 : 40);
    for (int q = 0; q < ops && n < 1100; q++) {
        E e = {(int)rnd((uint64_t)dom), q + 1}; int op = (int)rnd(20), f = -1; for (int i = 0; i < n; i++) if (ref[i].k == e.k) { f = i; break; }
        if (op < 5) { if (q & 1) { node *x = linkedlist_node_front_add(L, &e); CHECK(x && ((E *)x->data)->tag == e.tag, "front_add returned a wrong node"); } else CHECK(linkedlist_front_add(L, &e), "front_add failed");
            memmove(ref + 1, ref, (size_t)n * sizeof(E)); ref[0] = e; n++; same("front_add"); }
        else if (op < 11) { if (q & 1) { node *x = linkedlist_node_tail_add(L, &e); CHECK(x && ((E *)x->data)->tag == e.tag, "tail_add returned a wrong node"); } else CHECK(linkedlist_tail_add(L, &e), "tail_add failed"); ref[n++] = e; same("tail_add"); }
        else if (op < 15) { int r = linkedlist_remove(L, &e, cmp_key); CHECK((r == 1) == (f >= 0), "remove returned %d", r); if (f >= 0) { memmove(ref + f, ref + f + 1, (size_t)(n - f - 1) * sizeof(E)); n--; } same("remove"); }
        else if (op < 17) { E *g = linkedlist_lookup(L, &e, 0, cmp_key); CHECK(f >= 0 ? g && g->tag == ref[f].tag : !g, "lookup is wrong"); same("lookup"); }
        else if (op < 19) { E *g = linkedlist_lookup(L, &e, 1, cmp_key); CHECK(f >= 0 ? g && g->tag == ref[f].tag : !g, "lookup with removal is wrong"); if (f >= 0) { memmove(ref + f, ref + f + 1, (size_t)(n - f - 1) * sizeof(E)); n--; } same("lookup with removal"); }
        else if (rnd(4) == 0) { linkedlist_clear(L); n = 0; same("clear"); }
        nontrivial();
    }
    linkedlist_delete(L);
}
