/* searches: first match / a match in a sorted list, -1 exactly when absent */
#include "common.h"
#include "collections/list.h"
#include "collections/set.h"
#include "hdbscan/utils.h"
static int32_t cmp_key(const void *a, const void *b) { int x = *(const int *)a, y = *(const int *)b; return x < y ? -1000 : x > y ? 7 : 0; }
typedef struct { int k; int tag; } E;
void run_case(unsigned long id) {
    size_t n = id < 4000 ? id % 12 : rnd(300); int dom = (int)(id % 3 == 0 ? 3 : id % 3 == 1 ? (int)(2 * n + 2) : 1000);
    ArrayList *l = array_list_init(1 + rnd(4), sizeof(E), cmp_key);
    E *v = calloc(n + 1, sizeof(E)); int sorted = id % 2;
    for (size_t i = 0; i < n; i++) { v[i].k = (int)rnd((uint64_t)dom) - dom / 2; v[i].tag = (int)i; }
    if (sorted) for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && v[j - 1].k > v[j].k; j--) { E t = v[j]; v[j] = v[j - 1]; v[j - 1] = t; }
    for (size_t i = 0; i < n; i++) array_list_append(l, v + i);
    for (int q = -dom / 2 - 1; q <= dom / 2 + 1; q += dom > 100 ? 1 + (int)rnd(9) : 1) {
        E e = {q, -1}; long first = -1; for (size_t i = 0; i < n; i++) if (v[i].k == q) { first = (long)i; break; }
        long r = (long)array_list_find(l, &e, 0);
        CHECK(r == first, "linear search for %d in %zu elements gave %ld, expected %ld", q, n, r, first);
        if (sorted) { r = (long)array_list_find(l, &e, 1);
            CHECK(first < 0 ? r == -1 : r >= 0 && r < (long)n && v[r].k == q, "binary search for %d in %zu elements gave %ld (first match %ld)", q, n, r, first); }
        if (n) nontrivial();
    }
    for (size_t i = 0; i < n; i++) { E g; CHECK(array_list_value_at(l, i, &g) == 1 && g.k == v[i].k && g.tag == v[i].tag, "a search changed element %zu", i); }
    array_list_delete(l); free(v);
}
