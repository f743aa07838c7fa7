/* set_t against a sorted array without duplicates */
#include "common.h"
#include "collections/set.h"
#include "hdbscan/utils.h"
typedef struct { int k; int tag; } E;
static int32_t cmp_key(const void *a, const void *b) { int x = *(const int *)a, y = *(const int *)b; return x < y ? -3 : x > y ? 5 : 0; }
static E ref[3000]; static size_t n; static set_t *S;
static long where(int k) { for (size_t i = 0; i < n; i++) if (ref[i].k == k) return (long)i; return -1; }
static void same(const char *op) {
    CHECK(set_size(S) == n, "after %s: size %zu, expected %zu", op, set_size(S), n);
    CHECK((set_empty(S) != 0) == (n == 0), "after %s: empty() wrong", op);
    for (size_t i = 0; i < n; i++) { E g = {0, 0}; CHECK(set_value_at(S, i, &g) == 1, "after %s: value_at(%zu) failed", op, i);
        CHECK(g.k == ref[i].k && g.tag == ref[i].tag, "after %s: element %zu is (%d,%d), expected (%d,%d)", op, i, g.k, g.tag, ref[i].k, ref[i].tag); }
    E g; CHECK(set_value_at(S, n, &g) == 0, "value_at(size) succeeded");
}
void run_case(unsigned long id) {
    n = 0; S = set_init(sizeof(E), cmp_key);
    int dom = id % 3 == 0 ? 4 : id % 3 == 1 ? 40 : 100000; int ops = 10 + (int)rnd(id % 11 == 0 ? 500 : 60);
    for (int k = 0; k < ops && n < 2900; k++) {
        E e = {(int)rnd((uint64_t)dom) - dom / 2, k + 1}; long w = where(e.k); int op = (int)rnd(20); int r; size_t p;
        if (op < 11) { r = set_insert(S, &e); CHECK(r == (w < 0), "insert of a %s element returned %d", w < 0 ? "new" : "present", r);
            if (w < 0) { for (p = 0; p < n && ref[p].k < e.k; p++); memmove(ref + p + 1, ref + p, (n - p) * sizeof(E)); ref[p] = e; n++; } same("insert"); }
        else if (op < 14) { r = set_remove(S, &e); CHECK(w >= 0 ? r == 1 : r == -1, "remove of a%s element returned %d", w < 0 ? "n absent" : " present", r);
            if (w >= 0) { CHECK(e.tag == ref[w].tag, "remove gave a wrong element"); memmove(ref + w, ref + w + 1, (n - (size_t)w - 1) * sizeof(E)); n--; } same("remove"); }
        else if (op < 16) { p = rnd(n + 2); E g = {0, 0}; r = set_remove_at(S, p, &g); CHECK(r == (p < n), "remove_at(%zu) of %zu returned %d", p, n, r);
            if (p < n) { CHECK(g.tag == ref[p].tag && g.k == ref[p].k, "remove_at gave a wrong element"); memmove(ref + p, ref + p + 1, (n - p - 1) * sizeof(E)); n--; } same("remove_at"); }
        else if (op < 19) { long f = (long)set_find(S, &e); CHECK(f == w, "find(%d) gave %ld, expected %ld", e.k, f, w); }
        else if (rnd(5) == 0) { if (rnd(2)) { set_clear(S); n = 0; same("clear"); } else { set_sort(S); same("sort"); } }
        nontrivial();
    }
    CHECK(set_delete(S) == NULL, "delete returned a pointer");
}
