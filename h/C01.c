/* ArrayList against a plain array: random operation histories */
#include "common.h"
#include "collections/list.h"
#include "hdbscan/utils.h"
static const size_t steps[] = {4, 8, 2, 1, 12, 24};
static int32_t cmp_bytes(const void *a, const void *b); static size_t cur_step;
static int32_t cmp_bytes(const void *a, const void *b) { return memcmp(a, b, cur_step); }
#define CAP 4000
static unsigned char ref[CAP][32]; static size_t n;
static void mk(unsigned char *e, size_t step, int dom) { memset(e, 0, 32); e[0] = (unsigned char)rnd((uint64_t)dom); for (size_t i = 1; i < step; i++) e[i] = (unsigned char)(e[0] * 7 + i); }
static ArrayList *L;
static void same(const char *op) {
    CHECK(array_list_size(L) == n, "after %s: size %zu, expected %zu", op, array_list_size(L), n);
    CHECK((array_list_empty(L) != 0) == (n == 0), "after %s: empty() wrong at size %zu", op, n);
    unsigned char b[40];
    for (size_t i = 0; i < n; i++) {
        memset(b, 0xAA, 40);
        CHECK(array_list_value_at(L, i, b) == 1, "after %s: value_at(%zu) of %zu failed", op, i, n);
        CHECK(!memcmp(b, ref[i], cur_step), "after %s: element %zu of %zu is %d, expected %d (step %zu)", op, i, n, b[0], ref[i][0], cur_step);
        CHECK(b[cur_step] == 0xAA, "after %s: value_at wrote beyond one element", op);
    }
    memset(b, 0xAA, 40);
    CHECK(array_list_value_at(L, n, b) == 0, "value_at(size) succeeded");
    CHECK(array_list_value_at(L, n + 1 + rnd(1000), b) == 0, "value_at(out of range) succeeded");
    CHECK(b[0] == 0xAA, "a failed value_at wrote its result");
}
void run_case(unsigned long id) {
    cur_step = steps[id % 6]; n = 0; int dom = (id / 6) % 3 == 0 ? 3 : 200;
    size_t init = 1 + rnd((id % 5) ? 4 : 40); int ops = 10 + (int)rnd(id % 7 == 0 ? 400 : 60);
    L = array_list_init(init, cur_step, cmp_bytes);
    int grow = id % 4 == 1;
    for (int k = 0; k < ops; k++) {
        unsigned char e[40]; mk(e, cur_step, dom); unsigned char got[40]; memset(got, 0x55, 40); size_t p; int r;
        int op = (int)rnd(grow ? 14 : 22);
        if (n > CAP - 4) break;
        if (op < 8) { r = array_list_append(L, e); CHECK(r == 1, "append returned %d", r); memcpy(ref[n++], e, 32); same("append"); }
        else if (op < 13) { p = rnd(n + 1); r = array_list_insert_at(L, e, p); CHECK(r == 1, "insert_at returned %d", r);
            memmove(ref[p + 1], ref[p], (n - p) * 32); memcpy(ref[p], e, 32); n++; same("insert_at"); }
        else if (op < 14) { p = rnd(n + 3); r = array_list_replace_at(L, e, p); CHECK(r == (p < n), "replace_at(%zu) of %zu returned %d", p, n, r);
            if (p < n) memcpy(ref[p], e, 32); same("replace_at"); }
        else if (op < 16) { p = rnd(n + 2); r = array_list_remove_at(L, p, got); CHECK(r == (p < n), "remove_at(%zu) of %zu returned %d", p, n, r);
            if (p < n) { CHECK(!memcmp(got, ref[p], cur_step), "remove_at gave a wrong element"); memmove(ref[p], ref[p + 1], (n - p - 1) * 32); n--; } same("remove_at"); }
        else if (op < 18) { r = array_list_pop(L, got); CHECK(n ? r == 1 : r <= 0, "pop of %zu returned %d", n, r);
            if (n) { n--; CHECK(!memcmp(got, ref[n], cur_step), "pop gave a wrong element"); } same("pop"); }
        else if (op < 20) { size_t f = n; for (p = 0; p < n; p++) if (!memcmp(ref[p], e, cur_step)) { f = p; break; }
            r = array_list_remove(L, e); CHECK(f < n ? r == 1 : r <= 0, "remove returned %d", r);
            if (f < n) { memmove(ref[f], ref[f + 1], (n - f - 1) * 32); n--; } same("remove"); }
        else if (op < 21) { if (rnd(4) == 0) { int rs = (int)rnd(2); array_list_clear(L, rs); n = 0; same("clear"); } }
        else if (n) { /* stable set of elements under sort */
            array_list_sort(L); for (size_t i = 1; i < n; i++) for (size_t j = i; j > 0 && memcmp(ref[j - 1], ref[j], cur_step) > 0; j--) { unsigned char t[32]; memcpy(t, ref[j], 32); memcpy(ref[j], ref[j - 1], 32); memcpy(ref[j - 1], t, 32); }
            same("sort"); }
        nontrivial();
    }
    CHECK(array_list_delete(L) == NULL, "delete returned a pointer");
}
