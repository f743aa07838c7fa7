/* hashtable against an association list */
#include "common.h"
#include "collections/hashtable.h"
typedef struct { int64_t k; int64_t v; } KV;
static KV ref[3000]; static size_t n; static hashtable *H; static enum HTYPES kt, dt;
static long where(int64_t k) { for (size_t i = 0; i < n; i++) if (ref[i].k == k) return (long)i; return -1; }
static void put(void *p, enum HTYPES t, int64_t v) { switch (t) { case H_INT: *(int *)p = (int)v; break; case H_LONG: *(long *)p = v; break; case H_SHORT: *(short *)p = (short)v; break;
    case H_CHAR: *(char *)p = (char)v; break; case H_DOUBLE: *(double *)p = (double)v; break; case H_FLOAT: *(float *)p = (float)v; break; default: *(void **)p = (void *)(intptr_t)v; } }
static int64_t get(void *p, enum HTYPES t) { switch (t) { case H_INT: return *(int *)p; case H_LONG: return *(long *)p; case H_SHORT: return *(short *)p;
    case H_CHAR: return *(char *)p; case H_DOUBLE: return (int64_t)*(double *)p; case H_FLOAT: return (int64_t)*(float *)p; default: return (int64_t)(intptr_t)*(void **)p; } }
static int dom;
static unsigned destroyed_k, destroyed_v; static unsigned char seenk[4000], seenv[4000];
static void same(const char *op, int full) {
    CHECK(hashtable_size(H) == n, "after %s: size %zu, expected %zu", op, hashtable_size(H), n);
    CHECK((hashtable_empty(H) != 0) == (n == 0), "after %s: empty() wrong at size %zu", op, n);
    CHECK(set_size(H->keys) == n, "after %s: %zu keys listed, expected %zu", op, set_size(H->keys), n);
    int64_t prev = INT64_MIN;
    for (size_t i = 0; i < n; i++) { int64_t b = 0; CHECK(set_value_at(H->keys, i, &b) == 1, "key %zu missing", i); int64_t k = get(&b, kt);
        CHECK(i == 0 || k > prev, "after %s: listed keys are not strictly ascending", op); prev = k; CHECK(where(k) >= 0, "after %s: key %ld is listed but not stored", op, (long)k); }
    if (full) for (int64_t k = -dom / 2; k <= dom / 2; k++) { int64_t kb = 0, vb = 0x5555555555555555; put(&kb, kt, k); long w = where(k); int r = hashtable_lookup(H, &kb, &vb);
        CHECK((r != 0) == (w >= 0), "after %s: lookup(%ld) returned %d, expected %s", op, (long)k, r, w >= 0 ? "found" : "missing");
        if (w >= 0) { CHECK(get(&vb, dt) == ref[w].v, "after %s: lookup(%ld) gave %ld, expected %ld", op, (long)k, (long)get(&vb, dt), (long)ref[w].v); }
        else CHECK(vb == 0x5555555555555555, "a failed lookup wrote its result"); }
}
static int64_t kslot[4000], vslot[4000];
static void kd(void *p) { int64_t k = 0; (void)k; destroyed_k++; free(p); }
static void vd(void *p) { destroyed_v++; free(p); }
static void ptr_case(unsigned long id) { /* pointer values released by callbacks exactly once */
    hashtable *h = hashtable_init(1 + rnd(20), H_INT, H_PTR, int_compare); size_t m = rnd(40); int *ks = calloc(m + 1, sizeof(int)); size_t cnt = 0;
    for (size_t i = 0; i < m; i++) { int k = (int)rnd(200) - 40; int *v = malloc(sizeof(int)); *v = k; int dup = 0; for (size_t j = 0; j < cnt; j++) dup |= ks[j] == k;
        if (dup) { free(v); continue; } ks[cnt++] = k; hashtable_insert(h, &k, &v); }
    destroyed_v = 0; (void)kd;
    if (id & 8) { hashtable_clear(h, NULL, vd); CHECK(destroyed_v == cnt, "clear released %u values of %zu", destroyed_v, cnt); CHECK(hashtable_size(h) == 0, "clear left entries");
        for (size_t j = 0; j < cnt; j++) { int *v = NULL; CHECK(!hashtable_lookup(h, ks + j, &v), "key %d survives clear", ks[j]); }
        int k = 5; int *v = malloc(4); *v = 9; hashtable_insert(h, &k, &v); destroyed_v = 0; cnt = 1; }
    hashtable_destroy(h, NULL, vd); CHECK(destroyed_v == cnt, "destroy released %u values of %zu", destroyed_v, cnt); free(ks); nontrivial(); }
void run_case(unsigned long id) {
    (void)kslot; (void)vslot; (void)seenk; (void)seenv;
    if (id % 10 == 9) { ptr_case(id); return; }
    static const enum HTYPES ks[] = {H_INT, H_LONG, H_SHORT, H_CHAR}; static const enum HTYPES ds[] = {H_INT, H_LONG, H_PTR, H_DOUBLE, H_SHORT, H_CHAR, H_FLOAT};
    static int32_t (*cmps[])(const void *, const void *) = {int_compare, long_compare, short_compare, char_compare};
    kt = ks[id % 4]; dt = ds[(id / 4) % 7]; n = 0; dom = kt == H_CHAR ? 100 : (id % 3 == 0 ? 12 : id % 3 == 1 ? 80 : 700);
    size_t buckets = rnd(3) == 0 ? rnd(4) : rnd(60); if (rnd(20) == 0) buckets = 1000 + rnd(400);
    H = hashtable_init(buckets, kt, dt, cmps[id % 4]); int ops = 10 + (int)rnd(id % 13 == 0 ? 400 : 80);
    int isint = 1;
    for (int q = 0; q < ops && n < 2900; q++) {
        int64_t k = (int64_t)rnd((uint64_t)dom) - dom / 2, v = (int64_t)rnd(120) + 1, kb = 0, vb = 0; (void)isint; put(&kb, kt, k); put(&vb, dt, v); long w = where(k); int op = (int)rnd(20);
        if (op < 11) { int r = hashtable_insert(H, &kb, &vb); CHECK(w < 0 ? r == 1 : r == -1, "insert of a %s key returned %d", w < 0 ? "new" : "present", r);
            CHECK(get(&vb, dt) == (w < 0 ? v : ref[w].v), "insert left %ld in the value buffer", (long)get(&vb, dt));
            if (w < 0) { ref[n].k = k; ref[n].v = v; n++; } else ref[w].v = v; same("insert", q % 8 == 0); }
        else if (op < 16) { int64_t out = 0x5555555555555555; int r = hashtable_remove(H, &kb, &out); CHECK((r > 0) == (w >= 0), "remove(%ld) returned %d, expected %s", (long)k, r, w >= 0 ? "success" : "failure");
            if (w >= 0) { CHECK(get(&out, dt) == ref[w].v, "remove(%ld) gave %ld, expected %ld", (long)k, (long)get(&out, dt), (long)ref[w].v);
                size_t sz = get_htype_size(dt); for (size_t b = sz; b < 8; b++) CHECK(((unsigned char *)&out)[b] == 0x55, "remove wrote beyond the value");
                ref[w] = ref[--n]; } same("remove", q % 8 == 0); }
        else if (op < 19) { int64_t out = 0x5555555555555555; int r = hashtable_lookup(H, &kb, &out); CHECK((r != 0) == (w >= 0), "lookup(%ld) returned %d", (long)k, r);
            if (w >= 0) CHECK(get(&out, dt) == ref[w].v, "lookup(%ld) gave %ld, expected %ld", (long)k, (long)get(&out, dt), (long)ref[w].v); }
        else if (rnd(6) == 0) { hashtable_clear(H, NULL, NULL); n = 0; same("clear", 1); }
        nontrivial();
    }
    same("the history", 1);
    hashtable_destroy(H, NULL, NULL);
}
