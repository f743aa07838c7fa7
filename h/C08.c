/* bucket sizing and capacity growth */
#include "common.h"
#include "collections/hashtable.h"
#include "collections/primes.h"
static int isprime(int x) { if (x < 2) return 0; for (int i = 2; i * i <= x; i++) if (x % i == 0) return 0; return 1; }
void run_case(unsigned long id) {
    for (int x = (int)id * 4 - 8; x < (int)id * 4 - 4; x++) {
        int y = x; if (id > 400) y = (int)(rnd64() & 0x7fffffff); if (id > 450) y = -y;
        int want; if (y <= 3) want = 3; else if (y <= 1217) { want = y - 1; while (!isprime(want)) want--; } else want = 0;
        int got = find_prime_less_than(y); CHECK(got == want, "find_prime_less_than(%d) = %d, expected %d", y, got, want);
        if (y >= 0 && y < 3000000) { hashtable *h = hashtable_init((size_t)y, H_INT, H_INT, int_compare); size_t b = want > 0 ? (size_t)want : 37; CHECK(h && h->buckets == b && b > 0, "a table for %d entries has %zu buckets, expected %zu", y, h ? h->buckets : 0, b);
            int k = -7, v = 3, o = 0; CHECK(hashtable_insert(h, &k, &v) == 1 && hashtable_lookup(h, &k, &o) && o == 3, "the table does not work"); hashtable_destroy(h, NULL, NULL); }
        size_t n = id < 400 ? (size_t)(x < 1 ? 1 : x) : (rnd64() >> (17 + rnd(46))) + 1; size_t p = highestPowerof2(n); CHECK(p > n && p <= 2 * n && (p & (p - 1)) == 0, "highestPowerof2(%zu) = %zu", n, p); 
        if (id < 60) { size_t q = (size_t)1 << (id % 48); p = highestPowerof2(q); CHECK(p > q && p <= 2 * q, "highestPowerof2(%zu) = %zu", q, p); if (q > 1) { p = highestPowerof2(q - 1); CHECK(p > q - 1 && p <= 2 * (q - 1), "highestPowerof2(%zu) = %zu", q - 1, p); } }
        nontrivial();
    }
}
