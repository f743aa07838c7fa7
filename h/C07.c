/* hashes: in range, and equal keys share a bucket */
#include "common.h"
#include <limits.h>
#include "hdbscan/utils.h"
static long gl(void) { static const long s[] = {0, 1, -1, 2, -2, 127, -128, 32767, -32768, INT_MAX, INT_MIN, LONG_MAX, LONG_MIN, LONG_MAX - 1, 1L << 32, -(1L << 32)}; return rnd(3) ? s[rnd(16)] : (long)rnd64(); }
#define H(t, f, v) do { struct { unsigned char before[8]; t k; unsigned char after[8]; } x, y; memset(&x, 1, sizeof x); memset(&y, 0xEE, sizeof y); x.k = (t)(v); y.k = x.k; size_t h = f(&x.k, b), g = f(&y.k, b); \
    CHECK(h < b, #f "(%.17g) = %zu is not below %zu buckets", (double)x.k, h, b); CHECK(h == g, #f ": equal keys %.17g fall into buckets %zu and %zu", (double)x.k, h, g); CHECK(x.k == y.k, "key changed"); } while (0)
void run_case(unsigned long id) {
    for (int i = 0; i < 60; i++) {
        size_t b = rnd(3) == 0 ? 1 : rnd(2) ? 1 + rnd(1300) : 1 + rnd64() % (1UL << 33);
        H(int32_t, int_hash, gl()); H(long, long_hash, gl()); H(short, short_hash, gl()); H(char, char_hash, gl());
        double d = rnd(3) ? (double)rnd(100000) / 8 : rndu(); H(double, double_hash, d); H(float, float_hash, d);
        double z = 0.0, mz = -0.0; CHECK(double_hash(&z, b) == double_hash(&mz, b), "0.0 and -0.0 differ"); float zf = 0, mzf = -0.0f; CHECK(float_hash(&zf, b) == float_hash(&mzf, b), "0.0f and -0.0f differ");
        char s[40], t[48]; int n = (int)rnd(30); for (int j = 0; j < n; j++) s[j] = (char)(1 + rnd(rnd(4) ? 126 : 255)); s[n] = 0; memset(t, 0x7f, sizeof t); strcpy(t + 3, s);
        size_t h = str_hash(s, b), g = str_hash(t + 3, b); CHECK(h < b, "str_hash out of range"); CHECK(h == g, "equal strings fall into different buckets"); nontrivial();
    }
    (void)id;
}
