/* hashes: the bucket is in range, and equal keys fall into the same bucket */
#include <stdint.h>
#include "hdbscan/utils.h"
size_t nondet_size(void);
#define H(f, T, ok) \
  T nondet_##f(void); \
  size_t f(void *key, size_t buckets) __CPROVER_requires(__CPROVER_is_fresh(key, sizeof(T)) && buckets > 0 && ok(*(T *)key)) \
  __CPROVER_ensures(__CPROVER_return_value < buckets) __CPROVER_assigns(); \
  void h_##f(void) { void *k; size_t n; f(k, n); } \
  void r_##f(void) { T x = nondet_##f(), y = x; size_t n = nondet_size(); __CPROVER_assume(n > 0 && ok(x)); \
    size_t a = f(&x, n), b = f(&y, n); __CPROVER_assert(a == b, "equal keys fall into the same bucket"); }
#define ANY(x) 1
#define FITS(x) ((x) >= 0 && (x) < 18446744073709549568.0)
#define FITSF(x) ((x) >= 0 && (x) < 18446742974197923840.0f)
H(int_hash, int32_t, ANY)
H(long_hash, long, ANY)
H(short_hash, short, ANY)
H(char_hash, char, ANY)
H(double_hash, double, FITS)
H(float_hash, float, FITSF)
/* two equal floating-point keys either are the same value or are the two zeros */
#define Z(f, T) void r_##f##_zero(void) { T x = (T)0.0, y = (T)-0.0; size_t n = nondet_size(); __CPROVER_assume(n > 0); size_t a = f(&x, n), b = f(&y, n); \
    __CPROVER_assert(a == b, "0 and -0 fall into the same bucket"); }
Z(double_hash, double)
Z(float_hash, float)
