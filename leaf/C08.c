/* the prime search, over all 2^32 arguments (the recursion is unwound completely, with unwinding assertions) */
#include <stdint.h>
#include "collections/primes.h"
#define NP ((int)(sizeof primes / sizeof primes[0]))
int32_t nondet_i(void); int nondet_k(void);
int32_t find_prime_less_than(int32_t num)
  __CPROVER_ensures(num > 3 || __CPROVER_return_value == 3)
  __CPROVER_ensures(num <= 1217 || __CPROVER_return_value == 0)
  __CPROVER_ensures(num <= 3 || num > 1217 || (__CPROVER_return_value >= 3 && __CPROVER_return_value < num))
  __CPROVER_assigns();
void h_find_prime_less_than(void) { int32_t n; find_prime_less_than(n); }
/* the result is prime and no prime lies between it and num */
void r_find_prime_less_than(void) {
    int32_t n = nondet_i(); __CPROVER_assume(n > 3 && n <= 1217);
    int32_t p = find_prime_less_than(n);
    __CPROVER_assert(p >= 3 && p < n, "below the argument");
    int32_t d = nondet_i(); __CPROVER_assume(d >= 2 && d < p && d < 36);
    __CPROVER_assert(p % d != 0, "the result is prime");
    int32_t q = nondet_i(); __CPROVER_assume(q > p && q < n && q <= 1217);
    __CPROVER_assert(q % 2 == 0 || q % 3 == 0 || q % 5 == 0 || q % 7 == 0 || q % 11 == 0 || q % 13 == 0 || q % 17 == 0 || q % 19 == 0 || q % 23 == 0 || q % 29 == 0 || q % 31 == 0, "no prime is skipped");
}
