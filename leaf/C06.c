/* contracts of the comparators: the sign of the numeric comparison (hence total orders) */
#include <stdint.h>
#include "hdbscan/utils.h"
#include "hdbscan/outlier_score.h"
#include "hdbscan/cluster.h"
#define SIGN(X, Y) __CPROVER_ensures((__CPROVER_return_value > 0) == ((X) > (Y))) __CPROVER_ensures((__CPROVER_return_value < 0) == ((X) < (Y))) __CPROVER_assigns()
#define CMP(f, T, ok) int32_t f(const void *a, const void *b) \
  __CPROVER_requires(__CPROVER_is_fresh(a, sizeof(T)) && __CPROVER_is_fresh(b, sizeof(T))) __CPROVER_requires(ok(*(T *)a) && ok(*(T *)b)) SIGN(*(T *)a, *(T *)b); \
  void h_##f(void) { const void *a, *b; f(a, b); }
#define PCMP(f, T, ok) int32_t f(const void *a, const void *b) \
  __CPROVER_requires(__CPROVER_is_fresh(a, sizeof(T *)) && __CPROVER_is_fresh(b, sizeof(T *))) __CPROVER_requires(__CPROVER_is_fresh(*(T **)a, sizeof(T)) && __CPROVER_is_fresh(*(T **)b, sizeof(T))) \
  __CPROVER_requires(ok(**(T **)a) && ok(**(T **)b)) SIGN(**(T **)a, **(T **)b); \
  void h_##f(void) { const void *a, *b; f(a, b); }
#define ANY(x) 1
#define NUM(x) ((x) == (x))
CMP(int_compare, int32_t, ANY)
CMP(short_compare, short, ANY)
CMP(long_compare, long, ANY)
CMP(char_compare, char, ANY)
CMP(double_compare, double, NUM)
CMP(float_compare, float, NUM)
PCMP(int_ptr_compare, int32_t, ANY)
PCMP(short_ptr_compare, short, ANY)
PCMP(long_ptr_compare, long, ANY)
PCMP(char_ptr_compare, char, ANY)
PCMP(double_ptr_compare, double, NUM)
PCMP(float_ptr_compare, float, NUM)

#define S1 ((const outlier_score *)score1)
#define S2 ((const outlier_score *)score2)
#define LEX(op) (S1->score op S2->score || (S1->score == S2->score && (S1->coreDistance op S2->coreDistance || (S1->coreDistance == S2->coreDistance && S1->id op S2->id))))
int outlier_score_compare(const void *score1, const void *score2)
  __CPROVER_requires(__CPROVER_is_fresh(score1, sizeof(outlier_score)) && __CPROVER_is_fresh(score2, sizeof(outlier_score)))
  __CPROVER_requires(NUM(S1->score) && NUM(S2->score) && NUM(S1->coreDistance) && NUM(S2->coreDistance) && S1->id <= 0x7fffffffu && S2->id <= 0x7fffffffu)
  __CPROVER_ensures((__CPROVER_return_value > 0) == LEX(>)) __CPROVER_ensures((__CPROVER_return_value < 0) == LEX(<)) __CPROVER_assigns();
void h_outlier_score_compare(void) { const void *a, *b; outlier_score_compare(a, b); }

int32_t cluster_compare(const void *a, const void *b)
  __CPROVER_requires(__CPROVER_is_fresh(a, sizeof(cluster)) && __CPROVER_is_fresh(b, sizeof(cluster)))
  SIGN(((const cluster *)a)->label, ((const cluster *)b)->label);
void h_cluster_compare(void) { const void *a, *b; cluster_compare(a, b); }

/* zero exactly for equal pointers; the sign for pointers into different objects is outside cbmc's memory model and is bounded-tested */
int32_t ptr_compare(const void *a, const void *b)
  __CPROVER_requires(__CPROVER_is_fresh(a, sizeof(void *)) && __CPROVER_is_fresh(b, sizeof(void *)))
  __CPROVER_ensures((__CPROVER_return_value == 0) == (*(char **)a == *(char **)b)) __CPROVER_assigns();
void h_ptr_compare(void) { const void *a, *b; ptr_compare(a, b); }
