/* the validity score: the documented table over the signs of skewness and kurtosis */
#include "hdbscan/hdbscan.h"
#define PART(s, k) ((s) > 0 && (k) > 0 ? 2 : (s) < 0 && (k) > 0 ? 1 : (s) > 0 && (k) < 0 ? 0 : -1)
int32_t hdbscan_analyse_stats(clustering_stats *stats)
  __CPROVER_requires(__CPROVER_is_fresh(stats, sizeof(clustering_stats)))
  __CPROVER_ensures(__CPROVER_return_value == PART(stats->coreDistanceValues.skewness, stats->coreDistanceValues.kurtosis) + PART(stats->intraDistanceValues.skewness, stats->intraDistanceValues.kurtosis))
  __CPROVER_assigns();
void h_hdbscan_analyse_stats(void) { clustering_stats *s; hdbscan_analyse_stats(s); }
