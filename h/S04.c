/* the verdict, over all sign combinations and special values */
#include "common.h"
#include "hdbscan/hdbscan.h"
static const double V[] = {0.0, -0.0, 1.0, -1.0, INFINITY, -INFINITY, NAN, 5e-324, -5e-324, 1e308, -1e308};
static int part(double s, double k) { return s > 0 && k > 0 ? 2 : s < 0 && k > 0 ? 1 : s > 0 && k < 0 ? 0 : -1; }
void run_case(unsigned long id) {
    clustering_stats st; memset(&st, (int)(id % 5) * 50, sizeof st); unsigned long q = id % 14641;
    double a = V[q % 11], b = V[q / 11 % 11], c = V[q / 121 % 11], d = V[q / 1331 % 11];
    if (id >= 14641) { a = rndu() - 0.5; b = rndu() - 0.5; c = rndu() - 0.5; d = rndu() - 0.5; }
    st.coreDistanceValues.skewness = a; st.coreDistanceValues.kurtosis = b; st.intraDistanceValues.skewness = c; st.intraDistanceValues.kurtosis = d;
    clustering_stats cp = st; int32_t g = hdbscan_analyse_stats(&st), e = part(a, b) + part(c, d);
    CHECK(g == e, "core skewness %g kurtosis %g, pairwise skewness %g kurtosis %g: verdict %d, expected %d", a, b, c, d, g, e);
    CHECK(!memcmp(&cp, &st, sizeof st), "the statistics changed"); nontrivial();
}
