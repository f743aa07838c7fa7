/* cluster accounting */
#include "common.h"
#include "hdbscan/cluster.h"
void run_case(unsigned long id) {
    cluster *par = id % 3 ? cluster_init(NULL, (label_t)rnd(9), NULL, id % 2 ? NAN : rndu() * 10, (index_t)(10 + rnd(100))) : NULL;
    cluster *in = id % 4 == 3 ? malloc(sizeof *in) : NULL; if (in) memset(in, 0xA5, sizeof *in);
    label_t lb = (label_t)rnd(1000); double birth = id % 5 == 4 ? NAN : 0.25 + rndu() * 100; index_t n = (index_t)(1 + rnd(200));
    cluster *c = cluster_init(in, lb, par, birth, n);
    CHECK(c && (!in || c == in), "no cluster");
    CHECK(c->label == lb && c->parent == par && c->numPoints == n && (c->birthLevel == birth || isnan(birth)), "a new cluster does not hold what it was given");
    CHECK(c->deathLevel == 0 && c->offset == 0 && c->stability == 0 && c->propagatedStability == 0 && c->propagatedLowestChildDeathLevel == D_MAX && c->numConstraintsSatisfied == 0 &&
          c->propagatedNumConstraintsSatisfied == 0 && c->hasChildren == FALSE, "a new cluster does not start empty");
    CHECK(c->virtualChildCluster && set_size(c->virtualChildCluster) == 0 && c->propagatedDescendants && array_list_size(c->propagatedDescendants) == 0, "sets of a new cluster");
    if (par) CHECK(par->hasChildren == TRUE, "the parent is not marked");
    if (!par) CHECK(c->hasChildren == FALSE, "marked itself");
    cluster before; double st = 0; index_t leftp = n; double level = birth;
    if (isnan(level)) level = 100;
    c->propagatedStability = 3; c->propagatedNumConstraintsSatisfied = 2; c->numConstraintsSatisfied = 1; c->offset = 77; c->hasChildren = (boolean)rnd(2);
    while (leftp > 0 && rnd(12)) {
        index_t k = rnd(3) == 0 ? leftp : (index_t)(1 + rnd(leftp)); if (rnd(9) == 0) k = 0;
        if (rnd(3)) level = rnd(40) ? level * (0.3 + 0.7 * rndu()) : 0.0;
        before = *c;
        int r = cluster_detach_points(c, k, level);
        CHECK(r == CLUSTER_SUCCESS, "detach returned %d", r);
        leftp -= k;
        st = before.stability + k * (1 / level - 1 / birth);
        CHECK(c->numPoints == leftp, "%u points left, expected %u", c->numPoints, leftp);
        CHECK((isnan(st) && isnan(c->stability)) || c->stability == st || fabs(c->stability - st) <= 1e-9 * fabs(st), "stability %g, expected %g", c->stability, st);
        double ed = leftp == 0 ? level : before.deathLevel;
        CHECK(c->deathLevel == ed, "death level %g, expected %g with %u points left", c->deathLevel, ed, leftp);
        before.numPoints = c->numPoints; before.stability = c->stability; before.deathLevel = c->deathLevel;
        CHECK(before.label == c->label && (before.birthLevel == c->birthLevel || isnan(birth)) && before.offset == c->offset && before.propagatedStability == c->propagatedStability &&
              before.propagatedLowestChildDeathLevel == c->propagatedLowestChildDeathLevel && before.numConstraintsSatisfied == c->numConstraintsSatisfied &&
              before.propagatedNumConstraintsSatisfied == c->propagatedNumConstraintsSatisfied && before.parent == c->parent && before.hasChildren == c->hasChildren &&
              set_size(c->virtualChildCluster) == 0 && array_list_size(c->propagatedDescendants) == 0, "detaching changed something else");
        nontrivial(); if (level == 0) break;
    }
    cluster_destroy(c); if (par) cluster_destroy(par);
}
