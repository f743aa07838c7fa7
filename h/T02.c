/* propagation of one cluster, every combination of the rule */
#include "common.h"
#include "hdbscan/cluster.h"
void run_case(unsigned long id) {
    cluster *par = cluster_init(NULL, 1, NULL, NAN, 100), *other = cluster_init(NULL, 7, par, 5, 10), *c = cluster_init(NULL, 3, id % 10 == 9 ? NULL : par, 5, 10);
    cluster *ds[40]; size_t nd = id % 3 == 0 ? 0 : rnd(id % 7 == 6 ? 40 : 5), np = rnd(5);
    for (size_t i = 0; i < 40; i++) ds[i] = cluster_init(NULL, (label_t)(10 + i), NULL, 1, 1);
    for (size_t i = 0; i < nd; i++) array_list_append(c->propagatedDescendants, ds + i);
    for (size_t i = 0; i < np; i++) array_list_append(par->propagatedDescendants, &other);
    c->hasChildren = (boolean)(rnd(4) != 0);
    c->stability = (double)rnd(4); c->propagatedStability = (double)rnd(4); c->numConstraintsSatisfied = (index_t)rnd(3); c->propagatedNumConstraintsSatisfied = (index_t)rnd(3);
    c->deathLevel = (double)rnd(5); c->propagatedLowestChildDeathLevel = rnd(2) ? D_MAX : (double)rnd(5);
    par->propagatedLowestChildDeathLevel = rnd(2) ? D_MAX : (double)rnd(5); par->propagatedStability = (double)rnd(9); par->propagatedNumConstraintsSatisfied = (index_t)rnd(5);
    par->deathLevel = 2; par->stability = 4; par->numConstraintsSatisfied = 1;
    if (rnd(20) == 0) c->stability = INFINITY;
    cluster b = *c, pb = *par;
    cluster_propagate(c);
    if (c->parent == NULL) {
        CHECK(c->propagatedLowestChildDeathLevel == b.propagatedLowestChildDeathLevel && c->stability == b.stability && c->propagatedStability == b.propagatedStability &&
              array_list_size(c->propagatedDescendants) == nd && array_list_size(par->propagatedDescendants) == np, "propagating a root changed something");
    } else {
        double low = b.propagatedLowestChildDeathLevel == D_MAX ? b.deathLevel : b.propagatedLowestChildDeathLevel;
        CHECK(c->propagatedLowestChildDeathLevel == low, "lowest death level of the cluster is %g, expected %g", c->propagatedLowestChildDeathLevel, low);
        double pl = low < pb.propagatedLowestChildDeathLevel ? low : pb.propagatedLowestChildDeathLevel;
        CHECK(par->propagatedLowestChildDeathLevel == pl, "lowest death level of the parent is %g, expected %g", par->propagatedLowestChildDeathLevel, pl);
        int self = b.hasChildren == FALSE || b.numConstraintsSatisfied > b.propagatedNumConstraintsSatisfied ||
                   (b.numConstraintsSatisfied == b.propagatedNumConstraintsSatisfied && b.stability >= b.propagatedStability);
        index_t ec = pb.propagatedNumConstraintsSatisfied + (self ? b.numConstraintsSatisfied : b.propagatedNumConstraintsSatisfied);
        double es = pb.propagatedStability + (self ? b.stability : b.propagatedStability);
        CHECK(par->propagatedNumConstraintsSatisfied == ec, "constraints of the parent: %u, expected %u", par->propagatedNumConstraintsSatisfied, ec);
        CHECK(par->propagatedStability == es, "propagated stability of the parent: %g, expected %g", par->propagatedStability, es);
        size_t en = np + (self ? 1 : nd);
        CHECK(array_list_size(par->propagatedDescendants) == en, "the parent has %zu descendants, expected %zu", array_list_size(par->propagatedDescendants), en);
        for (size_t i = 0; i < en; i++) { cluster *g = ((cluster **)par->propagatedDescendants->data)[i], *e = i < np ? other : self ? c : ds[i - np];
            CHECK(g == e, "descendant %zu of the parent is wrong", i); }
        CHECK(array_list_size(c->propagatedDescendants) == nd, "the cluster's own descendants changed");
        for (size_t i = 0; i < nd; i++) CHECK(((cluster **)c->propagatedDescendants->data)[i] == ds[i], "the cluster's own descendants changed");
        nontrivial();
    }
    CHECK(c->stability == b.stability && c->propagatedStability == b.propagatedStability && c->numConstraintsSatisfied == b.numConstraintsSatisfied &&
          c->propagatedNumConstraintsSatisfied == b.propagatedNumConstraintsSatisfied && c->deathLevel == b.deathLevel && c->hasChildren == b.hasChildren && c->parent == b.parent && c->label == b.label &&
          c->numPoints == b.numPoints && c->offset == b.offset, "the cluster itself changed");
    CHECK(par->stability == pb.stability && par->deathLevel == pb.deathLevel && par->numConstraintsSatisfied == pb.numConstraintsSatisfied && par->parent == pb.parent && par->label == pb.label, "something else of the parent changed");
    for (int i = 0; i < 40; i++) cluster_destroy(ds[i]);
    cluster_destroy(c); cluster_destroy(other); cluster_destroy(par);
}
