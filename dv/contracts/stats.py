"""clustering statistics (src/hdbscan.c): the textbook formulas over two arrays of ratios"""
from .base import *
from .order import NumR, NaNat, DF, facts as order_facts
from .htclient import Tb

i_, n_, j, k = z3.Ints('i_ n_ j k')
ra = z3.Const('ra', Row)
mu = z3.Const('mu', FP)
S1 = z3.Function('sum1', Row, I, FP)            # sum of the first n ratios, in order
S2 = z3.Function('sum2', Row, FP, I, FP)        # sum of the squared differences from a mean
S3 = z3.Function('sum3', Row, FP, I, FP)        # ... of the third powers
S4 = z3.Function('sum4', Row, FP, I, FP)        # ... of the fourth powers
ST = '_clustering_stats'
OWN = z3.Function('labelOf', I, I)            # a distance range belongs to one label


def defs(c):
    f = c.e.fop
    zero, three, four = [c.e.fconst(c.st, x, 64) for x in (0.0, 3.0, 4.0)]
    t = f('fsub64', DF(ra, n_), mu)
    add = lambda a, b: f('fadd64', a, b)
    r = [forall([ra, i_], Implies(i_ == 1, S1(ra, i_) == DF(ra, 0)), [S1(ra, i_)]),
         forall([ra, i_, n_], Implies(And(n_ >= 1, i_ == n_ + 1), S1(ra, i_) == add(S1(ra, n_), DF(ra, n_))), [(S1(ra, i_), z3.Select(ra, n_))])]
    for F, g in ((S2, f('fmul64', t, t)), (S3, f('pow64', t, three)), (S4, f('pow64', t, four))):
        r += [forall([ra, mu], F(ra, mu, 0) == zero, [F(ra, mu, 0)]),
              forall([ra, mu, i_, n_], Implies(And(n_ >= 0, i_ == n_ + 1), F(ra, mu, i_) == add(F(ra, mu, n_), g)), [(F(ra, mu, i_), z3.Select(ra, n_))])]
    return r


class SV:
    """one of the two groups of statistics"""
    F = ('mean', 'standardDev', 'variance', 'max', 'kurtosis', 'skewness')

    def __init__(self, m, o, which):
        self.m = m
        self.off = m.e.prog.field(ST, which)[0]
        self.ix = At(o, z3.IntVal(self.off))

    def __getattr__(self, f):
        return self.m.get('stats_values.' + f, self.ix)


class helper(Contract):
    name = 'hdbscan_calculate_stats_helper'
    nargs = 3
    G = ('coreDistanceValues', 'intraDistanceValues')

    def bind(self, c):
        c.g['C'], c.g['D'], c.g['o'] = [x.obj for x in c.a]

    def n(self, c):
        return c.m0.get(ST + '.count', c.g['o'])

    def sv(self, c, m):
        return [SV(m, c.g['o'], g) for g in self.G]

    def rows(self, c):
        return [c.m0.row(c.g[x]) for x in 'CD']

    def pre(self, c):
        o = c.g['o']
        n = self.n(c)
        if c.mode == 'call':
            for x in 'CD':
                c.e.stride_of(c.st, c.g[x], z3.IntVal(8))
        return [('a statistics structure', And(o > 0, c.m0.live(o), Bytes(o) >= c.e.prog.csize(ST), c.a[2].off == 0)), ('at least one ratio', n >= 1)] + [
            ('as many ratios', And(c.g[x] > 0, c.m0.live(c.g[x]), c.g[x] != o, Stride(c.g[x]) == 8, Len(c.g[x]) >= n, c.a[q].off == 0)) for q, x in enumerate('CD')]

    def after_pre(self, c):
        for x in 'CD':
            c.st.claims.append((c.g[x], z3.IntVal(8)))

    def axioms(self, c):
        o = c.g['o']
        ids = [x.ix for x in self.sv(c, c.m0)]
        return defs(c) + order_facts()[3:] + [ids[0] != ids[1]] + [And(AtB(x.ix) == o, AtO(x.ix) == x.off, x.ix < -2000000) for x in self.sv(c, c.m0)]

    def effects(self, c):
        for x in self.sv(c, c.m0):
            for f in SV.F:
                c.mod_field('stats_values.' + f, x.ix)

    def after_call(self, c):
        c.st.ghosts['ratios'] = self.rows(c)

    def post(self, c):
        return self.formulas(c, self.n(c), self.rows(c))

    def formulas(self, c, n, rows):
        f = c.e.fop
        kf = lambda v: c.e.fconst(c.st, v, 64)
        cnt, cnt1 = c.e.i2f(c.st, n, 64, 32), c.e.i2f(c.st, n - 1, 64, 32)
        r = []
        for nm, v, row in zip(('core', 'pairwise'), self.sv(c, c.m1), rows):
            mean = f('fdiv64', S1(row, n), cnt)
            sd = v.standardDev
            r += [('%s mean' % nm, v.mean == mean),
                  ('%s maximum bounds the ratios' % nm, Implies(NumR(row, 0, n - 1), forall([j], Implies(And(j >= 0, j < n), val(DF(row, j)) <= val(v.max)), [z3.Select(row, j)]))),
                  ('%s maximum is a ratio' % nm, Or(v.max == DF(row, 0), z3.Exists([k], And(k >= 0, k < n, v.max == DF(row, k)), patterns=[z3.Select(row, k)]))),
                  ('%s sample variance' % nm, v.variance == f('fdiv64', S2(row, mean, n), cnt1)),
                  ('%s standard deviation' % nm, sd == f('sqrt64', v.variance)),
                  ('%s skewness' % nm, v.skewness == f('fdiv64', S3(row, mean, n), f('fmul64', cnt, f('pow64', sd, kf(3.0))))),
                  ('%s kurtosis' % nm, v.kurtosis == f('fsub64', f('fdiv64', S4(row, mean, n), f('fmul64', cnt, f('pow64', sd, kf(4.0)))), kf(3.0)))]
        return r

    def templates(self, c):
        n = self.n(c)
        R = self.rows(c)
        ts = []
        for g, row in enumerate(R):
            v = lambda lp, g=g: self.sv(c, lp.m)[g]
            ts += [Template(['own'], lambda lp, x, v=v, row=row: v(lp).mean == S1(row, x), 'sum'),
                   Template(['own'], lambda lp, x, v=v, row=row: Implies(NumR(row, 0, n - 1), forall([j], Implies(And(j >= 0, j < x), val(DF(row, j)) <= val(v(lp).max)), [z3.Select(row, j)])), 'bound'),
                   Template([], lambda lp, v=v, row=row: Or(v(lp).max == DF(row, 0), z3.Exists([k], And(k >= 0, k < n, v(lp).max == DF(row, k)), patterns=[z3.Select(row, k)])), 'member'),
                   Template(['own'], lambda lp, x, v=v, row=row: v(lp).variance == S2(row, v(lp).mean, x), 'squares')]
            for F, nm in ((S2, 'squares'), (S3, 'cubes'), (S4, 'fourth powers')):
                ts.append(Template(['fp', 'own'], lambda lp, y, x, F=F, v=v, row=row: y == F(row, v(lp).mean, x), nm))
            ts.append(Template(['fp', 'own'], lambda lp, y, x, row=row: y == S1(row, x), 'sum'))
            # an account that another loop has finished
            ts += [Template([], lambda lp, v=v, row=row: v(lp).mean == S1(row, n), 'whole sum'),
                   Template([], lambda lp, v=v, row=row: Implies(NumR(row, 0, n - 1), forall([j], Implies(And(j >= 0, j < n), val(DF(row, j)) <= val(v(lp).max)), [z3.Select(row, j)])), 'bound of all'),
                   Template([], lambda lp, v=v, row=row: v(lp).variance == S2(row, v(lp).mean, n), 'all squares')]
            for F, nm in ((S2, 'squares'), (S3, 'cubes'), (S4, 'fourth powers')):
                ts.append(Template(['fp'], lambda lp, y, F=F, v=v, row=row: y == F(row, v(lp).mean, n), 'all ' + nm))
        return ts

    def bounds(self, c):
        return [('count', self.n(c))]


class calculate(Contract):
    """the statistics of a map from labels to distance ranges"""
    name = 'hdbscan_calculate_stats'
    nargs = 2
    uses_tables = True

    def bind(self, c):
        c.g['o'] = c.a[1].obj

    def t0(self, c):
        return Tb(c.m0, c.a[0].obj)

    def ob(self, c, x):
        return asP(self.t0(c).val(x))

    def isval(self, c, o):
        t = self.t0(c)
        return And(t.has(OWN(o)), asP(t.val(OWN(o))) == o)

    def pre(self, c):
        t = self.t0(c)
        o, s = self.ob(c, k), c.g['o']
        return t.wf() + [('at least one cluster', And(t.size >= 1, t.size < (1 << 32))),
                         ('every value is the distance range of its label', forall([k], Implies(t.has(k), And(
                             o > 0, asPo(t.val(k)) == 0, c.m0.live(o), Bytes(o) == c.e.prog.csize('distance_values'), OWN(o) == k, o != s)), [t.val(k)])),
                         ('a statistics structure', And(s > 0, c.m0.live(s), Bytes(s) == c.e.prog.csize(ST), c.a[1].off == 0)),
                         ('the statistics lie apart', And(*[s != x for x in (t.o, t.keys, t.ks.d)]))]

    def after_pre(self, c):
        c.st.claims.append((z3.simplify(self.t0(c).ks.d), z3.IntVal(4)))

    def axioms(self, c):
        return helper.axioms(self, c)

    def sv(self, c, m):
        return helper.sv(self, c, m)

    G = helper.G
    formulas = helper.formulas

    def ratio(self, c, g, x):
        """the ratio of label x: its largest by its smallest distance"""
        o = self.ob(c, x)
        p = 'cr' if g == 0 else 'dr'
        return c.e.fop('fdiv64', c.m0.get('distance_values.max_' + p, o), c.m0.get('distance_values.min_' + p, o))

    def conf(self, c, m, g, r):
        f = c.e.fop
        mx = self.sv(c, m)[g].max
        return f('fmul64', f('fdiv64', f('fsub64', mx, r), mx), c.e.fconst(c.st, 100.0, 64))

    def effects(self, c):
        for x in self.sv(c, c.m0):
            for f in SV.F:
                c.mod_field('stats_values.' + f, x.ix)
        c.mod_field(ST + '.count', c.g['o'])
        for p in ('cr', 'dr'):
            key = c.m0._key('distance_values.%s_confidence' % p)[0]
            c.mods.append((('pred', key), lambda o: self.isval(c, o)))

    def post(self, c):
        t = self.t0(c)
        n = t.size
        rows = c.st.ghosts.get('ratios', [fresh('noratios', Row) for _ in range(2)])
        r = [('the number of clusters', c.m1.get(ST + '.count', c.g['o']) == n)]
        for g, row in enumerate(rows):
            p = ('cr', 'dr')[g]
            r.append(('%s ratios' % p, forall([j], Implies(And(j >= 0, j < n), DF(row, j) == self.ratio(c, g, t.key(j))), [t.ks.cell(j)])))
            r.append(('%s confidence of every label' % p, forall([k], Implies(t.has(k), c.m1.get('distance_values.%s_confidence' % p, self.ob(c, k)) ==
                                                                     self.conf(c, c.m1, g, self.ratio(c, g, k))), [t.has(k)])))
        return r + self.formulas(c, n, rows)

    def templates(self, c):
        t = self.t0(c)
        ts = []
        for g, p in enumerate(('cr', 'dr')):
            spec = 'distance_values.%s_confidence' % p
            ts += [Template(['own', 'loc'], lambda lp, x, l, g=g: forall([j], Implies(And(j >= 0, j < x), DF(lp.m.row(l), j) == self.ratio(c, g, t.key(j))),
                                                                        [z3.Select(lp.m.row(l), j), t.ks.cell(j)]), 'ratios'),
                   Template(['own'], lambda lp, x, g=g, spec=spec: forall([j], Implies(And(j >= 0, j < x), lp.m.get(spec, self.ob(c, t.key(j))) == self.conf(c, lp.m, g, self.ratio(c, g, t.key(j)))),
                                                                   [t.ks.cell(j)]), 'confidences'),
                   Template([], lambda lp, spec=spec: forall([k], Implies(Not(self.isval(c, k)), lp.m.get(spec, k) == c.m0.get(spec, k)), [lp.m.get(spec, k)]), 'other confidences')]
        return ts

    def bounds(self, c):
        return [('count', self.t0(c).size)]


ALL = [helper, calculate]
