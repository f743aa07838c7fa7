"""the extreme core and pairwise distances of every cluster (src/hdbscan.c)"""
from .base import *
from .htclient import Tb, KIX
from .cmap import Lists
from .distance import D, DV, DMAX, dv_def, get as dget
from .order import CI, DF

j, k, q, p = z3.Ints('j k q p')
k1, k2 = z3.Ints('k1 k2')
DMIN = 2.2250738585072014e-308
DVS = 'distance_values'


class minmax(Contract):
    folded = True
    name = 'hdbscan_get_min_max_distances'
    nargs = 2
    uses_tables = True

    def dist(self, c, m):
        sc = c.a[0].obj
        off = c.e.prog.field('hdbscan', 'distanceFunction')[0]
        return D(m, At(sc, z3.IntVal(off)), sc, off) if off else D(m, sc)

    def t0(self, c):
        return Tb(c.m0, c.a[1].obj)

    def lst(self, c, x):
        return L(c.m0, asP(self.t0(c).val(x)))

    def idx(self, c, x, n):
        """the n-th point of cluster x"""
        l = self.lst(c, x)
        return CI(c.m0.row(l.d), n)

    def core(self, c, x, n):
        return asF[64](z3.Select(c.m0.row(self.dist(c, c.m0).core), self.idx(c, x, n)))

    def pair(self, c, x, n, m):
        d = self.dist(c, c.m0)
        return DV(d.row(), d.rows, self.idx(c, x, n), self.idx(c, x, m))

    def pre(self, c):
        t, d = self.t0(c), self.dist(c, c.m0)
        l = self.lst(c, k)
        a, b = z3.Ints('a b')
        cr = c.m0.row(d.core)
        return t.wf() + [('at most 2^32 labels', t.size <= (1 << 32)), ('a distance object', And(d.wf(), d.stored(), d.cored())),
                         ('every label leads to a list of points', forall([k], Implies(t.has(k), And(asPo(t.val(k)) == 0, l.wf(), l.step == 4, l.size >= 1, l.size < (1 << 32))), [t.val(k)])),
                         ('points in range', forall([k, q], Implies(And(t.has(k), q >= 0, q < l.size), self.idx(c, k, q) < d.rows), [(t.val(k), l.cell(q))])),
                         ('core distances are numbers', forall([a], Implies(And(a >= 0, a < d.rows), Not(nan(asF[64](z3.Select(cr, a))))), [z3.Select(cr, a)])),
                         ('distances are numbers', forall([a, b], Implies(And(a >= 0, b >= 0, a < d.rows, b < d.rows), Not(nan(DV(d.row(), d.rows, a, b)))), [DV(d.row(), d.rows, a, b)]))]

    def after_pre(self, c):
        c.st.claims.append((z3.simplify(self.t0(c).ks.d), z3.IntVal(4)))
        c.st.claims.append((z3.simplify(self.dist(c, c.m0).core), z3.IntVal(8)))
        c.e.fconst(c.st, 0.0, 64)
        c.g['max'], c.g['min'] = c.e.fconst(c.st, DMAX, 64), c.e.fconst(c.st, DMIN, 64)

    def axioms(self, c):
        sc = c.a[0].obj
        d = self.dist(c, c.m0)
        return [And(AtB(d.o) == sc, AtO(d.o) == d.off, d.o < -2000000)] if d.off else []

    # ---- the range of one label
    def nonzero(self, v):
        return val(v) != 0

    def cores(self, c, m, o, x, n):
        """the core range of object o covers the first n points of cluster x"""
        g = lambda f: m.get(DVS + '.' + f, o)
        K = lambda z: self.core(c, x, z)
        r = lambda z: And(z >= 0, z < n)
        cell = self.lst(c, x).cell(q)
        ok = lambda z: Or(z == 0, self.nonzero(K(z)))
        mn, mx = g('min_cr'), g('max_cr')
        return [('largest core bounds', forall([q], Implies(r(q), val(K(q)) <= val(mx)), [cell])),
                ('largest core is one', Or(mx == K(z3.IntVal(0)), z3.Exists([q], And(r(q), mx == K(q)), patterns=[cell]))),
                ('smallest core bounds', forall([q], Implies(And(r(q), ok(q)), val(mn) <= val(K(q))), [cell])),
                ('smallest core is one', Or(mn == K(z3.IntVal(0)), z3.Exists([q], And(r(q), ok(q), mn == K(q)), patterns=[cell]))),
                ('numbers', And(Not(nan(mn)), Not(nan(mx))))]

    def pairs(self, c, m, o, x, n1, n2):
        """the pairwise range of object o covers the pairs before (n1, n2) of cluster x"""
        g = lambda f: m.get(DVS + '.' + f, o)
        sz = self.lst(c, x).size
        P = self.pair(c, x, q, p)
        r = And(q >= 0, q < p, p < sz, Or(q < n1, And(q == n1, p < n2)))
        mn, mx = g('min_dr'), g('max_dr')
        nz = self.nonzero(P)
        return [('largest distance bounds', forall([q, p], Implies(r, val(P) <= val(mx)), [P])),
                ('largest distance is one', Or(mx == c.g['min'], z3.Exists([q, p], And(r, mx == P), patterns=[P]))),
                ('smallest distance bounds', forall([q, p], Implies(And(r, nz), val(mn) <= val(P)), [P])),
                ('smallest distance is one', Or(mn == c.g['max'], z3.Exists([q, p], And(r, nz, mn == P), patterns=[P]))),
                ('pair numbers', And(Not(nan(mn)), Not(nan(mx)), val(mn) <= val(c.g['max']), val(mx) >= val(c.g['min'])))]

    def full(self, c, m, t, x):
        o = asP(t.val(x))
        n = self.lst(c, x).size
        return self.cores(c, m, o, x, n) + self.pairs(c, m, o, x, n, n)

    def valid(self, c, m, t):
        o = asP(t.val(k))
        return forall([k], Implies(t.has(k), And(asPo(t.val(k)) == 0, o > 0, m.live(o), Not(c.m0.live(o)), Bytes(o) == c.e.prog.csize(DVS),
                                                 *[o != z for z in (t.o, t.keys, t.ks.d)])), [t.val(k)])

    def apart(self, c, m, t):
        return forall([k1, k2], Implies(And(t.has(k1), t.has(k2), k1 != k2), asP(t.val(k1)) != asP(t.val(k2))), [(t.val(k1), t.val(k2))])

    def post(self, c):
        t0, t = self.t0(c), Tb(c.m1, c.ret.obj)
        z = c.e.fconst(c.st, 0.0, 64)
        r = [('a new table', And(c.ret.off == 0, *[Not(c.m0.live(y)) for y in (t.o, t.keys, t.ks.d)]))] + t.wf() + [
            ('every label has a range of its own', self.valid(c, c.m1, t)), ('the ranges are apart', self.apart(c, c.m1, t)),
            ('a range for every label', forall([k], t.has(k) == t0.has(k), [t.has(k), t0.has(k)]))]
        for n, g in self.full(c, c.m1, t, k):
            r.append((n, forall([k], Implies(t.has(k), g), [t.has(k)])))
        o = asP(t.val(k))
        for f in ('cr_confidence', 'dr_confidence'):
            r.append(('%s is unset' % f, forall([k], Implies(t.has(k), c.m1.get(DVS + '.' + f, o) == z), [t.has(k)])))
        return r

    def table(self, lp):
        for x in lp.st.heap:
            if str(x).startswith('table!'):
                return x
        return None

    def templates(self, c):
        ts = []
        t0 = self.t0(c)
        kix = lambda x: KIX(t0.row(), t0.ks.size, x)

        def T(g, nm, kinds=()):
            def f(lp, *x):
                o = self.table(lp)
                return None if o is None else g(lp, Tb(lp.m, o), *x)
            ts.append(Template(list(kinds), f, nm))
        for n, nm in enumerate(('header', 'members', 'index', 'ascending')):
            T(lambda lp, t, n=n: t.wf()[n][1], 'table ' + nm)
        T(lambda lp, t: And(*[Not(c.m0.live(x)) for x in (t.o, t.keys, t.ks.d)]), 'the table is new')
        T(lambda lp, t: And(*[t.ks.d != x for x in lp.st.locals]), 'local variables are apart from the keys')
        T(lambda lp, t: forall([k], Implies(t.has(k), And(*[asP(t.val(k)) != z for z in lp.st.locals])), [t.val(k)]), 'local variables are apart')
        T(lambda lp, t: self.valid(c, lp.m, t), 'ranges')
        T(lambda lp, t: self.apart(c, lp.m, t), 'ranges apart')
        z = c.e.fconst(c.st, 0.0, 64)
        T(lambda lp, t: forall([k], Implies(t.has(k), And(*[lp.m.get(DVS + '.' + f, asP(t.val(k))) == z for f in ('cr_confidence', 'dr_confidence')])), [t.has(k)]), 'confidences')
        # i: the key under work, j and k: the points under work (loops at depth 1, 2 and 3)
        T(lambda lp, t, i: t.size <= i, 'at most as many labels', ('own1',))
        T(lambda lp, t, i: forall([q], Implies(And(q >= 0, q < i), t.has(t0.key(q))), [t0.ks.cell(q)]), 'labels done', ('at1',))
        T(lambda lp, t, i: forall([k], Implies(t.has(k), And(t0.has(k), kix(k) < i)), [t.has(k)]), 'only labels done', ('own1',))
        T(lambda lp, t, j, i: t.size <= If(j == 0, i, i + 1), 'at most one label more', ('own2', 'at1'))
        T(lambda lp, t, j, i: t.size <= i + 1, 'at most one label more', ('own3', 'at1',))
        T(lambda lp, t, i: forall([k], Implies(t.has(k), And(t0.has(k), kix(k) <= i)), [t.has(k)]), 'only labels to here', ('at1',))
        for s in range(10):
            T(lambda lp, t, i, s=s: forall([k], Implies(And(t.has(k), kix(k) < i), self.full(c, lp.m, t, k)[s][1]), [t.has(k)]), 'range %d done' % s, ('at1',))
        cur = lambda i: t0.key(i)
        # the local variables that hold the label, its list and its range are told apart by what they hold
        T(lambda lp, t, l, j, i: CI(lp.m.row(l), 0) == cur(i), 'current label', ('loc', 'at2', 'at1'))
        T(lambda lp, t, l, j, i: If(j == 0, And(Not(t.has(cur(i))), asP(z3.Select(lp.m.row(l), 0)) == 0),
                                    And(t.has(cur(i)), z3.Select(lp.m.row(l), 0) == t.val(cur(i)))), 'current range from the first point', ('loc', 'own2', 'at1'))
        T(lambda lp, t, l, j, i: And(t.has(cur(i)), z3.Select(lp.m.row(l), 0) == t.val(cur(i))), 'current range', ('loc', 'own3', 'at1'))
        T(lambda lp, t, l, j, i: And(Stride(l) == 8, Len(l) == 1, z3.Select(lp.m.row(l), 0) == t0.val(cur(i))), 'current list', ('loc', 'at2', 'at1'))
        o = lambda t, i: asP(t.val(cur(i)))
        for s in range(5):
            T(lambda lp, t, j, i, s=s: Implies(j > 0, self.cores(c, lp.m, o(t, i), cur(i), j)[s][1]), 'cores %d' % s, ('own2', 'at1'))
            T(lambda lp, t, n, j, i, s=s: self.cores(c, lp.m, o(t, i), cur(i), j + 1)[s][1], 'cores %d with this point' % s, ('own3', 'at2', 'at1'))
            T(lambda lp, t, j, i, s=s: Implies(j > 0, self.pairs(c, lp.m, o(t, i), cur(i), j, z3.IntVal(0))[s][1]), 'pairs %d' % s, ('own2', 'at1'))
            T(lambda lp, t, n, j, i, s=s: self.pairs(c, lp.m, o(t, i), cur(i), j, n)[s][1], 'pairs %d with this point' % s, ('own3', 'at2', 'at1'))
        T(lambda lp, t, j, i: j <= self.lst(c, cur(i)).size, 'point in range', ('own2', 'at1'))
        T(lambda lp, t, n, j, i: And(n > j, n <= self.lst(c, cur(i)).size), 'second point in range', ('own3', 'at2', 'at1'))
        return ts

    def bounds(self, c):
        return [('size', self.t0(c).size)]


ALL = [minmax]
