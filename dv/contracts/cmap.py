"""the map from labels to the points that carry them (src/hdbscan.c)"""
from .base import *
from .htclient import Tb, TFn

j, k, i_, n_, x_, b_ = z3.Ints('j k i_ n_ x_ b_')
k1, k2 = z3.Ints('k1 k2')
ra = z3.Const('ra', Row)
# Cnt(labels, x, b, i): how many of the positions b..i-1 carry label x
Cnt = z3.Function('labelCount', Row, I, I, I, I)
LB = lambda row, i: asI[32](z3.Select(row, i))


def count_facts():
    return [forall([ra, x_, b_], Cnt(ra, x_, b_, b_) == 0, [Cnt(ra, x_, b_, b_)]),
            forall([ra, x_, b_, i_, n_], Implies(And(n_ >= b_, i_ == n_ + 1), Cnt(ra, x_, b_, i_) == Cnt(ra, x_, b_, n_) + If(LB(ra, n_) == x_, 1, 0)),
                   [(Cnt(ra, x_, b_, i_), z3.Select(ra, n_))])]


class Lists:
    """the lists a map leads to"""

    def __init__(self, m, t):
        self.m, self.t = m, t

    def o(self, x):
        return asP(self.t.val(x))

    def l(self, x):
        return L(self.m, self.o(x))

    def all(self, f):
        return forall([k], Implies(self.t.has(k), f(k)), [self.t.val(k)])


class create(Contract):
    name = 'hdbscan_create_cluster_map'
    nargs = 3
    uses_tables = True

    def bind(self, c):
        c.g['P'] = c.a[0].obj
        c.g['b'], c.g['e'] = c.e.U(c.st, c.a[1]), c.e.U(c.st, c.a[2])

    def labels(self, c):
        return c.m0.row(c.g['P'])

    def pre(self, c):
        P, b, e = c.g['P'], c.g['b'], c.g['e']
        return [('an array of labels', And(P > 0, c.m0.live(P), Stride(P) == 4, c.a[0].off == 0)), ('a range of it', And(b <= e, e <= Len(P)))]

    def after_pre(self, c):
        c.st.claims.append((c.g['P'], z3.IntVal(4)))
        c.g['stride'] = z3.IntVal(4)

    def axioms(self, c):
        return count_facts()

    def valid(self, c, m, t):
        """every label leads to a list of its own"""
        S = Lists(m, t)

        def one(x):
            l = S.l(x)
            new = And(*[Not(c.m0.live(y)) for y in (l.o, l.d)])
            return And(asPo(t.val(x)) == 0, l.wf(), l.step == 4, l.cmp == c.e.prog.fnid('int_compare'), l.cmpo == 0, new,
                       *[y != z for y in (l.o, l.d) for z in (t.o, t.keys, t.ks.d)])
        return S.all(one)

    def apart(self, c, m, t):
        S = Lists(m, t)
        a, b = S.l(k1), S.l(k2)
        return forall([k1, k2], Implies(And(t.has(k1), t.has(k2), k1 != k2), And(a.o != b.o, a.d != b.d, a.o != b.d)), [(t.val(k1), t.val(k2))])

    def sizes(self, c, m, t, i):
        S = Lists(m, t)
        cnt = lambda x: Cnt(self.labels(c), x, c.g['b'], i)
        return forall([k], And(t.has(k) == (cnt(k) >= 1), cnt(k) >= 0, Implies(t.has(k), S.l(k).size == cnt(k))), [t.has(k), t.val(k), cnt(k)])

    def places(self, c, m, t, i):
        """every position stands in the list of its label, at the place that counts the earlier ones"""
        S = Lists(m, t)
        r, b = self.labels(c), c.g['b']
        x = LB(r, j)
        cnt = Cnt(r, x, b, j)
        l = S.l(x)
        return forall([j], Implies(And(j >= b, j < i), And(t.has(x), cnt >= 0, cnt < l.size, asI[32](l.cell(cnt)) == j)), [z3.Select(r, j)])

    def post(self, c):
        t = Tb(c.m1, c.ret.obj)
        e = c.g['e']
        new = And(c.ret.off == 0, *[Not(c.m0.live(y)) for y in (t.o, t.keys, t.ks.d)])
        return [('a new table', new)] + t.wf() + [
            ('every label leads to a list of indices', self.valid(c, c.m1, t)), ('the lists are apart', self.apart(c, c.m1, t)),
            ('the labels are those that occur, with their numbers of points', self.sizes(c, c.m1, t, e)),
            ('no more labels than points', t.size <= e - c.g['b']),
            ('every point is in the list of its label, in ascending order', self.places(c, c.m1, t, e))]

    def table(self, lp):
        for x in lp.st.heap:
            if str(x).startswith('table!'):
                return x
        return None

    def templates(self, c):
        ts = []
        b, e = c.g['b'], c.g['e']

        def T(g, nm, kinds=()):
            def f(lp, *x):
                o = self.table(lp)
                return None if o is None else g(lp, Tb(lp.m, o), *x)
            ts.append(Template(list(kinds), f, nm))
        at = lambda lp, l: LB(lp.m.row(l), 0)
        for n, nm in enumerate(('header', 'members', 'index', 'ascending')):
            T(lambda lp, t, n=n: t.wf()[n][1], 'table ' + nm)
        T(lambda lp, t: And(*[Not(c.m0.live(x)) for x in (t.o, t.keys, t.ks.d)]), 'the table is new')
        T(lambda lp, t: And(*[t.ks.d != x for x in lp.st.locals]), 'local variables are apart from the keys')
        T(lambda lp, t: Lists(lp.m, t).all(lambda x: And(*[y != z for y in (Lists(lp.m, t).l(x).o, Lists(lp.m, t).l(x).d) for z in lp.st.locals])), 'local variables are apart')
        T(lambda lp, t: self.valid(c, lp.m, t), 'lists')
        T(lambda lp, t: self.apart(c, lp.m, t), 'lists apart')
        T(lambda lp, t, l: t.size <= at(lp, l) - b, 'at most as many labels', ('loc',))
        T(lambda lp, t, l: And(at(lp, l) >= b, at(lp, l) <= e), 'position', ('loc',))
        T(lambda lp, t, l: self.sizes(c, lp.m, t, at(lp, l)), 'counted', ('loc',))
        T(lambda lp, t, l: self.places(c, lp.m, t, at(lp, l)), 'placed', ('loc',))
        T(lambda lp, t, x: self.sizes(c, lp.m, t, x), 'counted', ('own',))
        T(lambda lp, t, x: self.places(c, lp.m, t, x), 'placed', ('own',))
        return ts

    def bounds(self, c):
        return [('begin', c.g['b']), ('end', c.g['e'])]


ALL = [create]
