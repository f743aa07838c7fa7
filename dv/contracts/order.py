"""sorting clusters by a key (src/hdbscan.c): partition and hdbscan_quicksort on two parallel arrays"""
from .base import *
from ..engine import _fresh as engine_fresh

a, b, j, k, m, n = z3.Ints('a b j k m n')
s_, e_ = z3.Ints('s_ e_')
# Perm2(C0, D0, C1, D1): (C1, D1) arises from (C0, D0) by exchanging positions of both arrays together
# (least relation: reflexive, transitive, containing every exchange; arrays are compared by the values they hold)
Perm2 = z3.Function('Perm2', Row, Row, Row, Row, B)
# NumR(D, s, e): the keys at s..e are numbers;  NaNat: a witness of the contrary
NumR = z3.Function('NumR', Row, I, I, B)
NaNat = z3.Function('NaNat', Row, I, I, I)
QP = z3.Function('pairProperty', I, FP, B)
R0 = [z3.Const('pr%d' % x, Row) for x in range(6)]
DF = lambda row, i: asF[64](z3.Select(row, i))
CI = lambda row, i: asI[32](z3.Select(row, i))


def facts():
    c0, d0, c1, d1, c2, d2 = R0
    x, y = z3.Ints('px py')
    u, v = z3.Consts('pu pv', FP)
    cs = z3.Store(z3.Store(c0, a, mkI[32](x)), b, mkI[32](y))
    ds = z3.Store(z3.Store(d0, a, mkF[64](u)), b, mkF[64](v))
    return [forall([c0, d0], Perm2(c0, d0, c0, d0), [Perm2(c0, d0, c0, d0)]),
            forall(R0, Implies(And(Perm2(c0, d0, c1, d1), Perm2(c1, d1, c2, d2)), Perm2(c0, d0, c2, d2)), [(Perm2(c0, d0, c1, d1), Perm2(c1, d1, c2, d2))]),
            forall([c0, d0, a, b, x, y, u, v], Implies(And(x == CI(c0, b), y == CI(c0, a), u == DF(d0, b), v == DF(d0, a)), Perm2(c0, d0, cs, ds)), [(cs, ds)]),
            forall([d0, s_, e_, j], Implies(And(NumR(d0, s_, e_), j >= s_, j <= e_), Not(nan(DF(d0, j)))), [(NumR(d0, s_, e_), z3.Select(d0, j))]),
            forall([d0, s_, e_], Or(NumR(d0, s_, e_), And(NaNat(d0, s_, e_) >= s_, NaNat(d0, s_, e_) <= e_, nan(DF(d0, NaNat(d0, s_, e_))))), [NumR(d0, s_, e_)])]


class Two(Contract):
    """two parallel arrays, a range of them"""

    def axioms(self, c):
        r0 = self.rows(c, c.m0)
        return facts() + [Perm2(*r0, *r0)]

    def rows(self, c, mm):
        C, D = c.g['C'], c.g['D']
        return mm.row(C), mm.row(D)

    def effects(self, c):
        c.mod_row(c.g['C'])
        c.mod_row(c.g['D'])

    def arrays(self, c):
        C, D, m0 = c.g['C'], c.g['D'], c.m0
        return And(C > 0, D > 0, C != D, m0.live(C), m0.live(D), Stride(C) == 4, Stride(D) == 8)

    def outside(self, c, mm, s, e):
        r0, r1 = self.rows(c, c.m0), self.rows(c, mm)
        return forall([j], Implies(Or(j < s, j > e), And(DF(r1[1], j) == DF(r0[1], j), CI(r1[0], j) == CI(r0[0], j))), [z3.Select(r1[1], j), z3.Select(r1[0], j)])

    def pairs(self, c, mm, s, e):
        """the range holds pairs it held before: verified for an arbitrary property of the pairs; a caller uses `is one of the old pairs`"""
        r0, r1 = self.rows(c, c.m0), self.rows(c, mm)
        if c.mode == 'verify':
            return forall([j], Implies(And(j >= s, j <= e), QP(CI(r1[0], j), DF(r1[1], j))), [z3.Select(r1[1], j), z3.Select(r1[0], j)])
        f = z3.Function('from!%d' % next(engine_fresh), I, I)
        return forall([j], Implies(And(j >= s, j <= e), And(f(j) >= s, f(j) <= e, DF(r1[1], j) == DF(r0[1], f(j)), CI(r1[0], j) == CI(r0[0], f(j)))),
                      [z3.Select(r1[1], j), z3.Select(r1[0], j)])

    def pair_pre(self, c, s, e):
        r0 = self.rows(c, c.m0)
        return forall([j], Implies(And(j >= s, j <= e), QP(CI(r0[0], j), DF(r0[1], j))), [z3.Select(r0[1], j), z3.Select(r0[0], j)])

    def num0(self, c):
        return NumR(self.rows(c, c.m0)[1], c.g['s'], c.g['e'])

    def claims(self, c):
        for o, s in ((c.g['C'], 4), (c.g['D'], 8)):
            if not any(x.eq(o) for x, _ in c.st.claims):
                c.st.claims.append((o, z3.IntVal(s)))

    def after_pre(self, c):
        self.claims(c)

    def common(self, c, mm, s, e):
        return [('keys and clusters outside the range stay', self.outside(c, mm, s, e)), ('the range holds the pairs it held', self.pairs(c, mm, s, e)),
                ('keys and clusters are permuted together', Perm2(*self.rows(c, c.m0), *self.rows(c, mm))),
                ('keys that were numbers still are', Implies(self.num0(c), NumR(self.rows(c, mm)[1], s, e)))]


class partition(Two):
    name = 'partition'
    nargs = 5

    def bind(self, c):
        c.g['C'], c.g['D'], c.g['P'] = c.a[0].obj, c.a[1].obj, c.a[4].obj
        c.g['s'], c.g['e'] = c.e.S(c.st, c.a[2]), c.e.S(c.st, c.a[3])

    def pre(self, c):
        s, e, P = c.g['s'], c.g['e'], c.g['P']
        C, D = c.g['C'], c.g['D']
        if c.mode == 'call':
            self.claims(c)
            c.e.stride_of(c.st, P, z3.IntVal(4))
        r = [('two arrays', And(self.arrays(c), c.a[0].off == 0, c.a[1].off == 0)), ('a range of at least two', And(s >= 0, s < e, e < Len(C), e < Len(D))),
             ('room for the pivot position', And(P > 0, c.m0.live(P), P != C, P != D, Stride(P) == 4, Len(P) >= 1, c.a[4].off == 0))]
        if c.mode == 'verify':
            r.append(('an arbitrary property of the pairs', self.pair_pre(c, s, e)))
        return r

    def after_pre(self, c):
        super().after_pre(c)
        c.st.claims.append((c.g['P'], z3.IntVal(4)))

    def effects(self, c):
        super().effects(c)
        c.mod_row(c.g['P'])

    def pv(self, c, mm):
        x = CI(mm.row(c.g['P']), 0)
        return If(x < (1 << 31), x, x - (1 << 32))

    def post(self, c):
        s, e, r = c.g['s'], c.g['e'], self.pv(c, c.m1)
        d = self.rows(c, c.m1)[1]
        num = self.num0(c)
        return [('a position in the range', And(r >= s, r <= e)),
                ('lower keys to the left', Implies(num, forall([j], Implies(And(j >= s, j < r), val(DF(d, j)) <= val(DF(d, r))), [z3.Select(d, j)]))),
                ('higher keys to the right', Implies(num, forall([j], Implies(And(j > r, j <= e), val(DF(d, j)) >= val(DF(d, r))), [z3.Select(d, j)])))] + self.common(c, c.m1, s, e)

    def templates(self, c):
        s, e = c.g['s'], c.g['e']
        num = self.num0(c)
        pvt = val(DF(self.rows(c, c.m0)[1], s))
        D = lambda lp: self.rows(c, lp.m)[1]
        ts = [Template([], lambda lp, g=g: g(lp), nm) for nm, g in (
            ('outside', lambda lp: self.outside(c, lp.m, s, e)), ('pairs', lambda lp: self.pairs(c, lp.m, s, e)),
            ('permuted', lambda lp: Perm2(*self.rows(c, c.m0), *self.rows(c, lp.m))), ('numbers', lambda lp: Implies(num, NumR(D(lp), s, e))),
            ('pivot stays', lambda lp: And(DF(D(lp), s) == DF(self.rows(c, c.m0)[1], s), CI(self.rows(c, lp.m)[0], s) == CI(self.rows(c, c.m0)[0], s))))]
        ts += [Template(['own', 'out'], lambda lp, x, y: x <= y, 'at most'), Template(['own', 'out'], lambda lp, x, y: x >= y, 'at least')]
        ts += [Template(['own'], lambda lp, x: Implies(num, forall([j], Implies(And(j >= s, j < x), val(DF(D(lp), j)) <= pvt), [z3.Select(D(lp), j)])), 'left'),
               Template(['own'], lambda lp, x: Implies(num, forall([j], Implies(And(j > x, j <= e), val(DF(D(lp), j)) >= pvt), [z3.Select(D(lp), j)])), 'right')]
        return ts

    def bounds(self, c):
        return [('start', c.g['s']), ('end', c.g['e'])]


class qsort(Two):
    name = 'hdbscan_quicksort'
    nargs = 4

    def bind(self, c):
        c.g['s'], c.g['e'] = c.e.S(c.st, c.a[2]), c.e.S(c.st, c.a[3])
        c.g['C'], c.g['D'] = [z3.simplify(c.m0.get('ArrayList.data', c.a[x].obj)) for x in (0, 1)]

    def lists(self, c):
        return [L(c.m0, c.a[x].obj) for x in (0, 1)]

    def pre(self, c):
        s, e = c.g['s'], c.g['e']
        if c.mode == 'call':
            self.claims(c)
        A, D = self.lists(c)
        r = [('two lists', And(A.wf(), D.wf(), A.step == 4, D.step == 8, A.o != D.o, A.d != D.d, A.o != D.d, A.d != D.o)),
             ('a range', And(Or(s >= e, And(s >= 0, e < A.max, e < D.max)), s > -(1 << 31), e < (1 << 31) - 1))]
        if c.mode == 'verify':
            r.append(('an arbitrary property of the pairs', self.pair_pre(c, s, e)))
        return r

    def post(self, c):
        s, e = c.g['s'], c.g['e']
        d = self.rows(c, c.m1)[1]
        return [('the keys of the range ascend', Implies(self.num0(c), forall([a, b], Implies(And(a >= s, a <= b, b <= e), val(DF(d, a)) <= val(DF(d, b))),
                                                                            [(z3.Select(d, a), z3.Select(d, b))])))] + self.common(c, c.m1, s, e)

    def after_call(self, c):
        c.st.ghosts['sorted'] = self.rows(c, c.m0) + self.rows(c, c.m1)


ALL = [partition, qsort]
