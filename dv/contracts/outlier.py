"""outlier scores (src/hdbscan.c): one entry per point, then sorted by libc's qsort"""
from .base import *
from .cluster import Cl, STRUCT
from .distance import D

t, u, p, i = z3.Ints('t u p i')
OS = 'OutlierScore'
WS = z3.Function('sortedFrom', I, I, I)      # (array, place after sorting) -> place before
WI = z3.Function('sortedTo', I, I, I)


class Os:
    """an array of outlier scores; t: an element, named by its address"""

    def __init__(self, m, o):
        self.m, self.o = m, o
        self.w = m.e.prog.csize(OS)

    def has(self, x, n):
        w = self.w
        return And(AtB(x) == self.o, At(self.o, AtO(x)) == x, AtO(x) >= 0, AtO(x) < w * n, AtO(x) % w == 0)

    def ix(self, x):
        return AtO(x) / self.w

    def score(self, x):
        return self.m.get(OS + '.score', x)

    def core(self, x):
        return self.m.get(OS + '.coreDistance', x)

    def id(self, x):
        return self.m.get(OS + '.id', x)

    def le(self, x, y):
        """the order of outlier_score_compare (C06), for numbers"""
        s, c, n = [(val(self.score(x)), val(self.score(y))), (val(self.core(x)), val(self.core(y))), (self.id(x), self.id(y))]
        return Or(s[0] < s[1], And(s[0] == s[1], Or(c[0] < c[1], And(c[0] == c[1], n[0] <= n[1]))))


class qsort(Contract):
    """libc's qsort with the library's comparator"""
    name = 'qsort:outlier_score_compare'
    trusted = True

    def n(self, c):
        return c.e.U(c.st, c.a[1])

    def pre(self, c):
        o, n, w = c.a[0].obj, self.n(c), c.e.prog.csize(OS)
        return [('a live array', And(o > 0, c.m0.live(o), c.a[0].off == 0)), ('elements of the size of an outlier score', c.e.U(c.st, c.a[2]) == w),
                ('all elements inside', And(n >= 0, w * n <= Bytes(o)))]

    def effects(self, c):
        o = c.a[0].obj
        e = c.e
        for f, part in (('score', 'fp'), ('coreDistance', 'fp'), ('id', 'int')):
            key = ('S', OS, e.prog.field(OS, f)[0], part)
            old = e.memget(c.st.mem, key)
            a = fresh('sorted_' + f, old.sort())
            c.st.assume(forall([t], Implies(And(t != o, Or(t >= -2000000, AtB(t) != o)), z3.Select(a, t) == z3.Select(old, t)), [z3.Select(a, t)]))
            e.memset(c.st, key, a, None)
        c.m1 = M(e, c.st.mem)

    def post(self, c):
        o, n = c.a[0].obj, self.n(c)
        a, b = Os(c.m0, o), Os(c.m1, o)
        num = forall([t], Implies(a.has(t, n), And(Not(nan(a.score(t))), Not(nan(a.core(t))))), [a.score(t)])
        W, V = lambda x: WS(o, x), lambda x: WI(o, x)
        r = []
        for x, f in ((b.score(t), '1'), (b.core(t), '2'), (b.id(t), '3'), (W(t), '4')):
            r.append(('permutation ' + f, forall([t], Implies(b.has(t, n), And(a.has(W(t), n), V(W(t)) == t, b.score(t) == a.score(W(t)), b.core(t) == a.core(W(t)), b.id(t) == a.id(W(t)))), [x])))
        for x, f in ((a.score(t), '1'), (a.core(t), '2'), (a.id(t), '3'), (V(t), '4')):
            r.append(('onto ' + f, forall([t], Implies(a.has(t, n), And(b.has(V(t), n), W(V(t)) == t)), [x])))
        return r + [('sorted', Implies(num, forall([t, u], Implies(And(b.has(t, n), b.has(u, n), AtO(t) <= AtO(u)), b.le(t, u)), [(b.score(t), b.score(u))])))]


class scores(Contract):
    name = 'hdbscsan_calculate_outlier_scores'
    strict = True
    nargs = 4

    def sc(self, c):
        return c.a[0].obj

    def n(self, c):
        return c.m0.get('hdbscan.numPoints', self.sc(c))

    def dist(self, c, m):
        sc = self.sc(c)
        off = c.e.prog.field('hdbscan', 'distanceFunction')[0]
        return D(m, At(sc, z3.IntVal(off)), sc, off) if off else D(m, sc)

    def cl(self, c):
        return L(c.m0, c.m0.get('hdbscan.clusters', self.sc(c)))

    def noise(self, c, x):
        return asF[64](c.m0.cell(c.a[1].obj, x))

    def last(self, c, x):
        return asI[32](c.m0.cell(c.a[2].obj, x))

    def core(self, c, x):
        return asF[64](c.m0.cell(self.dist(c, c.m0).core, x))

    def lastcl(self, c, x):
        return Cl(c.m0, asP(self.cl(c).cell(self.last(c, x))))

    def pre(self, c):
        sc, n, d, l = self.sc(c), self.n(c), self.dist(c, c.m0), self.cl(c)
        arr = lambda a, w: And(a.obj > 0, c.m0.live(a.obj), a.off == 0, Stride(a.obj) == w, Len(a.obj) >= n)
        x = self.lastcl(c, p)
        return [('an hdbscan object', And(sc > 0, c.m0.live(sc), c.a[0].off == 0, Bytes(sc) == c.e.prog.csize('hdbscan'))),
                ('core distances', And(d.cored(), d.rows == n)), ('a list of clusters', And(l.wf(), l.step == 8, c.m0.get('hdbscan.clusters', sc, 'off') == 0)),
                ('a noise level and a last cluster for every point', And(arr(c.a[1], 8), arr(c.a[2], 4))),
                ('the last clusters are clusters', forall([p], Implies(And(p >= 0, p < n), And(self.last(c, p) < l.size, x.wf(), asPo(l.cell(self.last(c, p))) == 0)), [self.last(c, p)]))]

    def after_pre(self, c):
        for o, w in ((self.dist(c, c.m0).core, 8), (self.cl(c).d, 8), (c.a[1].obj, 8), (c.a[2].obj, 4)):
            c.st.claims.append((z3.simplify(o), z3.IntVal(w)))
        c.e.fconst(c.st, 0.0, 64), c.e.fconst(c.st, 1.0, 64)

    def axioms(self, c):
        sc, d = self.sc(c), self.dist(c, c.m0)
        return ([And(AtB(d.o) == sc, AtO(d.o) == d.off, d.o < -2000000)] if d.off else []) + [
            forall([t], At(AtB(t), AtO(t)) == t, [AtB(t)]), forall([t, u], Implies(And(t > 0, u >= 0), And(AtB(At(t, u)) == t, AtO(At(t, u)) == u)), [At(t, u)])]

    def effects(self, c):
        c.mod_field('hdbscan.outlierScores', self.sc(c))

    def value(self, c, x):
        zero, one = c.e.fconst(c.st, 0.0, 64), c.e.fconst(c.st, 1.0, 64)
        lv = self.noise(c, x)
        return If(Not(c.e.fcmp('une', lv, zero)), zero, c.e.fop('fsub64', one, c.e.fop('fdiv64', self.lastcl(c, x).propagatedLowestChildDeathLevel, lv)))

    def filled(self, c, m, o, x, lo=0):
        s = Os(m, o)
        has = lambda y: And(s.has(y, x), s.ix(y) >= lo)
        return [forall([t], Implies(has(t), s.id(t) == s.ix(t)), [s.id(t)]),
                forall([t], Implies(has(t), s.score(t) == self.value(c, s.ix(t))), [s.score(t)]),
                forall([t], Implies(has(t), s.core(t) == self.core(c, s.ix(t))), [s.core(t)])]

    def post(self, c):
        o, n = c.m1.get('hdbscan.outlierScores', self.sc(c)), self.n(c)
        s = Os(c.m1, o)
        V = WI(o, At(o, s.w * p))
        num = forall([p], Implies(And(p >= 0, p < n), And(Not(nan(self.value(c, p))), Not(nan(self.core(c, p))))), [self.noise(c, p)])
        return [('success', c.rt == 1),
                ('a new array with an entry per point', And(Not(c.m0.live(o)), c.m1.live(o), c.m1.get('hdbscan.outlierScores', self.sc(c), 'off') == 0, Bytes(o) == s.w * n)),
                ('every entry is of a point', forall([t], Implies(s.has(t, n), And(s.id(t) >= 0, s.id(t) < n)), [s.id(t)])),
                ('with its score', forall([t], Implies(s.has(t, n), s.score(t) == self.value(c, s.id(t))), [s.score(t)])),
                ('with its core distance', forall([t], Implies(s.has(t, n), s.core(t) == self.core(c, s.id(t))), [s.core(t)])),
                ('every point has an entry', forall([p], Implies(And(p >= 0, p < n), And(s.has(V, n), s.id(V) == p)), [At(o, s.w * p)])),
                ('and no other', forall([t, u], Implies(And(s.has(t, n), s.has(u, n), s.id(t) == s.id(u)), t == u), [(s.id(t), s.id(u))])),
                ('sorted by score, core distance and point', Implies(num, forall([t, u], Implies(And(s.has(t, n), s.has(u, n), AtO(t) <= AtO(u)), s.le(t, u)), [(s.score(t), s.score(u))])))]

    def templates(self, c):
        def f(k):
            def at(lp, x):
                o = M(c.e, lp.st.mem).get('hdbscan.outlierScores', self.sc(c))
                return self.filled(c, lp.m, o, x)[k]
            return at

        def g(k):                        # for loops that run downwards
            def at(lp, x):
                o = M(c.e, lp.st.mem).get('hdbscan.outlierScores', self.sc(c))
                return And(x >= 0, self.filled(c, lp.m, o, self.n(c), x)[k])
            return at
        return [Template(['own'], h(k), nm) for h, w in ((f, 'so far'), (g, 'from here')) for k, nm in
                enumerate(('numbers ' + w, 'scores ' + w, 'core distances ' + w))]


ALL = [qsort, scores]
