"""pairwise distances and core distances (src/distance.c)"""
import os
from .base import *
from .cluster import fadd, fmul, fop

R_ = z3.RealSort()
Tri = z3.Function('Tri', I, I)                      # n(n+1)/2
Idx = z3.Function('Idx', I, I, I, I)                # Idx(rows, i, j): the cell of the pair i < j
DV = z3.Function('DV', Row, I, I, I, FP)            # DV(cells, rows, i, j): the distance read back
cLT = z3.Function('cntLT', Row, I, I, I, R_, I)     # how many of the first J distances of point i are < v
cLE = z3.Function('cntLE', Row, I, I, I, R_, I)     # ... are <= v
i, j, n, r, J, m = z3.Int('i'), z3.Int('j'), z3.Int('n'), z3.Int('r'), z3.Int('J'), z3.Int('m')
i2, j2, a_, b_ = z3.Ints('i2 j2 a_ b_')
v, w = z3.Real('v'), z3.Real('w')
Rw = z3.Const('Rw', Row)


# ---------------------------------------------------------------- definitions and facts
def tri_fact(x):
    return Implies(x >= -1, And(2 * Tri(x) == x * x + x, Tri(x) >= 0))


def idx_def(r, i, j):
    return Idx(r, i, j) == r * i + j - Tri(i + 1)


def idx_range(r, i, j):
    """in [0, Tri(r-1)), and the row-major number of the pair"""
    return Implies(And(0 <= i, i < j, j < r), And(Idx(r, i, j) >= 0, Idx(r, i, j) < Tri(r - 1), Idx(r, i, j) == r * i + j - Tri(i + 1),
                                                  r * i >= 0, Tri(i + 1) >= 0))


def idx_inj(r, i, j, i2, j2):
    return Implies(And(0 <= i, i < j, j < r, 0 <= i2, i2 < j2, j2 < r, Or(i != i2, j != j2)), Idx(r, i, j) != Idx(r, i2, j2))


def idx_facts():
    return [forall([r, i, j], idx_range(r, i, j), [Idx(r, i, j)]),
            forall([r, i, j, i2, j2], idx_inj(r, i, j, i2, j2), [(Idx(r, i, j), Idx(r, i2, j2))])]


def dv_def(Rw, r, i, j):
    return DV(Rw, r, i, j) == If(i < j, asF[64](z3.Select(Rw, Idx(r, i, j))),
                                 If(i == j, z3.Const('f64_0x0.0p+0', FP), asF[64](z3.Select(Rw, Idx(r, j, i)))))


def cnt_step(f, Rw, r, i, m, v):
    d = val(DV(Rw, r, i, m))
    return Implies(m >= 0, f(Rw, r, i, m + 1, v) == f(Rw, r, i, m, v) + If(d < v if f is cLT else d <= v, 1, 0))


def cnt_facts(Rw, r):
    out = []
    for f in (cLT, cLE):
        out += [forall([i, v], f(Rw, r, i, 0, v) == 0, [f(Rw, r, i, 0, v)]),
                # unfolded only at indices where the code reads a distance
                forall([i, J, m, v], Implies(J == m + 1, cnt_step(f, Rw, r, i, m, v)), [(f(Rw, r, i, J, v), DV(Rw, r, i, m))]),
                forall([i, J, v, w], Implies(And(v <= w, J >= 0), f(Rw, r, i, J, v) <= f(Rw, r, i, J, w)), [(f(Rw, r, i, J, v), f(Rw, r, i, J, w))]),
                forall([i, J, v], Implies(J >= 0, And(f(Rw, r, i, J, v) >= 0, f(Rw, r, i, J, v) <= J)), [f(Rw, r, i, J, v)])]
    out.append(forall([i, J, v, w], Implies(And(v < w, J >= 0), cLE(Rw, r, i, J, v) <= cLT(Rw, r, i, J, w)), [(cLE(Rw, r, i, J, v), cLT(Rw, r, i, J, w))]))
    return out


class Facts(Contract):
    """the arithmetic of the triangular storage, by non-linear arithmetic and induction"""
    name = '$distance-facts'
    is_lemma = True

    def lemmas(self, e):
        T = z3.Function('T', I, I)
        ti, ti2, tr = z3.Ints('ti ti2 tr')
        q, q2 = z3.Ints('q q2')
        two = lambda r, i, j: 2 * (r * i + j) - (i + 1) * (i + 2)
        out = [('triangular numbers: base', [T(0) == 0], 2 * T(0) == 0),
               ('triangular numbers: before the base', [ti == 0], 2 * ti == (0 - 1) * (0 - 1) + (0 - 1)),
               ('triangular numbers: step', [n >= 0, 2 * tr == n * n + n, ti == tr + n + 1], 2 * ti == (n + 1) * (n + 1) + (n + 1)),
               ('a pair index is not negative', [0 <= i, i < j, j < r, 2 * ti == (i + 1) * (i + 1) + i + 1], r * i + j - ti >= 0),
               ('a pair index is inside the storage', [0 <= i, i < j, j < r, 2 * ti == (i + 1) * (i + 1) + i + 1, 2 * tr == (r - 1) * (r - 1) + r - 1],
                r * i + j - ti < tr),
               ('pairs of different rows have different indices', [0 <= i, i < i2, i < j, i2 < j2, j < r, j2 < r, q == two(r, i, j), q2 == two(r, i2, j2)], q < q2),
               ('pairs of one row have different indices', [0 <= i, i < j, i < j2, j != j2], two(r, i, j) != two(r, i, j2)),
               ('the product of 32-bit numbers', [0 <= i, i < 1 << 32, 0 <= j, j < 1 << 32], And(i * j >= 0, i * j <= ((1 << 32) - 1) ** 2)),
               ('a row ends inside the data', [0 <= i, i < r, n >= 0], And(i * n >= 0, i * n + n <= r * n)),
               ]
        # counting: by induction over the prefix length
        f0v, f0w, d = z3.Int('f0v'), z3.Int('f0w'), z3.Real('d')
        b = lambda c: If(c, 1, 0)
        out += [('counting is monotonic (<)', [v <= w, f0v <= f0w], f0v + b(d < v) <= f0w + b(d < w)),
                ('counting is monotonic (<=)', [v <= w, f0v <= f0w], f0v + b(d <= v) <= f0w + b(d <= w)),
                ('counting is monotonic (mixed)', [v < w, f0v <= f0w], f0v + b(d <= v) <= f0w + b(d < w)),
                ('counts are bounded', [J >= 0, f0v >= 0, f0v <= J], And(f0v + b(d < v) >= 0, f0v + b(d < v) <= J + 1, f0v + b(d <= v) <= J + 1))]
        return out


class D:
    """a distance object in one memory snapshot"""

    def __init__(self, m, o, base=None, off=0):
        self.m, self.o = m, o
        self.b, self.off = (o, 0) if base is None else (base, off)       # it may lie inside a larger structure
        g = lambda f, p=None: m.get('Distance.' + f, o, p)
        self.rows, self.cols, self.k, self.type = g('rows'), g('cols'), g('numNeighbors'), g('datatype')
        self.d, self.doff = g('distances'), g('distances', 'off')
        self.core, self.coff = g('coreDistances'), g('coreDistances', 'off')

    def wf(self):
        return And(self.b > 0, self.m.live(self.b), Bytes(self.b) >= self.off + self.m.e.prog.csize('Distance'), self.rows >= 0, self.rows < 1 << 32)

    def stored(self):
        return And(self.d > 0, self.m.live(self.d), self.doff == 0, self.d != self.b, Stride(self.d) == 8, Len(self.d) >= Tri(self.rows - 1))

    def cored(self):
        return And(self.core > 0, self.m.live(self.core), self.coff == 0, self.core != self.b, self.core != self.d, Stride(self.core) == 8,
                   Len(self.core) >= self.rows)

    def row(self):
        return self.m.row(self.d)


def zero(c):
    return c.e.fconst(c.st, 0.0, 64)


class triangular(Contract):
    name = 'TRIANGULAR_H'
    nargs = 1

    def bind(self, c):
        c.g['n'] = c.e.U(c.st, c.a[0])

    def pre(self, c):
        return [('a 32-bit number', c.g['n'] < 1 << 32)]

    def axioms(self, c):
        return [tri_fact(c.g['n'])]

    def effects(self, c):
        if c.mode == 'call':
            c.ret = IntV(Tri(c.g['n']), 64)

    def post(self, c):
        return [('the triangular number', c.rt == Tri(c.g['n'])), ('not negative', c.rt >= 0)]


class get(Contract):
    name = 'distance_get'
    nargs = 3

    def bind(self, c):
        c.g['row'], c.g['col'] = c.e.U(c.st, c.a[1]), c.e.U(c.st, c.a[2])
        off = z3.simplify(c.a[0].off)
        if z3.is_int_value(off) and off.as_long():
            c.g['d'] = (c.e.struct_index(c.st, c.a[0].obj, off), c.a[0].obj, off.as_long())

    def d0(self, c):
        return D(c.m0, *c.g.get('d', (c.a[0].obj,)))

    def pre(self, c):
        d = self.d0(c)
        return [('a distance object', d.wf()), ('stored distances', d.stored()), ('points in range', And(c.g['row'] < d.rows, c.g['col'] < d.rows))]

    def axioms(self, c):
        d = self.d0(c)
        a, b = c.g['row'], c.g['col']
        return [idx_range(d.rows, a, b), idx_range(d.rows, b, a), dv_def(d.row(), d.rows, a, b), tri_fact(a + 1), tri_fact(b + 1)]

    def after_pre(self, c):
        zero(c)

    def post(self, c):
        d = self.d0(c)
        a, b = c.g['row'], c.g['col']
        r = [('the value stored for the pair, either way round, or zero', c.rt == DV(d.row(), d.rows, a, b))]
        if c.mode == 'call':
            r.append(('definition', dv_def(d.row(), d.rows, a, b)))
            zero(c)
        return r


DMAX = 1.7976931348623157e308


def order_statistic(Rw, r, i, k, x, dmax):
    """x is the (k+1)-th smallest of the r distances of point i (dmax if there are too few)"""
    return And(Not(nan(x)), val(x) <= val(dmax), cLT(Rw, r, i, r, val(x)) <= k, Implies(val(x) < val(dmax), cLE(Rw, r, i, r, val(x)) >= k + 1))


class core(Contract):
    name = 'distance_get_core_distances'
    nargs = 1

    def d0(self, c):
        return D(c.m0, c.a[0].obj)

    def pre(self, c):
        d = self.d0(c)
        x = z3.Select(d.row(), Idx(d.rows, a_, b_))
        if c.mode == 'call':
            for o in (d.d, d.core):
                c.e.stride_of(c.st, z3.simplify(o), 8)
        return [('a distance object', d.wf()), ('stored distances', d.stored()), ('room for the core distances', d.cored()),
                ('a representable neighbourhood', d.k < (1 << 32) - 1),
                ('no distance is NaN', forall([a_, b_], Implies(And(0 <= a_, a_ < b_, b_ < d.rows), Not(nan(asF[64](x)))), [Idx(d.rows, a_, b_)]))]

    def axioms(self, c):
        d = self.d0(c)
        return idx_facts() + cnt_facts(d.row(), d.rows) + [forall([i, j], dv_def(d.row(), d.rows, i, j), [DV(d.row(), d.rows, i, j)])]

    def after_pre(self, c):
        zero(c)
        c.g['dmax'] = c.e.fconst(c.st, DMAX, 64)

    def bounds(self, c):
        d = self.d0(c)
        return [('rows', d.rows), ('k+1', d.k + 1)]

    def effects(self, c):
        c.mod_row(self.d0(c).core)

    def done(self, c, m1, upto, d=None):
        d = d or self.d0(c)
        dmax = c.e.fconst(c.st, DMAX, 64)
        cell = z3.Select(m1.row(d.core), i)
        return forall([i], Implies(And(i >= 0, i < upto), order_statistic(d.row(), d.rows, i, d.k, asF[64](cell), dmax)), [cell])

    def post(self, c):
        d = self.d0(c)
        return [('every core distance is the order statistic', self.done(c, c.m1, d.rows))]

    def templates(self, c):
        d = self.d0(c)
        Rw, rows, k = d.row(), d.rows, d.k
        dmax = c.g['dmax']
        S = lambda lp, o, m: asF[64](lp.m.cell(o, m))

        def al(lp, o, body, lo=0, hi=None):
            return forall([m], Implies(And(m >= lo, m < (k + 1 if hi is None else hi)), body), [lp.m.cell(o, m)])

        def filled(lp, x, o):
            return al(lp, o, S(lp, o, m) == dmax, hi=x)

        def capped(lp, o):
            return al(lp, o, And(Not(nan(S(lp, o, m))), val(S(lp, o, m)) <= val(dmax)))

        def ascending(lp, o):
            return forall([m, n], Implies(And(0 <= m, m <= n, n < k + 1), val(S(lp, o, m)) <= val(S(lp, o, n))), [(lp.m.cell(o, m), lp.m.cell(o, n))])

        def below(lp, J, i, o):
            return al(lp, o, cLT(Rw, rows, i, J, val(S(lp, o, m))) <= m)

        def reached(lp, J, i, o):
            return al(lp, o, Implies(val(S(lp, o, m)) < val(dmax), cLE(Rw, rows, i, J, val(S(lp, o, m))) >= m + 1))

        def left(lp, x, i, J, o):
            t = val(DV(Rw, rows, i, J))
            return al(lp, o, S(lp, o, m) is not None and val(S(lp, o, m)) <= t, hi=x)

        def right(lp, x, i, J, o):
            t = val(DV(Rw, rows, i, J))
            return al(lp, o, val(S(lp, o, m)) >= t, lo=x)
        return [Template(['own', 'loc'], filled), Template(['loc'], capped), Template(['loc'], ascending), Template(['own', 'out', 'loc'], below),
                Template(['own', 'out', 'loc'], reached), Template(['own', 'out', 'out', 'loc'], left), Template(['own', 'out', 'out', 'loc'], right),
                Template(['own'], lambda lp, x: self.done(c, lp.m, x), 'done')]



# ---------------------------------------------------------------- the distance matrix
ELEM = {'H_DOUBLE': (1, 8), 'H_FLOAT': (2, 4), 'H_INT': (0, 4), 'H_LONG': (3, 8), 'H_SHORT': (4, 2), 'H_CHAR': (5, 1)}
Sq = z3.Function('sumsq', Row, I, I, I, I, FP)      # Sq(cells, cols, i, j, k): the sum of the first k squared coordinate differences


def coord_diff(e, kind, x, y):
    """the difference of two coordinates as a double, without overflow"""
    sg = lambda c, n: If(asI[n](c) >= 1 << (n - 1), asI[n](c) - (1 << n), asI[n](c))
    if kind == 'H_DOUBLE':
        return e.fop('fsub64', asF[64](x), asF[64](y))
    if kind == 'H_FLOAT':
        return e.fop('fpext32_64', e.fop('fsub32', asF[32](x), asF[32](y)))
    if kind == 'H_INT':
        return e.fop('fsub64', e.fop('i2f64', sg(x, 32)), e.fop('i2f64', sg(y, 32)))
    if kind == 'H_LONG':
        return e.fop('fptrunc80_64', e.fop('fsub80', e.fop('i2f80', sg(x, 64)), e.fop('i2f80', sg(y, 64))))
    n = 16 if kind == 'H_SHORT' else 8
    return e.fop('i2f64', sg(x, n) - sg(y, n))


class compute(Contract):
    name = 'distance_compute'
    nargs = 5

    def variants(self):
        return [v for v in sorted(ELEM) if v in os.environ.get('DV_VAR', v)]

    def bind(self, c):
        U = lambda k: c.e.U(c.st, c.a[k])
        c.g['rows'], c.g['cols'], c.g['k'] = U(2), U(3), U(4)
        c.g['data'] = c.a[1].obj

    def d0(self, c):
        return D(c.m0, c.a[0].obj)

    def drow(self, c):
        return c.m0.row(c.g['data'])

    def pre(self, c):
        d = self.d0(c)
        rows, cols, data = c.g['rows'], c.g['cols'], c.g['data']
        q = z3.Int('q')
        r = [('a distance object', And(d.o > 0, c.m0.live(d.o), Bytes(d.o) >= c.e.prog.csize('Distance'))),
             ('a data set', And(data > 0, c.m0.live(data), c.a[1].off == 0, data != d.o, Len(data) >= rows * cols)),
             ('at least one point', rows >= 1), ('addressable storage', Tri(rows - 1) * 8 <= MAXB), ('a representable neighbourhood', c.g['k'] < (1 << 32) - 1)]
        if c.mode == 'verify':
            num, size = ELEM[c.variant]
            r += [('element type', d.type == num), ('element size', Stride(data) == size)]
            if c.variant in ('H_DOUBLE', 'H_FLOAT'):
                f = asF[64 if c.variant == 'H_DOUBLE' else 32](z3.Select(self.drow(c), q))
                dm = z3.Q(*DMAX.as_integer_ratio())
                r.append(('finite coordinates', forall([q], Implies(And(q >= 0, q < rows * cols), And(Not(nan(f)), val(f) <= dm, val(f) >= -dm)), [f])))
        return r

    def after_pre(self, c):
        c.st.claims.append((c.g['data'], z3.IntVal(ELEM[c.variant][1])))
        c.e.fieee = True

    def diff(self, c, i, j, k):
        Rw, cols = self.drow(c), c.g['cols']
        return coord_diff(c.e, c.variant, z3.Select(Rw, i * cols + k), z3.Select(Rw, j * cols + k))

    def S(self, c, i, j, k):
        return Sq(self.drow(c), c.g['cols'], i, j, k)

    def axioms(self, c):
        rows = c.g['rows']
        df = self.diff(c, i, j, m)
        sq, S0, S1 = c.e.fop('fmul64', df, df), self.S(c, i, j, m), self.S(c, i, j, n)
        z = c.e.fconst(c.st, 0.0, 64)
        return idx_facts() + [tri_fact(rows - 1), rows * rows >= 0, 
                forall([i, j], self.S(c, i, j, 0) == z, [self.S(c, i, j, 0)]),
                forall([i, j, m, n], Implies(And(m >= 0, n == m + 1), And(S1 == c.e.fop('fadd64', S0, sq), S1 == c.e.fop('fadd64', sq, S0))), [(S0, S1)])]

    def arith_hook(self, c, st, op, x, y):
        rows, cols = c.g['rows'], c.g['cols']
        if op == 'mul':
            for u, w in ((x, y), (y, x)):
                for s in (rows, cols):
                    if w.eq(s):
                        st.assume(Implies(And(u >= 0, u < rows), And(u * s >= 0, u * s + s <= rows * s)))
        if op == 'sub' and z3.is_app(y) and y.decl().eq(Tri):
            i0 = z3.simplify(y.arg(0) - 1)
            j0 = z3.simplify(x - rows * i0, som=True)
            st.assume(idx_range(rows, i0, j0))

    def effects(self, c):
        for f in ('numNeighbors', 'rows', 'cols', 'distances', 'coreDistances'):
            c.mod_field('Distance.' + f, c.a[0].obj)

    def cells(self, c, m1, dist, upto_i, upto_j):
        """the pairs (a, b) before (upto_i, upto_j) in row-major order hold their distances"""
        rows = c.g['rows']
        ix = Idx(rows, a_, b_)
        return forall([a_, b_], Implies(And(0 <= a_, a_ < b_, b_ < rows, Or(a_ < upto_i, And(a_ == upto_i, b_ < upto_j))),
                                        asF[64](m1.cell(dist, ix)) == c.e.fop('sqrt64', self.S(c, a_, b_, c.g['cols']))), [ix])

    def clean(self, c, m1, dist, upto_i, upto_j):
        rows = c.g['rows']
        ix = Idx(rows, a_, b_)
        x = asF[64](m1.cell(dist, ix))
        return forall([a_, b_], Implies(And(0 <= a_, a_ < b_, b_ < rows, Or(a_ < upto_i, And(a_ == upto_i, b_ < upto_j))), Not(nan(x))), [ix])

    def post(self, c):
        d1 = D(c.m1, c.a[0].obj)
        rows = c.g['rows']
        r = [('the shape is recorded', And(d1.rows == rows, d1.cols == c.g['cols'], d1.k == c.g['k'])),
             ('room for every pair', d1.stored()), ('room for the core distances', d1.cored())]
        if c.mode == 'verify':
            r += [('every pair has its Euclidean distance', self.cells(c, c.m1, d1.d, rows, rows)),
                  ('every core distance is the order statistic', core.done(None, c, c.m1, rows, d1))]
        return r

    def templates(self, c):
        dist = lambda lp: lp.m.get('Distance.distances', c.a[0].obj)
        out = [Template(['own'], lambda lp, x: self.cells(c, lp.m, dist(lp), x, 0), 'rows done'),
               Template(['own', 'out'], lambda lp, x, y: self.cells(c, lp.m, dist(lp), y, x), 'pairs done'),
               Template(['own'], lambda lp, x: self.clean(c, lp.m, dist(lp), x, 0), 'rows clean'),
               Template(['own', 'out'], lambda lp, x, y: self.clean(c, lp.m, dist(lp), y, x), 'pairs clean'),
               Template(['ofp'], lambda lp, s: And(Not(nan(s)), val(s) >= 0), 'not negative'),
               Template(['own', 'out', 'out', 'ofp'], lambda lp, x, y, w, s: s == self.S(c, y, w, x), 'sum')]
        return out

    def bounds(self, c):
        return [('rows', c.g['rows']), ('cols', c.g['cols'])]


class clean(Contract):
    """releases the storage of a distance object"""
    name = 'distance_clean'
    nargs = 1
    kills = False

    def pre(self, c):
        o = c.a[0].obj
        d = D(c.m0, o)
        own = lambda x, off: Or(x == 0, And(x > 0, c.m0.live(x), off == 0, x != o))
        return [('a distance object', And(c.a[0].off == 0, d.wf(), Bytes(o) == c.e.prog.csize('Distance'))),
                ('with storage of its own, if any', And(own(d.d, d.doff), own(d.core, d.coff), Or(d.d == 0, d.core == 0, d.d != d.core)))]

    def effects(self, c):
        o = c.a[0].obj
        d = D(c.m0, o)
        c.mod_fields('Distance', o, ('distances', 'coreDistances'))
        if c.mode == 'verify':
            c.mod_live(d.d)
            c.mod_live(d.core)
            if self.kills:
                c.mod_live(o)
        else:
            for x in (d.d, d.core) + ((o,) if self.kills else ()):
                L0 = c.e.memget(c.st.mem, ('L',))
                c.e.memset(c.st, ('L',), z3.Store(L0, x, False), x)

    def post(self, c):
        o = c.a[0].obj
        d, d1 = D(c.m0, o), D(c.m1, o)
        return [('the storage is released', And(*[Implies(x != 0, Not(c.m1.live(x))) for x in (d.d, d.core)]))] + (
            [('and the object', Not(c.m1.live(o)))] if self.kills else [('no stale pointer is left', And(d1.d == 0, d1.core == 0))])


class destroy(clean):
    name = 'distance_destroy'
    kills = True


class dinit(Contract):
    name = 'distance_init'
    nargs = 3

    def variants(self):
        return ['allocated', 'in place']

    def bind(self, c):
        if c.mode == 'verify' and c.variant == 'allocated':
            c.a[0] = NULL

    def pre(self, c):
        o = c.a[0].obj
        if c.mode == 'verify' and c.variant == 'allocated':
            return []
        return [('memory for a distance object', And(o > 0, c.m0.live(o), c.a[0].off == 0, Bytes(o) >= c.e.prog.csize('Distance')))]

    def effects(self, c):
        if c.mode == 'verify' and c.variant == 'in place':
            c.mod_fields('Distance', c.a[0].obj)

    def post(self, c):
        o = c.ret.obj
        g = lambda f, p=None: c.m1.get('Distance.' + f, o, p)
        r = [('no storage yet', And(g('distances') == 0, g('coreDistances') == 0)), ('the element type is recorded', g('datatype') == c.e.U(c.st, c.a[2])),
             ('live', And(o > 0, c.ret.off == 0, c.m1.live(o)))]
        return r + ([('the given memory is used', o == c.a[0].obj)] if c.variant == 'in place' else [('new memory', Not(c.m0.live(o)))])


ALL = [Facts, triangular, get, core, compute, clean, destroy, dinit]
