"""undirected graph (src/undirected_graph.c): edge sorting"""
from .base import *

RS = z3.RealSort()
# Perm(W0, A0, B0, W1, A1, B1): the second edge list arises from the first by exchanging edges (least relation: reflexive, transitive,
# containing every exchange of two edges)
Perm = z3.Function('Perm', Row, Row, Row, Row, Row, Row, B)
mark_ax = lambda: forall([m], Mark(m), [Mark(m)])
a, b, j, k, m, n = z3.Ints('a b j k m n')
rows = [z3.Const('r%d' % x, Row) for x in range(9)]


def perm_facts():
    r = rows
    return [forall(r[:3], Perm(*r[:3], *r[:3]), [Perm(*r[:3], *r[:3])]),
            forall(r, Implies(And(Perm(*r[:6]), Perm(*r[3:])), Perm(*r[:3], *r[6:])), [(Perm(*r[:6]), Perm(*r[3:]))])]


class Gr:
    def __init__(self, m, o):
        self.m, self.o = m, o
        self.w, self.a, self.b = [L(m, m.get('UndirectedGraph.' + f, o)) for f in ('edgeWeights', 'verticesA', 'verticesB')]
        self.n = self.w.size

    def wf(self):
        m = self.m
        l = [self.w, self.a, self.b]
        objs = [x.o for x in l] + [x.d for x in l]
        distinct = [x != y for i, x in enumerate(objs) for y in objs[i + 1:]] + [x != self.o for x in objs]
        return And(self.o > 0, m.live(self.o), Bytes(self.o) >= m.e.prog.csize('UndirectedGraph'), *[x.wf() for x in l], self.w.step == 8, self.a.step == 4,
                   self.b.step == 4, self.a.size == self.n, self.b.size == self.n, self.n < 1 << 31, *distinct,
                   *[m.get('UndirectedGraph.' + f, self.o, 'off') == 0 for f in ('edgeWeights', 'verticesA', 'verticesB')])

    def rows(self):
        return [self.m.row(x.d) for x in (self.w, self.a, self.b)]

    def W(self, i):
        return asF[64](self.w.cell(i))

    def num(self):
        return forall([j], Implies(And(j >= 0, j < self.n), Not(nan(self.W(j)))), [self.w.cell(j)])


class GFn(Contract):
    writes = True

    def g0(self, c):
        return Gr(c.m0, c.a[0].obj)

    def g1(self, c):
        g0 = self.g0(c)
        g = Gr.__new__(Gr)
        g.m, g.o, g.n = c.m1, g0.o, g0.n
        g.w, g.a, g.b = [L(c.m1, x.o) for x in (g0.w, g0.a, g0.b)]
        return g

    def gm(self, c, mm):
        g0 = self.g0(c)
        g = Gr.__new__(Gr)
        g.m, g.o, g.n = mm, g0.o, g0.n
        g.w, g.a, g.b = [L(mm, x.o) for x in (g0.w, g0.a, g0.b)]
        return g

    def pre(self, c):
        if c.mode == 'call':
            self.claims(c)
        return [('a graph with its edge lists', self.g0(c).wf())]

    def claims(self, c):
        g = self.g0(c)
        for l, s in ((g.w, 8), (g.a, 4), (g.b, 4)):
            o = z3.simplify(l.d)
            if not any(x.eq(o) for x, _ in c.st.claims):
                c.st.claims.append((o, z3.IntVal(s)))

    def after_pre(self, c):
        self.claims(c)

    def axioms(self, c):
        g = self.g0(c)
        return perm_facts() + [Perm(*g.rows(), *g.rows())]

    def effects(self, c):
        g = self.g0(c)
        if self.writes:
            for l in (g.w, g.a, g.b):
                c.mod_row(l.d)

    def perm(self, c, mm=None):
        return Perm(*self.g0(c).rows(), *self.gm(c, mm or c.m1).rows())

    def outside(self, c, mm, s, e):
        g0, g1 = self.g0(c), self.gm(c, mm)
        return forall([j], Implies(And(j >= 0, j < g0.n, Or(j < s, j > e)), g1.W(j) == g0.W(j)), [g1.w.cell(j)])

    def bounded(self, c, mm, s, e):
        """every bound of the weights in the range is kept: verified for arbitrary bounds; a caller uses the extreme elements"""
        g0, g1 = self.g0(c), self.gm(c, mm)
        if c.mode == 'verify':
            lo, hi = c.g['lo'], c.g['hi']
            return forall([j], Implies(And(j >= s, j <= e), And(val(g1.W(j)) >= lo, val(g1.W(j)) <= hi)), [g1.w.cell(j)])
        k1, k2 = z3.Function('least!%d' % next(engine_fresh), I, I), z3.Function('most!%d' % next(engine_fresh), I, I)
        return forall([j], Implies(And(j >= s, j <= e), And(k1(j) >= s, k1(j) <= e, k2(j) >= s, k2(j) <= e, val(g0.W(k1(j))) <= val(g1.W(j)),
                                                            val(g1.W(j)) <= val(g0.W(k2(j))))), [g1.w.cell(j)])

    def bound_pre(self, c, s, e):
        g0 = self.g0(c)
        c.g['lo'], c.g['hi'] = z3.Real('ghost_lo'), z3.Real('ghost_hi')
        return forall([j], Implies(And(j >= s, j <= e), And(val(g0.W(j)) >= c.g['lo'], val(g0.W(j)) <= c.g['hi'])), [g0.w.cell(j)])


from ..engine import _fresh as engine_fresh


class swap(GFn):
    name = 'graph_swap_edges'
    nargs = 3

    def bind(self, c):
        c.g['x'], c.g['y'] = c.e.S(c.st, c.a[1]), c.e.S(c.st, c.a[2])

    def pre(self, c):
        x, y, nn = c.g['x'], c.g['y'], self.g0(c).n
        return super().pre(c) + [('edges in range', And(x >= 0, x < nn, y >= 0, y < nn))]

    def axioms(self, c):
        return []

    def post(self, c):
        g0, g1 = self.g0(c), self.g1(c)
        x, y = c.g['x'], c.g['y']
        r = []
        for nm, l0, l1, f in (('weights', g0.w, g1.w, asF[64]), ('first end points', g0.a, g1.a, asI[32]), ('second end points', g0.b, g1.b, asI[32])):
            src = If(j == x, y, If(j == y, x, j))
            r.append(('the two %s are exchanged and no other changes' % nm, forall([j], f(l1.cell(j)) == f(l0.cell(src)), [l1.cell(j)])))
        if c.mode == 'call':
            r.append(('an exchange is a permutation (definition)', self.perm(c)))
        return r


class pivot(GFn):
    name = 'graph_select_pivot_index'
    nargs = 3
    writes = False

    def bind(self, c):
        c.g['s'], c.g['e'] = c.e.S(c.st, c.a[1]), c.e.S(c.st, c.a[2])

    def pre(self, c):
        s, e = c.g['s'], c.g['e']
        return super().pre(c) + [('a range', And(s >= 0, s <= e, e < self.g0(c).n))]

    def post(self, c):
        return [('a pivot in the range', And(c.rt >= c.g['s'], c.rt <= c.g['e']))]


class partition(GFn):
    name = 'graph_partition'
    nargs = 4

    def bind(self, c):
        c.g['s'], c.g['e'], c.g['p'] = [c.e.S(c.st, c.a[x]) for x in (1, 2, 3)]

    def pre(self, c):
        s, e, p = c.g['s'], c.g['e'], c.g['p']
        r = super().pre(c) + [('a range', And(s >= 0, s <= e, e < self.g0(c).n)), ('the pivot is in it', And(p >= s, p <= e)),
                              ('weights are numbers', self.g0(c).num())]
        if c.mode == 'verify':
            r.append(('arbitrary bounds', self.bound_pre(c, s, e)))
        return r

    def post(self, c):
        g1, s, e, r = self.g1(c), c.g['s'], c.g['e'], c.rt
        return [('a position in the range', And(r >= s, r <= e)),
                ('smaller weights to the left', forall([j], Implies(And(j >= s, j < r), val(g1.W(j)) <= val(g1.W(r))), [g1.w.cell(j)])),
                ('greater weights to the right', forall([j], Implies(And(j > r, j <= e), val(g1.W(j)) >= val(g1.W(r))), [g1.w.cell(j)])),
                ('weights outside the range stay', self.outside(c, c.m1, s, e)), ('weights in the range keep their bounds', self.bounded(c, c.m1, s, e)),
                ('weights stay numbers', g1.num()), ('the edges are permuted', self.perm(c))]

    def templates(self, c):
        g0, s, e, p = self.g0(c), c.g['s'], c.g['e'], c.g['p']
        pv = val(g0.W(p))

        def less(lp, x):
            g = self.gm(c, lp.m)
            return forall([j], Implies(And(j >= s, j < x), val(g.W(j)) <= pv), [g.w.cell(j)])

        def more(lp, x, y):
            g = self.gm(c, lp.m)
            return forall([j], Implies(And(j >= x, j < y), val(g.W(j)) >= pv), [g.w.cell(j)])
        return [Template(['own'], less), Template(['own', 'own'], more), Template([], lambda lp: val(self.gm(c, lp.m).W(e)) == pv, 'pivot last'),
                Template([], lambda lp: self.outside(c, lp.m, s, e), 'outside'), Template([], lambda lp: self.bounded(c, lp.m, s, e), 'bounded'),
                Template([], lambda lp: self.gm(c, lp.m).num(), 'numbers'), Template([], lambda lp: self.perm(c, lp.m), 'permuted')]

    def bounds(self, c):
        return [('end', c.g['e'])]


class qsort_rec(GFn):
    name = 'graph_quicksort'
    nargs = 3

    def bind(self, c):
        c.g['s'], c.g['e'] = c.e.S(c.st, c.a[1]), c.e.S(c.st, c.a[2])

    def pre(self, c):
        s, e = c.g['s'], c.g['e']
        r = super().pre(c) + [('a range', And(s >= 0, e >= s - 1, e < self.g0(c).n)), ('weights are numbers', self.g0(c).num())]
        if c.mode == 'verify':
            r.append(('arbitrary bounds', self.bound_pre(c, s, e)))
        return r

    def post(self, c):
        g1, s, e = self.g1(c), c.g['s'], c.g['e']
        return [('the weights of the range ascend', forall([a, b], Implies(And(a >= s, a <= b, b <= e), val(g1.W(a)) <= val(g1.W(b))), [(g1.w.cell(a), g1.w.cell(b))])),
                ('weights outside the range stay', self.outside(c, c.m1, s, e)), ('weights in the range keep their bounds', self.bounded(c, c.m1, s, e)),
                ('weights stay numbers', g1.num()), ('the edges are permuted', self.perm(c))]


class qsort_it(GFn):
    name = 'graph_quicksort_by_edge_weight'
    retry = 2
    min_effort = 1
    tidy = True
    nargs = 1

    def pre(self, c):
        return super().pre(c) + [('weights are numbers', self.g0(c).num())]

    def post(self, c):
        g1 = self.g1(c)
        return [('the weights ascend', forall([a, b], Implies(And(a >= 0, a <= b, b < g1.n), val(g1.W(a)) <= val(g1.W(b))), [(g1.w.cell(a), g1.w.cell(b))])),
                ('weights stay numbers', g1.num()), ('the edges are permuted', self.perm(c))]

    def axioms(self, c):
        return super().axioms(c) + [forall([m], Mark(m), [Mark(m)])]

    def templates(self, c):
        nn = self.g0(c).n
        top1 = lambda lp, o, x: asI[32](lp.m.cell(o, x))

        def intervals(lp, t, s, e):
            S, E_ = top1(lp, s, m), top1(lp, e, m)
            return forall([m], Implies(And(m >= 0, m <= t), And(S >= 2 * m, S < E_, E_ < nn)), [lp.m.cell(s, m)], )

        def intervals2(lp, t, s, e):
            S, E_ = top1(lp, s, m), top1(lp, e, m)
            return forall([m], Implies(And(m >= 0, m <= t), And(S >= 2 * m, S < E_, E_ < nn)), [lp.m.cell(e, m)])

        def disjoint(lp, t, s, e):
            return forall([m, k], Implies(And(m >= 0, m < k, k <= t), top1(lp, e, m) < top1(lp, s, k)), [(lp.m.cell(e, m), lp.m.cell(s, k))])

        def sorted_but(lp, t, s, e):
            g = self.gm(c, lp.m)
            inside = z3.Exists([m], And(m >= 0, m <= t, top1(lp, s, m) <= a, b <= top1(lp, e, m), Mark(m)), patterns=[Mark(m)])
            return And(Mark(t), Mark(t - 1), forall([a, b], Implies(And(a >= 0, a < b, b < nn), Or(val(g.W(a)) <= val(g.W(b)), inside)), [(g.w.cell(a), g.w.cell(b))]))
        return [Template(['own'], lambda lp, t: And(t >= -1, 2 * t + 2 <= nn), 'top'), Template(['own', 'loc', 'loc'], intervals), Template(['own', 'loc', 'loc'], intervals2),
                Template(['own', 'loc', 'loc'], disjoint), Template(['own', 'loc', 'loc'], sorted_but), Template([], lambda lp: self.gm(c, lp.m).num(), 'numbers'),
                Template([], lambda lp: self.perm(c, lp.m), 'permuted')]



# ---------------------------------------------------------------- adjacency lists
from .list import Agree
x_, y_ = z3.Const('x_', Cell), z3.Const('y_', Cell)


def int_cmp_fact(c):
    """int_compare is zero exactly on equal numbers (C06)"""
    f = z3.IntVal(c.e.prog.fnid('int_compare'))
    return forall([x_, y_], (cmpf(f, x_, y_) == 0) == (asI[32](x_) == asI[32](y_)), [cmpf(f, x_, y_)])


class Adj:
    def __init__(self, m, o):
        self.m, self.o = m, o
        self.nv, self.eo = m.get('UndirectedGraph.numVertices', o), m.get('UndirectedGraph.edges', o)

    def at(self, v):
        return asP(self.m.cell(self.eo, v))

    def l(self, v):
        return L(self.m, self.at(v))

    def header(self):
        m = self.m
        return And(self.o > 0, m.live(self.o), Bytes(self.o) >= m.e.prog.csize('UndirectedGraph'), self.eo > 0, m.live(self.eo), self.eo != self.o,
                   m.get('UndirectedGraph.edges', self.o, 'off') == 0, Stride(self.eo) == 8, Len(self.eo) >= self.nv, self.nv >= 0)

    def lists(self, n):
        """the first n adjacency lists are lists of vertices"""
        c = self.m.cell(self.eo, a)
        l = self.l(a)
        f = z3.IntVal(self.m.e.prog.fnid('int_compare'))
        return forall([a], Implies(And(a >= 0, a < n), And(asPo(c) == 0, l.wf(), l.step == 4, l.cmp == f, l.cmpo == 0, l.o != self.o, l.o != self.eo,
                                                           l.d != self.o, l.d != self.eo)), [c])

    def apart(self, n):
        """they are distinct objects with distinct storage"""
        l, k_ = self.l(a), self.l(b)
        return forall([a, b], Implies(And(a >= 0, a < n, b >= 0, b < n), And(l.o != k_.d, Implies(a != b, And(l.o != k_.o, l.d != k_.d)))),
                      [(self.m.cell(self.eo, a), self.m.cell(self.eo, b))])


def removed_once(p, A, B, x):
    """B is A without its first entry x; unchanged when there is none"""
    hit = lambda i: asI[32](A.cell(i)) == x
    none = lambda i: forall([j], Implies(And(j >= 0, j < i), Not(hit(j))), [A.cell(j)])
    return Or(And(none(A.size), B.size == A.size, forall([j], Implies(And(j >= 0, j < A.size), B.cell(j) == A.cell(j)), [B.cell(j)])),
              z3.Exists([p], And(p >= 0, p < A.size, hit(p), none(p), B.size == A.size - 1,
                                 forall([j], Implies(And(j >= 0, j < B.size), B.cell(j) == If(j < p, A.cell(j), A.cell(j + 1))), [B.cell(j)])), patterns=[A.cell(p)]))


def removed_twice(A, B, x):
    hit = lambda i: asI[32](A.cell(i)) == x
    none = lambda lo, i: forall([j], Implies(And(j >= lo, j < i, Mark(j)), Not(hit(j))), [A.cell(j)])
    return Or(And(none(0, A.size), B.size == A.size, forall([j], Implies(And(j >= 0, j < A.size), B.cell(j) == A.cell(j)), [B.cell(j)])),
              z3.Exists([m], And(m >= 0, m < A.size, hit(m), none(0, m), none(m + 1, A.size), B.size == A.size - 1,
                                 forall([j], Implies(And(j >= 0, j < B.size), B.cell(j) == If(j < m, A.cell(j), A.cell(j + 1))), [B.cell(j)])), patterns=[A.cell(m)]),
              z3.Exists([m, n], And(m >= 0, m < n, n < A.size, hit(m), hit(n), none(0, m), none(m + 1, n), B.size == A.size - 2,
                                    forall([j], Implies(And(j >= 0, j < B.size), B.cell(j) == If(j < m, A.cell(j), If(j + 1 < n, A.cell(j + 1), A.cell(j + 2)))), [B.cell(j)])),
                        patterns=[z3.MultiPattern(A.cell(m), A.cell(n))]))


class remove_edge(Contract):
    name = 'graph_remove_edge'
    nargs = 3

    def bind(self, c):
        c.g['x'], c.g['y'] = c.e.U(c.st, c.a[1]), c.e.U(c.st, c.a[2])

    def adj(self, c, m):
        return Adj(m, c.a[0].obj)

    def pre(self, c):
        g = self.adj(c, c.m0)
        x, y = c.g['x'], c.g['y']
        return [('a graph', g.header()), ('adjacency lists', g.lists(g.nv)), ('adjacency lists have separate storage', g.apart(g.nv)),
                ('vertices of the graph', And(x < g.nv, y < g.nv))]

    def after_pre(self, c):
        c.st.claims.append((Adj(c.m0, c.a[0].obj).eo, z3.IntVal(8)))

    def axioms(self, c):
        return [int_cmp_fact(c), mark_ax()]

    def effects(self, c):
        g = self.adj(c, c.m0)
        for v in ('x', 'y'):
            l = g.l(c.g[v])
            c.mod_row(l.d)
            c.m1 = M(c.e, c.st.mem)
            c.mod_field('ArrayList.size', l.o)
            c.m1 = M(c.e, c.st.mem)

    def post(self, c):
        g0, g1 = self.adj(c, c.m0), self.adj(c, c.m1)
        x, y = c.g['x'], c.g['y']
        A, B_ = lambda v: g0.l(v), lambda v: L(c.m1, g0.at(v))
        return [('one entry of the second vertex leaves the first list', Implies(x != y, removed_once(k, A(x), B_(x), y))),
                ('one entry of the first vertex leaves the second list', Implies(x != y, removed_once(k, A(y), B_(y), x))),
                ('a self edge leaves the list at most twice', Implies(x == y, removed_twice(A(x), B_(x), x))),
                ('adjacency lists stay well-formed', g1.lists(g0.nv)), ('and apart', g1.apart(g0.nv))]



ME = z3.Function('listed', Row, Row, I, I, I, I)     # listed(A, B, i, v, u): how often the first i edges put u into the adjacency of v
Cn = z3.Function('count', Row, I, I, I)              # count(cells, n, u): how often u is among the first n cells
ra, rb, rc = z3.Const('ra', Row), z3.Const('rb', Row), z3.Const('rc', Row)
u_, v_, i_, n_ = z3.Ints('u_ v_ i_ n_')
sel = lambda r, i: asI[32](z3.Select(r, i))
bit = lambda x: If(x, 1, 0)


def count_defs():
    step = lambda i: ME(ra, rb, i_, v_, u_) == ME(ra, rb, i, v_, u_) + bit(And(sel(ra, i) == v_, sel(rb, i) == u_)) + \
        bit(And(sel(rb, i) == v_, sel(ra, i) == u_, sel(ra, i) != sel(rb, i)))
    return [forall([ra, rb, v_, u_], ME(ra, rb, 0, v_, u_) == 0, [ME(ra, rb, 0, v_, u_)]),
            forall([ra, rb, i_, n_, v_, u_], Implies(And(n_ >= 0, i_ == n_ + 1), step(n_)), [(ME(ra, rb, i_, v_, u_), z3.Select(ra, n_))]),
            forall([ra, u_], Cn(ra, 0, u_) == 0, [Cn(ra, 0, u_)]),
            forall([ra, i_, n_, u_], Implies(And(n_ >= 0, i_ == n_ + 1), Cn(ra, i_, u_) == Cn(ra, n_, u_) + bit(sel(ra, n_) == u_)), [(Cn(ra, i_, u_), z3.Select(ra, n_))]),
            # lists that agree on a prefix have the same counts there ($graph-facts)
            forall([ra, rb, n_, u_], Implies(Agree(ra, rb, n_), Cn(ra, n_, u_) == Cn(rb, n_, u_)), [(Agree(ra, rb, n_), Cn(ra, n_, u_)), (Agree(ra, rb, n_), Cn(rb, n_, u_))])]


class GraphFacts(Contract):
    name = '$graph-facts'
    is_lemma = True

    def lemmas(self, e):
        f, g = z3.Function('f', I, I), z3.Function('g', I, I)
        x, y = z3.Ints('x y')
        return [('lists that agree on a prefix count alike: base', [], Implies(And(f(0) == 0, g(0) == 0), f(0) == g(0))),
                ('lists that agree on a prefix count alike: step', [n >= 0, f(n) == g(n), x == y, f(n + 1) == f(n) + bit(x == u_), g(n + 1) == g(n) + bit(y == u_)],
                 f(n + 1) == g(n + 1))]


class ginit(Contract):
    name = 'graph_init'
    nargs = 5

    def variants(self):
        return ['allocated', 'in place']

    def bind(self, c):
        if c.mode == 'verify' and c.variant == 'allocated':
            c.a[0] = NULL
        c.g['nv'] = c.e.U(c.st, c.a[1])
        c.g['o'] = [c.a[x].obj for x in (2, 3, 4)]

    def AB(self, c, m):
        return L(m, c.a[2].obj), L(m, c.a[3].obj)

    def pre(self, c):
        A, B_ = self.AB(c, c.m0)
        nv = c.g['nv']
        r = [('the edge lists', And(A.wf(), B_.wf(), A.step == 4, B_.step == 4, A.size == B_.size, A.o != B_.o, A.d != B_.d, A.o != B_.d, A.d != B_.o,
                                    c.a[2].off == 0, c.a[3].off == 0)),
             ('at least one vertex', nv >= 1), ('fewer than 2^32 edges', A.size < 1 << 32),
             ('end points are vertices', And(*[forall([j], Implies(And(j >= 0, j < A.size), asI[32](l.cell(j)) < nv), [l.cell(j)]) for l in (A, B_)]))]
        o = c.a[0].obj
        if c.mode == 'verify' and c.variant == 'in place':
            r.append(('memory for the graph', And(o > 0, c.m0.live(o), Bytes(o) >= c.e.prog.csize('UndirectedGraph'), *[o != x for x in (A.o, A.d, B_.o, B_.d)])))
        else:
            r.append(('no memory is given', o == 0))
        return r

    def after_pre(self, c):
        for l in self.AB(c, c.m0):
            c.st.claims.append((z3.simplify(l.d), z3.IntVal(4)))

    def axioms(self, c):
        return count_defs()

    def effects(self, c):
        if c.mode == 'verify' and c.variant == 'in place':
            c.mod_fields('UndirectedGraph', c.a[0].obj)
        if c.mode == 'call':
            c.grow(['ArrayList', 'UndirectedGraph'])
            c.ret = PtrV(fresh('graph'), 0)

    def mult(self, c, m, eo, i):
        A, B_ = self.AB(c, c.m0)
        f = Adj(m, c.g['o'][0])
        f.eo = eo
        l = f.l(v_)
        return forall([v_, u_], Implies(And(v_ >= 0, v_ < c.g['nv']), Cn(m.row(l.d), l.size, u_) == ME(c.m0.row(A.d), c.m0.row(B_.d), i, v_, u_)),
                      [ME(c.m0.row(A.d), c.m0.row(B_.d), i, v_, u_)])

    def post(self, c):
        g = Adj(c.m1, c.ret.obj)
        A, B_ = self.AB(c, c.m0)
        m = c.m1
        o = c.ret.obj
        f = lambda x, p=None: m.get('UndirectedGraph.' + x, o, p)
        return [('the given memory or new memory', And(o > 0, c.ret.off == 0, o == c.a[0].obj if c.mode == 'verify' and c.variant == 'in place' else Not(c.m0.live(o)))),
                ('a graph', g.header()), ('with its edge lists', And(*[And(f(n) == c.g['o'][i], f(n, 'off') == c.a[2 + i].off) for i, n in
                                                                       enumerate(('verticesA', 'verticesB', 'edgeWeights'))])),
                ('and its number of vertices', g.nv == c.g['nv']),
                ('adjacency lists', g.lists(g.nv)), ('adjacency lists have separate storage', g.apart(g.nv)),
                ('every vertex lists its neighbours as often as the edges say', self.mult(c, m, g.eo, A.size))]

    def bounds(self, c):
        return [('size', self.AB(c, c.m0)[0].size)]

    def templates(self, c):
        nv = c.g['nv']
        A, B_ = self.AB(c, c.m0)
        inplace = c.variant == 'in place'

        def fresh_(lp, v, g):
            new = lambda x: And(x > 0, Not(c.m0.live(x)))
            return forall([a], Implies(And(a >= 0, a < v), And(new(g.l(a).o), new(g.l(a).d), *[x != y for x in (g.l(a).o, g.l(a).d) for y in lp.st.locals])),
                          [lp.m.cell(g.eo, a)])

        def t(kinds, f, name):
            if inplace:
                return Template(kinds, lambda lp, *v: f(lp, Adj(lp.m, c.a[0].obj), *v), name)
            return Template(['heap'] + kinds, lambda lp, o, *v: f(lp, Adj(lp.m, o), *v), name)
        empty = lambda lp, g, v: forall([a], Implies(And(a >= 0, a < v), g.l(a).size == 0), [lp.m.cell(g.eo, a)])
        return [t(['own'], lambda lp, g, v: g.lists(v), 'lists'), t(['own'], lambda lp, g, v: g.apart(v), 'apart'),
                t(['own'], lambda lp, g, v: fresh_(lp, v, g), 'fresh'), t(['own'], empty, 'empty'),
                t([], lambda lp, g: g.lists(nv), 'all lists'), t([], lambda lp, g: g.apart(nv), 'all apart'), t([], lambda lp, g: fresh_(lp, nv, g), 'all fresh'),
                t(['own'], lambda lp, g, v: self.mult(c, lp.m, g.eo, v), 'counted')]


Vx = z3.Function('vertexOf', I, I)      # ghost: the vertex whose adjacency list (or its storage) an object is, else -1


class gclean(Contract):
    name = 'graph_clean'
    nargs = 1
    kills = False

    def parts(self, c):
        o = c.a[0].obj
        return [L(c.m0, c.m0.get('UndirectedGraph.' + f, o)) for f in ('verticesA', 'verticesB', 'edgeWeights')]

    def pre(self, c):
        o = c.a[0].obj
        g = Adj(c.m0, o)
        P = self.parts(c)
        single = [x for l in P for x in (l.o, l.d)] + [o, g.eo]
        r = [('a graph', g.header()), ('edge lists', And(*[l.wf() for l in P])), ('adjacency lists', g.lists(g.nv)),
             ('everything the graph holds is stored separately', And(*[x != y for i, x in enumerate(single) for y in single[i + 1:]],
              forall([a], Implies(And(a >= 0, a < g.nv), And(*[x != y for x in (g.l(a).o, g.l(a).d) for y in single])), [c.m0.cell(g.eo, a)]))),
             ('adjacency lists have separate storage', g.apart(g.nv)),
             ('whole pointers', And(c.a[0].off == 0, *[c.m0.get('UndirectedGraph.' + f, o, 'off') == 0 for f in ('verticesA', 'verticesB', 'edgeWeights', 'edges')]))]
        return r

    def after_pre(self, c):
        c.st.claims.append((Adj(c.m0, c.a[0].obj).eo, z3.IntVal(8)))

    def axioms(self, c):
        g = Adj(c.m0, c.a[0].obj)
        return [forall([a], Implies(And(a >= 0, a < g.nv), And(Vx(g.l(a).o) == a, Vx(g.l(a).d) == a)), [c.m0.cell(g.eo, a)])]

    def own(self, c):
        g = Adj(c.m0, c.a[0].obj)
        return lambda x: And(Vx(x) >= 0, Vx(x) < g.nv, Or(x == g.at(Vx(x)), x == g.l(Vx(x)).d))

    def effects(self, c):
        o = c.a[0].obj
        g = Adj(c.m0, o)
        c.mod_fields('UndirectedGraph', o, ('verticesA', 'verticesB', 'edgeWeights', 'edges'))
        for l in self.parts(c):
            c.mod_live(l.o)
            c.mod_live(l.d)
        c.mod_live(g.eo)
        if self.kills:
            c.mod_live(o)
        c.mods.append(('own', self.own(c)))

    def post(self, c):
        o = c.a[0].obj
        g = Adj(c.m0, o)
        dead = lambda x: Not(c.m1.live(x))
        return [('the edge lists are released', And(*[And(dead(l.o), dead(l.d)) for l in self.parts(c)])), ('the table of lists is released', dead(g.eo)),
                ('every adjacency list is released', forall([a], Implies(And(a >= 0, a < g.nv), And(dead(g.at(a)), dead(g.l(a).d))), [c.m0.cell(g.eo, a)]))] + (
                [('the graph is released', dead(o))] if self.kills else
                [('no stale pointer is left', And(*[c.m1.get('UndirectedGraph.' + f, o) == 0 for f in ('verticesA', 'verticesB', 'edgeWeights', 'edges')]))])

    def templates(self, c):
        g = Adj(c.m0, c.a[0].obj)
        own = self.own(c)

        def dead(lp, v):
            return forall([a], Implies(And(a >= 0, a < v), And(Not(lp.m.live(g.at(a))), Not(lp.m.live(g.l(a).d)))), [c.m0.cell(g.eo, a)])

        def intact(lp, v):
            return forall([a], Implies(And(a >= v, a < g.nv), And(lp.m.live(g.at(a)), lp.m.live(g.l(a).d))), [c.m0.cell(g.eo, a)])

        def others(lp):
            y = z3.Int('y')
            return forall([y], Implies(And(lp.me.live(y), Not(own(y))), lp.m.live(y)), [lp.m.live(y)])

        def gone(lp):
            y = z3.Int('y')
            return forall([y], Implies(Not(lp.me.live(y)), Not(lp.m.live(y))), [lp.m.live(y)])
        return [Template([], gone, 'nothing is revived'), Template(['int'], dead, 'released'), Template(['int'], intact, 'still there'), Template([], others, 'others live')]


class gdestroy(gclean):
    name = 'graph_destroy'
    kills = True


ALL = [GraphFacts, ginit, gclean, gdestroy, remove_edge, swap, pivot, partition, qsort_rec, qsort_it]
