"""the spanning tree (hdbscan_construct_mst, src/hdbscan.c).

Ghost state: a permutation P of the points with inverse Q and a number T; P[0..T) are the points attached so far in the order of
attachment (updated whenever the code sets a cell of its array of attached points).  The contract states Prim's certificate: every
point but the last is joined to a point attached before it by an edge that weighs their mutual reachability distance, and no pair
(point attached before it, point not attached before it) is nearer.  By the cut property such a tree is a minimum spanning tree."""
from .base import *
from .distance import D, DV, DMAX
from .graph import Adj, ginit, count_defs, ME

GP, GQ, GT = ('H', 'mstP', I), ('H', 'mstQ', I), ('H', 'mstT', I)
MRF = z3.Function('MR', Row, Row, I, I, I, z3.RealSort())       # MR(distances, core distances, points, a, b)
k, u, w, x, y = z3.Ints('k u w x y')
Rd, Rc, rr = z3.Const('Rd', Row), z3.Const('Rc', Row), z3.Int('rr')


def mr_def():
    v = val(DV(Rd, rr, x, y))
    cx, cy = (val(asF[64](z3.Select(Rc, t))) for t in (x, y))
    mx = lambda p, q: If(p > q, p, q)
    return forall([Rd, Rc, rr, x, y], MRF(Rd, Rc, rr, x, y) == mx(cx, mx(cy, v)), [MRF(Rd, Rc, rr, x, y)])


class Gh:
    """the ghost state in one memory snapshot"""

    def __init__(self, m):
        g = lambda key: m.e.memget(m.mem, key)
        self.P = lambda t: z3.Select(g(GP), t)
        self.Q = lambda t: z3.Select(g(GQ), t)
        self.T = z3.Select(g(GT), 0)


class construct(Contract):
    name = 'hdbscan_construct_mst'
    nargs = 1
    folded = True
    retry = True
    tidy = True

    def sc(self, c):
        return c.a[0].obj

    def dist(self, c, m):
        sc = self.sc(c)
        off = c.e.prog.field('hdbscan', 'distanceFunction')[0]
        return D(m, At(sc, z3.IntVal(off)), sc, off) if off else D(m, sc)

    def n(self, c):
        return c.m0.get('hdbscan.numPoints', self.sc(c))

    def selfe(self, c):
        return c.m0.get('hdbscan.selfEdges', self.sc(c)) == 1

    def mr(self, c, p, q):
        d = self.dist(c, c.m0)
        return MRF(d.row(), c.m0.row(d.core), d.rows, p, q)

    def core(self, c, p):
        return asF[64](z3.Select(c.m0.row(self.dist(c, c.m0).core), p))

    def pre(self, c):
        sc, d, n = self.sc(c), self.dist(c, c.m0), self.n(c)
        cr = c.m0.row(d.core)
        r = And(x >= 0, x < n, y >= 0, y < n)
        return [('an hdbscan object', And(sc > 0, c.m0.live(sc), c.a[0].off == 0, Bytes(sc) == c.e.prog.csize('hdbscan'))),
                ('stored distances and core distances', And(d.wf(), d.stored(), d.cored())),
                ('one row per point', And(d.rows == n, n >= 1, n < 1 << 31)), ('self edges or at least two points', Or(self.selfe(c), n >= 2)),
                ('core distances are numbers', forall([x], Implies(And(x >= 0, x < n), Not(nan(self.core(c, x)))), [z3.Select(cr, x)])),
                ('distances are numbers', forall([x, y], Implies(r, Not(nan(DV(d.row(), d.rows, x, y)))), [DV(d.row(), d.rows, x, y)]))]

    def after_pre(self, c):
        for t in (self.dist(c, c.m0).core, self.dist(c, c.m0).d):
            c.st.claims.append((z3.simplify(t), z3.IntVal(8)))
        c.g['max'] = c.e.fconst(c.st, DMAX, 64)

    def axioms(self, c):
        g = Gh(c.m0)
        return [mr_def(), g.T == 0, forall([k], And(g.P(k) == k, g.Q(k) == k), [g.P(k)]), forall([k], And(g.P(k) == k, g.Q(k) == k), [g.Q(k)])] + count_defs()

    # ---- ghost code: setting a cell of the array of attached points attaches the point
    def on_store(self, c, st, o, q, v, ty):
        loc = [z for z in st.locals if z.eq(o)]
        if not loc or ty[0] != 'i' or not any(z.eq(o) for z, _ in st.claims):
            return
        n = self.n(c)
        if not c.e.quick(st, Len(o) == n) or c.e.quick(st, Len(o) == 1):
            return
        t = z3.simplify(c.e.U(st, v))
        if not z3.is_int_value(t) or t.as_long() not in (0, 1):
            raise Unsupported('the array of attached points holds something else than 0 and 1')
        if t.as_long() == 0:
            return
        m = M(c.e, st.mem)
        g = Gh(m)
        at, p = g.Q(q), g.P(g.T)
        put = lambda key, *kv: c.e.memset(st, key, self.stores(c.e.memget(st.mem, key), *kv), None)
        T = g.T
        P1, Q1 = self.stores(c.e.memget(st.mem, GP), (T, q), (at, p)), self.stores(c.e.memget(st.mem, GQ), (q, T), (p, at))
        # (when q is the next point anyway, both stores agree)
        P1 = z3.Store(P1, T, q)
        Q1 = z3.Store(Q1, q, T)
        c.e.memset(st, GP, P1, None)
        c.e.memset(st, GQ, Q1, None)
        c.e.memset(st, GT, z3.Store(c.e.memget(st.mem, GT), 0, T + 1), None)

    def stores(self, a, *kv):
        for i, v in kv:
            a = z3.Store(a, i, v)
        return a

    # ---- assertions over one snapshot; A, B, W: storage of the neighbours, the other ends and the weights
    def perm(self, c, m):
        g, n = Gh(m), self.n(c)
        return [forall([k], Implies(And(k >= 0, k < n), And(g.P(k) >= 0, g.P(k) < n, g.Q(g.P(k)) == k)), [g.P(k)]),
                forall([x], Implies(And(x >= 0, x < n), And(g.Q(x) >= 0, g.Q(x) < n, g.P(g.Q(x)) == x)), [g.Q(x)]),
                And(g.T >= 0, g.T <= n, Implies(g.T > 0, And(g.P(0) == n - 1, g.Q(n - 1) == 0)))]

    def cells(self, m, A, B, W):
        return (lambda i: asI[32](m.cell(A, i))), (lambda i: asI[32](m.cell(B, i))), (lambda i: asF[64](m.cell(W, i)))

    def weights(self, c, m, A, B, W):
        """every point has a current neighbour attached before it"""
        g, n = Gh(m), self.n(c)
        a, b, wt = self.cells(m, A, B, W)
        mx = c.g['max']
        wv = val(wt(x))
        r = And(x >= 0, x < n - 1)
        return [forall([x], Implies(r, And(Not(nan(wt(x))), wv <= val(mx))), [m.cell(W, x)]),
                forall([x], Implies(r, And(a(x) >= 0, a(x) < n)), [m.cell(A, x)]),
                forall([x], Implies(r, And(g.Q(a(x)) < g.T, Implies(g.Q(x) < g.T, g.Q(a(x)) < g.Q(x)))), [m.cell(A, x)]),
                forall([x], Implies(r, Or(wv == self.mr(c, x, a(x)), And(wt(x) == mx, a(x) == n - 1))), [m.cell(W, x)]),
                forall([x], Implies(And(r, g.Q(x) < g.T), b(x) == x), [m.cell(B, x)])]

    def near(self, c, m, W, done):
        """no attached point for which done holds is nearer to an unattached point than its current distance"""
        g, n = Gh(m), self.n(c)
        return forall([w, u], Implies(And(w >= 0, w < n - 1, u >= 0, u < n, g.Q(w) >= g.T, done(g, w, u)), self.mr(c, w, u) >= val(asF[64](m.cell(W, w)))), [self.mr(c, w, u)])

    def cut(self, c, m, W, T=None):
        """every attached point was the nearest to the points attached before it"""
        g, n = Gh(m), self.n(c)
        cond = And(x >= 0, x < n - 1, w >= 0, w < n, u >= 0, u < n, g.Q(x) < g.T, g.Q(u) < g.Q(x), g.Q(x) <= g.Q(w))
        return forall([x, w, u], Implies(cond, self.mr(c, w, u) >= val(asF[64](m.cell(W, x)))), [(m.cell(W, x), self.mr(c, w, u))])

    def effects(self, c):
        sc = self.sc(c)
        c.mod_field('hdbscan.mst', sc)
        if c.mode == 'verify':
            for key in (GP, GQ, GT):
                c.mods.append((('pred', key), lambda o: z3.BoolVal(True)))
        else:
            for key in (GP, GQ, GT):
                c.e.memset(c.st, key, fresh('gh', z3.ArraySort(I, I)), None)

    def graph(self, c, m):
        o = m.get('hdbscan.mst', self.sc(c))
        return o, Adj(m, o)

    def post(self, c):
        m = c.m1
        n = self.n(c)
        o, g = self.graph(c, m)
        A, B_, W = [L(m, m.get('UndirectedGraph.' + f, o)) for f in ('verticesA', 'verticesB', 'edgeWeights')]
        G = Gh(m)
        a, b, wt = self.cells(m, A.d, B_.d, W.d)
        sz = If(self.selfe(c), 2 * n - 1, n - 1)
        tree = And(x >= 0, x < n - 1)
        loop = And(x >= n - 1, x < sz)
        ra, rb = m.row(A.d), m.row(B_.d)
        from .graph import v_, u_, Cn
        l = g.l(v_)
        mx = c.e.fconst(c.st, DMAX, 64)
        r = [('success', c.rt == 0), ('a new graph', And(Not(c.m0.live(o)), m.get('hdbscan.mst', self.sc(c), 'off') == 0, g.header(), g.nv == n)),
             ('edge lists', And(A.wf(), B_.wf(), W.wf(), A.step == 4, B_.step == 4, W.step == 8, *[z.size == sz for z in (A, B_, W)])),
             ('edge lists of its own', And(*[Not(c.m0.live(z)) for q in (A, B_, W) for z in (q.o, q.d)], *[p != q for i, p in enumerate((A, B_, W)) for q in ()])),
             ('adjacency lists', g.lists(g.nv)), ('adjacency lists have separate storage', g.apart(g.nv)),
             ('every vertex lists its neighbours as often as the edges say', forall([v_, u_], Implies(And(v_ >= 0, v_ < n), Cn(m.row(l.d), l.size, u_) == ME(ra, rb, sz, v_, u_)),
                                                                                   [ME(ra, rb, sz, v_, u_)])),
             ('every point but the last is joined to one attached before it', forall([x], Implies(tree, And(b(x) == x, a(x) >= 0, a(x) < n, G.Q(a(x)) < G.Q(x))), [m.cell(A.d, x)])),
             ('the order of attachment is a permutation that starts at the last point', And(*self.perm(c, m), G.T == n)),
             ('an edge weighs the mutual reachability distance (at most D_MAX)', forall([x], Implies(tree, val(wt(x)) == If(self.mr(c, x, a(x)) > val(mx), val(mx), self.mr(c, x, a(x)))),
                                                                                      [m.cell(W.d, x)])),
             ('no pair across is nearer when a point is attached', self.cut(c, m, W.d)),
             ('a self edge for every point, with its core distance', forall([x], Implies(loop, And(a(x) == x - (n - 1), b(x) == x - (n - 1), wt(x) == self.core(c, x - (n - 1)))),
                                                                            [m.cell(A.d, x)]))]
        return r

    # ---- invariants
    def lists(self, lp):
        """(neighbours, others, weights) by element size and by order of creation; both orders of the first two are tried"""
        new = [o for o in lp.st.heap if str(o).startswith('data')]
        st = {str(o): s for o, s in lp.st.claims}
        i4 = [o for o in new if str(st.get(str(o))) == '4']
        i8 = [o for o in new if str(st.get(str(o))) == '8']
        return (i4, i8[0]) if len(i4) == 2 and len(i8) == 1 else (None, None)

    def templates(self, c):
        n = self.n(c)
        ts = []

        def T(nm, g, kinds=()):
            def f(lp, *v):
                return g(lp, lp.m, Gh(lp.m), *v)
            ts.append(Template(list(kinds), f, nm))

        def TL(nm, g, kinds=()):
            for p in (0, 1):
                def f(lp, *v, p=p):
                    i4, W = self.lists(lp)
                    return None if W is None else g(lp, lp.m, Gh(lp.m), i4[p], i4[1 - p], W, *v)
                ts.append(Template(list(kinds), f, '%s%s' % (nm, "'" if p else '')))
        # the array of attached points is the local variable that fits
        att = lambda m, l: asI[32](m.cell(l, x))
        T('none attached', lambda lp, m, g, l, i: And(g.T == 0, forall([x], Implies(And(x >= 0, x < i), att(m, l) == 0), [m.cell(l, x)])), ('loc', 'own1'))
        for i in range(3):
            T('order %d' % i, lambda lp, m, g, i=i: self.perm(c, m)[i])
        T('attached', lambda lp, m, g, l: And(g.T >= 1, forall([x], Implies(And(x >= 0, x < n), att(m, l) == If(g.Q(x) < g.T, z3.IntVal(1), z3.IntVal(0))), [m.cell(l, x)], ),
                                              forall([x], Implies(And(x >= 0, x < n), att(m, l) == If(g.Q(x) < g.T, z3.IntVal(1), z3.IntVal(0))), [g.Q(x)])), ('loc',))
        T('attached so far', lambda lp, m, g, t: And(g.T == t, t >= 1, t <= n), ('int',))
        T('the last attached', lambda lp, m, g, t: And(g.T >= 1, t == g.P(g.T - 1), t >= 0, t < n, g.Q(t) == g.T - 1), ('int',))
        T('one is left', lambda lp, m, g: Implies(g.T < n, And(g.P(g.T) >= 0, g.P(g.T) < n, g.Q(g.P(g.T)) == g.T)))
        # initial values
        TL('initial w', lambda lp, m, g, A, B, W, i: forall([x], Implies(And(x >= 0, x < i), asF[64](m.cell(W, x)) == c.g['max']), [m.cell(W, x)]), ('own1',))
        TL('initial a', lambda lp, m, g, A, B, W, i: forall([x], Implies(And(x >= 0, x < i), asI[32](m.cell(A, x)) == n - 1), [m.cell(A, x)]), ('own1',))
        for q in range(5):
            TL('tree %d' % q, lambda lp, m, g, A, B, W, q=q: self.weights(c, m, A, B, W)[q])
        TL('near', lambda lp, m, g, A, B, W: self.near(c, m, W, lambda g, w, u: g.Q(u) < g.T - 1))
        TL('near to here', lambda lp, m, g, A, B, W, j: self.near(c, m, W, lambda g, w, u: Or(g.Q(u) < g.T - 1, And(g.Q(u) == g.T - 1, w < j))), ('own2',))
        TL('cut', lambda lp, m, g, A, B, W: self.cut(c, m, W))
        # the nearest so far: j the point under work, t the nearest (-1: none), v its distance
        neg = lambda t: Or(t == -1, t == (1 << 32) - 1)
        T('none nearest', lambda lp, m, g, j, t: Implies(neg(t), forall([x], Implies(And(x >= 0, x < j), g.Q(x) < g.T), [g.Q(x)])), ('own2', 'own2'))
        T('nearest', lambda lp, m, g, j, t: Implies(Not(neg(t)), And(t >= 0, t < j, t < n - 1, g.Q(t) >= g.T)), ('own2', 'own2'))
        T('nearest distance', lambda lp, m, g, v: And(Not(nan(v)), val(v) <= val(c.g['max'])), ('fp',))
        TL('nearest has it', lambda lp, m, g, A, B, W, t, v: Implies(Not(neg(t)), v == asF[64](m.cell(W, t))), ('own2', 'ofp'))
        T('no nearest yet', lambda lp, m, g, t, v: Implies(neg(t), v == c.g['max']), ('own2', 'ofp'))
        TL('nearest is least', lambda lp, m, g, A, B, W, j, v: forall([x], Implies(And(x >= 0, x < j, x < n - 1, g.Q(x) >= g.T), val(v) <= val(asF[64](m.cell(W, x)))), [m.cell(W, x)]),
           ('own2', 'ofp'))
        # self edges
        keep = lambda lp, m, o: forall([x], Implies(And(x >= 0, x < n - 1), m.cell(o, x) == lp.me.cell(o, x)), [m.cell(o, x)])
        T('kept', lambda lp, m, g, h: keep(lp, m, h), ('heap',))
        def selfs(q):
            def f(lp, m, g, A, B, W, i):
                a, b, wt = self.cells(m, A, B, W)
                r = And(x >= n - 1, x < i)
                return [forall([x], Implies(r, a(x) == x - (n - 1)), [m.cell(A, x)]), forall([x], Implies(r, b(x) == x - (n - 1)), [m.cell(B, x)]),
                        forall([x], Implies(r, wt(x) == self.core(c, x - (n - 1))), [m.cell(W, x)])][q]
            return f
        for q in range(3):
            TL('self edges %d' % q, selfs(q), ('own1',))
        return ts

    def bounds(self, c):
        return [('points', self.n(c))]


ALL = [construct]
