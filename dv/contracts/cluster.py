"""cluster tree nodes (src/cluster.c)"""
from .base import *
from .list import init as list_init
from .set import init as set_init_c
from . import list as LL

j = z3.Int('j')
STRUCT = 'Cluster'
FLD = ('label', 'birthLevel', 'deathLevel', 'numPoints', 'offset', 'stability', 'propagatedStability', 'propagatedLowestChildDeathLevel',
       'numConstraintsSatisfied', 'propagatedNumConstraintsSatisfied', 'hasChildren')
PFLD = ('virtualChildCluster', 'parent', 'propagatedDescendants')


def struct_live(m, o, name):
    return And(o > 0, m.live(o), Bytes(o) == m.e.prog.csize(name))


class Cl:
    """one cluster in one memory snapshot"""

    def __init__(self, m, o):
        self.m, self.o = m, o

    def __getattr__(self, f):
        return self.m.get('Cluster.' + f, self.o)

    def poff(self, f):
        return self.m.get('Cluster.' + f, self.o, 'off')

    def wf(self):
        return struct_live(self.m, self.o, STRUCT)

    def same(self, other, but=()):
        r = [getattr(self, f) == getattr(other, f) for f in FLD if f not in but]
        for f in PFLD:
            if f not in but:
                r += [getattr(self, f) == getattr(other, f), self.poff(f) == other.poff(f)]
        return And(*r)


def fop(c, name, *a):
    r = c.e.fop(name, *a)
    return r


def fadd(c, a, b):
    return fop(c, 'fadd64', a, b)


def fmul(c, a, b):
    return fop(c, 'fmul64', a, b)


class detach_points(Contract):
    """the accounts of a cluster that loses n points at a level"""
    name = 'cluster_detach_points'
    nargs = 3

    def bind(self, c):
        c.g['n'] = c.e.U(c.st, c.a[1])
        c.g['level'] = c.a[2].t

    def cl0(self, c):
        return Cl(c.m0, c.a[0].obj)

    def cl1(self, c):
        return Cl(c.m1, c.a[0].obj)

    def pre(self, c):
        a = self.cl0(c)
        return [('a cluster', a.wf()), ('no more points than the cluster has', c.g['n'] <= a.numPoints)]

    def effects(self, c):
        for f in ('numPoints', 'stability', 'deathLevel'):
            c.mod_field('Cluster.' + f, c.a[0].obj)

    def post(self, c):
        a, b = self.cl0(c), self.cl1(c)
        n, lv = c.g['n'], c.g['level']
        one = c.e.fconst(c.st, 1.0, 64)
        gain = fmul(c, c.e.i2f(c.st, n, 64, 32), fop(c, 'fsub64', fop(c, 'fdiv64', one, lv), fop(c, 'fdiv64', one, a.birthLevel)))
        return [('success', c.rt == 1),
                ('the size drops by the number of points', b.numPoints == a.numPoints - n),
                ('the stability grows by the points times the difference of inverse levels', b.stability == fadd(c, a.stability, gain)),
                ('the last points set the death level', Implies(b.numPoints == 0, b.deathLevel == lv)),
                ('a living cluster keeps its death level', Implies(b.numPoints != 0, b.deathLevel == a.deathLevel))]



def zero(c):
    return c.e.fconst(c.st, 0.0, 64)


def dmax(c):
    return c.e.fconst(c.st, 1.7976931348623157e308, 64)


class init(Contract):
    """a new cluster with empty accounts"""
    name = 'cluster_init'
    nargs = 5

    def variants(self):
        return ['allocated', 'in place']

    def bind(self, c):
        if c.mode == 'verify' and c.variant == 'allocated':
            c.a[0] = NULL
        c.g['label'], c.g['points'] = c.e.U(c.st, c.a[1]), c.e.U(c.st, c.a[4])

    def pre(self, c):
        par = Cl(c.m0, c.a[2].obj)
        r = [('no parent or a cluster', Or(par.o == 0, And(par.wf(), c.a[2].off == 0)))]
        if c.mode == 'verify':
            if c.variant == 'in place':
                r.append(('a cluster other than the parent', And(Cl(c.m0, c.a[0].obj).wf(), c.a[0].obj != par.o)))
            else:
                r.append(('no memory is given', c.a[0].obj == 0))
        else:
            r.append(('no memory is given', c.a[0].obj == 0))
        return r

    def after_pre(self, c):
        zero(c), dmax(c)

    def effects(self, c):
        par = c.a[2].obj
        if c.mode == 'verify':
            if c.variant == 'in place':
                for f in FLD + PFLD:
                    c.mod_field('Cluster.' + f, c.a[0].obj)
            c.mod_field('Cluster.hasChildren', par)
            return
        e, st = c.e, c.st

        def setf(struct, o, f, v):
            off, ct = e.prog.field(struct, f)
            parts = [('obj', v[0]), ('off', v[1])] if ct[0] == 'ptr' else [('fp' if ct[0] == 'float' else 'int', v)]
            for part, x in parts:
                key = ('S', struct, off, part)
                e.memset(st, key, z3.Store(e.memget(st.mem, key), o, x), o)
        hk = ('S', STRUCT, e.prog.field(STRUCT, 'hasChildren')[0], 'int')
        h0 = e.memget(st.mem, hk)
        e.memset(st, hk, z3.Store(h0, par, If(par == 0, z3.Select(h0, par), 1)), par)
        o = c.new('cluster', e.prog.csize(STRUCT))
        c.ret = PtrV(o, 0)
        z = z3.IntVal(0)
        zf, dm = zero(c), dmax(c)
        lists = []
        for step in (4, 8):
            n = fresh('capacity')
            st.assume(And(n >= 1, n <= 64))
            d, lo = c.new('data'), c.new('list', e.prog.csize('ArrayList'))
            for f, v in (('data', (d, z)), ('size', z), ('max_size', n), ('step', z3.IntVal(step)),
                         ('compare', (z3.IntVal(e.prog.fnid('int_compare' if step == 4 else 'cluster_compare')), z))):
                setf('ArrayList', lo, f, v)
            st.claims.append((d, z3.IntVal(step)))
            C = e.memget(st.mem, ('C',))
            e.zero_cell(st)
            e.memset(st, ('C',), z3.Store(C, d, z3.K(I, ZeroCell)), d)
            lists.append(lo)
        for f, v in (('label', c.g['label']), ('birthLevel', c.a[3].t), ('deathLevel', zf), ('numPoints', c.g['points']), ('offset', z), ('stability', zf),
                     ('propagatedStability', zf), ('propagatedLowestChildDeathLevel', dm), ('numConstraintsSatisfied', z),
                     ('propagatedNumConstraintsSatisfied', z), ('parent', (c.a[2].obj, c.a[2].off)), ('hasChildren', z),
                     ('virtualChildCluster', (lists[0], z)), ('propagatedDescendants', (lists[1], z))):
            setf(STRUCT, o, f, v)
        c.m1 = M(e, st.mem)

    def post(self, c):
        a = Cl(c.m1, c.ret.obj)
        par = c.a[2].obj
        zf, dm = zero(c), dmax(c)
        v, d = L(c.m1, a.virtualChildCluster), L(c.m1, a.propagatedDescendants)
        new = lambda o: And(o > 0, Not(c.m0.live(o)))
        return [('a live cluster', And(a.wf(), c.ret.off == 0)),
                ('the given memory is used, or new memory', c.ret.obj == c.a[0].obj if c.mode == 'verify' and c.variant == 'in place' else new(c.ret.obj)),
                ('label, parent, birth level and size', And(a.label == c.g['label'], a.parent == par, a.poff('parent') == c.a[2].off, a.birthLevel == c.a[3].t,
                                                            a.numPoints == c.g['points'])),
                ('empty accounts', And(a.deathLevel == zf, a.stability == zf, a.propagatedStability == zf, a.propagatedLowestChildDeathLevel == dm,
                                       a.numConstraintsSatisfied == 0, a.propagatedNumConstraintsSatisfied == 0, a.offset == 0, a.hasChildren == 0)),
                ('the parent has children', Implies(par != 0, Cl(c.m1, par).hasChildren == 1)),
                ('an empty set of virtual children', And(v.wf(), v.size == 0, v.step == 4, new(v.o), new(v.d), a.poff('virtualChildCluster') == 0)),
                ('no descendants', And(d.wf(), d.size == 0, d.step == 8, new(d.o), new(d.d), a.poff('propagatedDescendants') == 0)),
                ('the lists are separate', And(v.o != d.o, v.d != d.d, v.o != d.d, v.d != d.o))]


class propagate(Contract):
    """what a cluster hands to its parent"""
    name = 'cluster_propagate'
    nargs = 1

    def x(self, c, m):
        a = Cl(m, c.a[0].obj)
        p = Cl(m, Cl(c.m0, c.a[0].obj).parent)
        return a, p, L(m, Cl(c.m0, c.a[0].obj).propagatedDescendants), L(m, Cl(c.m0, p.o).propagatedDescendants)

    def pre(self, c):
        a, p, la, lp = self.x(c, c.m0)
        lists = [la.o, la.d, lp.o, lp.d]
        return [('a cluster', a.wf()),
                ('its descendants', And(la.wf(), la.step == 8, a.poff('propagatedDescendants') == 0)),
                ('no parent, or a cluster with its own descendants', Or(p.o == 0, And(p.wf(), a.poff('parent') == 0, p.o != a.o, lp.wf(), lp.step == 8, p.poff('propagatedDescendants') == 0,
                                                                                 lp.o != la.o, lp.d != la.d, lp.d != la.o, la.d != lp.o, *[And(x != a.o, x != p.o) for x in lists]))),
                ('the numbers fit', And(la.size < (1 << 32) - 1, lp.size < 1 << 40))]

    def after_pre(self, c):
        a, p, la, lp = self.x(c, c.m0)
        c.st.claims.append((z3.simplify(la.d), z3.IntVal(8)))
        dmax(c)

    def bounds(self, c):
        return [('descendants', self.x(c, c.m0)[2].size)]

    def own(self, c):
        a, p, la, lp = self.x(c, c.m0)
        return Or(a.hasChildren == 0, a.numConstraintsSatisfied > a.propagatedNumConstraintsSatisfied,
                  And(a.numConstraintsSatisfied == a.propagatedNumConstraintsSatisfied, c.e.fcmp('oge', a.stability, a.propagatedStability)))

    def effects(self, c):
        a, p, la, lp = self.x(c, c.m0)
        c.mod_field('Cluster.propagatedLowestChildDeathLevel', a.o)
        for f in ('propagatedLowestChildDeathLevel', 'propagatedNumConstraintsSatisfied', 'propagatedStability'):
            c.mod_field('Cluster.' + f, p.o)
        for f in ('size', 'max_size', 'data'):
            c.mod_field('ArrayList.' + f, lp.o)
        c.mod_row(lp.d)
        c.mod_live(lp.d)

    def frame_extra(self, c):
        a, p, la, lp = self.x(c, c.m0)
        return [('C', lp.d), ('L', lp.d), ('S', lp.o)]

    def kept(self, c, m):
        _, _, _, l0 = self.x(c, c.m0)
        _, _, _, l1 = self.x(c, m)
        return And(forall([j], Implies(And(j >= 0, j < l0.size), l1.cell(j) == l0.cell(j)), [l1.cell(j)]), l1.wf(), l1.step == 8)

    def grown(self, c, m, n):
        _, _, la, l0 = self.x(c, c.m0)
        _, _, _, l1 = self.x(c, m)
        return And(l1.size == l0.size + n, forall([j], Implies(And(j >= l0.size, j < l0.size + n), asP(l1.cell(j)) == asP(la.cell(j - l0.size))), [l1.cell(j)]))

    def post(self, c):
        a, p, la, l0 = self.x(c, c.m0)
        a1, p1, _, l1 = self.x(c, c.m1)
        oeq, olt = lambda x, y: c.e.fcmp('oeq', x, y), lambda x, y: c.e.fcmp('olt', x, y)
        low = If(oeq(a.propagatedLowestChildDeathLevel, dmax(c)), a.deathLevel, a.propagatedLowestChildDeathLevel)
        own = self.own(c)
        root = p.o == 0
        n = p.propagatedNumConstraintsSatisfied + If(own, a.numConstraintsSatisfied, a.propagatedNumConstraintsSatisfied)
        u32 = If(n >= 1 << 32, n - (1 << 32), n)
        s = p.propagatedStability
        return [('a root propagates nothing', Implies(root, And(a1.same(a)))),
                ('its lowest death level is its own without children', Implies(Not(root), a1.propagatedLowestChildDeathLevel == low)),
                ('the parent learns the lowest death level', Implies(Not(root), p1.propagatedLowestChildDeathLevel == If(olt(low, p.propagatedLowestChildDeathLevel), low, p.propagatedLowestChildDeathLevel))),
                ('the constraints of the better selection are added', Implies(Not(root), p1.propagatedNumConstraintsSatisfied == u32)),
                ('the stability of the better selection is added', Implies(Not(root), And(Implies(own, p1.propagatedStability == fadd(c, s, a.stability)),
                                                                                         Implies(Not(own), p1.propagatedStability == fadd(c, s, a.propagatedStability))))),
                ('earlier descendants of the parent are kept', Implies(Not(root), self.kept(c, c.m1))),
                ('the cluster itself is selected', Implies(And(Not(root), own), And(l1.size == l0.size + 1, asP(l1.cell(l0.size)) == a.o, asPo(l1.cell(l0.size)) == 0))),
                ('its descendants are selected', Implies(And(Not(root), Not(own)), self.grown(c, c.m1, la.size)))]

    def templates(self, c):
        def storage(lp):
            now, before = self.x(c, lp.m)[3].d, self.x(c, lp.me)[3].d
            return Or(now == before, Not(lp.me.live(now)))
        return [Template([], storage, 'storage kept or new'), Template([], lambda lp: self.kept(c, lp.m), 'earlier descendants kept'),
                Template(['own'], lambda lp, x: self.grown(c, lp.m, x), 'descendants appended')]


class destroy(Contract):
    name = 'cluster_destroy'
    nargs = 1

    def parts(self, c):
        a = Cl(c.m0, c.a[0].obj)
        return a, [(L(c.m0, getattr(a, f)), a.poff(f)) for f in ('virtualChildCluster', 'propagatedDescendants')]

    def pre(self, c):
        a, ps = self.parts(c)
        o = [x for l, _ in ps for x in (l.o, l.d)]
        return [('no cluster or a cluster', Or(a.o == 0, And(c.a[0].off == 0, a.wf()))),
                ('with lists of its own, if any', Implies(a.o != 0, And(*[Or(l.o == 0, And(off == 0, l.wf(), l.o != a.o, l.d != a.o)) for l, off in ps],
                                                                        Or(ps[0][0].o == 0, ps[1][0].o == 0, And(*[x != y for x in o[:2] for y in o[2:]])))))]

    def effects(self, c):
        a, ps = self.parts(c)
        if c.mode == 'verify':
            c.mod_live(a.o)
            c.mod_fields('Cluster', a.o, ('virtualChildCluster', 'propagatedDescendants'))
            for l, _ in ps:
                c.mod_live(l.o)
                c.mod_live(l.d)

    def post(self, c):
        a, ps = self.parts(c)
        return [('the cluster and its lists are released', Implies(a.o != 0, And(Not(c.m1.live(a.o)), *[Implies(l.o != 0, And(Not(c.m1.live(l.o)), Not(c.m1.live(l.d))))
                                                                                                        for l, _ in ps])))]


ALL = [detach_points, init, propagate, destroy]
