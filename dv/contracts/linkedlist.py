"""linkedlist (modules/collections/src/linkedlist.c): a doubly linked list against a ghost sequence of nodes"""
from .base import *

i = z3.Int('i')
AII = z3.ArraySort(I, I)
S, K, P = z3.Const('ghost_S', AII), z3.Const('ghost_K', AII), z3.Const('ghost_P', AII)
sel = z3.Select
S0 = (lambda x: sel(S, x), lambda x: sel(K, x), lambda x: sel(P, x))


class LLs:
    """the list at o in snapshot m"""

    def __init__(self, m, o):
        self.m, self.o = m, o
        g = m.get
        self.size, self.step = g('LINKEDLIST.size', o), g('LINKEDLIST.step', o)
        self.head, self.tail = g('LINKEDLIST.head', o), g('LINKEDLIST.tail', o)
        self.ho, self.to = g('LINKEDLIST.head', o, 'off'), g('LINKEDLIST.tail', o, 'off')

    def nx(self, x):
        return self.m.get('NODE.next', x)

    def pv(self, x):
        return self.m.get('NODE.prev', x)

    def dt(self, x):
        return self.m.get('NODE.data', x)

    def val(self, x):
        return self.m.cell(self.dt(x), 0)

    def wf(self, gh, pat=True):
        """the nodes are exactly gh.s(0..size-1), linked in both directions; all objects of the list are distinct"""
        s, kd, ps = gh
        m, o, n = self.m, self.o, self.size
        g = m.get
        x = s(i)
        d = self.dt(x)
        node = And(x > 0, m.live(x), kd(x) == 1, ps(x) == i, Bytes(x) == m.e.prog.csize('NODE'),
                   d > 0, m.live(d), kd(d) == 2, ps(d) == i, Stride(d) == self.step, Len(d) == 1,
                   g('NODE.data', x, 'off') == 0, g('NODE.next', x, 'off') == 0, g('NODE.prev', x, 'off') == 0)
        return [('the list object is valid', And(o > 0, m.live(o), kd(o) == 0, Bytes(o) == m.e.prog.csize('LINKEDLIST'))),
                ('element size', And(self.step >= 1, self.step < (1 << 31))),
                ('count', n >= 0),
                ('head is the first node', And(self.head == If(n > 0, s(0), 0), self.ho == 0)),
                ('tail is the last node', And(self.tail == If(n > 0, s(n - 1), 0), self.to == 0)),
                ('nodes are valid', forall([i], Implies(And(i >= 0, i < n), node), [x] if pat else None)),
                ('nodes are linked forwards', forall([i], Implies(And(i >= 0, i < n), self.nx(x) == If(i + 1 < n, s(i + 1), 0)), [self.nx(x)] if pat else None)),
                ('nodes are linked backwards', forall([i], Implies(And(i >= 0, i < n), self.pv(x) == If(i > 0, s(i - 1), 0)), [self.pv(x)] if pat else None))]


class LFn(Contract):
    inline_in = True
    data_arg = None

    def bind(self, c):
        if self.data_arg is not None:
            p = c.a[self.data_arg]
            q = z3.Int('ghost_q')
            c.g['q'], c.g['D'] = q, p.obj
            c.a[self.data_arg] = PtrV(p.obj, q * c.m0.get('LINKEDLIST.step', c.a[0].obj))

    def pre(self, c):
        o = c.a[0].obj
        l = LLs(c.m0, o)
        r = l.wf(S0)
        if self.data_arg is not None:
            D, q = c.g['D'], c.g['q']
            r.append(('a valid element', And(D > 0, c.m0.live(D), Stride(D) == l.step, q >= 0, q < Len(D), sel(K, D) == -1,
                                             Len(D) * l.step <= MAXB)))
        return r

    def after_pre(self, c):
        l = LLs(c.m0, c.a[0].obj)
        c.g['stride'] = l.step
        if self.data_arg is not None:
            c.st.claims.append((c.g['D'], l.step))
            c.e.add_cap(c.st, Len(c.g['D']), l.step)

    def x0(self, c):
        return c.m0.cell(c.g['D'], c.g['q'])

    def kept(self, c, rng, s):
        """the values of the nodes in a range of the old sequence are untouched"""
        a, b = LLs(c.m0, c.a[0].obj), LLs(c.m1, c.a[0].obj)
        return forall([i], Implies(rng, And(b.dt(s(i)) == a.dt(s(i)), b.val(s(i)) == a.val(s(i)))), [s(i)])


class init(Contract):
    name = 'linkedlist_init'
    inline_in = True

    def pre(self, c):
        s = c.e.U(c.st, c.a[0])
        return [('element size', And(s >= 1, s < (1 << 31)))]

    def post(self, c):
        o = c.ret.obj
        l = LLs(c.m1, o)
        z = lambda x: z3.IntVal(0)
        return [('a new list', And(Not(c.m0.live(o)), c.ret.off == 0)), ('the list is empty', l.size == 0),
                ('element size is recorded', l.step == c.e.U(c.st, c.a[0]))] + l.wf((z, z, z), False)


class Add(LFn):
    data_arg = 1
    node_result = False

    def newnode(self, b):
        raise NotImplementedError

    def effects(self, c):
        o = c.a[0].obj
        l = LLs(c.m0, o)
        c.mod_fields('LINKEDLIST', o, ('head', 'tail', 'size'))
        c.mod_field('NODE.next', l.tail)
        c.mod_field('NODE.prev', l.head)

    def post(self, c):
        o = c.a[0].obj
        a, b = LLs(c.m0, o), LLs(c.m1, o)
        nd = b.head if self.front else b.tail
        nd2 = b.dt(nd)
        s, kd, ps = S0
        n = a.size
        if self.front:
            s1 = lambda x: If(x == 0, nd, s(x - 1))
            p1 = lambda x: If(Or(x == nd, x == nd2), 0, ps(x) + 1)
        else:
            s1 = lambda x: If(x == n, nd, s(x))
            p1 = lambda x: If(Or(x == nd, x == nd2), n, ps(x))
        k1 = lambda x: If(x == nd, 1, If(x == nd2, 2, kd(x)))
        r = [('one element more', b.size == n + 1), ('node and storage are new', And(Not(c.m0.live(nd)), Not(c.m0.live(nd2)))),
             ('the element is stored', b.val(nd) == self.x0(c)), ('element size is kept', b.step == a.step),
             ('the other elements are kept', self.kept(c, And(i >= 0, i < n), s))]
        r += b.wf((s1, k1, p1), False)
        if self.node_result:
            r.append(('the new node is returned', And(c.ret.obj == nd, c.ret.off == 0)))
        else:
            r.append(('success is reported', c.rt == 1))
        return r

    def pre(self, c):
        return super().pre(c) + [('a countable list', LLs(c.m0, c.a[0].obj).size < (1 << 31) - 1)]


class front(Add):
    name = 'linkedlist_front_add'
    front = True


class tail(Add):
    name = 'linkedlist_tail_add'
    front = False


class nfront(Add):
    name = 'linkedlist_node_front_add'
    front = True
    node_result = True


class ntail(Add):
    name = 'linkedlist_node_tail_add'
    front = False
    node_result = True


class Search(LFn):
    data_arg = 1

    def cmp(self, c):
        f = c.a[self.cmp_arg]
        l = LLs(c.m0, c.a[0].obj)
        return lambda j: cmpf(f.obj, l.val(sel(S, j)), self.x0(c)) == 0

    def bind(self, c):
        super().bind(c)
        p = c.a[self.cmp_arg]
        c.a[self.cmp_arg] = PtrV(p.obj, 0)

    def pre(self, c):
        return super().pre(c) + [('a comparator', c.a[self.cmp_arg].obj < 0)]

    def templates(self, c):
        l = LLs(c.m0, c.a[0].obj)
        m = self.cmp(c)

        def at(lp, t):
            x = t.obj
            return And(t.off == 0, Or(x == 0, And(sel(K, x) == 1, sel(P, x) >= 0, sel(P, x) < l.size, sel(S, sel(P, x)) == x)))

        def before(lp, t):
            x = t.obj
            return forall([i], Implies(And(i >= 0, i < If(x == 0, l.size, sel(P, x))), Not(m(i))), [sel(S, i)])
        return [Template(['ptr'], at, 'is a node'), Template(['ptr'], before, 'no match before')]

    def first(self, c, p):
        """p is the position of the first match"""
        m = self.cmp(c)
        return And(p >= 0, p < LLs(c.m0, c.a[0].obj).size, m(p), forall([i], Implies(And(i >= 0, i < p), Not(m(i))), [sel(S, i)]))

    def none(self, c):
        m = self.cmp(c)
        return forall([i], Implies(And(i >= 0, i < LLs(c.m0, c.a[0].obj).size), Not(m(i))), [sel(S, i)])

    def unlinked(self, c, nd, destroyed):
        """node nd of the old sequence is gone, everything else is in place"""
        o = c.a[0].obj
        a, b = LLs(c.m0, o), LLs(c.m1, o)
        p = sel(P, nd)
        s, kd, ps = S0
        s1 = lambda x: If(x < p, s(x), s(x + 1))
        p1 = lambda x: If(ps(x) < p, ps(x), ps(x) - 1)
        r = [('one element fewer', b.size == a.size - 1), ('element size is kept', b.step == a.step),
             ('the other elements are kept', self.kept(c, And(i >= 0, i < a.size, i != p), s))]
        r += b.wf((s1, kd, p1), False)
        if destroyed:
            r.append(('the node is released', And(Not(c.m1.live(nd)), Not(c.m1.live(a.dt(nd))))))
        return r

    def unchanged(self, c):
        o = c.a[0].obj
        a, b = LLs(c.m0, o), LLs(c.m1, o)
        return [('the list keeps its shape', And(*[g for _, g in b.wf(S0, False)])), ('size kept', b.size == a.size),
                ('all elements are kept', self.kept(c, And(i >= 0, i < a.size), S0[0]))]

    def mods(self, c, nd):
        o = c.a[0].obj
        a = LLs(c.m0, o)
        c.mod_fields('LINKEDLIST', o, ('head', 'tail', 'size'))
        for f in ('NODE.next', 'NODE.prev'):
            for x in (nd, a.nx(nd), a.pv(nd)):
                c.mod_field(f, x)


class lookup_helper(Search):
    name = 'linkedlist_lookup_helper'
    cmp_arg = 2

    def post(self, c):
        x = c.ret.obj
        return [('a reported node is the first match', Implies(x != 0, And(self.first(c, sel(P, x)), sel(S, sel(P, x)) == x, c.ret.off == 0))),
                ('a missing element is really missing', Implies(x == 0, self.none(c)))]


class lookup(Search):
    name = 'linkedlist_lookup'
    cmp_arg = 3

    def removed(self, c):
        return c.e.S(c.st, c.a[2]) == 1

    def post(self, c):
        x = c.ret.obj
        a = LLs(c.m0, c.a[0].obj)
        nd = sel(S, sel(P, x))
        found, rem = x != 0, self.removed(c)
        r = [('the element of the first match is returned', Implies(found, And(self.first(c, sel(P, x)), a.dt(nd) == x, c.ret.off == 0))),
             ('a missing element is really missing', Implies(Not(found), self.none(c))),
             ('the returned element stays valid', Implies(found, And(c.m1.live(x), c.m1.cell(x, 0) == c.m0.cell(x, 0))))]
        r += [(t, Implies(And(found, rem), g)) for t, g in self.unlinked(c, nd, False)]
        r += [(t, Implies(Or(Not(found), Not(rem)), g)) for t, g in self.unchanged(c)]
        return r

    def effects(self, c):
        self.mods(c, sel(S, sel(P, c.ret.obj)))


class remove(Search):
    name = 'linkedlist_remove'
    cmp_arg = 2

    def post(self, c):
        p = z3.Int('p')
        found = c.rt == 1
        ex = z3.Exists([p], And(self.first(c, p), *[g for _, g in self.unlinked(c, sel(S, p), True)]))
        # the position is where the count of objects dropped: name it through the unhooked node
        nd = self.gone(c)
        r = [('result', Or(c.rt == 0, c.rt == 1)), ('a missing element is really missing', Implies(Not(found), self.none(c)))]
        if nd is None:
            r.append(('a reported removal removes the first match', Not(found)))
        else:
            r.append(('the first match is removed', Implies(found, And(self.first(c, sel(P, nd)), sel(S, sel(P, nd)) == nd))))
            r += [(t, Implies(found, g)) for t, g in self.unlinked(c, nd, True)]
        r += [(t, Implies(Not(found), g)) for t, g in self.unchanged(c)]
        return r

    def gone(self, c):
        """the node released on this path (a term of the final allocation map)"""
        t = c.e.memget(c.st.mem, ('L',))
        dead = []
        while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
            if z3.is_false(z3.simplify(t.arg(2))):
                dead.append(t.arg(1))
            t = t.arg(0)
        for d in dead:
            if c.e.quick2(c.st, sel(K, d) == 1):
                return d
        return None

    def effects(self, c):
        nd = self.gone(c)
        if nd is not None:
            self.mods(c, nd)
            c.mod_live(nd)
            c.mod_live(LLs(c.m0, c.a[0].obj).dt(nd))


class value_at(LFn):
    name = 'linkedlist_value_at'
    data_arg = 2

    def post(self, c):
        l = LLs(c.m0, c.a[0].obj)
        pos = c.e.S(c.st, c.a[1])
        ok = And(pos >= 0, pos < l.size)
        D, q = c.g['D'], c.g['q']
        return [('result', c.rt == If(ok, pos, -1)),
                ('the element is copied out', Implies(ok, c.m1.row(D) == z3.Store(c.m0.row(D), q, l.val(sel(S, pos))))),
                ('failure leaves the output alone', Implies(Not(ok), c.m1.row(D) == c.m0.row(D)))]

    def effects(self, c):
        c.mod_row(c.g['D'])

    def bounds(self, c):
        return [('size', LLs(c.m0, c.a[0].obj).size), ('pos', c.e.S(c.st, c.a[1]))]

    def templates(self, c):
        l = LLs(c.m0, c.a[0].obj)

        def at(lp, t):
            x = t.obj
            return And(t.off == 0, Or(x == 0, And(sel(K, x) == 1, sel(P, x) >= 0, sel(P, x) < l.size, sel(S, sel(P, x)) == x)))

        def count(lp, v, t):
            return v == If(t.obj == 0, l.size, sel(P, t.obj))
        pos = c.e.S(c.st, c.a[1])
        return [Template(['ptr'], at, 'is a node'), Template(['int', 'ptr'], count, 'counts'),
                Template(['int'], lambda lp, v: Or(pos < 0, v <= pos), 'not passed yet')]


class End(LFn):
    def post(self, c):
        l = LLs(c.m0, c.a[0].obj)
        n = l.size
        x = sel(S, 0) if self.first else sel(S, n - 1)
        return [('the element at that end, or null', And(c.ret.obj == If(n > 0, l.dt(x), 0), c.ret.off == 0))]


class head(End):
    name = 'linkedlist_head'
    first = True


class tail_(End):
    name = 'linkedlist_tail'
    first = False


class empty(LFn):
    name = 'linkedlist_empty'

    def pre(self, c):
        l = LLs(c.m0, c.a[0].obj)
        return [('no list or a list', Implies(c.a[0].obj != 0, And(*[g for _, g in l.wf(S0)])))]

    def after_pre(self, c):
        pass

    def post(self, c):
        l = LLs(c.m0, c.a[0].obj)
        return [('1 when the list has elements, else 0', c.rt == If(And(c.a[0].obj != 0, l.size > 0), 1, 0))]


class clear(LFn):
    name = 'linkedlist_clear'
    kills_list = False

    def ghost(self, k):
        s, kd, ps = S0
        return (lambda x: s(x + k), kd, lambda x: ps(x) - k)

    def post(self, c):
        o = c.a[0].obj
        a, b = LLs(c.m0, o), LLs(c.m1, o)
        s = S0[0]
        r = [('every node is released', forall([i], Implies(And(i >= 0, i < a.size), And(Not(c.m1.live(s(i))), Not(c.m1.live(a.dt(s(i)))))), [s(i)]))]
        if self.kills_list:
            r.append(('the list is released', Not(c.m1.live(o))))
        else:
            r += [('the list is empty', b.size == 0), ('element size is kept', b.step == a.step)] + b.wf(S0, False)
        return r

    def frame(self, c, m, upto=None):
        """only the list's own objects are touched"""
        x = z3.Int('x')
        return And(forall([x], Implies(And(sel(K, x) != 1, sel(K, x) != 2, x != c.a[0].obj), m.live(x) == c.m0.live(x)), [m.live(x)]),
                   forall([x], m.row(x) == c.m0.row(x), [m.row(x)]))

    def effects(self, c):
        l = LLs(c.m0, c.a[0].obj)
        x = fresh('x')
        c.mod_fields('LINKEDLIST', c.a[0].obj, ('head', 'tail', 'size'))
        c.mods.append(('own', lambda o: And(sel(P, o) >= 0, sel(P, o) < l.size,
                                            Or(And(sel(K, o) == 1, sel(S, sel(P, o)) == o),
                                               And(sel(K, o) == 2, l.dt(sel(S, sel(P, o))) == o)))))
        if self.kills_list:
            c.mod_live(c.a[0].obj)

    def templates(self, c):
        o = c.a[0].obj
        a = LLs(c.m0, o)
        n = a.size
        s, kd, ps = S0

        def rest(lp):
            b = LLs(lp.m, o)
            k = n - b.size
            nx = forall([i], Implies(And(i >= k, i < n), And(
                s(i) > 0, lp.m.live(s(i)), b.dt(s(i)) == a.dt(s(i)), lp.m.live(a.dt(s(i))), lp.m.get('NODE.data', s(i), 'off') == 0,
                lp.m.get('NODE.next', s(i), 'off') == 0, lp.m.get('NODE.prev', s(i), 'off') == 0)), [s(i)])
            nx = And(nx, forall([i], Implies(And(i >= k, i < n), b.nx(s(i)) == If(i + 1 < n, s(i + 1), 0)), [b.nx(s(i))]),
                     forall([i], Implies(And(i >= k, i < n), b.pv(s(i)) == If(i > k, s(i - 1), 0)), [b.pv(s(i))]))
            return And(b.size >= 0, b.size <= n, b.head == If(k < n, s(k), 0), b.ho == 0, b.to == 0, b.step == a.step, lp.m.live(o),
                       b.tail == If(k < n, s(n - 1), 0), nx)

        def cur(lp, t):
            b = LLs(lp.m, o)
            k = n - b.size
            return And(t.off == 0, t.obj == If(k < n, s(k), 0))

        def gone(lp):
            b = LLs(lp.m, o)
            k = n - b.size
            return forall([i], Implies(And(i >= 0, i < k), And(Not(lp.m.live(s(i))), Not(lp.m.live(a.dt(s(i)))))), [s(i)])

        def keep(lp):
            x = z3.Int('x')
            own = And(sel(P, x) >= 0, sel(P, x) < n, Or(And(kd(x) == 1, s(ps(x)) == x), And(kd(x) == 2, a.dt(s(ps(x))) == x)))
            al = Or(c.m0.live(x), And(x < -2000000, c.m0.live(AtB(x))))
            return And(forall([x], Implies(And(c.m0.live(x), Not(own)), lp.m.live(x)), [lp.m.live(x)]),
                       *[forall([x], Implies(And(al, Not(own)), lp.m.get(f, x, pt) == c.m0.get(f, x, pt)), [lp.m.get(f, x, pt)])
                         for f in ('NODE.next', 'NODE.prev') for pt in ('obj', 'off')])
        return [Template([], rest, 'suffix remains'), Template(['ptr'], cur, 'at the head'), Template([], gone, 'prefix released'),
                Template([], keep, 'others kept')]


class delete(clear):
    name = 'linkedlist_delete'
    kills_list = True


ALL = [init, front, tail, nfront, ntail, lookup_helper, lookup, remove, value_at, head, tail_, empty, clear, delete]
