"""set_t (modules/collections/src/set.c): a strictly sorted ArrayList"""
from .base import *
from . import list as LL

j, k = z3.Int('j'), z3.Int('k')
ca, cb, cc = z3.Const('ca', Cell), z3.Const('cb', Cell), z3.Const('cc', Cell)


def total_order(f):
    """the comparator is a total preorder (proved for the library's own comparators by C06)"""
    cmp = lambda a, b: cmpf(f, a, b)
    return [forall([ca, cb], And((cmp(ca, cb) < 0) == (cmp(cb, ca) > 0), (cmp(ca, cb) == 0) == (cmp(cb, ca) == 0)), [cmp(ca, cb)]),
            forall([ca, cb, cc], Implies(And(cmp(ca, cb) <= 0, cmp(cb, cc) <= 0),
                                         And(cmp(ca, cc) <= 0, Implies(Or(cmp(ca, cb) < 0, cmp(cb, cc) < 0), cmp(ca, cc) < 0))),
                   [(cmp(ca, cb), cmp(cb, cc))])]


def strictly_sorted(l):
    return forall([j, k], Implies(And(0 <= j, j < k, k < l.size), cmpf(l.cmp, l.cell(j), l.cell(k)) < 0), [(l.cell(j), l.cell(k))])


class SetFn(ListFn):
    def pre(self, c):
        l = self.l0(c)
        return super().pre(c) + [('a plain comparator', l.cmpo == 0)] + \
            [('a total order', f) for f in total_order(l.cmp)] + [('strictly sorted elements', strictly_sorted(l))]

    def m(self, c):
        l, x = self.l0(c), self.x0(c)
        return lambda i: cmpf(l.cmp, l.cell(i), x)


class find(SetFn):
    name = 'set_find'
    nargs = 2
    data_arg = 1

    def post(self, c):
        l, n = self.l0(c), self.l0(c).size
        m = self.m(c)
        return [('result in range', And(c.rt >= -1, c.rt < n)), ('a reported index matches', Implies(c.rt >= 0, m(c.rt) == 0)),
                ('a missing element is really missing', Implies(c.rt < 0, forall([j], Implies(And(j >= 0, j < n), m(j) != 0), [l.cell(j)])))]


class insert(SetFn):
    name = 'set_insert'
    nargs = 2
    ro_args = (1,)
    data_arg = 1

    def cases(self, c):
        return ['present', 'stays', 'moves']

    def guard(self, c, case):
        same = self.l1(c).d == self.l0(c).d
        p = c.rt == 0
        return {'present': p, 'stays': And(Not(p), same), 'moves': And(Not(p), Not(same))}[case]

    def effects(self, c):
        if c.case != 'present' or c.mode == 'verify':
            LL.insert_at.effects(self, c)

    def bind(self, c):
        super().bind(c)
        if 'p' not in c.g:
            c.g['p'] = fresh('pos')

    def post(self, c):
        a, b = self.l0(c), self.l1(c)
        x = self.x0(c)
        m = self.m(c)
        p = z3.Int('p')
        absent = forall([j], Implies(And(j >= 0, j < a.size), m(j) != 0), [a.cell(j)])
        if c.case == 'present':
            q = fresh('at')
            ex = z3.Exists([p], And(p >= 0, p < a.size, m(p) == 0), patterns=[a.cell(p)]) if c.mode == 'verify' else And(q >= 0, q < a.size, m(q) == 0)
            return [('an element reported present is in the set', ex), ('nothing changes', self.same_list(c)),
                    ('elements are kept', c.m1.row(a.d) == c.m0.row(a.d))]
        shift = lambda p: And(p >= 0, p <= a.size, b.cell(p) == x,
                              forall([j], Implies(And(j >= 0, j < p), b.cell(j) == a.cell(j)), [b.cell(j)]),
                              forall([j], Implies(And(j > p, j <= a.size), b.cell(j) == a.cell(j - 1)), [b.cell(j)]))
        if c.mode == 'verify':
            sh = z3.Exists([p], shift(p), patterns=[b.cell(p)])
        else:
            sh = shift(c.g['p'])
        stor = And(b.d == a.d, b.max == a.max) if c.case == 'stays' else And(Not(c.m0.live(b.d)), Not(c.m1.live(a.d)))
        return [('a new element is reported', c.rt == 1), ('it was absent', absent), ('one element more', b.size == a.size + 1),
                ('the set stays well-formed', b.wf()), ('storage', stor),
                ('element size and comparator are kept', And(b.step == a.step, b.cmp == a.cmp, b.cmpo == a.cmpo)),
                ('exactly the new element is added', sh),
                ('the set stays strictly sorted', strictly_sorted(b))]

    def templates(self, c):
        l = self.l0(c)
        m = self.m(c)

        def smaller(lp, v):
            return forall([j], Implies(And(j >= 0, j < v), m(j) < 0), [l.cell(j)])

        def larger(lp, v):
            return forall([j], Implies(And(j >= v, j < l.size), m(j) > 0), [l.cell(j)])
        return [Template(['int'], smaller, 'smaller before'), Template(['int'], larger, 'larger from')]


class remove(SetFn):
    name = 'set_remove'
    nargs = 2
    data_arg = 1

    def bind(self, c):
        super().bind(c)
        if 'p' not in c.g:
            c.g['p'] = fresh('removed')

    effects = LL.remove_at.effects

    def post(self, c):
        a, b = self.l0(c), self.l1(c)
        D, q = c.g['D'], c.g['q']
        m = self.m(c)
        p = z3.Int('p')
        found = c.rt == 1
        removed = lambda p: And(p >= 0, p < a.size, m(p) == 0, b.size == a.size - 1,
                                c.m1.row(D) == z3.Store(c.m0.row(D), q, a.cell(p)),
                                forall([j], Implies(And(j >= 0, j < b.size), b.cell(j) == If(j < p, a.cell(j), a.cell(j + 1))), [b.cell(j)]))
        body = z3.Exists([p], removed(p), patterns=[a.cell(p)]) if c.mode == 'verify' else removed(c.g['p'])
        nothing = And(forall([j], Implies(And(j >= 0, j < a.size), m(j) != 0), [a.cell(j)]), b.size == a.size,
                      c.m1.row(D) == c.m0.row(D), c.m1.row(a.d) == c.m0.row(a.d))
        return [('result', Or(c.rt == 1, c.rt == -1)), ('the element is removed', Implies(found, body)),
                ('a missing element changes nothing', Implies(Not(found), nothing)),
                ('the set stays well-formed', b.wf()), ('header kept', self.same_list(c, ('size',))),
                ('the set stays strictly sorted', strictly_sorted(b))]


class remove_at(LL.remove_at):
    name = 'set_remove_at'

    def pre(self, c):
        return super().pre(c) + [('strictly sorted elements', strictly_sorted(self.l0(c)))]

    def post(self, c):
        return super().post(c) + [('the set stays strictly sorted', strictly_sorted(self.l1(c)))]


class value_at(LL.value_at):
    name = 'set_value_at'


class size(LL.size):
    name = 'set_size'


class empty(LL.empty):
    name = 'set_empty'


class delete(LL.delete):
    name = 'set_delete'


class clear(LL.clear):
    name = 'set_clear'
    nargs = 1


class init(LL.init):
    name = 'set_init'
    nargs = 2

    def bind(self, c):
        c.g['n'] = z3.Int('set_capacity') if c.mode == 'verify' else fresh('set_capacity')
        c.g['step'] = c.e.U(c.st, c.a[0])

    def pre(self, c):
        s = c.g['step']
        return [('a positive element size', And(s >= 1, s <= 1 << 40))]

    def effects(self, c):
        if c.mode == 'call':
            c.st.assume(And(c.g['n'] >= 1, c.g['n'] <= 64))
            c.a = [None] + list(c.a)
            super().effects(c)
            c.a = c.a[1:]

    def post(self, c):
        l = L(c.m1, c.ret.obj)
        c.a = [None] + list(c.a)
        if c.mode == 'verify':
            c.g['n'] = l.max
        r = super().post(c)
        c.a = c.a[1:]
        return r + [('a small initial capacity', And(l.max >= 1, l.max <= 64))]


ALL = [find, insert, remove, remove_at, value_at, size, empty, delete, clear, init]
