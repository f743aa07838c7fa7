"""ArrayList (modules/collections/src/list.c)"""
from .base import *

j = z3.Int('j')
k = z3.Int('k')
Agree = z3.Function('Agree', Row, Row, I, B)       # the two lists have the same cells below an index


class init(Contract):
    name = 'array_list_init'
    nargs = 3

    def bind(self, c):
        c.g['n'] = c.e.U(c.st, c.a[0])
        c.g['step'] = c.e.U(c.st, c.a[1])

    def pre(self, c):
        n, s = c.g['n'], c.g['step']
        return [('a positive capacity', n >= 1), ('a positive element size', s >= 1),
                ('a representable size', And(n * s <= MAXB, n <= MAXB, s <= MAXB))]

    def effects(self, c):
        if c.mode == 'call':
            d = c.new('data')
            o = c.new('list', c.e.prog.csize('ArrayList'))
            c.ret = PtrV(o, 0)
            c.e.mem_fields(c.st, 'ArrayList', o)
            for part in ('obj', 'off'):
                key = c.m0._key('ArrayList.data', part)[0]
                c.e.memset(c.st, key, c.e.wr(c.e.memget(c.st.mem, key), o, d if part == 'obj' else z3.IntVal(0)), o)
            for f, v in (('size', z3.IntVal(0)), ('max_size', c.g['n']), ('step', c.g['step'])):
                key = c.m0._key('ArrayList.' + f)[0]
                c.e.memset(c.st, key, c.e.wr(c.e.memget(c.st.mem, key), o, v), o)
            for part, v in (('obj', c.a[2].obj), ('off', c.a[2].off)):
                key = c.m0._key('ArrayList.compare', part)[0]
                c.e.memset(c.st, key, c.e.wr(c.e.memget(c.st.mem, key), o, v), o)
            C = c.e.memget(c.st.mem, ('C',))
            c.e.zero_cell(c.st)
            c.e.memset(c.st, ('C',), c.e.wr(C, d, z3.K(I, ZeroCell)), d)
            c.st.claims.append((d, c.g['step']))
            if not z3.is_int_value(z3.simplify(c.g['step'])):
                c.e.add_cap(c.st, c.g['n'], c.g['step'])

    def post(self, c):
        o = c.ret.obj
        l = L(c.m1, o)
        return [('the result is a new list', And(o > 0, c.ret.off == 0, Not(c.m0.live(o)), Not(c.m0.live(l.d)))),
                ('the list is well-formed', l.wf()),
                ('the list is empty', l.size == 0), ('the capacity is the one requested', l.max == c.g['n']),
                ('the element size is recorded', l.step == c.g['step']),
                ('the comparator is recorded', And(l.cmp == c.a[2].obj, l.cmpo == c.a[2].off)),
                ('the storage is zeroed', c.m1.row(l.d) == z3.K(I, ZeroCell))]


class value_at(ListFn):
    name = 'array_list_value_at'
    nargs = 3
    data_arg = 2

    def bind(self, c):
        super().bind(c)
        c.g['pos'] = c.e.U(c.st, c.a[1])

    def effects(self, c):
        c.mod_row(c.g['D'])

    def post(self, c):
        l, pos = self.l0(c), c.g['pos']
        D, q = c.g['D'], c.g['q']
        ok = pos < l.size
        return [('an index in range reports success', Implies(ok, c.rt == 1)),
                ('an index out of range reports failure', Implies(Not(ok), c.rt == 0)),
                ('the element is copied out', Implies(ok, c.m1.row(D) == z3.Store(c.m0.row(D), q, l.cell(pos)))),
                ('failure leaves the output alone', Implies(Not(ok), c.m1.row(D) == c.m0.row(D)))]


class replace_at(ListFn):
    name = 'array_list_replace_at'
    nargs = 3
    data_arg = 1

    def bind(self, c):
        super().bind(c)
        c.g['pos'] = c.e.U(c.st, c.a[2])

    def effects(self, c):
        c.mod_row(self.l0(c).d)

    def post(self, c):
        l, pos = self.l0(c), c.g['pos']
        ok = pos < l.size
        r0, r1 = c.m0.row(l.d), c.m1.row(l.d)
        return [('result', c.rt == If(ok, 1, 0)),
                ('exactly that element changes', Implies(ok, r1 == z3.Store(r0, pos, self.x0(c)))),
                ('failure changes nothing', Implies(Not(ok), r1 == r0))]


class Growing(ListFn):
    """append / insert_at: the storage either stays or moves to a new object"""

    def cases(self, c):
        return ['stays', 'moves']

    def guard(self, c, case):
        same = self.l1(c).d == self.l0(c).d
        return same if case == 'stays' else Not(same)

    def at(self, c):
        raise NotImplementedError

    def effects(self, c):
        l = self.l0(c)
        o = l.o
        if c.mode == 'call':
            if c.case == 'stays':
                c.mod_row(l.d)
            else:
                d = c.new('grown')
                c.e.kill(c.st, l.d)
                for part, v in (('obj', d), ('off', z3.IntVal(0))):
                    key = c.m0._key('ArrayList.data', part)[0]
                    c.e.memset(c.st, key, z3.Store(c.e.memget(c.st.mem, key), o, v), o)
                c.m1 = M(c.e, c.st.mem)
                c.mod_row(d)
                c.m1 = M(c.e, c.st.mem)
                c.mod_field('ArrayList.max_size', o)
                c.st.claims.append((d, z3.simplify(l.step)))
                if not z3.is_int_value(z3.simplify(l.step)):
                    c.e.add_cap(c.st, z3.simplify(M(c.e, c.st.mem).get('ArrayList.max_size', o)), z3.simplify(l.step))
            c.m1 = M(c.e, c.st.mem)
            key = c.m0._key('ArrayList.size')[0]
            c.e.memset(c.st, key, z3.Store(c.e.memget(c.st.mem, key), o, l.size + 1), o)
        else:
            c.mod_row(l.d)
            c.mod_live(l.d)
            c.mod_field('ArrayList.data', o)
            c.mod_field('ArrayList.max_size', o)
            c.mod_field('ArrayList.size', o)

    def post(self, c):
        a, b = self.l0(c), self.l1(c)
        p = self.at(c)
        x = self.x0(c)
        new = T
        if c.case == 'moves':
            new = And(Not(c.m0.live(b.d)), Not(c.m1.live(a.d)), b.max > a.max)
        else:
            new = And(b.d == a.d, b.max == a.max, a.size < a.max)
        r = [('success is reported', c.rt == 1), ('one element more', b.size == a.size + 1),
             ('the list stays well-formed', b.wf()),
             ('storage', new),
             ('element size and comparator are kept', And(b.step == a.step, b.cmp == a.cmp, b.cmpo == a.cmpo)),
             ('the new element is stored', b.cell(p) == x)]
        if c.mode == 'verify' or True:
            r.append(('earlier elements are kept', forall([j], Implies(And(j >= 0, j < p), b.cell(j) == a.cell(j)), [b.cell(j)])))
        if c.mode == 'call':
            r.append(('the prefix agrees (definition)', Agree(a.m.row(a.d), b.m.row(b.d), p)))
        if p is not a.size:
            r.append(('later elements move up by one', forall([j], Implies(And(j > p, j <= a.size), b.cell(j) == a.cell(j - 1)), [b.cell(j)])))
        return r


class append(Growing):
    name = 'array_list_append'
    nargs = 2
    ro_args = (1,)
    data_arg = 1

    def at(self, c):
        return c.g.setdefault('p', self.l0(c).size)

    def post(self, c):
        return [x for x in super().post(c) if x[0] != 'later elements move up by one']


class insert_at(Growing):
    name = 'array_list_insert_at'
    nargs = 3
    data_arg = 1

    def at(self, c):
        return c.e.U(c.st, c.a[2])

    def pre(self, c):
        return super().pre(c) + [('a position inside the list or at its end', self.at(c) <= self.l0(c).size)]


class size(ListFn):
    name = 'array_list_size'
    nargs = 1

    def pre(self, c):
        return [('no list or a well-formed list', Or(c.a[0].obj == 0, self.l0(c).wf()))]

    def after_pre(self, c):
        pass

    def post(self, c):
        return [('result', c.rt == If(c.a[0].obj == 0, 0, self.l0(c).size))]


class empty(size):
    name = 'array_list_empty'

    def post(self, c):
        return [('result', c.rt == If(Or(c.a[0].obj == 0, self.l0(c).size == 0), 1, 0))]


class find(ListFn):
    """linear search: the first match; binary search (sorted == 1): a match if there is one"""
    name = 'array_list_find'
    nargs = 3
    data_arg = 1

    def bind(self, c):
        super().bind(c)
        c.g['sorted'] = c.e.S(c.st, c.a[2]) == 1

    def cmp_at(self, c, i):
        l = self.l0(c)
        return cmpf(l.cmp, l.cell(i), self.x0(c))

    def pre(self, c):
        l = self.l0(c)
        r = super().pre(c)
        r.append(('a plain comparator', l.cmpo == 0))
        r.append(('a sorted search needs a partitioned list', Implies(c.g['sorted'], partitioned(c.m0, l, self.x0(c)))))
        return r

    def post(self, c):
        l, n = self.l0(c), self.l0(c).size
        return [('result in range', And(c.rt >= -1, c.rt < n)),
                ('a reported index matches', Implies(c.rt >= 0, self.cmp_at(c, c.rt) == 0)),
                ('the first match is reported', Implies(Not(c.g['sorted']), forall([j], Implies(And(j >= 0, j < If(c.rt < 0, n, c.rt)),
                                                                                              self.cmp_at(c, j) != 0), [l.cell(j)]))),
                ('a missing element is really missing', Implies(c.rt < 0, forall([j], Implies(And(j >= 0, j < n), self.cmp_at(c, j) != 0), [l.cell(j)])))]

    def templates(self, c):
        l = self.l0(c)

        def before(lp, v):
            return forall([j], Implies(And(j >= 0, j < v), self.cmp_at(c, j) != 0), [l.cell(j)])
        return [Template(['int'], before, 'no match before')]


def partitioned(m, l, x):
    """what sortedness and transitivity give a binary search for x: the comparison with x is monotone along the list"""
    ci, ck = cmpf(l.cmp, l.cell(j), x), cmpf(l.cmp, l.cell(k), x)
    return forall([j, k], Implies(And(0 <= j, j < k, k < l.size), And(Implies(ci > 0, ck > 0), Implies(ck < 0, ci < 0))),
                  [(l.cell(j), l.cell(k))])


class binary_search(ListFn):
    name = 'binary_search'
    nargs = 4
    data_arg = 3

    def bind(self, c):
        super().bind(c)
        c.g['l'], c.g['r'] = c.e.S(c.st, c.a[1]), c.e.S(c.st, c.a[2])

    def pre(self, c):
        l = self.l0(c)
        return super().pre(c) + [('a plain comparator', l.cmpo == 0),
                                 ('a range inside the list', And(c.g['l'] >= 0, c.g['l'] <= l.size, c.g['r'] >= -1, c.g['r'] < l.size)),
                                 ('a partitioned list', partitioned(c.m0, l, self.x0(c)))]

    def post(self, c):
        l = self.l0(c)
        cmpa = lambda i: cmpf(l.cmp, l.cell(i), self.x0(c))
        return [('result in range', Or(c.rt == -1, And(c.rt >= c.g['l'], c.rt <= c.g['r']))),
                ('a reported index matches', Implies(c.rt >= 0, cmpa(c.rt) == 0)),
                ('a missing element is really missing', Implies(c.rt < 0, forall([j], Implies(And(j >= c.g['l'], j <= c.g['r']), cmpa(j) != 0), [l.cell(j)])))]


class clear(ListFn):
    name = 'array_list_clear'
    nargs = 2

    def cases(self, c):
        return ['stays', 'moves']

    def guard(self, c, case):
        same = self.l1(c).d == self.l0(c).d
        return same if case == 'stays' else Not(same)

    def effects(self, c):
        l = self.l0(c)
        o = l.o
        if c.mode == 'call':
            if c.case == 'moves':
                d = c.new('shrunk')
                c.e.kill(c.st, l.d)
                for part, v in (('obj', d), ('off', z3.IntVal(0))):
                    key = c.m0._key('ArrayList.data', part)[0]
                    c.e.memset(c.st, key, z3.Store(c.e.memget(c.st.mem, key), o, v), o)
                c.m1 = M(c.e, c.st.mem)
                c.mod_row(d)
                c.st.claims.append((d, z3.simplify(l.step)))
            c.m1 = M(c.e, c.st.mem)
            c.mod_field('ArrayList.max_size', o)
            c.m1 = M(c.e, c.st.mem)
            c.mod_field('ArrayList.size', o)
        else:
            c.mod_row(l.d)
            c.mod_live(l.d)
            c.mod_field('ArrayList.data', o)
            c.mod_field('ArrayList.max_size', o)
            c.mod_field('ArrayList.size', o)

    def post(self, c):
        a, b = self.l0(c), self.l1(c)
        return [('the list is empty', b.size == 0), ('the list stays well-formed', b.wf()),
                ('storage', Or(b.d == a.d, And(Not(c.m0.live(b.d)), Not(c.m1.live(a.d))))),
                ('element size and comparator are kept', And(b.step == a.step, b.cmp == a.cmp, b.cmpo == a.cmpo))]


class remove_at(ListFn):
    name = 'array_list_remove_at'
    nargs = 3
    data_arg = 2

    def bind(self, c):
        super().bind(c)
        c.g['pos'] = c.e.U(c.st, c.a[1])

    def effects(self, c):
        c.mod_row(c.g['D'])
        c.m1 = M(c.e, c.st.mem)
        c.mod_row(self.l0(c).d)
        c.m1 = M(c.e, c.st.mem)
        c.mod_field('ArrayList.size', self.l0(c).o)

    def post(self, c):
        a, b, pos = self.l0(c), self.l1(c), c.g['pos']
        D, q = c.g['D'], c.g['q']
        ok = pos < a.size
        return [('result', c.rt == If(ok, 1, 0)),
                ('one element fewer', b.size == If(ok, a.size - 1, a.size)),
                ('the removed element is handed back', c.m1.row(D) == If(ok, z3.Store(c.m0.row(D), q, a.cell(pos)), c.m0.row(D))),
                ('earlier elements are kept', forall([j], Implies(And(j >= 0, j < If(ok, pos, a.size)), b.cell(j) == a.cell(j)), [b.cell(j)])),
                ('later elements move down by one', Implies(ok, forall([j], Implies(And(j >= pos, j < b.size), b.cell(j) == a.cell(j + 1)), [b.cell(j)]))),
                ('the list stays well-formed', b.wf()), ('header kept', self.same_list(c, ('size',)))]


class remove(ListFn):
    name = 'array_list_remove'
    nargs = 2
    data_arg = 1

    def pre(self, c):
        return super().pre(c) + [('a plain comparator', self.l0(c).cmpo == 0)]

    def bind(self, c):
        super().bind(c)
        if 'pos' not in c.g:
            c.g['pos'] = fresh('removed')

    def effects(self, c):
        c.mod_row(c.g['D'])
        c.m1 = M(c.e, c.st.mem)
        c.mod_row(self.l0(c).d)
        c.m1 = M(c.e, c.st.mem)
        c.mod_field('ArrayList.size', self.l0(c).o)

    def post(self, c):
        a, b = self.l0(c), self.l1(c)
        D, q = c.g['D'], c.g['q']
        x = self.x0(c)
        m = lambda i: cmpf(a.cmp, a.cell(i), x) == 0
        p = z3.Int('p')
        found = c.rt == 1
        removed = lambda p: And(p >= 0, p < a.size, m(p), forall([j], Implies(And(j >= 0, j < p), Not(m(j))), [a.cell(j)]),
                                b.size == a.size - 1,
                                c.m1.row(D) == z3.Store(c.m0.row(D), q, a.cell(p)),
                                forall([j], Implies(And(j >= 0, j < b.size), b.cell(j) == If(j < p, a.cell(j), a.cell(j + 1))), [b.cell(j)]))
        if c.mode == 'verify':
            body = z3.Exists([p], removed(p), patterns=[m(p).arg(0)])
        else:
            p = c.g['pos']
            body = And(removed(p), forall([j], Implies(And(j > p, j < a.size), b.cell(j - 1) == a.cell(j)), [(a.cell(j), Mark(j))]))
        nothing = And(forall([j], Implies(And(j >= 0, j < a.size), Not(m(j))), [a.cell(j)]), b.size == a.size,
                      c.m1.row(D) == c.m0.row(D), c.m1.row(a.d) == c.m0.row(a.d))
        return [('result', Or(c.rt == 1, c.rt == -1)), ('the first match is removed', Implies(found, body)),
                ('a missing element changes nothing', Implies(Not(found), nothing)),
                ('the list stays well-formed', b.wf()), ('header kept', self.same_list(c, ('size',)))]


class pop(ListFn):
    name = 'array_list_pop'
    nargs = 2
    data_arg = 1

    def effects(self, c):
        c.mod_row(c.g['D'])
        c.m1 = M(c.e, c.st.mem)
        c.mod_field('ArrayList.size', self.l0(c).o)

    def post(self, c):
        a, b = self.l0(c), self.l1(c)
        D, q = c.g['D'], c.g['q']
        ok = a.size > 0
        return [('result', c.rt == If(ok, 1, -1)), ('size', b.size == If(ok, a.size - 1, a.size)),
                ('the last element is handed back', c.m1.row(D) == If(ok, z3.Store(c.m0.row(D), q, a.cell(a.size - 1)), c.m0.row(D))),
                ('other elements are kept', c.m1.row(a.d) == c.m0.row(a.d)),
                ('the list stays well-formed', b.wf()), ('header kept', self.same_list(c, ('size',)))]


class delete(ListFn):
    name = 'array_list_delete'
    nargs = 1

    def pre(self, c):
        return [('no list or a well-formed list', Or(c.a[0].obj == 0, self.l0(c).wf()))]

    def after_pre(self, c):
        pass

    def effects(self, c):
        l = self.l0(c)
        if c.mode == 'call':
            for o in (l.o, l.d):
                L0 = c.e.memget(c.st.mem, ('L',))
                c.e.memset(c.st, ('L',), z3.Store(L0, o, And(z3.Select(L0, o), l.o == 0)), o)
        else:
            c.mod_live(l.o)
            c.mod_live(l.d)

    def post(self, c):
        l = self.l0(c)
        return [('the result is null', c.ret.obj == 0),
                ('list and storage are released', Implies(c.a[0].obj != 0, And(Not(c.m1.live(l.o)), Not(c.m1.live(l.d)))))]


class pow2(Contract):
    """trusted: rounding up to a power of two through log2/pow; all that is used is that the capacity grows"""
    name = 'highestPowerof2'
    trusted = True

    def pre(self, c):
        n = c.e.U(c.st, c.a[0])
        return [('an argument of at most 2^48', And(n >= 1, n <= (1 << 48)))]

    def post(self, c):
        n = c.e.U(c.st, c.a[0])
        return [('the result exceeds the argument and is at most twice it', And(c.rt > n, c.rt <= 2 * n))]


ALL = [init, value_at, replace_at, append, insert_at, size, empty, find, binary_search, clear, remove_at, remove, pop, delete, pow2]
