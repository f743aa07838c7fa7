"""clients of the hash table: the table as a finite map from keys to values, with its keys in a sorted set

A client's contract speaks about a table through two ghost maps (membership and value of every key) plus the
real memory a client may read: the header's size and the key set.  The map contracts of init, lookup and
insert below restate, in these terms, the contracts that C04 discharges against the hash table's code; that
the entries of a table are reached only through the table is assumed (DESIGN.md, What dv assumes).
"""
from .base import *
from .order import DF, CI, Perm2, NumR, NaNat, facts as order_facts

j, a, b, k = z3.Ints('j a b k')
HTM = ('H', 'htmem', z3.ArraySort(I, B))
HTV = ('H', 'htval', z3.ArraySort(I, Cell))
KIX = z3.Function('keyIndex', Row, I, I, I)     # where a key stands in the key set
WIT = z3.Function('orderWitness', Row, Row, I, I)


def s32(t):
    return If(t < (1 << 31), t, t - (1 << 32))


class Tb:
    """one table in one memory snapshot; keys are kb-bit integers"""

    def __init__(self, m, o, kb=32):
        self.m, self.o, self.kb = m, o, kb
        g = lambda f: m.get('HASHTABLE_.' + f, o)
        self.keys, self.size, self.kt, self.dt = g('keys'), g('size'), g('ktype'), g('dtype')
        self.keyso = m.get('HASHTABLE_.keys', o, 'off')
        self.ks = L(m, self.keys)
        self.M = z3.Select(m.e.memget(m.mem, HTM), o)
        self.V = z3.Select(m.e.memget(m.mem, HTV), o)

    def has(self, x):
        return z3.Select(self.M, x)

    def val(self, x):
        return z3.Select(self.V, x)

    def key(self, i):
        return asI[self.kb](self.ks.cell(i))

    def row(self):
        return self.m.row(self.ks.d)

    def signed(self, t):
        return If(t < (1 << (self.kb - 1)), t, t - (1 << self.kb))

    def header(self):
        m, o = self.m, self.o
        return And(o > 0, m.live(o), Bytes(o) == m.e.prog.csize('HASHTABLE_'), self.keyso == 0, self.ks.wf(), self.ks.step == self.kb // 8,
                   self.size == self.ks.size, self.keys != o, self.ks.d != o)

    def member(self):
        return forall([j], Implies(And(j >= 0, j < self.ks.size), self.has(self.key(j))), [self.ks.cell(j)])

    def index(self):
        ix = KIX(self.row(), self.ks.size, k)
        return forall([k], Implies(self.has(k), And(ix >= 0, ix < self.ks.size, self.key(ix) == k)), [self.has(k)])

    def ascending(self):
        return forall([a, b], Implies(And(a >= 0, a < b, b < self.ks.size), self.signed(self.key(a)) < self.signed(self.key(b))), [(self.ks.cell(a), self.ks.cell(b))])

    def wf(self):
        return [('a table', self.header()), ('its key set holds keys of the table', self.member()), ('every key of the table is in its key set', self.index()),
                ('its keys ascend', self.ascending())]


class TFn(Contract):
    """the map view of a function of the hash table"""
    trusted = True
    kb = 32
    ro_args = (1,)

    def bind(self, c):
        c.g['o'] = c.a[0].obj

    def elem(self, c, n, size, nm):
        p = c.a[n]
        if nm not in c.g:
            q, _ = c.e.cell_index(c.st, p, z3.IntVal(size))
            c.g[nm] = (p.obj, q)
        D, q = c.g[nm]
        return And(D > 0, c.m0.live(D), Stride(D) == size, q >= 0, q < Len(D), D != c.g['o'])

    def keybits(self, c):
        s = z3.simplify(Tb(c.m0, c.g['o']).ks.step)
        for n in (32, 64):
            if c.e.quick2(c.st, s == n // 8):
                return n
        return 32

    def t0(self, c):
        return Tb(c.m0, c.g['o'], c.g['kb'])

    def pre(self, c):
        if 'kb' not in c.g:
            c.g['kb'] = self.keybits(c)
        t = self.t0(c)
        return t.wf() + [('a key', self.elem(c, 1, c.g['kb'] // 8, 'K')), ('room for a value', self.elem(c, 2, 8, 'D')), ('key and value apart', c.g['K'][0] != c.g['D'][0])]

    def kx(self, c):
        D, q = c.g['K']
        return asI[c.g['kb']](c.m0.cell(D, q))


class lookup(TFn):
    name = 'client:hashtable_lookup'

    def effects(self, c):
        c.mod_row(c.g['D'][0])

    def post(self, c):
        t = self.t0(c)
        D, q = c.g['D']
        x = self.kx(c)
        r0, r1 = c.m0.row(D), c.m1.row(D)
        return [('result', c.rt == If(t.has(x), 1, 0)), ('the value is copied out', r1 == If(t.has(x), z3.Store(r0, q, t.val(x)), r0))]


class insert(TFn):
    name = 'client:hashtable_insert'

    def pre(self, c):
        t = Tb(c.m0, c.g['o'])
        return super().pre(c) + [('the key is new', Not(self.t0(c).has(self.kx(c)))), ('a countable table', t.size < (1 << 43))]

    def cases(self, c):
        return ['stays', 'moves']

    def effects(self, c):
        o = c.g['o']
        t = self.t0(c)
        D, q = c.g['D']
        x = self.kx(c)
        for key, v in ((HTM, z3.Store(t.M, x, T)), (HTV, z3.Store(t.V, x, c.m0.cell(D, q)))):
            c.e.memset(c.st, key, z3.Store(c.e.memget(c.st.mem, key), o, v), o)
        if c.case == 'moves':
            d = c.new('grown')
            c.e.kill(c.st, t.ks.d)
            c.m1 = M(c.e, c.st.mem)
            for part, v in (('obj', d), ('off', z3.IntVal(0))):
                key = c.m0._key('ArrayList.data', part)[0]
                c.e.memset(c.st, key, z3.Store(c.e.memget(c.st.mem, key), t.keys, v), t.keys)
            c.mod_row(d)
            c.m1 = M(c.e, c.st.mem)
            c.mod_field('ArrayList.max_size', t.keys)
            c.st.claims.append((d, z3.IntVal(c.g['kb'] // 8)))
        else:
            c.mod_row(t.ks.d)
        c.m1 = M(c.e, c.st.mem)
        for spec, ob in (('ArrayList.size', t.keys), ('HASHTABLE_.size', o)):
            key = c.m0._key(spec)[0]
            c.e.memset(c.st, key, z3.Store(c.e.memget(c.st.mem, key), ob, t.size + 1), ob)
        c.m1 = M(c.e, c.st.mem)
        c.mod_field('HASHTABLE_.collisions', o)

    def post(self, c):
        t, t1 = self.t0(c), Tb(c.m1, c.g['o'], c.g['kb'])
        new = And(t1.ks.d == t.ks.d, t1.ks.max == t.ks.max, t.size < t.ks.max)
        if c.case == 'moves':
            new = And(Not(c.m0.live(t1.ks.d)), t1.ks.max > t.ks.max)
        return [('success is reported', c.rt == 1), ('storage', new)] + t1.wf()


class init(Contract):
    """a new table with numeric keys and values that are pointers"""
    name = 'client:hashtable_init'
    trusted = True

    def nbuckets(self, c):
        n = c.e.S(c.st, c.a[0]) if False else c.e.U(c.st, c.a[0])
        return n

    def pre(self, c):
        n, kt, d = (c.e.U(c.st, c.a[q]) for q in (0, 1, 2))
        fns = [(0, 32, 'int_compare'), (3, 64, 'long_compare')]
        c.g['kb'] = kb = next((x for t, x, f in fns if c.e.quick(c.st, kt == t)), None)
        ok = [And(kt == t, c.a[3].obj == c.e.prog.fnid(f), c.a[3].off == 0) for t, x, f in fns if x == kb]
        return [('integer keys with their comparator', ok[0] if ok else z3.BoolVal(False)), ('pointer values', d == 7), ('a bucket count', n <= (1 << 32))]

    def effects(self, c):
        kb = c.g['kb'] or 32
        d = c.new('keydata')
        ks = c.new('keys', c.e.prog.csize('ArrayList'))
        o = c.new('table', c.e.prog.csize('HASHTABLE_'))
        c.ret = PtrV(o, 0)
        st = c.st

        def put(spec, ob, v, part=None):
            key = c.m0._key(spec, part)[0]
            c.e.memset(st, key, z3.Store(c.e.memget(st.mem, key), ob, v if z3.is_expr(v) else z3.IntVal(v)), ob)
        for spec, ob, v in (('ArrayList.size', ks, 0), ('ArrayList.step', ks, kb // 8), ('HASHTABLE_.size', o, 0)):
            put(spec, ob, v)
        for spec, ob, v in (('ArrayList.data', ks, d), ('HASHTABLE_.keys', o, ks)):
            put(spec, ob, v, 'obj')
            put(spec, ob, 0, 'off')
        put('ArrayList.compare', ks, c.a[3].obj, 'obj')
        put('ArrayList.compare', ks, 0, 'off')
        put('ArrayList.max_size', ks, fresh('cap'))
        for key, v in ((HTM, z3.K(I, z3.BoolVal(False))), (HTV, fresh('noval', HTV[2]))):
            c.e.memset(st, key, z3.Store(c.e.memget(st.mem, key), o, v), o)
        C = c.e.memget(st.mem, ('C',))
        c.e.memset(st, ('C',), z3.Store(C, d, fresh('keyrow', Row)), d)
        st.claims.append((d, z3.IntVal(kb // 8)))

    def post(self, c):
        t = Tb(c.m1, c.ret.obj, c.g['kb'] or 32)
        return [(n, g) for n, g in t.wf()] + [('header', And(t.kt == c.e.U(c.st, c.a[1]), t.dt == 7))] if False else t.wf()


class init_size(init):
    name = 'client:hashtable_init_size'


WV = z3.Function('valueOwner', I, I, I)      # (table, object) -> the key whose list it belongs to


class destroy(Contract):
    """without destructors, or with the one of lists: the table and its lists are released"""
    name = 'client:hashtable_destroy'
    trusted = True

    def t0(self, c):
        t = Tb(c.m0, c.a[0].obj)
        if 'kb' not in c.g:
            s = z3.simplify(t.ks.step)
            c.g['kb'] = next((n for n in (32, 64) if c.e.quick2(c.st, s == n // 8)), 32)
        return Tb(c.m0, c.a[0].obj, c.g['kb'])

    def pre(self, c):
        t = self.t0(c)
        d = z3.simplify(c.a[2].obj)
        c.g['lists'] = not (z3.is_int_value(d) and d.as_long() == 0)
        r = t.wf() + [('no destructor of keys', c.a[1].obj == 0)]
        if c.g['lists']:
            l, l2 = L(c.m0, asP(t.val(k))), L(c.m0, asP(t.val(a)))
            r += [('the destructor of lists', And(d == c.e.prog.fnid('array_list_delete'), c.a[2].off == 0)),
                  ('every value is a list', forall([k], Implies(t.has(k), And(asPo(t.val(k)) == 0, l.wf(), *[x != y for x in (l.o, l.d) for y in (t.o, t.keys, t.ks.d)])), [t.val(k)])),
                  ('every list has its own storage', forall([k, a], Implies(And(t.has(k), t.has(a), k != a), And(l.o != l2.o, l.d != l2.d, l.o != l2.d)), [(t.val(k), t.val(a))]))]
        return r

    def effects(self, c):
        t = self.t0(c)
        L0 = c.e.memget(c.st.mem, ('L',))
        L1 = fresh('left', L0.sort())
        own = [k == t.o, k == t.keys, k == t.ks.d]
        if c.g['lists']:
            w = WV(t.o, k)
            l = L(c.m0, asP(t.val(w)))
            own.append(And(t.has(w), Or(k == l.o, k == l.d)))
        c.st.assume(forall([k], Or(z3.Select(L1, k) == z3.Select(L0, k), And(Not(z3.Select(L1, k)), Or(*own))), [z3.Select(L1, k)]))
        c.st.assume(And(*[Not(z3.Select(L1, x)) for x in (t.o, t.keys, t.ks.d)]))
        if c.g['lists']:
            l = L(c.m0, asP(t.val(k)))
            c.st.assume(forall([k], Implies(t.has(k), And(Not(z3.Select(L1, l.o)), Not(z3.Select(L1, l.d)))), [t.val(k)]))
        c.e.memset(c.st, ('L',), L1, None)
        c.m1 = M(c.e, c.st.mem)

    def post(self, c):
        return []


# ------------------------------------------------------------------ sorting clusters (S05)
class Sort(Contract):
    uses_tables = True
    nargs = 2
    clarg = 1

    def variants(self):
        return ['new', 'empty', 'some']

    def bind(self, c):
        if c.mode == 'verify' and c.variant == 'new':
            c.a[1] = PtrV(0, 0)

    def t0(self, c):
        return Tb(c.m0, c.a[0].obj)

    def cl(self, c):
        return L(c.m0, c.a[1].obj)

    def vobj(self, c, m, x):
        return asP(self.t0(c).val(x))

    def key(self, c, m, x):
        """the number by which label x is sorted"""
        raise NotImplementedError

    def values(self, c):
        raise NotImplementedError

    def pre(self, c):
        t = self.t0(c)
        r = t.wf() + [('at most 2^31 - 1 clusters', t.size < (1 << 31) - 1), ('values of the table', self.values(c))]
        if c.variant != 'new':
            l = self.cl(c)
            r += [('a list of labels', And(l.wf(), l.step == 4, l.size < (1 << 31) - 1)), ('apart from the table', And(*[x != y for x in (l.o, l.d) for y in (t.o, t.keys, t.ks.d)])),
                  ('empty' if c.variant == 'empty' else 'labels of the table', l.size == 0 if c.variant == 'empty' else
                   And(l.size > 0, forall([j], Implies(And(j >= 0, j < l.size), t.has(CI(c.m0.row(l.d), j))), [l.cell(j)])))]
        return r

    def after_pre(self, c):
        t = self.t0(c)
        c.st.claims.append((z3.simplify(t.ks.d), z3.IntVal(4)))
        if c.variant != 'new':
            c.st.claims.append((z3.simplify(self.cl(c).d), z3.IntVal(4)))
        c.g['stride'] = z3.IntVal(4)

    def axioms(self, c):
        return order_facts() + [c.e.prog and T]

    def effects(self, c):
        if c.variant != 'new':
            l = self.cl(c)
            c.mod_row(l.d)
            if c.variant == 'empty':
                c.mod_live(l.d)
                c.mod_fields('ArrayList', l.o, ('data', 'max_size', 'size'))

    def source(self, c):
        """the labels that are sorted"""
        return self.cl(c) if c.variant == 'some' else self.t0(c).ks

    def post(self, c):
        src, r = self.source(c), c.ret.obj
        l = L(c.m1, r)
        row = c.m1.row(l.d)
        c0, d0, c1, d1 = c.st.ghosts.get('sorted', [fresh('nosort', Row) for _ in range(4)])
        n = src.size
        K = lambda x: self.key(c, c.m0, x)
        allnum = Implies(And(j >= 0, j < n), Not(nan(K(CI(src.m.row(src.d), j)))))
        allnum = forall([j], allnum, [src.cell(j)])
        w = WIT(c0, d0, n)
        return [('the result', And(Not(c.m0.live(r)) if c.variant == 'new' else r == c.a[1].obj, c.ret.off == 0, l.wf(), l.step == 4)),
                ('as many labels', l.size == n),
                ('the comparator', T if c.variant != 'new' else And(l.cmp == c.e.prog.fnid('int_compare'), l.cmpo == 0)),
                ('sorting starts from the labels and their keys', forall([j], Implies(And(j >= 0, j < n), And(CI(c0, j) == CI(src.m.row(src.d), j), DF(d0, j) == K(CI(c0, j)))), [z3.Select(c0, j)])),
                ('the result is a permutation of the labels', And(Perm2(c0, d0, c1, d1), row == c1)),
                ('every label is one of the table', forall([j], Implies(And(j >= 0, j < n), self.t0(c).has(CI(row, j))), [z3.Select(row, j)])),
                ('labels ascend by their key', Implies(allnum, forall([a, b], Implies(And(a >= 0, a <= b, b < n), val(K(CI(row, a))) <= val(K(CI(row, b)))), [(z3.Select(row, a), z3.Select(row, b))])))]

    def lists(self, c, lp):
        """the lists of labels and of sort keys under construction"""
        hs = [x for x in lp.st.heap]
        if c.variant != 'new':
            return c.a[1].obj, (hs[1] if len(hs) > 1 else None)
        return (hs[1] if len(hs) > 1 else None), (hs[3] if len(hs) > 3 else None)

    def templates(self, c):
        src = self.source(c)
        n = src.size
        K = lambda x: self.key(c, c.m0, x)
        ts = []

        def two(g, nm, kinds=('own',)):
            def f(lp, *x):
                A, D = self.lists(c, lp)
                if A is None or D is None:
                    return None
                return g(L(lp.m, A), L(lp.m, D), *x)
            ts.append(Template(list(kinds), f, nm))
        row = lambda l: l.m.row(l.d)
        if c.variant != 'some':
            two(lambda A, D: And(A.wf(), A.step == 4, D.wf(), D.step == 8, A.o != D.o, A.d != D.d, A.o != D.d, A.d != D.o), 'the lists are valid', ())
            new = lambda x: Not(c.m0.live(x))
            two(lambda A, D: And(new(D.o), new(D.d)), 'the keys are new', ())
            two(lambda A, D: new(A.d) if c.variant == 'new' else Or(new(A.d), A.d == self.cl(c).d), 'the labels are new or where they were', ())
            ts.append(Template([], lambda lp: And(*[x != y for w in self.lists(c, lp) if w is not None for x in [L(lp.m, w).d] for y in lp.st.locals]), 'local variables are apart'))
            two(lambda A, D, x: A.size == x, 'labels so far')
            two(lambda A, D, x: D.size == x, 'keys so far')
            two(lambda A, D, x: forall([j], Implies(And(j >= 0, j < x), CI(row(A), j) == CI(src.m.row(src.d), j)), [A.cell(j)]), 'labels copied')
        two(lambda A, D, x: forall([j], Implies(And(j >= 0, j < x), DF(row(D), j) == K(CI(src.m.row(src.d), j))), [D.cell(j)]), 'keys computed')
        return ts

    def frame_extra(self, c):
        return [(x, self.cl(c).d) for x in 'CL'] if c.variant == 'empty' else []

    def bounds(self, c):
        return [('size', self.source(c).size)]


class by_length(Sort):
    name = 'hdbscan_sort_by_length'

    def key(self, c, m, x):
        return c.e.fop('i2f64', m.get('ArrayList.size', self.vobj(c, m, x)))

    def values(self, c):
        t = self.t0(c)
        o = self.vobj(c, c.m0, k)
        cl = [o != self.cl(c).o, o != self.cl(c).d] if c.variant != 'new' else []
        return forall([k], Implies(t.has(k), And(o > 0, asPo(t.val(k)) == 0, c.m0.live(o), Bytes(o) == c.e.prog.csize('ArrayList'),
                                                 *cl)), [t.val(k)])


class by_similarity(Sort):
    name = 'hdbscan_sort_by_similarity'
    nargs = 3

    def key(self, c, m, x):
        o = self.vobj(c, m, x)
        core = c.e.S(c.st, c.a[2]) == 0
        return If(core, m.get('distance_values.cr_confidence', o), m.get('distance_values.dr_confidence', o))

    def values(self, c):
        t = self.t0(c)
        o = self.vobj(c, c.m0, k)
        cl = [o != self.cl(c).o, o != self.cl(c).d] if c.variant != 'new' else []
        return forall([k], Implies(t.has(k), And(o > 0, asPo(t.val(k)) == 0, c.m0.live(o), Bytes(o) == c.e.prog.csize('distance_values'), *cl)), [t.val(k)])


ALL = [by_similarity, lookup, insert, init, init_size, destroy, by_length]
