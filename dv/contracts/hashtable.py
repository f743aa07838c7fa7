"""hashtable (modules/collections/src/hashtable.c): bucket chains against ghost sequences, plus the sorted key set"""
from .base import *
from . import set as SS
from .set import total_order, strictly_sorted

i, b, j = z3.Int('i'), z3.Int('b'), z3.Int('j')
HS = z3.Function('ghost_HS', I, I, I)      # entry at position i of bucket b
CN = z3.Function('ghost_CN', I, I)         # length of bucket b
HK = z3.Function('ghost_HK', I, I)         # kind of an object: 0 none, 1 entry, 2 key storage, 3 value storage
HP = z3.Function('ghost_HP', I, I)
HB = z3.Function('ghost_HB', I, I)
KX = z3.Function('ghost_KX', I, I)         # entry -> index of its key in the key set
EN = z3.Function('ghost_EN', I, I)         # index in the key set -> entry
HT = z3.Function('htype_size', I, I)
ca, cb, cn = z3.Const('ca', Cell), z3.Const('cb', Cell), z3.Int('cn')
SIZES = {0: 4, 1: 8, 2: 4, 3: 8, 4: 2, 5: 1, 6: 8, 7: 8}


def ht_axioms():
    t = z3.Int('t')
    return [And(*[HT(k) == v for k, v in SIZES.items()]), forall([t], And(HT(t) >= 1, HT(t) <= 8), [HT(t)])]


class htype_size(Contract):
    name = 'get_htype_size'

    def effects(self, c):
        if c.mode == 'call':
            c.ret = IntV(HT(c.e.U(c.st, c.a[0])), 64, 'b')

    def axioms(self, c):
        return ht_axioms()

    def post(self, c):
        t = c.e.U(c.st, c.a[0])
        if c.mode == 'call':
            return [('size', And(c.rt == HT(t), c.rt >= 1, c.rt <= 8, *[Implies(t == k, c.rt == v) for k, v in SIZES.items()]))]
        return [('the size of type %d' % k, Implies(t == k, c.rt == v)) for k, v in SIZES.items()] + \
            [('a size between 1 and 8', And(c.rt >= 1, c.rt <= 8))]


class T0:
    """the ghost view"""
    S, C, K, P, B, X, E = HS, CN, HK, HP, HB, KX, EN


class H:
    def __init__(self, m, o):
        self.m, self.o = m, o
        g = lambda f: m.get('HASHTABLE_.' + f, o)
        self.buckets, self.size, self.kt, self.dt = g('buckets'), g('size'), g('ktype'), g('dtype')
        self.tb, self.keys, self.cmp, self.hash = g('table'), g('keys'), g('key_compare'), g('key_hash')
        self.offs = [m.get('HASHTABLE_.' + f, o, 'off') for f in ('table', 'keys', 'key_compare', 'key_hash')]
        self.ks = L(m, self.keys)

    def head(self, bk):
        c = self.m.cell(self.tb, bk)
        return asP(c), asPo(c)

    def kcell(self, x):
        return self.m.cell(self.m.get('HTBL_ENTRY.key', x), 0)

    def dcell(self, x):
        return self.m.cell(self.m.get('HTBL_ENTRY.data', x), 0)

    def header(self):
        m, o = self.m, self.o
        return [('the table object is valid', And(o > 0, m.live(o), Bytes(o) == m.e.prog.csize('HASHTABLE_'), *[f == 0 for f in self.offs])),
                ('the bucket array is valid', And(self.buckets >= 1, self.buckets <= (1 << 43), self.tb > 0, m.live(self.tb), Stride(self.tb) == 8,
                                                  Len(self.tb) == self.buckets, self.tb != o)),
                ('the key set is well-formed', And(self.ks.wf(), self.ks.cmpo == 0, self.ks.cmp == self.cmp, self.ks.step == HT(self.kt))),
                ('the parts are distinct', And(self.keys != o, self.keys != self.tb, self.ks.d != o, self.ks.d != self.tb)),
                ('the callbacks are set', And(self.cmp < 0, self.hash < 0)),
                ('the size counts the keys', self.size == self.ks.size)]

    def ent(self, x, bk, k, t, n):
        """x is a well-formed entry at position k of a bucket of length n"""
        m = self.m
        g = m.get
        ky, da = g('HTBL_ENTRY.key', x), g('HTBL_ENTRY.data', x)
        return And(x > 0, m.live(x), t.K(x) == 1, t.P(x) == k, t.B(x) == bk, Bytes(x) == m.e.prog.csize('HTBL_ENTRY'),
                   ky > 0, m.live(ky), t.K(ky) == 2, t.P(ky) == x, Stride(ky) == HT(self.kt), Len(ky) == 1,
                   da > 0, m.live(da), t.K(da) == 3, t.P(da) == x, Stride(da) == HT(self.dt), Len(da) == 1,
                   g('HTBL_ENTRY.key', x, 'off') == 0, g('HTBL_ENTRY.data', x, 'off') == 0,
                   g('HTBL_ENTRY.next', x, 'off') == 0, g('HTBL_ENTRY.prev', x, 'off') == 0,
                   hashf(self.hash, self.kcell(x), self.buckets) == bk)

    def wf(self, t=T0, pat=True):
        m, o = self.m, self.o
        g = m.get
        x = t.S(b, i)
        n = t.C(b)
        inb = And(b >= 0, b < self.buckets)
        ini = And(inb, i >= 0, i < n)
        y = z3.Int('y')
        isent = lambda e: And(t.K(e) == 1, t.P(e) >= 0, t.P(e) < t.C(t.B(e)), t.B(e) >= 0, t.B(e) < self.buckets, t.S(t.B(e), t.P(e)) == e)
        self.isent = isent
        r = self.header() + [
            ('the parts are not entries', And(*[t.K(q) == 0 for q in (o, self.tb, self.keys, self.ks.d)])),
            ('a bucket starts with its first entry', forall([b], Implies(inb, And(n >= 0, self.head(b)[0] == If(n > 0, t.S(b, 0), 0), self.head(b)[1] == 0)),
                                                            [m.cell(self.tb, b), n] if pat else None)),
            ('entries are valid and hashed to their bucket', forall([b, i], Implies(ini, self.ent(x, b, i, t, n)), [x] if pat else None)),
            ('entries of a bucket are linked forwards', forall([b, i], Implies(ini, g('HTBL_ENTRY.next', x) == If(i + 1 < n, t.S(b, i + 1), 0)),
                                                               [g('HTBL_ENTRY.next', x)] if pat else None)),
            ('entries of a bucket are linked backwards', forall([b, i], Implies(ini, g('HTBL_ENTRY.prev', x) == If(i > 0, t.S(b, i - 1), 0)),
                                                                [g('HTBL_ENTRY.prev', x)] if pat else None)),
            ('every entry has its key in the key set', forall([b, i], Implies(ini, And(t.X(x) >= 0, t.X(x) < self.ks.size, t.E(t.X(x)) == x)), [x] if pat else None)),
            ('every key in the set has an entry', forall([j], Implies(And(j >= 0, j < self.ks.size), And(isent(t.E(j)), t.X(t.E(j)) == j, cmpf(self.cmp, self.ks.cell(j), self.kcell(t.E(j))) == 0)),
                                                         [t.E(j), self.ks.cell(j)] if pat else None)),
            ('the keys are strictly sorted', strictly_sorted(self.ks))]
        return r


def hash_ok(h):
    """keys that compare equal hash equally (proved for the library's own pairs by C07)"""
    return forall([ca, cb, cn], Implies(cmpf(h.cmp, ca, cb) == 0, hashf(h.hash, ca, cn) == hashf(h.hash, cb, cn)),
                  [(cmpf(h.cmp, ca, cb), hashf(h.hash, ca, cn)), (cmpf(h.cmp, ca, cb), hashf(h.hash, cb, cn))])


class HFn(Contract):
    inline_in = True
    key_arg = None
    val_arg = None

    def bind(self, c):
        o = c.a[0].obj
        for nm, k, f in (('k', self.key_arg, 'ktype'), ('v', self.val_arg, 'dtype')):
            if k is not None:
                q = z3.Int('ghost_q' + nm)
                D = c.a[k].obj
                c.g['D' + nm], c.g['q' + nm] = D, q
                c.a[k] = PtrV(D, q * HT(c.m0.get('HASHTABLE_.' + f, o)))

    def axioms(self, c):
        h = H(c.m0, c.a[0].obj)
        return ht_axioms() + total_order(h.cmp) + [hash_ok(h)]

    def pre(self, c):
        h = H(c.m0, c.a[0].obj)
        r = h.wf()
        for nm, tp in (('k', h.kt), ('v', h.dt)):
            if 'D' + nm in c.g:
                D, q = c.g['D' + nm], c.g['q' + nm]
                r.append(('a valid %s' % ('key' if nm == 'k' else 'value'),
                          And(D > 0, c.m0.live(D), Stride(D) == HT(tp), q >= 0, q < Len(D), HK(D) == -1, Len(D) * HT(tp) <= MAXB)))
        if 'Dk' in c.g and 'Dv' in c.g:
            r.append(('key and value are separate', c.g['Dk'] != c.g['Dv']))
        return r

    def after_pre(self, c):
        h = H(c.m0, c.a[0].obj)
        c.g['stride'] = HT(h.kt)
        for nm, tp in (('k', h.kt), ('v', h.dt)):
            if 'D' + nm in c.g:
                c.st.claims.append((c.g['D' + nm], HT(tp)))
                c.e.add_cap(c.st, Len(c.g['D' + nm]), HT(tp))
        c.st.claims.append((h.tb, z3.IntVal(8)))
        c.st.claims.append((z3.simplify(h.ks.d), HT(h.kt)))

    def kx(self, c):
        return c.m0.cell(c.g['Dk'], c.g['qk'])

    def vx(self, c):
        return c.m0.cell(c.g['Dv'], c.g['qv'])

    def templates(self, c):
        h = H(c.m0, c.a[0].obj)
        if 'Dk' not in c.g:
            return []
        k = self.kx(c)
        bk = hashf(h.hash, k, h.buckets)

        def at(lp, t):
            x = t.obj
            return And(t.off == 0, Or(x == 0, And(HK(x) == 1, HB(x) == bk, HP(x) >= 0, HP(x) < CN(bk), HS(bk, HP(x)) == x)))

        def before(lp, t):
            x = t.obj
            return forall([i], Implies(And(i >= 0, i < If(x == 0, CN(bk), HP(x))), cmpf(h.cmp, h.kcell(HS(bk, i)), k) != 0), [HS(bk, i)])
        return [Template(['ptr'], at, 'is an entry of the bucket'), Template(['ptr'], before, 'no match before')]

    def matches(self, c, x):
        h = H(c.m0, c.a[0].obj)
        h.wf()
        return And(h.isent(x), cmpf(h.cmp, h.kcell(x), self.kx(c)) == 0)

    def none(self, c):
        h = H(c.m0, c.a[0].obj)
        return forall([b, i], Implies(And(b >= 0, b < h.buckets, i >= 0, i < CN(b)), cmpf(h.cmp, h.kcell(HS(b, i)), self.kx(c)) != 0), [HS(b, i)])

    def entries_kept(self, c, but=None):
        h, h1 = H(c.m0, c.a[0].obj), H(c.m1, c.a[0].obj)
        x = HS(b, i)
        hyp = And(b >= 0, b < h.buckets, i >= 0, i < CN(b))
        if but is not None:
            hyp = And(hyp, x != but)
        return forall([b, i], Implies(hyp, And(h1.kcell(x) == h.kcell(x), h1.dcell(x) == h.dcell(x))), [x])

    def same_header(self, c):
        a, d = H(c.m0, c.a[0].obj), H(c.m1, c.a[0].obj)
        return And(a.buckets == d.buckets, a.kt == d.kt, a.dt == d.dt, a.tb == d.tb, a.keys == d.keys, a.cmp == d.cmp, a.hash == d.hash)


class lookup(HFn):
    name = 'hashtable_lookup'
    key_arg, val_arg = 1, 2

    def post(self, c):
        h = H(c.m0, c.a[0].obj)
        Dv, qv = c.g['Dv'], c.g['qv']
        k = self.kx(c)
        r0, r1 = c.m0.row(Dv), c.m1.row(Dv)
        x = HS(b, i)
        inb = And(b >= 0, b < h.buckets, i >= 0, i < CN(b))
        return [('result', Or(c.rt == 0, c.rt == 1)),
                ('the value of the key is copied out', Implies(c.rt == 1, forall([b, i], Implies(And(inb, cmpf(h.cmp, h.kcell(x), k) == 0),
                                                                                              r1 == z3.Store(r0, qv, h.dcell(x))), [x]))),
                ('a reported key is in the table', Implies(c.rt == 1, z3.Exists([b, i], And(inb, cmpf(h.cmp, h.kcell(x), k) == 0), patterns=[x]))),
                ('a key reported missing is missing', Implies(c.rt == 0, And(self.none(c), r1 == r0)))]

    def effects(self, c):
        c.mod_row(c.g['Dv'])


class lookup_entry(HFn):
    name = 'hashtable_lookup_entry'
    key_arg = 1

    def post(self, c):
        x = c.ret.obj
        return [('a reported entry has the key', Implies(x != 0, And(self.matches(c, x), c.ret.off == 0))),
                ('a key reported missing is missing', Implies(x == 0, self.none(c)))]


class insert(HFn):
    name = 'hashtable_insert'
    key_arg, val_arg = 1, 2

    def pre(self, c):
        h = H(c.m0, c.a[0].obj)
        return super().pre(c) + [('a countable table', And(h.size < (1 << 46), c.m0.get('HASHTABLE_.collisions', c.a[0].obj) < (1 << 31) - 1))]

    def post(self, c):
        o = c.a[0].obj
        h, h1 = H(c.m0, o), H(c.m1, o)
        k, v = self.kx(c), self.vx(c)
        bk = hashf(h.hash, k, h.buckets)
        Dv, qv = c.g['Dv'], c.g['qv']
        new = c.rt == 1
        x = HS(b, i)
        nd = h1.head(bk)[0]
        nk, nv = c.m1.get('HTBL_ENTRY.key', nd), c.m1.get('HTBL_ENTRY.data', nd)
        pos = c.st.ghosts.get('set_insert')
        if pos is None:
            pos = fresh('nopos')

        class T1:
            S = staticmethod(lambda q, r: If(q == bk, If(r == 0, nd, HS(q, r - 1)), HS(q, r)))
            C = staticmethod(lambda q: If(q == bk, CN(q) + 1, CN(q)))
            K = staticmethod(lambda y: If(y == nd, 1, If(y == nk, 2, If(y == nv, 3, If(Or(y == h1.ks.d), 0, HK(y))))))
            P = staticmethod(lambda y: If(y == nd, 0, If(Or(y == nk, y == nv), nd, If(And(HK(y) == 1, HB(y) == bk), HP(y) + 1, HP(y)))))
            B = staticmethod(lambda y: If(y == nd, bk, HB(y)))
            X = staticmethod(lambda y: If(y == nd, pos, If(KX(y) < pos, KX(y), KX(y) + 1)))
            E = staticmethod(lambda q: If(q < pos, EN(q), If(q == pos, nd, EN(q - 1))))
        r = [('result', Or(c.rt == 1, c.rt == -1)),
             ('the key was not there before', Implies(new, self.none(c))),
             ('the new entry holds key and value', Implies(new, And(Not(c.m0.live(nd)), h1.kcell(nd) == k, h1.dcell(nd) == v))),
             ('the value is left alone', Implies(new, c.m1.row(Dv) == c.m0.row(Dv))),
             ('all other entries are kept', Implies(new, self.entries_kept(c))),
             ('the table header is kept', self.same_header(c)), ('one key more', Implies(new, h1.size == h.size + 1))]
        r += [(t, Implies(new, g)) for t, g in h1.wf(T1, False)]
        old = Not(new)
        inb = And(b >= 0, b < h.buckets, i >= 0, i < CN(b))
        same = cmpf(h.cmp, h.kcell(x), k) == 0
        r += [('the key was there before', Implies(old, z3.Exists([b, i], And(inb, same), patterns=[x]))),
              ('the value is replaced and the old one handed back', Implies(old, forall([b, i], Implies(inb, And(
                  h1.kcell(x) == h.kcell(x), h1.dcell(x) == If(same, v, h.dcell(x)),
                  Implies(same, c.m1.row(Dv) == z3.Store(c.m0.row(Dv), qv, h.dcell(x))))), [x]))),
              ('no key more', Implies(old, h1.size == h.size))]
        r += [(t, Implies(old, g)) for t, g in h1.wf(T0, False)]
        return r

    def effects(self, c):
        o = c.a[0].obj
        h = H(c.m0, o)
        bk = hashf(h.hash, self.kx(c), h.buckets)
        c.mod_fields('HASHTABLE_', o, ('size', 'collisions'))
        c.mod_field('HTBL_ENTRY.prev', h.head(bk)[0])
        c.mod_row(h.tb)
        c.mod_row(c.g['Dv'])
        c.mod_row(h.ks.d)
        c.mod_live(h.ks.d)
        c.mod_fields('ArrayList', h.keys, ('data', 'size', 'max_size'))
        c.mods.append((('C',), None, lambda q: HK(q) == 3)) if False else None
        c.mods.append(('rows', lambda q: HK(q) == 3))


class remove(HFn):
    name = 'hashtable_remove'
    key_arg, val_arg = 1, 2

    def gone(self, c):
        t = c.e.memget(c.st.mem, ('L',))
        dead = []
        while z3.is_app(t) and t.decl().kind() == z3.Z3_OP_STORE:
            if z3.is_false(z3.simplify(t.arg(2))):
                dead.append(t.arg(1))
            t = t.arg(0)
        for d in dead:
            if c.e.quick2(c.st, HK(d) == 1):
                return d
        return None

    def post(self, c):
        o = c.a[0].obj
        h, h1 = H(c.m0, o), H(c.m1, o)
        k = self.kx(c)
        Dv, qv, Dk, qk = c.g['Dv'], c.g['qv'], c.g['Dk'], c.g['qk']
        done = c.rt == 1
        nd = self.gone(c)
        r = [('result', Or(c.rt == 0, c.rt == 1)), ('a key reported missing is missing', Implies(Not(done), self.none(c))),
             ('a missing key changes nothing', Implies(Not(done), And(c.m1.row(Dv) == c.m0.row(Dv), h1.size == h.size, self.entries_kept(c), self.same_header(c)))),
             ('the table header is kept', self.same_header(c))]
        r += [(t, Implies(Not(done), g)) for t, g in h1.wf(T0, False)]
        if nd is None:
            r.append(('a reported removal releases the entry', Not(done)))
            return r
        pos = c.st.ghosts.get('set_remove')
        if pos is None:
            pos = fresh('nopos')
        bk, p = HB(nd), HP(nd)

        class T1:
            S = staticmethod(lambda q, z: If(And(q == bk, z >= p), HS(q, z + 1), HS(q, z)))
            C = staticmethod(lambda q: If(q == bk, CN(q) - 1, CN(q)))
            K = HK
            P = staticmethod(lambda y: If(And(HK(y) == 1, HB(y) == bk, HP(y) > p), HP(y) - 1, HP(y)))
            B = HB
            X = staticmethod(lambda y: If(KX(y) < pos, KX(y), KX(y) - 1))
            E = staticmethod(lambda q: If(q < pos, EN(q), EN(q + 1)))
        r += [('the removed entry had the key', Implies(done, self.matches(c, nd))),
              ('its value is handed back', Implies(done, c.m1.row(Dv) == z3.Store(c.m0.row(Dv), qv, h.dcell(nd)))),
              ('the entry is released', Implies(done, And(Not(c.m1.live(nd)), Not(c.m1.live(c.m0.get('HTBL_ENTRY.key', nd))), Not(c.m1.live(c.m0.get('HTBL_ENTRY.data', nd)))))),
              ('all other entries are kept', Implies(done, self.entries_kept(c, nd))), ('one key fewer', Implies(done, h1.size == h.size - 1))]
        r += [(t, Implies(done, g)) for t, g in h1.wf(T1, False)]
        return r

    def effects(self, c):
        o = c.a[0].obj
        h = H(c.m0, o)
        c.mod_row(c.g['Dv'])
        c.mod_row(c.g['Dk'])
        nd = self.gone(c)
        if nd is not None:
            g = c.m0.get
            c.mod_fields('HASHTABLE_', o, ('size',))
            c.mod_row(h.tb)
            for x in (nd, g('HTBL_ENTRY.key', nd), g('HTBL_ENTRY.data', nd)):
                c.mod_live(x)
            for f in ('HTBL_ENTRY.next', 'HTBL_ENTRY.prev'):
                for x in (nd, g('HTBL_ENTRY.next', nd), g('HTBL_ENTRY.prev', nd)):
                    c.mod_field(f, x)
            c.mod_row(h.ks.d)
            c.mod_fields('ArrayList', h.keys, ('size',))


class size(HFn):
    name = 'hashtable_size'

    def post(self, c):
        h = H(c.m0, c.a[0].obj)
        return [('the number of keys', c.rt == h.size)]


class empty(HFn):
    name = 'hashtable_empty'

    def pre(self, c):
        return [('no table or a table', Implies(c.a[0].obj != 0, And(*[g for _, g in super(empty, self).pre(c)])))]

    def after_pre(self, c):
        pass

    def post(self, c):
        h = H(c.m0, c.a[0].obj)
        return [('1 when there is no key', c.rt == If(Or(c.a[0].obj == 0, h.size == 0), 1, 0))]


class init_size(Contract):
    name = 'hashtable_init_size'
    inline_in = True

    def bind(self, c):
        c.a[3] = PtrV(c.a[3].obj, 0)

    def axioms(self, c):
        return ht_axioms()

    def pre(self, c):
        n, k, d = (c.e.U(c.st, c.a[q]) for q in (0, 1, 2))
        return [('bucket count', n <= (1 << 40)), ('a numeric key type', And(k >= 0, k <= 6)), ('a value type', And(d >= 0, d <= 7)),
                ('a comparator', c.a[3].obj < 0)]

    def post(self, c):
        n, k, d = (c.e.U(c.st, c.a[q]) for q in (0, 1, 2))
        h = H(c.m1, c.ret.obj)

        class TE:
            S = staticmethod(lambda q, r: z3.IntVal(0))
            C = staticmethod(lambda q: z3.IntVal(0))
            K = P = B = X = E = staticmethod(lambda q: z3.IntVal(0))
        hk = {0: 'int_hash', 1: 'double_hash', 2: 'float_hash', 3: 'long_hash', 4: 'short_hash', 5: 'char_hash', 6: 'str_hash'}
        return [('a new table', And(Not(c.m0.live(c.ret.obj)), c.ret.off == 0)), ('the bucket count is the one requested, or 37', h.buckets == If(n == 0, 37, n)),
                ('no key', h.size == 0), ('types are recorded', And(h.kt == k, h.dt == d)), ('the comparator is recorded', h.cmp == c.a[3].obj),
                ] + [('the hash fits key type %d' % t, Implies(k == t, h.hash == c.e.prog.fnid(f))) for t, f in hk.items()] + h.wf(TE, False)


class clear(HFn):
    """without destructors; calls of key and value destructors are covered by the bounded companion"""
    name = 'hashtable_clear'
    min_effort = 1
    kills = False

    def bind(self, c):
        c.a[1] = NULL
        c.a[2] = NULL

    def post(self, c):
        o = c.a[0].obj
        h, h1 = H(c.m0, o), H(c.m1, o)
        x = HS(b, i)
        # (the key set may be given the address of released memory)
        dead = lambda q: Not(c.m1.live(q)) if self.kills else Or(Not(c.m1.live(q)), q == h1.ks.d)
        r = [('every entry is released', forall([b, i], Implies(And(b >= 0, b < h.buckets, i >= 0, i < CN(b)), And(
            dead(x), dead(c.m0.get('HTBL_ENTRY.key', x)), dead(c.m0.get('HTBL_ENTRY.data', x)))), [x])),
            ('success is reported', c.rt == 1)]
        if self.kills:
            return r + [('the table is released', And(*[Not(c.m1.live(q)) for q in (o, h.tb, h.keys, h.ks.d)]))]

        class TE:
            S, K, P, B, X, E = HS, HK, HP, HB, KX, EN
            C = staticmethod(lambda q: z3.IntVal(0))
        TE.K = staticmethod(lambda q: If(q == h1.ks.d, 0, HK(q)))
        return r + [('no key is left', h1.size == 0), ('the table header is kept', self.same_header(c))] + h1.wf(TE, False)

    def effects(self, c):
        o = c.a[0].obj
        h = H(c.m0, o)
        c.mod_fields('HASHTABLE_', o, ('size',))
        c.mod_row(h.tb)
        c.mod_row(h.ks.d)
        c.mod_live(h.ks.d)
        c.mod_fields('ArrayList', h.keys, ('data', 'size', 'max_size'))
        c.mods.append(('own', self.own(c)))
        if self.kills:
            for q in (o, h.tb, h.keys):
                c.mod_live(q)

    def own(self, c):
        h = H(c.m0, c.a[0].obj)
        h.wf()

        def f(x):
            g = c.m0.get
            return Or(And(HK(x) == 1, h.isent(x)), And(HK(x) == 2, h.isent(HP(x)), g('HTBL_ENTRY.key', HP(x)) == x),
                      And(HK(x) == 3, h.isent(HP(x)), g('HTBL_ENTRY.data', HP(x)) == x))
        return f

    def templates(self, c):
        o = c.a[0].obj
        h = H(c.m0, o)
        h.wf()
        own = self.own(c)
        x = HS(b, i)
        inb = And(b >= 0, b < h.buckets)
        g = c.m0.get
        F = [('HTBL_ENTRY.' + f, pt) for f in ('key', 'data', 'next', 'prev') for pt in ('obj', 'off')]

        def intact(lp, e):
            m = lp.m
            return And(m.live(e), m.live(g('HTBL_ENTRY.key', e)), m.live(g('HTBL_ENTRY.data', e)), m.get('HTBL_ENTRY.key', e) == g('HTBL_ENTRY.key', e),
                       m.get('HTBL_ENTRY.data', e) == g('HTBL_ENTRY.data', e), m.get('HTBL_ENTRY.next', e) == g('HTBL_ENTRY.next', e),
                       *([m.cell(g('HTBL_ENTRY.key', e), 0) == h.kcell(e)] + [m.get('HTBL_ENTRY.' + f, e, 'off') == 0 for f in ('key', 'data', 'next')]))

        def dead(lp, e):
            m = lp.m
            return And(Not(m.live(e)), Not(m.live(g('HTBL_ENTRY.key', e))), Not(m.live(g('HTBL_ENTRY.data', e))))

        def buckets(lp):
            hd = asP(lp.m.cell(h.tb, b))
            return forall([b], Implies(inb, Or(hd == If(CN(b) > 0, HS(b, 0), 0), hd == 0)), [lp.m.cell(h.tb, b)])

        def b_off(lp):
            return forall([b], Implies(inb, asPo(lp.m.cell(h.tb, b)) == 0), [lp.m.cell(h.tb, b)])

        def full(lp):
            return forall([b, i], Implies(And(inb, i >= 0, i < CN(b), asP(lp.m.cell(h.tb, b)) != 0), intact(lp, x)), [x])

        def emptied(lp):
            return forall([b, i], Implies(And(inb, i >= 0, i < CN(b), asP(lp.m.cell(h.tb, b)) == 0), dead(lp, x)), [x])

        def emptied_but(lp, t):
            e = t.obj
            return forall([b, i], Implies(And(inb, i >= 0, i < CN(b), asP(lp.m.cell(h.tb, b)) == 0),
                                          If(Or(e == 0, b != HB(e), i < HP(e)), dead(lp, x), intact(lp, x))), [x])

        def cur(lp, t):
            e = t.obj
            return And(t.off == 0, Or(e == 0, And(h.isent(e), asP(lp.m.cell(h.tb, HB(e))) == 0)))

        def processed(lp, v):
            return forall([j], Implies(And(j >= 0, j < v), asP(lp.m.cell(h.tb, HB(EN(j)))) == 0), [EN(j)])

        def processed1(lp, v):
            return forall([j], Implies(And(j >= 0, j <= v), asP(lp.m.cell(h.tb, HB(EN(j)))) == 0), [EN(j)])

        def others(lp):
            y = z3.Int('y')
            return forall([y], Implies(And(lp.me.live(y), Not(own(y))), lp.m.live(y)), [lp.m.live(y)])
        return [Template([], buckets, 'buckets'), Template([], b_off, 'bucket offsets'), Template([], full, 'full buckets'), Template([], emptied, 'emptied buckets'),
                Template(['ptr'], emptied_but, 'emptied up to'), Template(['ptr'], cur, 'current entry'), Template(['int'], processed, 'processed'),
                Template(['int'], processed1, 'processed with current'), Template([], others, 'others live')]


class destroy(clear):
    name = 'hashtable_destroy'
    kills = True


ALL = [htype_size, init_size, lookup_entry, lookup, insert, remove, size, empty, clear, destroy]
