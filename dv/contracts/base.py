import z3
from ..engine import *
from ..engine import fresh, forall
from ..exec import Contract, Template

T = z3.BoolVal(True)
Mark = z3.Function('Mark', I, B)   # always true: names the indices at which facts are wanted
MAXB = 1 << 47        # the address-space assumption: no allocation exceeds 2^47 bytes
And, Or, Not, Implies, If = z3.And, z3.Or, z3.Not, z3.Implies, z3.If


def ite_cell(c, a, b):
    return z3.If(c, a, b)


class L:
    """fields of one ArrayList in one memory snapshot"""

    def __init__(self, m, o):
        self.m, self.o = m, o
        self.size = m.get('ArrayList.size', o)
        self.max = m.get('ArrayList.max_size', o)
        self.step = m.get('ArrayList.step', o)
        self.cmp = m.get('ArrayList.compare', o)
        self.cmpo = m.get('ArrayList.compare', o, 'off')
        self.d = m.get('ArrayList.data', o)
        self.doff = m.get('ArrayList.data', o, 'off')

    def cell(self, i):
        return self.m.cell(self.d, i)

    def wf(self, live=True):
        m = self.m
        fs = [self.o > 0, m.live(self.o), self.d > 0, m.live(self.d), self.d != self.o, self.doff == 0, self.size >= 0,
              self.size <= self.max, self.max >= 1, Len(self.d) == self.max, Stride(self.d) == self.step, self.step >= 1,
              self.max * self.step <= MAXB, Bytes(self.o) == m.e.prog.csize('ArrayList'), self.max <= MAXB, self.step <= MAXB]
        return And(*fs)


def isz(m, t, bits=64):
    return And(t >= 0, t < (1 << bits))


class ListFn(Contract):
    """first argument: a well-formed list; data_arg: index of a pointer to one element"""
    data_arg = None
    listarg = 0
    writes_data = False

    def bind(self, c):
        if self.data_arg is not None:
            p = c.a[self.data_arg]
            if c.mode == 'verify':
                lo = c.a[self.listarg].obj
                q = z3.Int('ghost_q')
                c.g['q'] = q
                p = PtrV(p.obj, q * c.m0.get('ArrayList.step', lo))
                c.a[self.data_arg] = p
            c.g['D'] = p.obj

    def prepare(self, c):
        """call mode: give the element pointer its view"""
        if self.data_arg is not None and 'q' not in c.g:
            lo = c.a[self.listarg].obj
            s = z3.simplify(c.m0.get('ArrayList.step', lo))
            q, _ = c.e.cell_index(c.st, c.a[self.data_arg], s)
            c.g['q'] = q

    def l0(self, c):
        return L(c.m0, c.a[self.listarg].obj)

    def l1(self, c):
        return L(c.m1, c.a[self.listarg].obj)

    def x0(self, c):
        return c.m0.cell(c.g['D'], c.g['q'])

    def pre(self, c):
        self.prepare(c)
        l = self.l0(c)
        r = [('a well-formed list', l.wf())]
        if self.data_arg is not None:
            D, q = c.g['D'], c.g['q']
            r.append(('a valid element', And(D > 0, c.m0.live(D), Stride(D) == l.step, q >= 0, q < Len(D), D != l.o)))
            r.append(('the element lies outside the list', D != l.d))
        return r

    def after_pre(self, c):
        l = self.l0(c)
        st = c.st
        o = z3.simplify(l.d)
        if not any(x.eq(o) for x, _ in st.claims):
            st.claims.append((o, l.step))
        if self.data_arg is not None:
            st.claims.append((c.g['D'], l.step))
            c.e.add_cap(st, Len(c.g['D']), l.step)
            st.assume(Len(c.g['D']) * l.step <= MAXB)
        c.e.add_cap(st, l.max, l.step)
        c.g['stride'] = l.step

    def bounds(self, c):
        return [('size', self.l0(c).size)]

    def same_list(self, c, but=()):
        """the list header is unchanged except for `but`"""
        a, b = self.l0(c), self.l1(c)
        r = []
        for f in ('size', 'max', 'step', 'cmp', 'cmpo', 'd', 'doff'):
            if f not in but:
                r.append(getattr(a, f) == getattr(b, f))
        return And(*r)
