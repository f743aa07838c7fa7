"""dv: a deductive verifier for C functions, working on the LLVM IR of /repo's own sources.

Modular (a call to a function under contract is replaced by its contract; any other defined function is
inlined), unbounded (loops are cut by inductive invariants, found by Houdini from each contract's
candidate templates), first-order (obligations go to z3, and to cvc5 when z3 does not answer).
The memory model and every assumption it makes are documented in DESIGN.md ("What dv assumes").
"""
import itertools, os, re, subprocess, sys, tempfile, time
import z3
from .ir import Module, Unsupported

z3.set_param('auto_config', False)
z3.set_param('smt.mbqi', False)
z3.set_param('warning', False)
z3.set_param('smt.random_seed', 1)
if not os.environ.get('DV_NL'):
    z3.set_param('smt.arith.nl', False)

I = z3.IntSort()
B = z3.BoolSort()
Cell = z3.DeclareSort('Cell')
FP = z3.DeclareSort('Fp')
Row = z3.ArraySort(I, Cell)

Stride = z3.Function('Stride', I, I)
Len = z3.Function('Len', I, I)
Bytes = z3.Function('Bytes', I, I)
At = z3.Function('At', I, I, I)
AtB = z3.Function('AtBase', I, I)
AtO = z3.Function('AtOff', I, I)
asI = {n: z3.Function('asI%d' % n, Cell, I) for n in (8, 16, 32, 64)}
mkI = {n: z3.Function('mkI%d' % n, I, Cell) for n in (8, 16, 32, 64)}
asF = {n: z3.Function('asF%d' % n, Cell, FP) for n in (32, 64, 80)}
mkF = {n: z3.Function('mkF%d' % n, FP, Cell) for n in (32, 64, 80)}
asP = z3.Function('asPobj', Cell, I)
asPo = z3.Function('asPoff', Cell, I)
mkP = z3.Function('mkP', I, I, Cell)
ZeroCell = z3.Const('ZeroCell', Cell)
val = z3.Function('val', FP, z3.RealSort())
nan = z3.Function('isnan', FP, B)
cmpf = z3.Function('cmp', I, Cell, Cell, I)       # comparator(fid, cell, cell)
hashf = z3.Function('hash', I, Cell, I, I)        # key hash(fid, cell, buckets)

_fresh = itertools.count()


def fresh(name, sort=I):
    return z3.Const('%s!%d' % (name, next(_fresh)), sort)


def forall(vs, body, pats=None):
    if pats is None:
        return z3.ForAll(vs, body)
    try:
        return z3.ForAll(vs, body, patterns=[p if isinstance(p, z3.PatternRef) else
                                             (z3.MultiPattern(*p) if isinstance(p, (list, tuple)) else p) for p in pats])
    except z3.Z3Exception:       # a pattern over an if-then-else term (this happens in goals, where patterns do not matter)
        return z3.ForAll(vs, body)


def has_quant(e, _c={}):
    k = e.get_id()
    r = _c.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    if z3.is_quantifier(e):
        v = True
    else:
        v = any(has_quant(x) for x in e.children())
    _c[k] = (e, v)
    return v


def consts_of(e, _c={}):
    k = e.get_id()
    r = _c.get(k)
    if r is not None and r[0].eq(e):
        return r[1]
    s = set()
    if z3.is_quantifier(e):
        s = consts_of(e.body())
    elif z3.is_app(e):
        if e.num_args() == 0:
            if e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                s = {e.decl().name()}
        else:
            for x in e.children():
                s = s | consts_of(x)
    _c[k] = (e, s)
    return s


# ------------------------------------------------------------------ polynomials (for exact division by a stride)
def poly(e):
    """z3 Int term -> {tuple(sorted atom ids): (coeff, [atoms])}"""
    e = z3.simplify(e, som=True)

    def mono(t):
        """term -> coeff, list of atoms"""
        if z3.is_int_value(t):
            return t.as_long(), []
        if z3.is_mul(t):
            c, at = 1, []
            for x in t.children():
                c2, a2 = mono(x)
                c *= c2
                at += a2
            return c, at
        if t.decl().kind() == z3.Z3_OP_UMINUS:
            c, a = mono(t.arg(0))
            return -c, a
        if t.decl().kind() == z3.Z3_OP_POWER and z3.is_int_value(t.arg(1)):
            return 1, [t.arg(0)] * t.arg(1).as_long()
        return 1, [t]
    out = {}

    def add(t, sign=1):
        if z3.is_add(t):
            for x in t.children():
                add(x, sign)
            return
        if z3.is_sub(t):
            add(t.arg(0), sign)
            for x in t.children()[1:]:
                add(x, -sign)
            return
        c, at = mono(t)
        at = sorted(at, key=lambda a: a.get_id())
        k = tuple(a.get_id() for a in at)
        c0 = out.get(k, (0, at))[0]
        out[k] = (c0 + sign * c, at)
    add(e)
    return {k: v for k, v in out.items() if v[0] != 0}


def from_poly(p):
    ts = []
    for c, at in p.values():
        t = None
        for a in at:
            t = a if t is None else t * a
        ts.append(z3.IntVal(c) if t is None else (t if c == 1 else c * t))
    if not ts:
        return z3.IntVal(0)
    return z3.simplify(z3.Sum(ts)) if len(ts) > 1 else ts[0]


def divide(e, s):
    """e == q*s + r with a constant r and 0 <= r < s when s is constant; (q, r) or None."""
    e = e if z3.is_expr(e) else z3.IntVal(e)
    s = s if z3.is_expr(s) else z3.IntVal(s)
    s = z3.simplify(s)
    p = poly(e)
    if z3.is_int_value(s):
        n = s.as_long()
        if n <= 0:
            return None
        q, r = {}, 0
        for k, (c, at) in p.items():
            if k == ():
                q[k] = (c // n, at)
                r = c % n
            elif c % n:
                return None
            else:
                q[k] = (c // n, at)
        return from_poly({k: v for k, v in q.items() if v[0]}), r
    # a symbolic stride: one monomial c*a1*..*ak
    sp = poly(s)
    if len(sp) != 1:
        return None
    (sc, satoms), = sp.values()
    q = {}
    for k, (c, at) in p.items():
        rest = list(at)
        if c % sc:
            return None
        for a in satoms:
            for i, b in enumerate(rest):
                if a.eq(b):
                    del rest[i]
                    break
            else:
                return None
        kk = tuple(x.get_id() for x in rest)
        q[kk] = (q.get(kk, (0, rest))[0] + c // sc, rest)
    return from_poly({k: v for k, v in q.items() if v[0]}), 0


# ------------------------------------------------------------------ values
class IntV:
    """an n-bit value; t is a mathematical integer congruent to it modulo 2^n (rng 'u'/'s': canonical)."""
    __slots__ = ('t', 'n', 'rng')

    def __init__(self, t, n, rng=None):
        self.t = t if z3.is_expr(t) else z3.IntVal(t)
        self.n, self.rng = n, rng
        if z3.is_int_value(self.t):
            v = self.t.as_long()
            self.rng = 'b' if 0 <= v < (1 << (n - 1)) else (None if not -(1 << (n - 1)) <= v < (1 << n) else ('s' if v < 0 else 'u'))


class BoolV:
    __slots__ = ('t',)
    n = 1

    def __init__(self, t):
        self.t = t


class FpV:
    __slots__ = ('t', 'n')

    def __init__(self, t, n):
        self.t, self.n = t, n


class PtrV:
    __slots__ = ('obj', 'off', 'fld')

    def __init__(self, obj, off=0, fld=None):
        self.obj = obj if z3.is_expr(obj) else z3.IntVal(obj)
        self.off = off if z3.is_expr(off) else z3.IntVal(off)
        self.fld = fld       # (struct name, byte offset of the struct in the object, byte offset of the field)


class UndefV:
    pass


NULL = PtrV(0, 0)


class Ob:
    """one proof obligation"""
    __slots__ = ('fn', 'kind', 'label', 'line', 'ok', 'time', 'backend', 'detail', 'hints')

    def __init__(self, fn, kind, label, line):
        self.fn, self.kind, self.label, self.line = fn, kind, label, line
        self.ok, self.time, self.backend, self.detail, self.hints = None, 0.0, None, None, None

    def name(self):
        return '%s:%s:%s%s' % (self.fn, self.kind, self.label, '' if self.line is None else '@%s' % self.line)


class Prog:
    """all modules of the program, linked by name"""

    def __init__(self, modules):
        self.modules = modules
        self.funcs = {}
        for m in modules:
            for f in m.funcs.values():
                if f.name in self.funcs and not f.static:
                    self.funcs[f.name] = f
                else:
                    self.funcs.setdefault(f.name, f)
        self.llstructs = {}
        self.fields = {}
        for m in modules:
            for k, v in m.structs.items():
                self.llstructs.setdefault(k, v)
            for k, v in m.struct_fields().items():
                self.fields.setdefault(k, v)
        self.fnids = {}

    def func(self, name, module=None):
        if module is not None and name in module.funcs:
            return module.funcs[name]
        return self.funcs.get(name)

    def fnid(self, name):
        if name not in self.fnids:
            # a code address: negative, so never a heap object; stable across a run
            h = 0
            for ch in name:
                h = (h * 131 + ord(ch)) % 1000003
            v = -(1000 + h)
            while v in self.fnids.values():
                v -= 1000003
            self.fnids[name] = v
        return self.fnids[name]

    def fnname(self, i):
        for k, v in self.fnids.items():
            if v == i:
                return k
        return None

    def size_align(self, ty):
        k = ty[0]
        if k == 'i':
            n = max(1, (ty[1] + 7) // 8)
            return n, n
        if k == 'f':
            return {32: (4, 4), 64: (8, 8), 80: (16, 16)}[ty[1]]
        if k == 'ptr':
            return 8, 8
        if k == 'arr':
            s, a = self.size_align(ty[2])
            return s * ty[1], a
        if k == 'struct':
            return self.struct_size(self.llstructs[ty[1]])
        if k == 'lit':
            return self.struct_size(ty[1])
        raise Unsupported('size of %r' % (ty,))

    def sizeof(self, ty):
        return self.size_align(ty)[0]

    def struct_size(self, ts):
        off, al = 0, 1
        for t in ts:
            s, a = self.size_align(t)
            off = (off + a - 1) // a * a + s
            al = max(al, a)
        return (off + al - 1) // al * al, al

    def field_off(self, ts, k):
        off = 0
        for i, t in enumerate(ts):
            s, a = self.size_align(t)
            off = (off + a - 1) // a * a
            if i == k:
                return off
            off += s

    def field(self, sname, fname):
        for (o, s, n, ct) in self.fields[sname]:
            if n == fname:
                return o, ct
        raise Unsupported('no field %s.%s' % (sname, fname))

    def field_at(self, sname, off):
        for (o, s, n, ct) in self.fields.get(sname, []):
            if o == off:
                return n, ct
        return None

    def csize(self, sname):
        for k, v in self.llstructs.items():
            if k == 'struct.' + sname or k == sname:
                return self.struct_size(v)[0]
        fs = self.fields[sname]
        return max((o + s + 7) // 8 * 8 for (o, s, n, ct) in fs)


class Sync:
    """incremental z3 solver that follows a list of assumptions"""

    def __init__(self, timeout):
        self.s = z3.Solver()
        self.timeout = timeout
        self.s.set('timeout', timeout)
        self.cur = []

    def sync(self, pc):
        n = 0
        m = min(len(pc), len(self.cur))
        while n < m and self.cur[n] is pc[n]:
            n += 1
        if len(self.cur) > n:
            self.s.pop(len(self.cur) - n)
            del self.cur[n:]
        for f in pc[n:]:
            self.s.push()
            self.s.add(f)
            self.cur.append(f)

    def check(self, pc, extra):
        self.sync(pc)
        self.s.push()
        for e in extra:
            self.s.add(e)
        r = self.s.check()
        self.model = self.s.model() if r == z3.sat else None
        self.s.pop()
        return r


class State:
    __slots__ = ('env', 'pc', 'qpc', 'mem', 'claims', 'caps', 'trace', 'unbound', 'locals', 'ghosts', 'heap')

    def __init__(self):
        self.env, self.pc, self.qpc, self.mem = {}, [], [], {}
        self.claims, self.caps, self.trace, self.unbound, self.locals = [], [], [], [], []
        self.heap = []
        self.ghosts = {}

    def copy(self):
        s = State()
        s.env, s.pc, s.qpc, s.mem = dict(self.env), list(self.pc), list(self.qpc), dict(self.mem)
        s.claims, s.caps, s.trace, s.unbound = list(self.claims), list(self.caps), list(self.trace), list(self.unbound)
        s.locals = list(self.locals)
        s.heap = list(self.heap)
        s.ghosts = dict(self.ghosts)
        return s

    def assume(self, f):
        if z3.is_true(f):
            return
        self.pc.append(f)
        if not has_quant(f):
            self.qpc.append(f)


class M:
    """read access to one memory snapshot, for contracts"""

    def __init__(self, eng, mem):
        self.e, self.mem = eng, mem

    def _key(self, spec, part=None):
        s, f = spec.split('.')
        off, ct = self.e.prog.field(s, f)
        k = ct[0]
        if k == 'ptr':
            return ('S', s, off, part or 'obj'), I
        if k == 'float':
            return ('S', s, off, 'fp'), FP
        return ('S', s, off, 'int'), I

    def get(self, spec, o, part=None):
        key, srt = self._key(spec, part)
        return self.e.rd(self.e.memget(self.mem, key), o)

    i = get
    p = get
    f = get

    def poff(self, spec, o):
        return self.get(spec, o, 'off')

    def row(self, o):
        return self.e.rd(self.e.memget(self.mem, ('C',)), o)

    def cell(self, o, i):
        return z3.Select(self.row(o), i)

    def live(self, o):
        return z3.Select(self.e.memget(self.mem, ('L',)), o)

    def garr(self, spec, part=None):
        key, srt = self._key(spec, part)
        return self.e.memget(self.mem, key)


class Ctx:
    """what a contract sees: arguments, entry memory m0, exit memory m1, result"""

    def __init__(self, eng, st, args, mode, mem0):
        self.e, self.st, self.a, self.mode = eng, st, args, mode
        self.m0 = M(eng, mem0)
        self.m1 = None
        self.ret = None
        self.mods = []          # verify mode: (key, obj)
        self.g = {}             # ghost values shared between clauses
        self.case = None        # the outcome under consideration

    def new(self, name, nbytes=None):
        """call mode: a freshly allocated object"""
        o = self.e.new_object(self.st, name, nbytes)
        self.m1 = M(self.e, self.st.mem)
        return o

    def grow(self, structs):
        """call mode: any number of new objects with cells and structures of the given types; existing memory keeps its contents"""
        e, st = self.e, self.st
        L0 = e.memget(st.mem, ('L',))
        known = []
        for x in list(st.heap) + list(st.locals) + [z3.simplify(x) for x, _ in st.claims]:
            if not any(x.eq(y) for y in known) and e.quick(st, z3.Select(L0, x)):
                known.append(x)
        x = z3.Int('gx')
        for key in [('C',), ('L',)] + [('S', s, off, part) for s in structs for off, _, n, ct in e.prog.fields[s] if ct[0] in ('int', 'ptr', 'float')
                                       for part in {'int': ('int',), 'float': ('fp',), 'ptr': ('obj', 'off')}[ct[0]]]:
            old = e.memget(st.mem, key)
            a = fresh('grown_' + '_'.join(str(z) for z in key[:3]), old.sort())
            if e.tidy:
                st.assume(forall([x], z3.Implies(z3.Or(x < 0, z3.Select(L0, x)), z3.Select(a, x) == z3.Select(old, x)), [z3.Select(a, x)]))
                for y in known:
                    a = e.wr(a, y, e.rd(old, y))
            st.assume(forall([x], z3.Implies(z3.Or(x < 0, z3.Select(L0, x)), z3.Select(a, x) == z3.Select(old, x)), [z3.Select(a, x)]))
            e.memset(st, key, a, None)
        self.m1 = M(e, st.mem)

    # memory written by the function; the same clause havocs in call mode and declares the frame in verify mode
    def mod(self, key, obj, srt=None):
        if self.mode == 'verify':
            self.mods.append((key, obj))
        else:
            arr = self.e.memget(self.st.mem, key)
            self.e.memset(self.st, key, z3.Store(arr, obj, fresh('hv', arr.sort().range())), obj)

    def mod_field(self, spec, obj):
        s, f = spec.split('.')
        off, ct = self.e.prog.field(s, f)
        if ct[0] == 'ptr':
            self.mod(('S', s, off, 'obj'), obj)
            self.mod(('S', s, off, 'off'), obj)
        else:
            key, srt = self.m0._key(spec)
            self.mod(key, obj)
            if self.mode == 'call' and ct[0] == 'int':
                self.e.assume_int_range(self.st, self.m1.get(spec, obj), ct[1], ct[2])

    def mod_fields(self, sname, obj, only=None, but=()):
        for (o, s, n, ct) in self.e.prog.fields[sname]:
            if ct[0] in ('int', 'ptr', 'float') and (only is None or n in only) and n not in but:
                self.mod_field('%s.%s' % (sname, n), obj)

    def mod_row(self, obj):
        self.mod(('C',), obj)

    def mod_live(self, obj):
        self.mod(('L',), obj)


class ContractFailure(Exception):
    pass


class Engine:
    def __init__(self, prog, contracts, fname, opts=None):
        self.prog, self.contracts, self.fname = prog, contracts, fname
        self.opts = opts or {}
        self.obs = []
        con = contracts.get(fname)
        self.effort = max(self.opts.get('effort', 1), getattr(con, 'min_effort', 0))     # 0: no expensive retries while invariants are searched
        self.retry = getattr(con, 'retry', False)            # ask a fresh solver too while invariants are searched
        self.anchored = []
        self.strict = getattr(con, 'strict', False)          # frames speak of an element through its object only
        self.tidy = getattr(con, 'tidy', False)              # keep memory terms small: one write per object, reads past other objects
        self.distinct = set()                                # pairs of objects shown to be distinct when the younger was created
        self.full = Sync(self.opts.get('timeout', 6000) if self.effort else 2000)
        if not self.opts.get('mbqi', self.effort > 0):
            self.full.s.set('mbqi', False)
        self.qf = Sync(1500)
        self.record = True
        self.writes = None
        self.depth = 0
        self.loopcache = {}
        self.inv_count = 0
        self.line = None
        self.infos = []
        self.params_terms = {}
        self.deadline = time.time() + self.opts.get('budget', 600)
        self.ctx = None
        self.contract = None
        self.axioms = []
        self.nq = 0
        self.used_contracts = set()
        self.used_externs = set()
        self.inlined = set()
        self.mem0keys = {}
        self.loops_done = 0
        self.weak = 0
        self.cut = []
        self.boundlog = []

    # ------------------------------------------------------------ memory
    def keysort(self, key):
        if key[0] == 'C':
            return Row
        if key[0] == 'L':
            return B
        if key[0] == 'S':
            return FP if key[3] == 'fp' else I
        if key[0] in ('G', 'H'):
            return key[2]
        raise KeyError(key)

    def memget(self, mem, key):
        if key not in mem:
            # the initial version of a map is shared by all states of the run
            if key not in self.mem0keys:
                if key[0] == 'G':
                    self.mem0keys[key] = z3.Const('G_%s' % key[1], key[2])
                else:
                    self.mem0keys[key] = z3.Const('M0_' + '_'.join(str(x) for x in key), z3.ArraySort(I, self.keysort(key)))
            return self.mem0keys[key]
        return mem[key]

    def memset(self, st, key, v, obj=None):
        st.mem[key] = v
        if self.writes is not None:
            self.writes.setdefault(key, []).append(obj)

    # ------------------------------------------------------------ proving
    def assume_int_range(self, st, t, bits, signed):
        if signed:
            st.assume(z3.And(t >= -(1 << (bits - 1)), t < (1 << (bits - 1))))
        else:
            st.assume(z3.And(t >= 0, t < (1 << bits)))

    def quick(self, st, cond):
        """is cond implied by the quantifier-free facts? (used for canonicalisation only)"""
        if z3.is_true(z3.simplify(cond)):
            return True
        self.nq += 1
        return self.qf.check(st.qpc, [z3.Not(cond)]) == z3.unsat

    def quick2(self, st, cond):
        if self.quick(st, cond):
            return True
        if not any(has_quant(f) for f in st.pc):
            return False
        return self.full.check(st.pc, [z3.Not(cond)]) == z3.unsat

    def feasible(self, st, cond, site=None):
        c = z3.simplify(cond)
        if z3.is_false(c):
            return False
        self.nq += 1
        r = self.qf.check(st.qpc, [cond])
        if r == z3.unsat:
            return False
        tried = self.__dict__.setdefault('feas_open', {})
        if len(st.qpc) != len(st.pc) and not self.weak and (self.record or tried.get(site, 0) < 2):
            old = self.full.timeout
            self.full.s.set('timeout', 1500 if self.effort else 300)
            r = self.full.check(st.pc, [cond])
            self.full.s.set('timeout', old)
            if site is not None:         # branches that were never refuted are not tried over and over while invariants are looked for
                tried[site] = -10 ** 6 if r == z3.unsat else tried.get(site, 0) + 1
        return r != z3.unsat

    def valid(self, st, goal, want_model=False, heavy=True):
        t0 = time.time()
        r = self.valid_(st, goal, want_model, heavy)
        if os.environ.get('DV_SLOW') and time.time() - t0 > 1:
            print('SLOW %.1f' % (time.time() - t0), r[:2], 'heavy', heavy, str(goal)[:300].replace(chr(10), ' '))
        return r

    def valid_(self, st, goal, want_model=False, heavy=True):
        """-> (proved?, backend, detail)"""
        g = z3.simplify(goal)
        if z3.is_true(g):
            return True, 'simplifier', None
        neg = z3.Not(goal)
        self.nq += 1
        if not has_quant(goal) and self.qf.check(st.qpc, [neg]) == z3.unsat:
            return True, 'z3', None
        r = self.full.check(st.pc, [neg])
        if r == z3.unsat:
            return True, 'z3', None
        if not heavy or (self.effort == 0 and self.houdini_depth and not self.record):
            if not self.retry:
                return False, 'z3', str(r)
            s = z3.Solver()                  # the incremental solver may be confused by what it has seen before
            s.set('timeout', 2000)
            s.set('mbqi', False)
            s.add(*st.pc)
            s.add(neg)
            r = s.check()
            if r == z3.unsat:
                return True, 'z3', None
            return self.retry > 1 and self.oldz3(st, neg, 4), 'z3-4.8', str(r)
        # a fresh, non-incremental solver with other settings, then cvc5
        for seed in (7, 23):
            if seed == 23 and self.retry > 1 and self.oldz3(st, neg, 6):
                return True, 'z3-4.8', None
            s = z3.Solver()
            s.set('timeout', self.opts.get('timeout', 6000))
            s.set('random_seed', seed)
            s.set('mbqi', False)
            s.add(*st.pc)
            s.add(neg)
            r = s.check()
            if r == z3.unsat:
                return True, 'z3', None
            if r == z3.sat:
                break
        if self.opts.get('cvc5', True):
            if self.cvc5(st, neg):
                return True, 'cvc5', None
        return False, 'z3+cvc5', str(r)

    def oldz3(self, st, neg, secs):
        """the other installed release of z3, as a program of its own"""
        s = z3.Solver()
        s.add(*st.pc)
        s.add(neg)
        fd, fn = tempfile.mkstemp(suffix='.smt2')
        try:
            os.write(fd, s.to_smt2().encode())
            os.close(fd)
            p = subprocess.run(['/usr/bin/z3', '-T:%d' % secs, fn], capture_output=True, text=True, timeout=60)
            return p.stdout.strip().startswith('unsat')
        except Exception:
            return False
        finally:
            os.unlink(fn)

    def cvc5(self, st, neg):
        s = z3.Solver()
        s.add(*st.pc)
        s.add(neg)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        fd, fn = tempfile.mkstemp(suffix='.smt2')
        try:
            os.write(fd, txt.encode())
            os.close(fd)
            p = subprocess.run(['cvc5', '--tlimit=%d' % self.opts.get('timeout', 6000), fn], capture_output=True, text=True,
                               timeout=60)
            return p.stdout.strip().startswith('unsat')
        except Exception:
            return False
        finally:
            os.unlink(fn)

    def hints(self, st, goal):
        """integer values of a (candidate) counterexample, handed to the input search"""
        s = z3.Solver()
        s.set('timeout', 2000)
        s.add(*st.qpc)
        if not has_quant(goal):
            s.add(z3.Not(goal))
        if s.check() != z3.sat:
            return None
        m = s.model()
        out = {}
        for k, t in self.params_terms.items():
            v = m.eval(t, model_completion=False)
            if z3.is_int_value(v):
                out[k] = v.as_long()
        return out

    def oblige(self, st, goal, kind, label, line=None):
        if not self.record:
            return
        if z3.is_and(goal) and goal.num_args() > 1:
            for k, g in enumerate(goal.children()):
                self.oblige(st, g, kind, '%s/%d' % (label, k + 1), line)
            return
        if z3.is_implies(goal) and z3.is_and(goal.arg(1)) and goal.arg(1).num_args() > 1:
            for k, g in enumerate(goal.arg(1).children()):
                self.oblige(st, z3.Implies(goal.arg(0), g), kind, '%s/%d' % (label, k + 1), line)
            return
        if z3.is_true(z3.simplify(goal)):
            ob = Ob(self.fname, kind, label, line if line is not None else self.line)
            ob.ok, ob.backend = True, 'simplifier'
            self.obs.append(ob)
            return
        t0 = time.time()
        ob = Ob(self.fname, kind, label, line if line is not None else self.line)
        ob.ok, ob.backend, ob.detail = self.valid(st, goal, heavy=time.time() < self.deadline)
        ob.time = time.time() - t0
        if not ob.ok:
            ob.hints = self.hints(st, goal)
            if os.environ.get('DV_DEBUG'):
                print('FAILED', ob.name(), 'goal:', goal)
                print('  trace', st.trace)
        self.obs.append(ob)

    # ------------------------------------------------------------ integers
    def U(self, st, v):
        if isinstance(v, BoolV):
            return z3.If(v.t, z3.IntVal(1), z3.IntVal(0))
        if v.rng in ('u', 'b'):
            return v.t
        hi = 1 << v.n
        if z3.is_int_value(v.t):
            return z3.IntVal(v.t.as_long() % hi)
        if self.quick(st, z3.And(v.t >= 0, v.t < hi)):
            v.rng = v.rng or 'u'
            return v.t
        if v.rng == 's':
            return z3.If(v.t < 0, v.t + hi, v.t)
        if self.quick(st, z3.And(v.t >= -hi, v.t < 2 * hi)):
            return z3.If(v.t < 0, v.t + hi, z3.If(v.t >= hi, v.t - hi, v.t))
        return v.t % hi

    def S(self, st, v):
        if isinstance(v, BoolV):
            return z3.If(v.t, z3.IntVal(-1), z3.IntVal(0))
        if v.rng in ('s', 'b'):
            return v.t
        hi = 1 << v.n
        half = hi >> 1
        if z3.is_int_value(v.t):
            x = v.t.as_long() % hi
            return z3.IntVal(x - hi if x >= half else x)
        if self.quick(st, z3.And(v.t >= -half, v.t < half)):
            v.rng = v.rng or 's'
            return v.t
        if v.rng == 'u':
            return z3.If(v.t >= half, v.t - hi, v.t)
        if self.quick(st, z3.And(v.t >= -hi, v.t < hi)):
            return z3.If(v.t >= half, v.t - hi, z3.If(v.t < -half, v.t + hi, v.t))
        return (v.t + half) % hi - half

    # ------------------------------------------------------------ strides
    def claim(self, st, obj, s):
        s = s if z3.is_expr(s) else z3.IntVal(s)
        for (o, x) in st.claims:
            if o.eq(obj):
                return
        st.claims.append((obj, s))

    def stride_of(self, st, obj, default=None, line=None):
        """the element size under which obj is viewed; obliges Stride(obj) to agree"""
        obj = z3.simplify(obj)
        for (o, s) in st.claims:
            if o.eq(obj):
                return s
        for k, (o, n) in enumerate(st.unbound):
            if o.eq(obj):
                if default is None:
                    return None
                s = default if z3.is_expr(default) else z3.IntVal(default)
                d = divide(n, s)
                if d is None and self.quick2(st, n == s):
                    d = (z3.IntVal(1), 0)
                if d is None:
                    raise Unsupported('allocation of %s bytes viewed in elements of %s' % (n, s))
                st.assume(Stride(obj) == s)
                st.assume(Len(obj) == d[0])
                st.unbound = st.unbound[:k] + st.unbound[k + 1:]
                st.claims.append((obj, s))
                self.boundlog.append((obj, s))
                if not z3.is_int_value(s):
                    self.add_cap(st, d[0], s)
                return s
        # is it provably equal to an object with a known view?
        for (o, s) in reversed(st.claims):
            if self.quick(st, o == obj):
                st.claims.append((obj, s))
                return s
        if default is not None:
            s = default if z3.is_expr(default) else z3.IntVal(default)
            self.oblige(st, Stride(obj) == s, 'mem', 'element size')
            if not self.record or True:
                st.claims.append((obj, s))
                st.assume(Stride(obj) == s)
            return s
        return None

    def add_cap(self, st, cap, s):
        for (c, t) in st.caps:
            if c.eq(cap) and t.eq(s):
                return
        st.caps.append((cap, s))
        st.assume(z3.Implies(z3.And(cap >= 0, s >= 1), z3.And(cap * s >= cap, cap * s >= s * z3.If(cap >= 1, 1, 0))))

    def mul_lemma(self, st, a, b):
        """0<=a<=cap -> 0<=a*s<=cap*s for each known capacity of stride s (true in every model)"""
        for x, y in ((a, b), (b, a)):
            for cap, s in st.caps:
                if s.eq(y):
                    st.assume(z3.Implies(z3.And(x >= 0, x <= cap, s >= 0), z3.And(x * s >= 0, x * s <= cap * s)))
                    if not x.eq(cap):
                        st.assume(z3.Implies(z3.And(x >= 0, x <= 4 * cap, s >= 0), z3.And(x * s >= 0, x * s <= 4 * (cap * s))))

    # ------------------------------------------------------------ memory access
    def check_live(self, st, obj, what):
        self.oblige(st, z3.And(obj > 0, self.M(st).live(obj)), 'mem', what + ' of live memory')

    def M(self, st):
        return M(self, st.mem)

    def mem_fields(self, st, sname, o):
        pass

    def struct_index(self, st, obj, base):
        base = z3.simplify(base)
        if z3.is_int_value(base) and base.as_long() == 0:
            return obj
        t = At(obj, base)
        st.assume(z3.And(AtB(t) == obj, AtO(t) == base))
        if not z3.is_int_value(base):
            st.assume(z3.Implies(base == 0, t == obj))
            st.assume(z3.Implies(base != 0, t < -2000000))   # interior struct ids are disjoint from object ids
        else:
            st.assume(t < -2000000)
        return t

    def resolve(self, st, t):
        """a field of a new object, read past writes to other objects"""
        t = z3.simplify(t)
        while self.tidy and z3.is_select(t) and z3.is_store(t.arg(0)):
            a, i, v = t.arg(0).children()
            ix = t.arg(1)
            if i.eq(ix):
                t = z3.simplify(v)
            elif z3.is_const(i) and z3.is_const(ix) and self.quick(st, i != ix):
                t = z3.simplify(z3.Select(a, ix))
            else:
                break
        return t

    def load(self, st, p, ty):
        if isinstance(p, UndefV):
            raise Unsupported('load through undef')
        sz = self.prog.sizeof(ty)
        if p.fld is not None:
            sname, base, fo = p.fld
            fa = self.prog.field_at(sname, fo)
            if fa is None:
                raise Unsupported('no field at %s+%d' % (sname, fo))
            ct = fa[1]
            self.check_live(st, p.obj, 'load')
            self.oblige(st, z3.And(base >= 0, base + self.prog.csize(sname) <= Bytes(p.obj)), 'mem', 'field %s.%s in bounds' % (sname, fa[0]))
            ix = self.struct_index(st, p.obj, base)
            if ty == ('ptr',) and ct[0] == 'ptr':
                o = self.resolve(st, z3.Select(self.memget(st.mem, ('S', sname, fo, 'obj')), ix))
                f = self.resolve(st, z3.Select(self.memget(st.mem, ('S', sname, fo, 'off')), ix))
                f = self.zero_off(st, f)
                pv = PtrV(o, f)
                self.on_ptr_load(st, sname, fa[0], ix, pv)
                return pv
            if ty[0] == 'f' and ct == ('float', ty[1]):
                return FpV(z3.simplify(z3.Select(self.memget(st.mem, ('S', sname, fo, 'fp')), ix)), ty[1])
            if ty[0] == 'i' and ct[0] == 'int' and ct[1] == ty[1]:
                t = self.resolve(st, z3.Select(self.memget(st.mem, ('S', sname, fo, 'int')), ix))
                if not z3.is_int_value(t):
                    self.assume_int_range(st, t, ct[1], ct[2])
                return IntV(t, ty[1], 's' if ct[2] else 'u')
            raise Unsupported('load of %r from field %s.%s' % (ty, sname, fa[0]))
        # raw (cell) access
        q, s = self.cell_index(st, p, sz)
        self.check_live(st, p.obj, 'load')
        self.oblige(st, z3.And(q >= 0, q < Len(p.obj)), 'mem', 'load in bounds')
        c = z3.Select(self.rd(self.memget(st.mem, ('C',)), p.obj), q)
        c = z3.simplify(c)
        return self.cell_value(st, c, ty)

    def cell_value(self, st, c, ty):
        if ty[0] == 'i':
            if ty[1] == 1:
                raise Unsupported('i1 in memory')
            t = asI[ty[1]](c)
            st.assume(z3.And(t >= 0, t < (1 << ty[1])))
            return IntV(t, ty[1], 'u')
        if ty[0] == 'f':
            return FpV(asF[ty[1]](c), ty[1])
        if ty[0] == 'ptr':
            return PtrV(asP(c), self.zero_off(st, asPo(c)))
        raise Unsupported('cell of type %r' % (ty,))

    def mk_cell(self, st, v, ty):
        if ty[0] == 'i':
            u = self.U(st, v)
            c = mkI[ty[1]](u)
            st.assume(asI[ty[1]](c) == u)
            return c
        if ty[0] == 'f':
            c = mkF[ty[1]](v.t)
            st.assume(asF[ty[1]](c) == v.t)
            return c
        if ty[0] == 'ptr':
            c = mkP(v.obj, v.off)
            st.assume(z3.And(asP(c) == v.obj, asPo(c) == v.off))
            return c
        raise Unsupported('cell of type %r' % (ty,))

    def cell_index(self, st, p, size):
        """element index of p in its object, given an access of `size` bytes (must be exactly one element)"""
        s = self.stride_of(st, p.obj, size)
        d = divide(p.off, s)
        if d is None or d[1] != 0:
            if not self.weak:
                off = self.canon_off(st, p.off)
                d = divide(off, s) if off is not None else None
            if d is None or d[1] != 0:
                if os.environ.get('DV_DEBUG'): print('OFFSET', p.off, 'stride', s, 'rec', self.record)
                self.oblige(st, z3.BoolVal(False), 'mem', 'address is a whole element')
                d = (fresh('q'), 0)
                st.assume(z3.And(d[0] >= 0, d[0] < Len(p.obj)))
        if not (z3.is_expr(size) and size.eq(s)):
            szt = size if z3.is_expr(size) else z3.IntVal(size)
            self.oblige(st, szt == s, 'mem', 'access covers one element')
        return d[0], s

    def canon_off(self, st, off):
        """resolve If-terms of an offset whose condition is decided"""
        t = z3.simplify(off)
        for _ in range(40):
            c = self.find_if(t)
            if c is None:
                return t
            if self.quick2(st, c.arg(0)):
                t = z3.simplify(z3.substitute(t, (c, c.arg(1))), som=True)
            elif self.quick2(st, z3.Not(c.arg(0))):
                t = z3.simplify(z3.substitute(t, (c, c.arg(2))), som=True)
            else:
                return None
        return None

    def find_if(self, t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            return t
        for x in t.children():
            r = self.find_if(x)
            if r is not None:
                return r
        return None

    def store(self, st, p, v, ty):
        sz = self.prog.sizeof(ty)
        if isinstance(v, UndefV):
            v = self.havoc_value('undef', ty)
        if p.fld is not None:
            sname, base, fo = p.fld
            fa = self.prog.field_at(sname, fo)
            if fa is None:
                raise Unsupported('no field at %s+%d' % (sname, fo))
            ct = fa[1]
            self.check_live(st, p.obj, 'store')
            self.oblige(st, z3.And(base >= 0, base + self.prog.csize(sname) <= Bytes(p.obj)), 'mem', 'field %s.%s in bounds' % (sname, fa[0]))
            ix = self.struct_index(st, p.obj, base)
            if ty == ('ptr',) and ct[0] == 'ptr':
                for part, t in (('obj', v.obj), ('off', v.off)):
                    k = ('S', sname, fo, part)
                    self.memset(st, k, self.wr(self.memget(st.mem, k), ix, t), ix)
                return
            if ty[0] == 'f' and ct == ('float', ty[1]):
                k = ('S', sname, fo, 'fp')
                self.memset(st, k, self.wr(self.memget(st.mem, k), ix, v.t), ix)
                return
            if ty[0] == 'i' and ct[0] == 'int' and ct[1] == ty[1]:
                k = ('S', sname, fo, 'int')
                t = self.S(st, v) if ct[2] else self.U(st, v)
                self.memset(st, k, self.wr(self.memget(st.mem, k), ix, t), ix)
                return
            raise Unsupported('store of %r to field %s.%s' % (ty, sname, fa[0]))
        q, s = self.cell_index(st, p, sz)
        self.check_live(st, p.obj, 'store')
        self.oblige(st, z3.And(q >= 0, q < Len(p.obj)), 'mem', 'store in bounds')
        c = self.mk_cell(st, v, ty)
        C = self.memget(st.mem, ('C',))
        self.memset(st, ('C',), self.wr(C, p.obj, z3.Store(self.rd(C, p.obj), q, c)), p.obj)
        if self.contract is not None:    # ghost code attached to the store
            self.contract.on_store(self.ctx, st, p.obj, q, v, ty)

    def zero_off(self, st, f):
        if z3.is_int_value(f):
            return f
        if self.quick(st, f == 0):
            return z3.IntVal(0)
        if self.weak:
            return z3.IntVal(0)      # only writes are collected; the real run checks that no write was missed
        if len(st.qpc) != len(st.pc):
            self.full.s.set('timeout', 800)
            r = self.full.check(st.pc, [f != 0])
            self.full.s.set('timeout', self.full.timeout)
            if r == z3.unsat:
                return z3.IntVal(0)
        return f

    def on_ptr_load(self, st, sname, fname, ix, pv):
        if sname == 'ArrayList' and fname == 'data':
            step = z3.simplify(self.M(st).get('ArrayList.step', ix))
            if z3.is_select(step) and (z3.is_store(step.arg(0)) or str(step.arg(0)).startswith('lm_')):       # lists were made since: which one is this?
                for n in (4, 8):
                    if self.quick2(st, step == n):
                        step = z3.IntVal(n)
                        break
            if not any(o.eq(pv.obj) for o, _ in st.claims):
                for (o, n) in st.unbound:
                    if o.eq(pv.obj):
                        self.stride_of(st, pv.obj, step)
                        return
                # the list invariant gives Stride(data) == step
                self.oblige(st, z3.Implies(pv.obj > 0, Stride(pv.obj) == step), 'mem', 'list data element size')
                st.assume(z3.Implies(pv.obj > 0, Stride(pv.obj) == step))
                st.claims.append((pv.obj, step))
                mx = z3.simplify(self.M(st).get('ArrayList.max_size', ix))
                if not z3.is_int_value(step):
                    self.add_cap(st, mx, step)

    # ------------------------------------------------------------ memory terms
    def apart(self, x, y):
        return self.tidy and frozenset((x.get_id(), y.get_id())) in self.distinct

    def rd(self, a, ix):
        if not self.tidy:
            return z3.Select(a, ix)
        ix = z3.simplify(ix)
        while z3.is_store(a):
            i = a.arg(1)
            if i.eq(ix):
                return a.arg(2)
            if not self.apart(i, ix):
                break
            a = a.arg(0)
        return z3.Select(a, ix)

    def wr(self, a, ix, v):
        if not self.tidy:
            return z3.Store(a, ix, v)
        ix = z3.simplify(ix)
        outer, b = [], a
        while z3.is_store(b):
            i = b.arg(1)
            if i.eq(ix):
                b = b.arg(0)
                for j, w in reversed(outer):
                    b = z3.Store(b, j, w)
                return z3.Store(b, ix, v)
            if not self.apart(i, ix):
                break
            outer.append((i, b.arg(2)))
            b = b.arg(0)
        return z3.Store(a, ix, v)

    def keep_apart(self, st, o, ask=None):
        """o is new: record which known objects it differs from (its constant occurs in no state that is not descended from this one)"""
        if not self.tidy:
            return
        self.keep = getattr(self, 'keep', [])
        for x in list(st.heap) + list(st.locals) + [x for x, _ in st.claims]:
            if z3.is_const(x) or z3.is_select(x):
                if not x.eq(o) and frozenset((x.get_id(), o.get_id())) not in self.distinct and (ask or self.quick)(st, x != o):
                    self.distinct.add(frozenset((x.get_id(), o.get_id())))
                    self.keep += [x, o]          # (ids must stay taken)

    # ------------------------------------------------------------ allocation
    def new_object(self, st, name, nbytes):
        o = fresh(name)
        L = self.memget(st.mem, ('L',))
        st.assume(z3.And(o > 0, z3.Not(z3.Select(L, o))))
        self.keep_apart(st, o)
        self.memset(st, ('L',), z3.Store(L, o, z3.BoolVal(True)), o)
        st.heap.append(o)
        if nbytes is not None:
            st.assume(Bytes(o) == nbytes)
            if os.environ.get('DV_DEBUG'): print('alloc', z3.simplify(nbytes) if z3.is_expr(nbytes) else nbytes)
            nb = z3.simplify(nbytes) if z3.is_expr(nbytes) else z3.IntVal(nbytes)
            if not z3.is_int_value(nb):
                st.assume(z3.And(nb >= 0, nb <= (1 << 47)))     # a successful allocation fits the address space
        return o

    def alloc(self, st, name, nbytes):
        o = self.new_object(st, name, nbytes)
        st.unbound.append((o, nbytes))
        return PtrV(o, 0)

    def kill(self, st, o):
        self.memset(st, ('L',), z3.Store(self.memget(st.mem, ('L',)), o, z3.BoolVal(False)), o)

    # ------------------------------------------------------------ expression evaluation
    def ev(self, fr, st, x, ty):
        k = x[0]
        if k == 'local':
            v = st.env.get((fr.id, x[1]))
            if v is None:
                raise Unsupported('undefined register %' + x[1])
            return v
        if k == 'int':
            if ty == ('i', 1):
                return BoolV(z3.BoolVal(bool(x[1])))
            return IntV(x[1], ty[1])
        if k == 'fp':
            return FpV(self.fconst(st, x[1], ty[1]), ty[1])
        if k == 'null':
            return NULL
        if k == 'undef':
            return self.havoc_value('undef', ty)
        if k == 'zero':
            if ty[0] == 'f':
                return FpV(self.fconst(st, 0.0, ty[1]), ty[1])
            raise Unsupported('zeroinitializer')
        if k == 'glob':
            return self.global_ptr(fr, st, x[1])
        if k == 'cgep':
            base = self.ev(fr, st, x[2], ('ptr',))
            return self.gep(fr, st, x[1], base, [(t, self.ev(fr, st, v, t)) for t, v in x[3]])
        raise Unsupported('operand %r' % (x,))

    def fconst(self, st, v, n):
        import math
        import fractions
        nm = 'f%d_%s' % (n, v.hex() if v == v else 'nan')
        c = z3.Const(nm, FP)
        key = ('fc', nm)
        if key not in [a[0] for a in self.axioms]:
            ax = []
            if v != v:
                ax.append(nan(c))
            else:
                ax.append(z3.Not(nan(c)))
                if math.isinf(v):
                    ax.append(val(c) == (z3.RealVal(2) ** 1100 if v > 0 else -(z3.RealVal(2) ** 1100)))
                else:
                    fr = fractions.Fraction(v)
                    ax.append(val(c) == z3.Q(fr.numerator, fr.denominator))
            self.axioms.append((key, z3.And(*ax)))
        f = [a[1] for a in self.axioms if a[0] == key][0]
        if not any(g is f for g in st.pc):
            st.assume(f)
        return c

    def global_ptr(self, fr, st, name):
        if self.prog.func(name, fr.fn.module) is not None or any(name in m.decls for m in self.prog.modules):
            return PtrV(self.prog.fnid(name), 0)
        decl = fr.fn.module.globals.get(name)
        if decl is None:
            raise Unsupported('global @' + name)
        gid = self.prog.fnid('@' + fr.fn.module.name + ':' + name)
        o = z3.IntVal(gid)
        return PtrV(o, 0, ('@global', name, fr.fn.module))

    def gep(self, fr, st, bt, base, idx):
        if base.fld is not None and base.fld[0] == '@global':
            return PtrV(base.obj, base.off + sum_terms([self.S(st, v) * self.prog.sizeof(bt) for t, v in idx[:1]]), base.fld)
        off = base.off
        t0, v0 = idx[0]
        i0 = self.S(st, v0)
        sz = self.prog.sizeof(bt)
        step = i0 * sz if not (z3.is_int_value(i0) and i0.as_long() == 0) else z3.IntVal(0)
        off = z3.simplify(off + step, som=True)
        fld = None
        if bt[0] == 'struct' and len(idx) == 1:
            return PtrV(base.obj, off)
        ty = bt
        sbase = off
        sname = None
        for t, v in idx[1:]:
            iv = self.S(st, v)
            if ty[0] == 'struct':
                k = iv.as_long()
                sname = re.sub(r'\.\d+$', '', ty[1][7:] if ty[1].startswith('struct.') else ty[1])
                sbase = off
                ts = self.prog.llstructs[ty[1]]
                fo = self.prog.field_off(ts, k)
                off = z3.simplify(off + fo)
                ty = ts[k]
                fld = (sname, sbase, fo)
            elif ty[0] == 'arr':
                off = z3.simplify(off + iv * self.prog.sizeof(ty[2]), som=True)
                ty = ty[2]
                fld = None
            else:
                raise Unsupported('gep into %r' % (ty,))
        if fld is not None and ty[0] in ('struct', 'arr'):
            fld = None       # pointer to an embedded struct: viewed through its own type
        return PtrV(base.obj, off, fld)

    def havoc_value(self, name, ty):
        if ty == ('i', 1):
            return BoolV(fresh(name, B))
        if ty[0] == 'i':
            return IntV(fresh(name), ty[1])
        if ty[0] == 'f':
            return FpV(fresh(name, FP), ty[1])
        if ty[0] == 'ptr':
            return PtrV(fresh(name), fresh(name + '_off'))
        raise Unsupported('havoc of %r' % (ty,))

    # ------------------------------------------------------------ floating point (uninterpreted, ordered)
    FOPS = {}

    def fop(self, name, *args):
        key = (name, len(args))
        if key not in self.FOPS:
            self.FOPS[key] = z3.Function(name, *([a.sort() for a in args] + [FP]))
        return self.FOPS[key](*args)

    def fcmp(self, pred, a, b):
        na, nb = nan(a), nan(b)
        if a.eq(b):
            o = {'oeq': z3.Not(na), 'oge': z3.Not(na), 'ole': z3.Not(na), 'ogt': z3.BoolVal(False), 'olt': z3.BoolVal(False),
                 'one': z3.BoolVal(False), 'une': na, 'ueq': z3.BoolVal(True), 'ord': z3.Not(na), 'uno': na,
                 'ult': na, 'ugt': na, 'uge': z3.BoolVal(True), 'ule': z3.BoolVal(True)}
            return o[pred]
        va, vb = val(a), val(b)
        rel = {'eq': va == vb, 'ne': va != vb, 'lt': va < vb, 'gt': va > vb, 'le': va <= vb, 'ge': va >= vb}
        if pred == 'ord':
            return z3.And(z3.Not(na), z3.Not(nb))
        if pred == 'uno':
            return z3.Or(na, nb)
        if pred[0] == 'o':
            return z3.And(z3.Not(na), z3.Not(nb), rel[pred[1:]])
        return z3.Or(na, nb, rel[pred[1:]])


def sum_terms(ts):
    r = z3.IntVal(0)
    for t in ts:
        r = r + t
    return r


class Frame:
    _n = itertools.count()

    def __init__(self, fn, path):
        self.fn, self.id, self.path = fn, next(Frame._n), path
