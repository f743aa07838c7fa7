"""Symbolic execution of one function: paths, loops (Houdini), calls (contracts / inlining / externs)."""
import itertools, os, re, time
import z3
from .ir import Unsupported
from . import engine
from .engine import (Engine, State, Frame, IntV, BoolV, FpV, PtrV, UndefV, NULL, Ctx, M, Ob, Sync, fresh, forall,
                     has_quant, consts_of, divide, I, B, FP, Cell, Row, Stride, Len, Bytes, At, AtB, AtO, asI, asF, asP,
                     asPo, mkI, mkF, mkP, ZeroCell, val, nan, cmpf, hashf, sum_terms)

SKIP_CALLS = {'printf', 'puts', 'putchar', 'sprintf', 'snprintf', 'fprintf', 'logger_write', 'fflush', 'llvm.assume'}
DMAX = z3.Q(*(1.7976931348623157e308).as_integer_ratio())
Seen = z3.Function('Seen', Cell, B)
DEBUG = os.environ.get('DV_DEBUG')


def loops_of(fn):
    """natural loops: header -> set of blocks; requires reducible control flow"""
    if hasattr(fn, '_loops'):
        return fn._loops
    order, seen = [], set()

    def dfs(b):
        stack = [(b, iter(fn.succs(b)))]
        seen.add(b)
        while stack:
            x, it = stack[-1]
            for y in it:
                if y not in seen:
                    seen.add(y)
                    stack.append((y, iter(fn.succs(y))))
                    break
            else:
                order.append(x)
                stack.pop()
    entry = fn.order[0]
    dfs(entry)
    rpo = order[::-1]
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in fn.succs(b):
            preds[s].append(b)
    dom = {b: set(rpo) for b in rpo}
    dom[entry] = {entry}
    ch = True
    while ch:
        ch = False
        for b in rpo[1:]:
            ps = [dom[p] for p in preds[b]]
            d = set.intersection(*ps) | {b} if ps else {b}
            if d != dom[b]:
                dom[b] = d
                ch = True
    loops = {}
    for b in rpo:
        for s in fn.succs(b):
            if s in dom[b]:
                body = loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work += preds[x]
    # irreducible edge: a retreating edge to a non-dominator
    idx = {b: i for i, b in enumerate(rpo)}
    for b in rpo:
        for s in fn.succs(b):
            if idx[s] <= idx[b] and s not in dom[b]:
                raise Unsupported('irreducible control flow in ' + fn.name)
    fn._loops = loops
    fn._preds = preds
    return loops


class LoopPoint:
    """one evaluation point of a candidate invariant"""

    def __init__(self, eng, st, vals, entry_vals, entry_mem, names):
        self.e, self.st = eng, st
        self.m = M(eng, st.mem)
        self.me = M(eng, entry_mem)
        self.v, self.ve = vals, entry_vals     # name -> canonical z3 term / PtrV / fp term
        self.names = names
        self.c = eng.ctx


class Template:
    def __init__(self, kinds, fn, name=None, distinct=True, all_scopes=True):
        self.kinds, self.fn, self.name, self.distinct = kinds, fn, name or fn.__name__, distinct


class Exec(Engine):
    # -------------------------------------------------------------- blocks
    def run(self, fr, b, pred, st):
        """execute from block b (entered from pred); -> list of ('ret', st, val) | ('back', header, st, latch)"""
        if time.time() > self.deadline + 60:
            raise Unsupported('verification budget exceeded')
        loops = loops_of(fr.fn)
        if self.cut and self.cut[-1][0] == fr.id and b not in self.cut[-1][1]:
            return [('exit', b, pred, st)]     # continued when the invariants of the loop are settled
        if b in loops:
            if pred in loops[b]:
                return [('back', b, st, pred)]
            self.anchored.append(set())
            try:
                return self.loop(fr, b, pred, st)
            finally:
                self.distinct -= self.anchored.pop()
        return self.block(fr, b, pred, st)

    def block(self, fr, b, pred, st):
        blk = fr.fn.blocks[b]
        if blk.phis:
            vals = []
            for ph in blk.phis:
                vals.append((ph.dst, self.phi_in(fr, st, ph, pred)))
            for d, v in vals:
                st.env[(fr.id, d)] = v
        return self.body(fr, blk, 0, st)

    def phi_in(self, fr, st, ph, pred):
        for v, bb in ph.a['in']:
            if bb == pred:
                return self.ev(fr, st, v, ph.a['ty'])
        raise Unsupported('phi without edge from ' + pred)

    def body(self, fr, blk, k, st):
        ins_list = blk.instrs
        while k < len(ins_list):
            ins = ins_list[k]
            if ins.dbg is not None and fr.depth == 0:
                ln = fr.fn.module.line_of(ins.dbg)
                if ln:
                    self.line = ln
            op = ins.op
            if op == 'br':
                a = ins.a
                if a['cond'] is None:
                    return self.run(fr, a['to'], blk.name, st)
                c = self.ev(fr, st, a['cond'], ('i', 1))
                cond = self.tobool(c)
                return self.split(fr, blk.name, st, [(cond, a['t']), (z3.Not(cond), a['f'])])
            if op == 'switch':
                x = self.ev(fr, st, ins.a['x'], ins.a['ty'])
                u = self.U(st, x)
                n = ins.a['ty'][1]
                alts, neg = [], []
                for v, tgt in ins.a['cases']:
                    e = u == (v[1] % (1 << n))
                    alts.append((e, tgt))
                    neg.append(z3.Not(e))
                alts.append((z3.And(*neg) if neg else z3.BoolVal(True), ins.a['default']))
                return self.split(fr, blk.name, st, alts)
            if op == 'ret':
                v = None if ins.a['v'] is None else self.ev(fr, st, ins.a['v'], ins.a['ty'])
                return [('ret', st, v)]
            if op == 'unreachable':
                return []
            if op == 'call':
                outs = self.call(fr, st, ins)
                if outs is None:
                    k += 1
                    continue
                if len(outs) == 1:
                    st, v = outs[0]
                    if ins.dst is not None:
                        st.env[(fr.id, ins.dst)] = v
                    k += 1
                    continue
                res = []
                for s2, v in outs:
                    if ins.dst is not None:
                        s2.env[(fr.id, ins.dst)] = v
                    res += self.body(fr, blk, k + 1, s2)
                return res
            self.simple(fr, st, ins)
            k += 1
        raise Unsupported('block without terminator')

    def tobool(self, v):
        if isinstance(v, BoolV):
            return z3.simplify(v.t)
        if isinstance(v, UndefV):
            return fresh('undef', B)
        raise Unsupported('branch on a non-boolean')

    def split(self, fr, bname, st, alts):
        live = [(c, t) for c, t in alts if not z3.is_false(z3.simplify(c))]
        if len(live) > 1:
            live = [(c, t) for c, t in live if self.feasible(st, c, (fr.path, bname, t))]
        res = []
        for n, (c, t) in enumerate(live):
            s2 = st if n == len(live) - 1 else st.copy()
            s2.assume(z3.simplify(c))
            s2.trace.append((self.line, t))
            res += self.run(fr, t, bname, s2)
        return res

    # -------------------------------------------------------------- instructions
    def simple(self, fr, st, ins):
        op, a = ins.op, ins.a
        E = lambda x, ty: self.ev(fr, st, x, ty)
        if op == 'alloca':
            v = self.alloca(fr, st, ins)
        elif op == 'load':
            p = E(a['p'], ('ptr',))
            v = self.load_global(fr, st, p, a['ty']) if p.fld is not None and p.fld[0] == '@global' else self.load(st, p, a['ty'])
        elif op == 'store':
            self.store(st, E(a['p'], ('ptr',)), E(a['v'], a['ty']), a['ty'])
            return
        elif op == 'getelementptr':
            base = E(a['base'], ('ptr',))
            v = self.gep(fr, st, a['bt'], base, [(t, E(x, t)) for t, x in a['idx']])
        elif op in ('add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'):
            v = self.arith(st, op, E(a['x'], a['ty']), E(a['y'], a['ty']), a['ty'], a['flags'])
        elif op in ('fadd', 'fsub', 'fmul', 'fdiv', 'frem'):
            x, y = E(a['x'], a['ty']), E(a['y'], a['ty'])
            v = FpV(self.farith(st, op, x, y), x.n)
        elif op == 'fneg':
            x = E(a['x'], a['ty'])
            r = self.fop('fneg%d' % x.n, x.t)
            st.assume(z3.And(nan(r) == nan(x.t), val(r) == -val(x.t)))
            v = FpV(r, x.n)
        elif op == 'icmp':
            v = BoolV(self.icmp(st, a['pred'], E(a['x'], a['ty']), E(a['y'], a['ty']), a['ty']))
        elif op == 'fcmp':
            x, y = E(a['x'], a['ty']), E(a['y'], a['ty'])
            if a['pred'] in ('true', 'false'):
                v = BoolV(z3.BoolVal(a['pred'] == 'true'))
            else:
                v = BoolV(z3.simplify(self.fcmp(a['pred'], x.t, y.t)))
        elif op == 'select':
            c = self.tobool(E(a['c'], ('i', 1)))
            x, y = E(a['x'], a['ty']), E(a['y'], a['ty'])
            v = self.ite(st, c, x, y)
        elif op in ('zext', 'sext', 'trunc'):
            x = E(a['x'], a['ty'])
            n = a['to'][1]
            if isinstance(x, UndefV):
                v = self.havoc_value('undef', a['to'])
            elif n == 1:
                v = BoolV(z3.simplify(self.U(st, x) % 2 == 1))
            elif op == 'zext':
                v = IntV(self.U(st, x), n, 'b' if x.n < n else 'u')
            elif op == 'sext':
                t = self.S(st, x)
                v = IntV(t, n, 'b' if self.nonneg(st, t) else 's')
            else:
                v = IntV(x.t, n)
        elif op in ('sitofp', 'uitofp'):
            x = E(a['x'], a['ty'])
            t = self.S(st, x) if op == 'sitofp' else self.U(st, x)
            v = FpV(self.i2f(st, t, a['to'][1], x.n), a['to'][1])
        elif op in ('fptosi', 'fptoui'):
            x = E(a['x'], a['ty'])
            f = z3.Function('f2i_%s_%d' % (op, a['to'][1]), FP, I)
            t = f(x.t)
            self.assume_int_range(st, t, a['to'][1], op == 'fptosi')
            v = IntV(t, a['to'][1], 's' if op == 'fptosi' else 'u')
        elif op in ('fpext', 'fptrunc'):
            x = E(a['x'], a['ty'])
            r = self.fop('%s%d_%d' % (op, x.n, a['to'][1]), x.t)
            st.assume(nan(r) == nan(x.t))
            if op == 'fpext':
                st.assume(val(r) == val(x.t))
            v = FpV(r, a['to'][1])
        elif op == 'freeze':
            v = E(a['x'], a['ty'])
        elif op == 'bitcast':
            v = E(a['x'], a['ty'])
            if a['to'] != a['ty']:
                raise Unsupported(ins.text)
        elif op == 'ptrtoint':
            raise Unsupported(ins.text)
        else:
            raise Unsupported(ins.text)
        st.env[(fr.id, ins.dst)] = v

    def nonneg(self, st, t):
        return self.quick(st, t >= 0)

    def i2f(self, st, t, n, srcbits):
        if z3.is_int_value(t):
            return self.fconst(st, float(t.as_long()), n)
        r = self.fop('i2f%d' % n, t)
        st.assume(z3.Not(nan(r)))
        if n == 80:
            st.assume(val(r) == z3.ToReal(t))        # a 64-bit mantissa holds every 64-bit integer
        if srcbits <= 32 and n == 64:
            st.assume(val(r) == z3.ToReal(t))
        elif n == 64:
            st.assume(z3.Implies(z3.And(t >= -(1 << 53), t <= (1 << 53)), val(r) == z3.ToReal(t)))
        return r

    def farith(self, st, op, x, y):
        a, b = x.t, y.t
        r = self.fop('%s%d' % (op, x.n), a, b)
        if op in ('fadd', 'fmul') and not a.eq(b):
            st.assume(r == self.fop('%s%d' % (op, x.n), b, a))      # IEEE addition and multiplication commute
        if self.fieee:
            self.ieee(st, op, r, a, b)
        return r

    fieee = False

    def ieee(self, st, op, r, a, b):
        """facts of IEEE arithmetic about when a result is a number, and its sign"""
        num = z3.And(z3.Not(nan(a)), z3.Not(nan(b)))
        fin = lambda x: z3.And(val(x) <= DMAX, val(x) >= -DMAX)
        if op == 'fsub':
            st.assume(z3.Implies(z3.And(num, z3.Or(fin(a), fin(b))), z3.Not(nan(r))))
        elif op == 'fadd':
            st.assume(z3.Implies(z3.And(num, val(a) >= 0, val(b) >= 0), z3.And(z3.Not(nan(r)), val(r) >= 0)))
        elif op == 'fmul' and a.eq(b):
            st.assume(z3.Implies(z3.Not(nan(a)), z3.And(z3.Not(nan(r)), val(r) >= 0)))

    def ite(self, st, c, x, y):
        if z3.is_true(c):
            return x
        if z3.is_false(c):
            return y
        if isinstance(x, UndefV):
            return y
        if isinstance(y, UndefV):
            return x
        if isinstance(x, BoolV):
            return BoolV(z3.If(c, x.t, y.t))
        if isinstance(x, IntV):
            if x.rng == 's' or y.rng == 's':
                return IntV(z3.If(c, self.S(st, x), self.S(st, y)), x.n, 's')
            return IntV(z3.If(c, self.U(st, x), self.U(st, y)), x.n, 'u')
        if isinstance(x, FpV):
            return FpV(z3.If(c, x.t, y.t), x.n)
        if isinstance(x, PtrV):
            return PtrV(z3.If(c, x.obj, y.obj), z3.If(c, x.off, y.off))
        raise Unsupported('select')

    def alloca(self, fr, st, ins):
        ty = ins.a['ty']
        o = fresh('loc_' + (ins.dst or 'x'))
        L = self.memget(st.mem, ('L',))
        st.assume(z3.And(o > 0, z3.Not(z3.Select(L, o))))
        self.keep_apart(st, o)
        self.memset(st, ('L',), z3.Store(L, o, z3.BoolVal(True)), o)
        st.locals.append(o)
        if ins.a['n'] is not None and ins.a['n'][1] != ('int', 1):
            n = self.ev(fr, st, ins.a['n'][1], ins.a['n'][0])
            n = self.U(st, n)
            sz = self.prog.sizeof(ty)
            st.assume(z3.And(Stride(o) == sz, Len(o) == n, Bytes(o) == n * sz))
            st.claims.append((o, z3.IntVal(sz)))
            return PtrV(o, 0)
        sz = self.prog.sizeof(ty)
        st.assume(Bytes(o) == sz)
        if ty[0] == 'arr':
            el = self.prog.sizeof(ty[2])
            st.assume(z3.And(Stride(o) == el, Len(o) == ty[1]))
            st.claims.append((o, z3.IntVal(el)))
        elif ty[0] in ('i', 'f', 'ptr'):
            st.assume(z3.And(Stride(o) == sz, Len(o) == 1))
            st.claims.append((o, z3.IntVal(sz)))
        return PtrV(o, 0)

    def arith(self, st, op, x, y, ty, flags):
        n = ty[1]
        if isinstance(x, UndefV) or isinstance(y, UndefV):
            return self.havoc_value('undef', ty)
        if n == 1:
            if op in ('xor', 'and', 'or'):
                f = {'xor': z3.Xor, 'and': z3.And, 'or': z3.Or}[op]
                return BoolV(z3.simplify(f(x.t, y.t)))
            raise Unsupported('i1 ' + op)
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in flags:
                xt, yt = self.S(st, x), self.S(st, y)
            elif op == 'mul':
                xt, yt = self.U(st, x), self.U(st, y)
            else:
                xt, yt = x.t, y.t
            t = {'add': lambda: xt + yt, 'sub': lambda: xt - yt, 'mul': lambda: xt * yt}[op]()
            t = z3.simplify(t, som=True)
            if op == 'mul' and not (z3.is_int_value(xt) or z3.is_int_value(yt)):
                self.mul_lemma(st, xt, yt)
                if n >= 64:
                    lim = (1 << 32) - 1      # the product of two 32-bit numbers (lemma $arith)
                    st.assume(z3.Implies(z3.And(xt >= 0, xt <= lim, yt >= 0, yt <= lim), z3.And(t >= 0, t <= lim * lim)))
            if self.contract is not None:
                self.contract.arith_hook(self.ctx, st, op, xt, yt)
            if 'nsw' in flags:
                half = 1 << (n - 1)
                g = z3.And(t >= -half, t < half)
                self.oblige(st, g, 'arith', 'no signed overflow')
                st.assume(g)
                return IntV(t, n, 's')
            return IntV(t, n)
        if op in ('udiv', 'urem', 'sdiv', 'srem'):
            if op[0] == 'u':
                xt, yt = self.U(st, x), self.U(st, y)
                self.oblige(st, yt != 0, 'arith', 'no division by zero')
                st.assume(yt != 0)
                return IntV(xt / yt if op == 'udiv' else xt % yt, n, 'u')
            xt, yt = self.S(st, x), self.S(st, y)
            self.oblige(st, z3.And(yt != 0, z3.Not(z3.And(xt == -(1 << (n - 1)), yt == -1))), 'arith', 'no division by zero')
            st.assume(yt != 0)
            ab = lambda t: z3.If(t < 0, -t, t)
            if self.quick(st, z3.And(xt >= 0, yt > 0)):
                return IntV(xt / yt if op == 'sdiv' else xt % yt, n, 's')
            q = ab(xt) / ab(yt)
            q = z3.If((xt < 0) == (yt < 0), q, -q)
            return IntV(q if op == 'sdiv' else xt - q * yt, n, 's')
        if op == 'shl' and z3.is_int_value(y.t):
            return IntV(z3.simplify(x.t * (1 << y.t.as_long()), som=True), n)
        if op == 'lshr' and z3.is_int_value(y.t):
            return IntV(self.U(st, x) / (1 << y.t.as_long()), n, 'u')
        if op == 'ashr' and z3.is_int_value(y.t):
            return IntV(self.S(st, x) / (1 << y.t.as_long()), n, 's')
        if op in ('and', 'or', 'xor'):
            xt, yt = self.U(st, x), self.U(st, y)
            if op == 'and' and z3.is_int_value(yt):
                m = yt.as_long()
                if (m + 1) & m == 0:
                    return IntV(xt % (m + 1), n, 'u')
            r = z3.Function('bv_%s%d' % (op, n), I, I, I)(xt, yt)
            self.assume_int_range(st, r, n, False)
            return IntV(r, n, 'u')
        r = fresh(op)
        self.assume_int_range(st, r, n, False)
        return IntV(r, n, 'u')

    def icmp(self, st, pred, x, y, ty):
        if isinstance(x, UndefV) or isinstance(y, UndefV):
            return fresh('undef', B)
        if ty == ('ptr',):
            eq = z3.And(x.obj == y.obj, x.off == y.off)
            if x is NULL or y is NULL or (z3.is_int_value(x.obj) and x.obj.as_long() == 0) or (z3.is_int_value(y.obj) and y.obj.as_long() == 0):
                eq = x.obj == y.obj      # a pointer is null exactly when it has no object
            if pred == 'eq':
                return z3.simplify(eq)
            if pred == 'ne':
                return z3.simplify(z3.Not(eq))
            if self.quick2(st, x.obj == y.obj):
                return {'ult': x.off < y.off, 'ule': x.off <= y.off, 'ugt': x.off > y.off, 'uge': x.off >= y.off}[pred]
            return fresh('ptrcmp', B)
        if isinstance(x, BoolV) or isinstance(y, BoolV):
            a, b = self.U(st, x), self.U(st, y)
            return z3.simplify({'eq': a == b, 'ne': a != b}[pred])
        if pred in ('eq', 'ne'):
            if x.rng == 's' or y.rng == 's':
                a, b = self.S(st, x), self.S(st, y)
            else:
                a, b = self.U(st, x), self.U(st, y)
            return z3.simplify(a == b if pred == 'eq' else a != b)
        a, b = (self.U(st, x), self.U(st, y)) if pred[0] == 'u' else (self.S(st, x), self.S(st, y))
        return z3.simplify({'lt': a < b, 'le': a <= b, 'gt': a > b, 'ge': a >= b}[pred[1:]])

    def load_global(self, fr, st, p, ty):
        raise Unsupported('load from global ' + p.fld[1])

    # -------------------------------------------------------------- calls
    def call(self, fr, st, ins):
        a = ins.a
        if a['fn'][0] == 'glob':
            name = a['fn'][1]
        else:
            fp = self.ev(fr, st, a['fn'], ('ptr',))
            o = z3.simplify(fp.obj)
            name = self.prog.fnname(o.as_long()) if z3.is_int_value(o) else None
            if name is None or name in self.contracts.get('__abstract_fns__', ()):
                args = [self.ev(fr, st, x, t) for t, x in a['args']]
                return [(st, self.indirect(st, o, a['ty'], [t for t, _ in a['args']], args))]
        if name.startswith('llvm.'):
            if 'memcpy' in name or 'memmove' in name:
                args = [self.ev(fr, st, x, t) for t, x in a['args']]
                self.memcpy(st, args[0], args[1], args[2], 'memmove' in name)
                return None
            if 'memset' in name:
                args = [self.ev(fr, st, x, t) for t, x in a['args']]
                self.memset_(st, args[0], args[1], args[2])
                return None
            if 'stacksave' in name:
                return [(st, NULL)]
            if 'stackrestore' in name or 'lifetime' in name or 'dbg' in name:
                return None
            if 'fmuladd' in name:
                args = [self.ev(fr, st, x, t) for t, x in a['args']]
                r = self.fop('fadd%d' % args[0].n, self.fop('fmul%d' % args[0].n, args[0].t, args[1].t), args[2].t)
                return [(st, FpV(r, args[0].n))]
            if 'fabs' in name:
                x = self.ev(fr, st, a['args'][0][1], a['args'][0][0])
                r = self.fop('fabs', x.t)
                st.assume(z3.And(nan(r) == nan(x.t), val(r) == z3.If(val(x.t) < 0, -val(x.t), val(x.t))))
                return [(st, FpV(r, x.n))]
            raise Unsupported('intrinsic ' + name)
        args = []
        for t, x in a['args']:
            try:
                args.append(self.ev(fr, st, x, t))
            except Unsupported:
                if name in SKIP_CALLS or name == '__assert_fail':
                    args.append(None)
                else:
                    raise
        return self.call_named(fr, st, name, args, a['ty'])

    def call_named(self, fr, st, name, args, rty):
        con = self.contracts.get(name)
        if getattr(self.contract, 'uses_tables', False):
            con = self.contracts.get('client:' + name, con)
        f = self.prog.func(name, fr.fn.module)
        if con is not None and not getattr(con, 'inline_in', None):
            self.used_contracts.add(con.name)
            return self.apply_contract(st, con, f, args, rty)
        ext = getattr(self, 'x_' + name, None)
        if f is None or ext is not None:
            self.used_externs.add(name)
            if ext is not None:
                return [(st, ext(st, args))]
            if name in SKIP_CALLS:
                return [(st, self.havoc_value(name, rty) if rty != ('void',) else None)]
            if name == '__assert_fail':
                self.oblige(st, z3.BoolVal(False), 'assert', 'assertion holds')
                return []
            raise Unsupported('call of unknown function ' + name)
        if f.parse_error:
            raise Unsupported(f.parse_error)
        if fr.depth >= 10 or name in fr.path:
            raise Unsupported('recursion through ' + name + ' without a contract')
        self.inlined.add(name)
        nf = Frame(f, fr.path + (name,))
        nf.depth = fr.depth + 1
        for (t, pn), v in zip(f.params, args):
            st.env[(nf.id, pn)] = v
        outs = self.run(nf, f.order[0], None, st)
        res = []
        for o in outs:
            assert o[0] == 'ret', o
            res.append((o[1], o[2]))
        return res

    def indirect(self, st, fobj, rty, tys, args):
        """a call through a function pointer: comparator, key hash or destructor, by signature"""
        hook = self.contracts.get('__indirect__')
        if rty == ('i', 32) and len(args) == 2:
            cs = [self.cell_arg(st, p) for p in args]
            r = cmpf(fobj, cs[0], cs[1])
            st.assume(z3.And(r >= -(1 << 31), r < (1 << 31)))
            return IntV(r, 32, 's')
        if rty == ('i', 64) and len(args) == 2:
            c = self.cell_arg(st, args[0])
            n = self.U(st, args[1])
            self.oblige(st, n > 0, 'arith', 'bucket count positive')
            r = hashf(fobj, c, n)
            st.assume(z3.And(r >= 0, r < n))
            return IntV(r, 64, 'b')
        raise Unsupported('indirect call with signature %r %r' % (rty, tys))

    def cell_arg(self, st, p):
        d = self.ctx.g.get('stride')
        s = self.stride_of(st, p.obj, d)
        if s is None:
            raise Unsupported('pointer passed to a callback has no known element size')
        q, s = self.cell_index(st, p, s)
        self.check_live(st, p.obj, 'callback read')
        self.oblige(st, z3.And(q >= 0, q < Len(p.obj)), 'mem', 'callback read in bounds')
        return z3.simplify(z3.Select(z3.Select(self.memget(st.mem, ('C',)), p.obj), q))

    def nonelem(self, o, live):
        return z3.And(o >= -2000000, live) if self.strict else live

    def as_element(self, st, p, rty):
        """an element the callee only reads: a pointer to a field of a structure is seen as one to a copy of the field"""
        if not isinstance(p, PtrV) or p.fld is None or p.fld[0] == '@global':
            return p
        fa = self.prog.field_at(p.fld[0], p.fld[2])
        ty = None if fa is None else {'int': ('i', fa[1][1]), 'float': ('f', fa[1][1]), 'ptr': ('ptr',)}.get(fa[1][0])
        if ty is None:
            return p
        v = self.load(st, p, ty)
        sz = self.prog.sizeof(ty)
        o = self.new_object(st, 'copy', sz)
        st.heap.pop()
        st.assume(z3.And(Stride(o) == sz, Len(o) == 1))
        st.claims.append((o, z3.IntVal(sz)))
        C = self.memget(st.mem, ('C',))
        self.memset(st, ('C',), self.wr(C, o, z3.Store(self.rd(C, o), 0, self.mk_cell(st, v, ty))), o)
        return PtrV(o, 0)

    def apply_contract(self, st, con, f, args, rty):
        """-> one outcome per case of the contract"""
        outs = []
        args = [self.as_element(st, v, rty) if i in getattr(con, 'ro_args', ()) else v for i, v in enumerate(args)]
        c0 = Ctx(self, st, args, 'call', dict(st.mem))
        c0.m1 = c0.m0
        c0.fname = self.fname
        con.bind(c0)
        for lab, g in con.pre(c0):
            self.oblige(st, g, 'pre', '%s requires %s' % (con.name, lab))
            st.assume(g)
        cases = con.cases(c0)
        for n, case in enumerate(cases):
            s = st if n == len(cases) - 1 else st.copy()
            c = Ctx(self, s, args, 'call', dict(st.mem) if n < len(cases) - 1 else dict(s.mem))
            c.g = dict(c0.g)
            c.case = case
            c.m1 = M(self, s.mem)
            con.bind(c)
            con.effects(c)
            c.m1 = M(self, s.mem)
            if rty != ('void',):
                if c.ret is None:
                    c.ret = self.havoc_value('ret_' + con.name, rty)
                ct = f.module.fn_ctypes(f)[0] if f is not None and f.module.fn_ctypes(f) else None
                if isinstance(c.ret, IntV):
                    sg = con.ret_signed if con.ret_signed is not None else (ct is None or ct[0] != 'int' or ct[2])
                    c.ret.rng = 's' if sg else 'u'
                    self.assume_int_range(s, c.ret.t, rty[1], sg)
                c.rt = c.ret.t if isinstance(c.ret, (IntV, FpV, BoolV)) else c.ret
            for lab, g in con.post(c):
                s.assume(g)
            if 'p' in c.g:
                s.ghosts[con.name] = c.g['p']
            con.after_call(c)
            if len(cases) > 1 and not self.feasible(s, z3.BoolVal(True)):
                continue
            outs.append((s, c.ret))
        return outs

    # -------------------------------------------------------------- externs
    def bytes_arg(self, st, v):
        t = self.U(st, v)
        return z3.simplify(t, som=True)

    def x_malloc(self, st, args):
        return self.alloc(st, 'heap', self.bytes_arg(st, args[0]))

    def x_calloc(self, st, args):
        n, s = self.U(st, args[0]), self.U(st, args[1])
        o = self.new_object(st, 'heap', n * s)
        st.assume(z3.And(Stride(o) == s, Len(o) == n))
        st.claims.append((o, s))
        if not z3.is_int_value(s):
            self.add_cap(st, n, s)
        C = self.memget(st.mem, ('C',))
        self.zero_cell(st)
        self.memset(st, ('C',), z3.Store(C, o, z3.K(I, ZeroCell)), o)
        return PtrV(o, 0)

    def zero_cell(self, st):
        z = self.fconst(st, 0.0, 64)
        z32 = self.fconst(st, 0.0, 32)
        st.assume(z3.And(*[asI[n](ZeroCell) == 0 for n in asI] + [asP(ZeroCell) == 0, asPo(ZeroCell) == 0, asF[64](ZeroCell) == z,
                                                                 asF[32](ZeroCell) == z32]))

    def x_free(self, st, args):
        p = args[0]
        o = z3.simplify(p.obj)
        self.oblige(st, z3.Or(o == 0, z3.And(o > 0, self.M(st).live(o), p.off == 0)), 'mem', 'free of a live allocation')
        self.kill(st, o)
        return None

    def x_realloc(self, st, args):
        p, n = args[0], self.bytes_arg(st, args[1])
        o = z3.simplify(p.obj)
        if self.quick2(st, o == 0):
            return self.x_malloc(st, [args[1]])
        self.oblige(st, z3.And(o > 0, self.M(st).live(o), p.off == 0), 'mem', 'realloc of a live allocation')
        s = self.stride_of(st, o, self.ctx.g.get('stride'))
        if s is None:
            raise Unsupported('realloc of untyped memory')
        d = divide(n, s)
        if d is None:
            raise Unsupported('realloc size')
        new = self.new_object(st, 'heap', n)
        st.assume(z3.And(Stride(new) == s, Len(new) == d[0]))
        st.claims.append((new, s))
        if not z3.is_int_value(s):
            self.add_cap(st, d[0], s)
        C = self.memget(st.mem, ('C',))
        R = fresh('row', Row)
        j = z3.Int('j')
        st.assume(forall([j], z3.Implies(z3.And(j >= 0, j < Len(o), j < d[0]), z3.Select(R, j) == z3.Select(z3.Select(C, o), j)),
                         [z3.Select(R, j)]))
        self.memset(st, ('C',), z3.Store(C, new, R), new)
        self.kill(st, o)
        return PtrV(new, 0)

    def x_memcpy(self, st, args):
        self.memcpy(st, args[0], args[1], args[2], False)
        return args[0]

    def x_memmove(self, st, args):
        self.memcpy(st, args[0], args[1], args[2], True)
        return args[0]

    def memcpy(self, st, dst, src, nv, move):
        n = self.bytes_arg(st, nv)
        s1 = self.stride_of(st, dst.obj)
        s2 = self.stride_of(st, src.obj)
        base = s1 if s1 is not None else s2
        if base is None:
            base = self.ctx.g.get('stride')
            if base is None or divide(n, base) is None or divide(n, base)[1] != 0:
                base = n
        if s1 is None:
            s1 = self.stride_of(st, dst.obj, base)
        if s2 is None:
            s2 = self.stride_of(st, src.obj, base)
        if s1.eq(s2):
            s = s1
        else:
            # both views must be provably the same
            self.oblige(st, s1 == s2, 'mem', 'copy between equal element sizes')
            st.assume(s1 == s2)
            s = s1
        def idx(off, ss):
            for x in (ss, s1, s2, z3.simplify(n)):
                d = divide(off, x)
                if d is not None and d[1] == 0:
                    return d[0], x
            raise Unsupported('copy offset %s in elements of %s' % (off, ss))
        qd, _ = idx(dst.off, s1)
        qs, _ = idx(src.off, s2)
        if z3.simplify(n == s1).eq(z3.BoolVal(True)) or n.eq(s1) or n.eq(s2):
            k = z3.IntVal(1)
        else:
            d = divide(n, s1) or divide(n, s2)
            if d is None or d[1] != 0:
                if self.quick2(st, z3.Or(n == s1, n == s2)):
                    d = (z3.IntVal(1), 0)
                else:
                    self.oblige(st, z3.Or(n == s1, n == s2), 'mem', 'copy length is the element size')
                    d = (z3.IntVal(1), 0)
            k = d[0]
        L = self.M(st)
        some = k > 0
        self.oblige(st, z3.And(dst.obj > 0, L.live(dst.obj)), 'mem', 'copy to live memory')
        self.oblige(st, z3.And(src.obj > 0, L.live(src.obj)), 'mem', 'copy from live memory')
        self.oblige(st, z3.And(k >= 0, qd >= 0, qd + k <= Len(dst.obj)), 'mem', 'copy destination in bounds')
        self.oblige(st, z3.And(qs >= 0, qs + k <= Len(src.obj)), 'mem', 'copy source in bounds')
        if not move:
            self.oblige(st, z3.Or(dst.obj != src.obj, qd + k <= qs, qs + k <= qd, k == 0), 'mem', 'copy does not overlap')
        C = self.memget(st.mem, ('C',))
        rs, rd = z3.Select(C, src.obj), z3.Select(C, dst.obj)
        if z3.is_int_value(z3.simplify(k)) and z3.simplify(k).as_long() == 1:
            nr = z3.Store(rd, qd, z3.simplify(z3.Select(rs, qs)))
        else:
            nr = fresh('row', Row)
            j = z3.Int('j')
            for t in (z3.Select(rs, qs), z3.Select(rs, z3.simplify(qs - 1))):
                st.assume(Seen(t))       # only makes the term available to quantifier instantiation
            st.assume(forall([j], z3.Select(nr, j) == z3.If(z3.And(j >= qd, j < qd + k), z3.Select(rs, j - qd + qs), z3.Select(rd, j)),
                             [z3.Select(nr, j)]))
        self.memset(st, ('C',), z3.Store(C, dst.obj, nr), dst.obj)

    def memset_(self, st, p, b, n):
        raise Unsupported('memset')

    def x_sqrt(self, st, args):
        r = self.fop('sqrt64', args[0].t)
        st.assume(z3.Implies(z3.And(z3.Not(nan(args[0].t)), val(args[0].t) >= 0), z3.And(z3.Not(nan(r)), val(r) >= 0)))
        return FpV(r, 64)

    def x_qsort(self, st, args):
        o = z3.simplify(args[3].obj)
        con = self.contracts.get('qsort:%s' % self.prog.fnname(o.as_long())) if z3.is_int_value(o) else None
        if con is None:
            raise Unsupported('qsort with an unknown comparator')
        self.apply_contract(st, con, None, args, ('void',))
        return None

    def x_pow(self, st, args):
        return FpV(self.fop('pow64', args[0].t, args[1].t), 64)

    def x_log2(self, st, args):
        return FpV(self.fop('log2_64', args[0].t), 64)

    # -------------------------------------------------------------- loops
    def phi_signed(self, fr, ph):
        ct = fr.fn.module.var_ctype(fr.fn, ph.dst)
        if ct is not None and ct[0] == 'int':
            return ct[2]
        name = '%' + ph.dst
        sg = us = 0
        rx = re.compile(re.escape(name) + r'(?![-a-zA-Z$._0-9])')
        for b in fr.fn.blocks.values():
            for ins in b.instrs:
                if rx.search(ins.text):
                    if ins.op == 'icmp':
                        if ins.a['pred'][0] == 'u' and ins.a['pred'] != 'une':
                            us += 1
                        elif ins.a['pred'][0] == 's':
                            sg += 1
                    elif ins.op in ('zext', 'uitofp', 'udiv', 'urem'):
                        us += 1
                    elif ins.op in ('sext', 'sitofp', 'sdiv', 'srem'):
                        sg += 1
                    elif ins.op in ('add', 'sub') and 'nsw' in ins.a['flags']:
                        sg += 1
        return sg > us

    def canon(self, st, v, signed):
        """value -> what templates see"""
        if isinstance(v, IntV):
            return self.S(st, v) if signed else self.U(st, v)
        if isinstance(v, BoolV):
            return v.t
        if isinstance(v, FpV):
            return v.t
        if isinstance(v, UndefV):
            return None
        return v

    def loop(self, fr, header, pred, st):
        blk = fr.fn.blocks[header]
        body = loops_of(fr.fn)[header]
        phis = blk.phis
        signed = {ph.dst: self.phi_signed(fr, ph) for ph in phis}
        entry = {}
        for ph in phis:
            entry[ph.dst] = self.phi_in(fr, st, ph, pred)
        centry = {d: self.canon(st, v, signed[d]) for d, v in entry.items()}
        entry_mem = dict(st.mem)
        outer = dict(getattr(fr, 'scope', {}))       # canonical values of enclosing loops' phis
        kinds = {ph.dst: ph.a['ty'] for ph in phis}
        entry_st = st

        mark = next(engine._fresh)

        def in_loop(t):
            for nme in consts_of(t):
                if '!' in nme and nme.rsplit('!', 1)[1].isdigit() and int(nme.rsplit('!', 1)[1]) >= mark:
                    return True
            return False

        def head_state(mods):
            s = st.copy()
            for ph in phis:
                ty = ph.a['ty']
                ev_ = entry[ph.dst]
                if ty[0] == 'ptr' and mods is not None and ph.dst in stable_off:
                    v = PtrV(fresh(ph.dst), ev_.off)
                else:
                    v = self.havoc_value(ph.dst, ty)
                if isinstance(v, IntV):
                    v.rng = 's' if signed[ph.dst] else 'u'
                    self.assume_int_range(s, v.t, v.n, signed[ph.dst])
                s.env[(fr.id, ph.dst)] = v
            if mods:
                for key, objs in mods.items():
                    arr = self.memget(s.mem, key)
                    if objs is None:
                        na = fresh('lm_' + '_'.join(str(x) for x in key[:3]), arr.sort())
                        self.memset(s, key, na, None)
                    else:
                        for o in objs:
                            arr = self.wr(arr, o, fresh('lv_' + '_'.join(str(x) for x in key[:3]), arr.sort().range()))
                        for o in objs:
                            self.memset(s, key, arr, o)
            return s

        # pointers that only ever point to the start of an object keep a literal zero offset
        stable_off = set()
        for ph in phis:
            if ph.a['ty'] == ('ptr',):
                e = entry[ph.dst]
                if isinstance(e, PtrV) and z3.is_int_value(e.off):
                    stable_off.add(ph.dst)

        # ---- which memory does the loop write?
        save = (self.record, self.writes, self.weak)
        cached = self.loopcache.get(('mods', fr.path, header))
        self.record, self.weak = False, self.weak + 1
        mods = None
        for rnd in range(6):
            self.writes = {}
            sc = getattr(fr, 'scope', {})
            h = head_state(mods if mods is not None else {})
            self.writes = {}
            fr.scope = dict(outer)
            fr.scope.update({ph.dst: (self.canon(h, h.env[(fr.id, ph.dst)], signed[ph.dst]), kinds[ph.dst]) for ph in phis})
            self.cut.append((fr.id, body))
            outs = self.body(fr, blk, 0, h)
            self.cut.pop()
            fr.scope = sc
            bad = set()
            for o in outs:
                if o[0] == 'back' and o[1] == header:
                    for ph in phis:
                        if ph.dst in stable_off:
                            bv = self.phi_in(fr, o[2], ph, o[3])
                            if not isinstance(bv, PtrV):
                                bad.add(ph.dst)
                            elif not self.loaded_off(bv.off) and not (z3.simplify(bv.off).eq(z3.simplify(entry[ph.dst].off)) or
                                                                      self.quick2(o[2], bv.off == entry[ph.dst].off)):
                                bad.add(ph.dst)
            new = {}
            for key, objs in self.writes.items():
                if any(o is None or in_loop(o) for o in objs):
                    new[key] = None
                else:
                    u = []
                    for o in objs:
                        if not any(o.eq(x) for x in u):
                            u.append(o)
                    new[key] = u
            # objects written only inside (allocated in this loop iteration and dead/unreachable before) still havoc
            if mods is not None:
                for k, v in mods.items():
                    if k in new and (v is None or new[k] is None):
                        new[k] = None
                    elif k in new:
                        new[k] = v + [x for x in new[k] if not any(x.eq(y) for y in v)]
                    else:
                        new[k] = v
            inv_objs = {}
            for key, objs in self.writes.items():
                inv_objs[key] = [o for o in objs if o is not None and not in_loop(o)]
            stable = mods is not None and not bad and set(new) == set(mods) and all(
                (new[k] is None) == (mods[k] is None) and (new[k] is None or len(new[k]) == len(mods[k])) for k in new)
            stable_off -= bad
            mods = new
            if stable:
                break
        self.record, self.writes, self.weak = save
        # memory that the loop is the first to use as an array gets that view before the loop
        for o, s in list(self.boundlog):
            if any(o.eq(x) for x, _ in st.unbound):
                self.stride_of(st, o, s)
        if self.writes is not None:
            for key, objs in mods.items():
                self.writes.setdefault(key, []).extend([None] if objs is None else objs)

        # ---- candidate invariants
        cands = self.candidates(fr, header, phis, kinds, signed, centry, outer, mods, inv_objs, entry_mem, st)
        names = [ph.dst for ph in phis]

        def point(s, vals):
            sc = {d: v for d, (v, k) in outer.items()}
            allv = dict(sc)
            allv.update(vals)
            return LoopPoint(self, s, allv, centry, entry_mem, names)

        p0 = point(st, centry)
        alive = []
        self.record = False
        tkey = ('entryfail', fr.path, header, tuple(st.trace))
        failed_before = self.loopcache.setdefault(tkey, set())
        tally = self.loopcache.setdefault(('entrytally', fr.path, header), {})
        for cnd in cands if not self.weak else ():
            if cnd.name in failed_before:
                continue                 # failed under stronger assumptions already
            if tally.get(cnd.name, 0) >= 2:
                continue                 # failed wherever the loop was entered
            try:
                g = cnd.at(p0)
            except (Unsupported, KeyError):
                continue
            if g is None:
                continue
            if self.valid(st, g, heavy=False)[0]:
                alive.append(cnd)
                tally[cnd.name] = -10 ** 6
                continue
            failed_before.add(cnd.name)
            tally[cnd.name] = tally.get(cnd.name, 0) + 1
            if DEBUG == '2':
                print('   cand fails at entry', cnd.name)
        if self.weak:
            # collecting writes only: no invariants are needed, but keep the cheap arithmetic ones for divisibility
            alive = []
        ck = ('inv', fr.path, header)
        sched = self.loopcache.get(ck)
        if sched is not None and not self.weak:
            alive = [x for x in alive if x.name in sched] if self.opts.get('cache', True) and self.houdini_depth > 0 else alive

        last = {}

        def run_head(alive_):
            h = head_state(mods)
            vals = {ph.dst: self.canon(h, h.env[(fr.id, ph.dst)], signed[ph.dst]) for ph in phis}
            lp = point(h, vals)
            for cnd in alive_:
                g = cnd.at(lp)
                if g is not None:
                    h.assume(g)
            if self.tidy and hasattr(self.contract, 'anchors'):       # objects named through this state: apart from which known ones?
                self.distinct -= self.anchored[-1]               # (only while states that descend from this one are followed)
                before = set(self.distinct)
                for o in self.contract.anchors(self.ctx, lp):
                    self.keep_apart(h, z3.simplify(o), self.quick2)
                self.anchored[-1] = self.distinct - before
            sc = getattr(fr, 'scope', {})
            fr.scope = dict(outer)
            fr.scope.update({ph.dst: (vals[ph.dst], kinds[ph.dst]) for ph in phis})
            last['scope'] = fr.scope
            guard = not self.weak and bool(self.cut) and self.cut[-1][1] is body
            if guard:
                wsave, self.writes = self.writes, {}
            outs = self.body(fr, blk, 0, h)
            if guard:
                for key, objs in self.writes.items():
                    ok = mods.get(key, ()) 
                    if ok is None:
                        continue
                    for w in objs:
                        if w is None or in_loop(w) or not any(w.eq(x) for x in ok):
                            # a write to memory allocated inside the body is harmless for the collected set only if the map is havocked
                            raise Unsupported('loop in %s writes %s beyond the collected set' % (fr.fn.name, key))
                self.writes = wsave
            fr.scope = sc
            return outs

        if self.weak:
            outs = run_head([])
            self.record = save[0]
            return [o for o in outs if not (o[0] == 'back' and o[1] == header)]

        self.houdini_depth += 1
        it = 0
        while True:
            it += 1
            # once the invariants are probably known, the obligations of the body are discharged along the way
            nobs = len(self.obs)
            self.record = save[0] and (sched is not None or it > 1)
            self.cut.append((fr.id, body))
            outs = run_head(alive)
            self.cut.pop()
            done, self.record = self.record, False
            failed = []
            for o in outs:
                if o[0] == 'back' and o[1] == header:
                    s2 = o[2]
                    vals = {ph.dst: self.canon(s2, self.phi_in(fr, s2, ph, o[3]), signed[ph.dst]) for ph in phis}
                    lp = point(s2, vals)
                    for cnd in alive:
                        if cnd in failed:
                            continue
                        g = cnd.at(lp)
                        if g is None or not self.valid(s2, g, heavy=cnd.heavy)[0]:
                            failed.append(cnd)
                            failed_before.add(cnd.name)      # it would fail again under weaker assumptions
                            if DEBUG == '2':
                                print('   cand not preserved', cnd.name, s2.trace[-4:])
            if not failed:
                # the offsets taken to be constant must really be
                loose = set()
                for o in outs:
                    if o[0] == 'back' and o[1] == header:
                        for d in stable_off:
                            ph = [x for x in phis if x.dst == d][0]
                            bv = self.phi_in(fr, o[2], ph, o[3])
                            if not self.valid(o[2], bv.off == entry[d].off)[0]:
                                loose.add(d)
                if not loose:
                    break
                stable_off -= loose
            del self.obs[nobs:]
            alive = [x for x in alive if x not in failed]
        self.houdini_depth -= 1
        self.loopcache[ck] = {x.name for x in alive}
        self.record = save[0]
        nback = sum(1 for o in outs if o[0] == 'back' and o[1] == header)
        if self.record:
            for cnd in alive:
                for w in ('entry', 'preserved'):
                    ob = Ob(self.fname, 'inv', '%s %s' % (cnd.name, w), self.line)
                    ob.ok, ob.backend = True, 'z3'
                    self.obs.append(ob)
            if DEBUG:
                print('  loop %s/%s: %d invariants, %d houdini rounds, mods %s' % (fr.fn.name, header, len(alive), it,
                      {k: (None if v is None else len(v)) for k, v in mods.items()}))
                for x in alive:
                    print('     inv', x.name)
            self.loops_done += 1
        if self.record and not done:
            self.cut.append((fr.id, body))
            outs = run_head(alive)
            self.cut.pop()
        res = []
        sc, fr.scope = getattr(fr, 'scope', {}), last['scope']
        for o in outs:
            if o[0] == 'exit' and o[1] not in body:
                res += self.run(fr, o[1], o[2], o[3])
            elif not (o[0] == 'back' and o[1] == header):
                res.append(o)
        fr.scope = sc
        return res

    def ptr_starts(self, v):
        return isinstance(v, PtrV) and z3.is_int_value(z3.simplify(v.off)) and z3.simplify(v.off).as_long() == 0

    def loaded_off(self, t):
        """the offset part of a pointer read from memory: taken to be constant until shown otherwise"""
        t = z3.simplify(t)
        return z3.is_app(t) and (t.decl().name() == 'asPoff' or t.decl().kind() == z3.Z3_OP_SELECT)

    houdini_depth = 0

    def candidates(self, fr, header, phis, kinds, signed, centry, outer, mods, inv_objs, entry_mem, st):
        out = []
        ints = [ph.dst for ph in phis if kinds[ph.dst][0] == 'i' and kinds[ph.dst][1] > 1 and centry[ph.dst] is not None]
        ptrs = [ph.dst for ph in phis if kinds[ph.dst] == ('ptr',) and isinstance(centry[ph.dst], PtrV)]
        fps = [ph.dst for ph in phis if kinds[ph.dst][0] == 'f' and centry[ph.dst] is not None]
        bools = [ph.dst for ph in phis if kinds[ph.dst] == ('i', 1)]
        oints = [d for d, (v, k) in outer.items() if k[0] == 'i' and k[1] > 1 and v is not None]
        optrs = [d for d, (v, k) in outer.items() if k == ('ptr',) and isinstance(v, PtrV)]
        ofps = [d for d, (v, k) in outer.items() if k[0] == 'f' and v is not None]
        con = self.contract

        class Cand:
            def __init__(s, name, at, heavy=False):
                s.name, s.at, s.heavy = name, at, heavy

        count = {}

        def add(name, at, heavy=False):
            n = count[name] = count.get(name, 0) + 1         # names tell candidates apart
            out.append(Cand(name if n == 1 else '%s #%d' % (name, n), at, heavy))
        bounds = con.bounds(self.ctx) if con is not None else []
        for v in ints:
            add('0<=%s' % v, lambda lp, v=v: lp.v[v] >= 0)
            add('%s>=entry' % v, lambda lp, v=v: lp.v[v] >= centry[v])
            add('%s<=entry' % v, lambda lp, v=v: lp.v[v] <= centry[v])
            for bn, bt in bounds:
                add('%s<=%s' % (v, bn), lambda lp, v=v, bt=bt: lp.v[v] <= bt)
                add('%s<%s' % (v, bn), lambda lp, v=v, bt=bt: lp.v[v] < bt)
        for v, w in itertools.combinations(ints, 2):
            add('%s-%s=const' % (v, w), lambda lp, v=v, w=w: lp.v[v] - lp.v[w] == centry[v] - centry[w])
            add('%s<=%s' % (v, w), lambda lp, v=v, w=w: lp.v[v] <= lp.v[w])
            add('%s<=%s' % (w, v), lambda lp, v=v, w=w: lp.v[w] <= lp.v[v])
        for v in ptrs:
            add('%s starts an object' % v, lambda lp, v=v: lp.v[v].off == 0)
        # frame of memory that is written at objects that vary within the loop
        Le = self.memget(entry_mem, ('L',))
        o = z3.Int('o')
        extra = con.frame_extra(self.ctx) if con is not None else []
        for key, objs in mods.items():
            if objs is not None:
                continue
            for nm, ex in (('', inv_objs.get(key, [])), ('+', inv_objs.get(key, []) + [t for k, t in extra if k == key[0]])):
                if nm and not [t for k, t in extra if k == key[0]]:
                    continue

                def fr_c(lp, key=key, ex=ex):
                    a, b = self.memget(lp.st.mem, key), self.memget(entry_mem, key)
                    hyp = z3.And(z3.Or(self.nonelem(o, z3.Select(Le, o)), z3.And(o < -2000000, z3.Select(Le, AtB(o)))), *[o != x for x in ex])
                    return forall([o], z3.Implies(hyp, z3.Select(a, o) == z3.Select(b, o)), [z3.Select(a, o)])
                add('frame%s %s' % (nm, '_'.join(str(x) for x in key[:3])), fr_c)
            # the same for what existed when the function was entered, and for the function's own objects
            L00 = self.memget({}, ('L',))
            if not L00.eq(Le):
                def fr_0(lp, key=key, ex=inv_objs.get(key, []) + [t for k, t in extra if k == key[0]]):
                    a, b = self.memget(lp.st.mem, key), self.memget(entry_mem, key)
                    hyp = z3.And(z3.Or(self.nonelem(o, z3.Select(L00, o)), z3.And(o < -2000000, z3.Select(L00, AtB(o)))), *[o != x for x in ex])
                    return forall([o], z3.Implies(hyp, z3.Select(a, o) == z3.Select(b, o)), [z3.Select(a, o)])
                add('frame0 %s' % '_'.join(str(x) for x in key[:3]), fr_0)
                for x in list(st.locals) + list(st.heap):
                    if any(x.eq(y) for y in inv_objs.get(key, [])):
                        continue
                    at0 = z3.simplify(z3.Select(self.memget(entry_mem, key), x))
                    if key[0] == 'S' and z3.is_select(at0) and z3.is_const(at0.arg(0)):
                        continue         # nothing was ever written there
                    add('own %s %s' % (x, '_'.join(str(x) for x in key[:3])),
                        lambda lp, key=key, x=x: z3.Select(self.memget(lp.st.mem, key), x) == z3.Select(self.memget(entry_mem, key), x))
        # contract templates
        locs = list(st.locals)
        pools = {'int': ints + oints, 'ptr': ptrs + optrs, 'optr': optrs, 'fp': fps + ofps, 'bool': bools, 'own': ints, 'out': oints, 'ofp': fps,
                 'loc': ['local%d' % n for n in range(len(locs))], 'heap': ['heap%d' % n for n in range(len(st.heap))]}
        locv = {'local%d' % n: x for n, x in enumerate(locs)}
        locv.update({'heap%d' % n: x for n, x in enumerate(st.heap)})
        ls = loops_of(fr.fn)
        dep = self.__dict__.setdefault('phidepth', {})
        here = sum(1 for b in ls.values() if header in b)
        for d in kinds:
            dep[d] = here
        for n in range(1, 5):
            pools['own%d' % n] = ints if here == n else []
            pools['at%d' % n] = [x for x in ints + oints if dep.get(x) == n]
        for t in (con.templates(self.ctx) if con is not None else []):
            seen = set()
            for tup in itertools.product(*[pools[k] for k in t.kinds]):
                if t.distinct and len(set(tup)) != len(tup):
                    continue

                def at(lp, t=t, tup=tup):
                    vals = [locv[x] if x in locv else lp.v[x] for x in tup]
                    if any(x is None for x in vals):
                        return None
                    return t.fn(lp, *vals)
                add('%s(%s)' % (t.name, ','.join(tup)), at, True)
        return out

    # -------------------------------------------------------------- a whole function
    def verify(self):
        con = self.contracts[self.fname]
        self.contract = con
        if con.is_lemma:
            return self.verify_lemmas(con)
        f = self.prog.func(self.fname)
        if f is None:
            raise Unsupported('function %s is not defined' % self.fname)
        if f.parse_error:
            raise Unsupported(f.parse_error)
        t0 = time.time()
        for variant in con.variants():
            self.verify_variant(con, f, variant)
        self.wall = time.time() - t0
        return self.obs

    def verify_lemmas(self, con):
        """mathematical facts the contracts rely on, each discharged on its own (non-linear arithmetic allowed)"""
        t0 = time.time()
        for label, hyps, goal in con.lemmas(self):
            ob = Ob(self.fname, 'lemma', label, None)
            t = time.time()
            ob.ok, ob.backend, ob.detail = False, 'z3', None
            for mk in (lambda: z3.SolverFor('QF_NIA'), z3.Solver):
                s = mk()
                s.set('timeout', 20000)
                s.add(*hyps)
                s.add(z3.Not(goal))
                r = s.check()
                self.nq += 1
                if r == z3.unsat:
                    ob.ok = True
                    break
            ob.time = time.time() - t
            self.obs.append(ob)
        self.wall = time.time() - t0
        return self.obs

    def verify_variant(self, con, f, variant):
        st = State()
        fr = Frame(f, (self.fname,))
        fr.depth = 0
        fr.scope = {}
        cts = f.module.fn_ctypes(f)
        args = []
        for k, (ty, pn) in enumerate(f.params):
            ct = cts[1][k] if cts and k < len(cts[1]) else None
            if ty[0] == 'i':
                sg = bool(ct and ct[0] == 'int' and ct[2])
                t = z3.Int('arg_' + pn)
                v = IntV(t, ty[1], 's' if sg else 'u')
                self.assume_int_range(st, t, ty[1], sg)
                self.params_terms[pn] = t
            elif ty[0] == 'f':
                v = FpV(z3.Const('arg_' + pn, FP), ty[1])
            elif ty == ('ptr',):
                v = PtrV(z3.Int('arg_' + pn), 0)
            else:
                raise Unsupported('parameter type %r' % (ty,))
            args.append(v)
        c = Ctx(self, st, args, 'verify', {})
        c.variant = variant
        self.ctx = c
        c.m1 = c.m0
        con.nargs_check(c, f)
        con.bind(c)
        for i, v in enumerate(c.a):
            st.env[(fr.id, f.params[i][1])] = v
        L = self.memget({}, ('L',))
        st.assume(z3.Not(z3.Select(L, 0)))
        pres = con.pre(c)
        for lab, g in pres:
            st.assume(g)
        for g in con.axioms(c):
            st.assume(g)
        con.after_pre(c)
        # vacuity: the precondition must be satisfiable as far as the solver can tell
        r = self.full.check(st.pc, [])
        ob = Ob(self.fname, 'vacuity', 'precondition is not contradictory', None)
        ob.ok, ob.backend = r != z3.unsat, 'z3'
        self.obs.append(ob)
        mem0 = {}
        outs = self.run(fr, f.order[0], None, st)
        rets = 0
        for o in outs:
            s2 = o[1]
            if self.full.check(s2.pc, []) == z3.unsat:
                continue
            rets += 1
            if os.environ.get('DV_SMOKE'):       # development: every return path must be satisfiable
                self.oblige(s2, z3.BoolVal(False), 'smoke', 'path %d' % rets)
                continue
            c2 = Ctx(self, s2, c.a, 'verify', {})
            c2.__dict__.update({k: v for k, v in c.__dict__.items() if k not in ('st', 'mods', 'm1', 'ret')})
            c2.st = s2
            c2.mods = []
            c2.m1 = M(self, s2.mem)
            c2.ret = o[2]
            if isinstance(o[2], IntV):
                sg = con.ret_signed if con.ret_signed is not None else bool(cts is None or cts[0][0] != 'int' or cts[0][2])
                c2.rt = self.S(s2, o[2]) if sg else self.U(s2, o[2])
            elif isinstance(o[2], (FpV, BoolV)):
                c2.rt = o[2].t
            else:
                c2.rt = o[2]
            self.ctx = c2
            con.at_return(c2)
            cases = con.cases(c2)
            if len(cases) > 1:
                self.oblige(s2, z3.Or(*[con.guard(c2, k) for k in cases]), 'post', 'one of the outcomes applies')
            for case in cases:
                c2.case = case
                hyp = con.guard(c2, case) if len(cases) > 1 else z3.BoolVal(True)
                for lab, g in con.post(c2):
                    self.oblige(s2, z3.Implies(hyp, g) if len(cases) > 1 else g, 'post', lab)
            con.effects(c2)
            self.frame(s2, c2)
            self.ctx = c
        ob = Ob(self.fname, 'vacuity', 'a return is reachable', None)
        ob.ok, ob.backend = rets > 0 or con.noreturn, 'z3'
        self.obs.append(ob)

    def frame(self, st, c):
        L0 = self.memget({}, ('L',))
        for key, arr in st.mem.items():
            if key[0] == 'G':
                continue
            a0 = self.memget({}, key)
            if arr.eq(a0):
                continue
            o = fresh('frame')
            ex = [x for k, x in c.mods if k == key]
            if key[0] == 'C':
                own_rows = [f for k, f in c.mods if k == 'rows']
            else:
                own_rows = []
            own = [f(o) for k, f in c.mods if k == 'own' or k == ('pred', key)] + [f(o) for f in own_rows]
            hyp = z3.And(*[z3.Not(f) for f in own], z3.Or(self.nonelem(o, z3.Select(L0, o)), z3.And(o < -2000000, z3.Select(L0, AtB(o)))), *[o != x for x in ex])
            if key[0] == 'L':
                g = z3.Implies(z3.And(z3.Select(L0, o), *([o != x for x in ex] + [z3.Not(f) for f in own])), z3.Select(arr, o))
            else:
                g = z3.Implies(hyp, z3.Select(arr, o) == z3.Select(a0, o))
            nm = key[0]
            if key[0] == 'S':
                fa = self.prog.field_at(key[1], key[2])
                nm = '%s.%s' % (key[1], fa[0] if fa else key[2])
            self.oblige(st, g, 'frame', 'only the declared %s changes' % {'C': 'data', 'L': 'allocations'}.get(nm, nm))


class Contract:
    """base class of all contracts; subclasses override what they need"""
    name = None
    ret_signed = None
    noreturn = False
    is_lemma = False
    min_effort = 0
    folded = False
    props = ()

    def arith_hook(self, c, st, op, x, y):
        """may assume instances of proved lemmas when the code computes x op y"""

    def on_store(self, c, st, o, q, v, ty):
        """ghost code: may update ghost maps when the code stores v at cell q of object o"""

    def variants(self):
        return [None]

    def bind(self, c):
        pass

    def nargs_check(self, c, f):
        n = getattr(self, 'nargs', None)
        if n is not None and n != len(f.params):
            raise Unsupported('%s takes %d arguments, contract expects %d' % (f.name, len(f.params), n))

    def pre(self, c):
        return []

    def axioms(self, c):
        return []

    def after_pre(self, c):
        pass

    def cases(self, c):
        return [None]

    def guard(self, c, case):
        return z3.BoolVal(True)

    def effects(self, c):
        pass

    def post(self, c):
        return []

    def at_return(self, c):
        pass

    def after_call(self, c):
        pass

    def bounds(self, c):
        return []

    def frame_extra(self, c):
        return []

    def templates(self, c):
        return []
