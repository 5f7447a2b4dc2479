"""Bit-precise proofs of the floating point laws.

fp.py emits laws about its uninterpreted operations while a proof is generated. This program makes it emit them for every
operation on arbitrary operands (and on literals that matter), interprets each emitted law in the SMT theory of IEEE 754
floating point (operations round to nearest even; rank(x) is read off the bit pattern) and has the solvers prove it; and
proves that the term an operation returns (which may be simplified) is the IEEE result. Usage: python3-vt -m engine.fplemmas"""
import multiprocessing
import sys
import time
import z3
from . import fp as F

BV = 80         # width for ranks and integers
FMT = {32: z3.FPSort(8, 24), 64: z3.FPSort(11, 53)}
RNE = z3.RNE()


class Tr:
    """from the language of fp.py to the SMT theory"""

    def __init__(self, E):
        self.E, self.side, self.vars = E, [], {}
        self.memo = {}

    def rank(self, x, w):
        b = z3.fpToIEEEBV(x)
        m = z3.ZeroExt(BV - w, z3.Concat(z3.BitVecVal(0, 1), z3.Extract(w - 2, 0, b)))
        return z3.If(z3.fpIsNaN(x), z3.BitVecVal(0, BV), z3.If(z3.fpIsNegative(x), -m, m))     # the rank of NaN is never used: any value will do

    def fl(self, t):
        """a float term"""
        k = ('f', t.get_id())
        if k not in self.memo:
            self.memo[k] = self.fl_(t)
        return self.memo[k]

    def fl_(self, t):
        w = F.bits_of(t)
        S = FMT[w]
        if t.get_id() in self.E.litval:
            return z3.FPVal(self.E.litval[t.get_id()][1], S)
        n, a = t.decl().name(), t.children()
        if t.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(self.bo(a[0]), self.fl(a[1]), self.fl(a[2]))
        if not a:
            return self.vars.setdefault(n, z3.FP(n, S))
        op = n[:-len(str(w))] if n.endswith(str(w)) else n
        if n.startswith('cvt'):
            return z3.fpToFP(RNE, self.fl(a[0]), S)
        if op == 'i2f':
            return z3.fpToFP(RNE, self.it(a[0]), S)     # signed
        x = [self.fl(q) for q in a]
        if op == 'neg':
            return z3.fpNeg(x[0])
        if op == 'abs':
            return z3.fpAbs(x[0])
        if op in ('add', 'mul', 'div'):
            return {'add': z3.fpAdd, 'mul': z3.fpMul, 'div': z3.fpDiv}[op](RNE, *x)
        if op in ('round', 'floor', 'ceil', 'trunc'):
            return z3.fpRoundToIntegral({'round': z3.RNA(), 'floor': z3.RTN(), 'ceil': z3.RTP(), 'trunc': z3.RTZ()}[op], x[0])
        raise ValueError('operation ' + n)

    def it(self, t):
        """an integer term"""
        if z3.is_int_value(t):
            return z3.BitVecVal(t.as_long(), BV)
        a = t.children()
        k = t.decl().kind()
        if k == z3.Z3_OP_UMINUS:
            return -self.it(a[0])
        if k == z3.Z3_OP_MUL and z3.is_int_value(a[0]):
            return self.it(a[0]) * self.it(a[1])
        if k == z3.Z3_OP_ITE:
            return z3.If(self.bo(a[0]), self.it(a[1]), self.it(a[2]))
        n = t.decl().name()
        if n.startswith('rank'):
            return self.rank(self.fl(a[0]), F.bits_of(a[0]))
        if n.startswith('f2i'):
            x = self.fl(a[0])
            lim = z3.FPVal(2.0 ** 64, x.sort())
            self.side.append(z3.And(z3.fpLT(x, lim), z3.fpGT(x, z3.fpNeg(lim))))    # the only use
            return z3.fpToSBV(z3.RTZ(), x, z3.BitVecSort(BV))
        if not a:
            v = self.vars.setdefault(n, z3.BitVec(n, BV))
            self.side.append(z3.And(v > -(1 << 63) - 1, v < 1 << 64))
            return v
        raise ValueError('integer %s' % t)

    def bo(self, t):
        a, k = t.children(), t.decl().kind()
        if z3.is_true(t) or z3.is_false(t):
            return t
        if k == z3.Z3_OP_EQ or k == z3.Z3_OP_DISTINCT:
            if F.bits_of(a[0]) is not None:
                r = self.fl(a[0]) == self.fl(a[1])
            elif a[0].sort() == z3.IntSort():
                r = self.it(a[0]) == self.it(a[1])
            else:
                r = self.bo(a[0]) == self.bo(a[1])
            return z3.Not(r) if k == z3.Z3_OP_DISTINCT else r
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
            x = [self.bo(q) for q in a]
            return {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_NOT: lambda p: z3.Not(p), z3.Z3_OP_IMPLIES: z3.Implies}[k](*x)
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
            x, y = self.it(a[0]), self.it(a[1])
            return {z3.Z3_OP_LE: x <= y, z3.Z3_OP_LT: x < y, z3.Z3_OP_GE: x >= y, z3.Z3_OP_GT: x > y}[k]
        if k == z3.Z3_OP_ITE:
            return z3.If(*[self.bo(q) for q in a])
        if t.decl().name().startswith('nan'):
            return z3.fpIsNaN(self.fl(a[0]))
        raise ValueError('formula %s' % t)


LITS = [0.0, 1.0, -1.0, 0.5, 2.0, 1e-6, 20.0, 120.0, 3.14159265358979, 1e30, 0.1, float('inf')]


def goals(which):
    """(name, formula to be proved)"""
    out = []

    def op(name, fn, want, mk):
        E = F.FP()
        a = mk(E)
        t = fn(E, *a)
        tr = Tr(E)
        out.append(('%s is the IEEE result' % name, tr.fl(t) == want(*[tr.fl(x) for x in a]) if t.sort() != z3.IntSort() else z3.BoolVal(True), list(tr.side)))
        emitted(name, E, t)

    def emitted(name, E, t=None):
        done = 0
        while True:
            E.all_axioms()
            ax = E.axioms[done:]
            if not ax:
                break
            done = len(E.axioms)
            for i, f in enumerate(ax):
                tr = Tr(E)
                g = tr.bo(f)
                out.append(('%s: law %d: %s' % (name, i, str(f).replace('\n', ' ')[:300]), g, tr.side))

    for w in (32, 64):
        S = F.SORT[w]
        x, y, z = z3.Consts('x y z', S)
        direct = {'add': z3.fpAdd, 'mul': z3.fpMul, 'div': z3.fpDiv, 'sub': z3.fpSub}
        for n in ('add', 'mul', 'div', 'sub'):
            q = direct[n]
            do = lambda E, a, b, n=n: getattr(E, n)(a, b)
            wt = lambda a, b, q=q: q(RNE, a, b)
            op('%s%d x y' % (n, w), do, wt, lambda E: [x, y])
            op('%s%d y x' % (n, w), do, wt, lambda E: [y, x])
            op('%s%d x x' % (n, w), do, wt, lambda E: [x, x])
            op('%s%d -x y' % (n, w), do, wt, lambda E: [E.neg(x), y])
            op('%s%d x -y' % (n, w), do, wt, lambda E: [x, E.neg(y)])
            op('%s%d -x -y' % (n, w), do, wt, lambda E: [E.neg(x), E.neg(y)])
            for v in LITS:
                op('%s%d x %r' % (n, w, v), do, wt, lambda E, v=v: [x, E.lit(v, w)])
                if n != 'sub':
                    op('%s%d %r x' % (n, w, v), do, wt, lambda E, v=v: [E.lit(v, w), x])
                for u in (0.5, -3.0, 1e-30):
                    if n != 'div' or v != 0:
                        op('%s%d %r %r' % (n, w, u, v), do, wt, lambda E, v=v, u=u: [E.lit(u, w), E.lit(v, w)])
        op('neg%d' % w, lambda E, a: E.neg(a), lambda a: z3.fpNeg(a), lambda E: [x])
        op('neg%d neg' % w, lambda E, a: E.neg(a), lambda a: z3.fpNeg(a), lambda E: [E.neg(x)])
        op('abs%d' % w, lambda E, a: E.abs(a), lambda a: z3.fpAbs(a), lambda E: [x])
        op('abs%d neg' % w, lambda E, a: E.abs(a), lambda a: z3.fpAbs(a), lambda E: [E.neg(x)])
        op('abs%d abs' % w, lambda E, a: E.abs(a), lambda a: z3.fpAbs(a), lambda E: [E.abs(x)])
        op('abs%d sum' % w, lambda E, a: E.abs(a), lambda a: z3.fpAbs(a), lambda E: [E.add(x, y)])
        op('abs%d sum of negations' % w, lambda E, a: E.abs(a), lambda a: z3.fpAbs(a), lambda E: [E.add(E.neg(x), E.neg(y))])
        E = F.FP()
        E.inj(x, y)
        emitted('inj%d' % w, E)
        for n, m in (('round', z3.RNA()), ('floor', z3.RTN()), ('ceil', z3.RTP()), ('trunc', z3.RTZ())):
            def mk(E):
                for v in LITS[:-1]:
                    E.lit(v, w)
                return [x]
            op('%s%d' % (n, w), lambda E, a, n=n: E.round_(a, n), lambda a, m=m: z3.fpRoundToIntegral(m, a), mk)
            for v in (0.5, 0.49999999999999994, -2.5, 4503599627370497.0, 1e-6):
                op('%s%d %r' % (n, w, v), lambda E, a, n=n: E.round_(a, n), lambda a, m=m: z3.fpRoundToIntegral(m, a), lambda E, v=v: [E.lit(v, w)])
        # comparisons: what lt, le, eq say about ranks
        E = F.FP()
        tr = Tr(E)
        for n, f, g in (('lt', E.lt(x, y), z3.fpLT), ('le', E.le(x, y), z3.fpLEQ), ('eq', E.eq(x, y), z3.fpEQ), ('isinf', E.isinf(x), None), ('isfinite', E.isfinite(x), None)):
            X, Y = tr.fl(x), tr.fl(y)
            want = g(X, Y) if g else (z3.fpIsInf(X) if n == 'isinf' else z3.Not(z3.Or(z3.fpIsInf(X), z3.fpIsNaN(X))))
            out.append(('%s%d is the IEEE comparison' % (n, w), tr.bo(f) == want, []))
        # literals
        E = F.FP()
        for v in LITS + [float('nan'), 1e-310, 0.30000001192092896]:
            E.lit(v, w)
        emitted('literals%d' % w, E)
        # integers
        n_ = z3.Int('n')
        E = F.FP()
        t = E.i2f(n_, w)
        emitted('i2f%d' % w, E)
        E = F.FP()
        for v in LITS[:-1]:
            if abs(v) < 2 ** 63:
                E.lit(v, w)
        E.f2i(x)
        emitted('f2i%d' % w, E)
    for fr, to in ((32, 64), (64, 32)):
        x, y = z3.Consts('x y', F.SORT[fr])
        sort = FMT[to]
        wt = lambda a: z3.fpToFP(RNE, a, sort)
        for name, mk in (('x', lambda E: x), ('-x', lambda E: E.neg(x)), ('|x|', lambda E: E.abs(x))):
            def mk2(E, mk=mk):
                for v in LITS[:-1]:
                    E.lit(v, 64)
                return [mk(E)]
            op('cvt%d_%d %s' % (fr, to, name), lambda E, a: E.cvt(a, to), wt, mk2)
        op('cvt%d_%d of cvt' % (fr, to), lambda E, a: E.cvt(a, to), wt, lambda E: [E.cvt(z3.Const('u', F.SORT[to]), fr)])
        for v in LITS:
            op('cvt%d_%d %r' % (fr, to, v), lambda E, a: E.cvt(a, to), wt, lambda E, v=v: [E.lit(v, fr)])
        E = F.FP()
        E.cvt(x, to)
        E.cvt(y, to)
        emitted('cvt%d_%d x, y' % (fr, to), E)
    return out


_g = None


def one(k):
    global _g
    name, f, side = _g[k]
    t0 = time.time()
    s = z3.Solver()
    s.set('timeout', LIMIT)
    for q in side:
        s.add(q)
    s.add(z3.Not(f))
    r = s.check()
    by = 'z3'
    if r == z3.unknown:
        r = cvc5_check(s.to_smt2())
        by = 'cvc5'
    return name, str(r), by, time.time() - t0, str(s.model())[:400] if r == z3.sat else ''


LIMIT = 150000


def cvc5_check(text):
    import subprocess
    try:
        p = subprocess.run(['cvc5', '--tlimit=%d' % (LIMIT * 4), '--lang=smt2'], input='(set-logic ALL)\n' + text, capture_output=True, text=True)
    except OSError:
        return 'unknown'
    w = p.stdout.split()
    return w[0] if w else 'unknown'


def main():
    global _g
    t0 = time.time()
    _g = [g for g in goals(None)]
    seen, todo = set(), []
    for i, (n, f, side) in enumerate(_g):
        k = (f.sexpr(), tuple(q.sexpr() for q in side))
        if k not in seen:
            seen.add(k)
            todo.append(i)
    bad = []
    slow = []
    with multiprocessing.get_context('fork').Pool(8) as pool:
        for name, r, by, dt, model in pool.imap_unordered(one, todo):
            if r != 'unsat':
                bad.append((name, r))
                print('NOT PROVED (%s): %s %s' % (r, name, model))
                sys.stdout.flush()
            slow.append((dt, name, by))
    slow.sort(reverse=True)
    print('%d laws, %d proved, %d not; %.0f s; slowest %s' % (len(todo), len(todo) - len(bad), len(bad), time.time() - t0, slow[:3]))
    return 2 if any(r == 'sat' for _, r in bad) else 1 if bad else 0


if __name__ == '__main__':
    sys.exit(main())
