"""Real-number view of doubles, for arguments about time (machine arithmetic on times taken as exact; reported as an assumption).

real(x) is the number a finite double stands for; sums, differences and negations of doubles are those of the numbers, comparisons of
doubles compare the numbers, and a double is determined by its number.  All other operations stay uninterpreted."""
import z3
from engine.fp import SORT, bits_of
from engine import lib
from fractions import Fraction

D = SORT[64]
real_ = z3.Function('real', D, z3.RealSort())
flt = z3.Function('flt', z3.RealSort(), D)


def attach(c):
    """gives c.fp the real-number view; returns real()"""
    fp = c.fp
    if getattr(fp, 'reals', None) is not None:
        return fp.reals
    lib.trust('times in seconds are treated as exact real numbers (rounding of time arithmetic not modelled)')
    seen = set()

    def real(t):
        v = fp.val(t)
        if v is not None:
            q = Fraction(v)
            return z3.RealVal(q.numerator) / z3.RealVal(q.denominator) if q.denominator != 1 else z3.RealVal(q.numerator)
        if fp.is_neg(t):
            return -real(t.arg(0))
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(t.arg(0), real(t.arg(1)), real(t.arg(2)))
        r = real_(t)
        if t.get_id() not in seen:
            seen.add(t.get_id())
            fp.keep.append(t)
            fp.ax(flt(r) == t)
        return r

    def observe(name, bits, args, t):
        if bits != 64:
            return
        if name == 'add':
            k = ('radd', t.get_id())
            if k not in fp.seen:
                fp.seen.add(k)
                fp.ax(real(t) == real(args[0]) + real(args[1]))
        elif name == 'neg':
            k = ('rneg', t.get_id())
            if k not in fp.seen:
                fp.seen.add(k)
                fp.ax(real_(t) == -real(args[0]))
    fp.observers.append(observe)
    lt, le, eq, nan = fp.lt, fp.le, fp.eq, fp.nan
    is64 = lambda a: bits_of(a) == 64
    fp.lt = lambda a, b: (real(a) < real(b)) if is64(a) else lt(a, b)
    fp.le = lambda a, b: (real(a) <= real(b)) if is64(a) else le(a, b)
    fp.eq = lambda a, b: (real(a) == real(b)) if is64(a) else eq(a, b)
    fp.ne = lambda a, b: z3.Not(fp.eq(a, b))
    fp.reals = real
    return real
