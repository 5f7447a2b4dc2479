from .common import *
from engine.fp import SORT, BITS

R = Registry()


@R.unit('decibel conversions ({0})', *FLOATS2)
def decibels(c, T):
    fp, w = c.fp, W(T)

    def to_ratio():
        x = c.val(T, 'db')
        r = c.func('decibelsToRatio', [x], has_type(T))
        c.prove('the ratio is 10^(dB/20), and zero below -120 dB', r == db_to_ratio(c, x))
        c.prove('a ratio is never negative', z3.Implies(z3.Not(fp.nan(x)), z3.And(z3.Not(fp.nan(r)), fp.rank(r) >= 0)))

    def to_db():
        x = c.val(T, 'ratio')
        r = c.func('ratioToDecibels', [x], has_type(T))
        low = fp.lt(fp.cvt(x, 64), fp.lit(1e-6, 64))
        c.prove('the level is -120 dB below 1e-6, including zero and negative ratios', z3.Implies(low, r == fp.lit(-120.0, w)))
        c.prove('the level is 20*log10(ratio) otherwise', z3.Implies(z3.Not(low), r == fp.mul(fp.lit(20.0, w), fp.un('log10', x))))
    return [to_ratio, to_db]


@R.unit('clamp ({0})', *FLOATS2)
def clamp(c, T):
    fp = c.fp

    def case():
        x, lo, hi = (c.I.temp(T, c.val(T, n)) for n in ('value', 'low', 'high'))
        v, l, h = c.get(x), c.get(lo), c.get(hi)
        c.assume(fp.le(l, h))
        r = c.func('clamp', [x, lo, hi], has_type(T))
        c.prove('a value between the bounds is returned as it is', z3.Implies(z3.And(fp.le(l, v), fp.le(v, h)), r == v))
        c.prove('a value below the low bound becomes the low bound', z3.Implies(fp.lt(v, l), r == l))
        c.prove('a value above the high bound becomes the high bound', z3.Implies(fp.lt(h, v), r == h))
    return case


@R.unit('approximate comparison ({0})', *FLOATS2)
def compare(c, T):
    fp, w = c.fp, W(T)

    def case():
        a, b, e = (c.val(T, n) for n in ('a', 'b', 'epsilon'))
        c.assume(z3.And(fp.isfinite(a), fp.isfinite(b), z3.Not(fp.nan(e))))
        eq = c.func('floatsEqual', [a, b, e], has_type(T))
        ne = c.func('floatsNotEqual', [a, b, e], has_type(T))
        T_, F_ = c.I.tobool(eq), c.I.tobool(ne)
        c.prove('numbers are equal exactly when they differ by less than the tolerance', T_ == fp.lt(fp.abs(fp.sub(a, b)), e))
        c.prove('equal and not equal are complements', T_ == z3.Not(F_))
    return case


@R.unit('roundToSizeT ({0})', *FLOATS2)
def rounding(c, T):
    fp, w = c.fp, W(T)

    def case():
        x = c.val(T, 'x')
        c.assume(z3.And(z3.Not(fp.nan(x)), fp.rank(x) >= 0, fp.lt(x, fp.lit(2.0 ** 63, w))))
        r = c.func('roundToSizeT', [x], has_type(T))
        c.prove('the result is the nearest whole number', r == fp.f2i(fp.round_(x, 'round')))
    return case


@R.unit('wrapPhase ({0})', *FLOATS2)
def wrap(c, T):
    fp, w = c.fp, W(T)
    import math

    def case():
        x = c.val(T, 'phase')
        c.assume(fp.isfinite(x))
        r = c.func('wrapPhase', [x], has_type(T))
        two = fp.lit(2 * math.pi, w)
        c.prove('a wrapped phase is between 0 and 2*pi', z3.And(fp.le(fp.lit(0.0, w), r), fp.le(r, two)))
        rem = fp.bin('remainder', x, two)
        c.prove('a wrapped phase is the same angle', z3.If(fp.rank(rem) >= 0, r == rem, r == fp.cvt(fp.add(fp.cvt(rem, 64), fp.lit(2 * math.pi, 64)), w)))
    return case


FACTOR = {'s': None, 'ms': 1e-3, 'us': 1e-6, 'dB': None, 'Hz': None, 'kHz': 1e3, 'rad': None}


def literals(c, kind):
    import math
    fp = c.fp
    ty = 'long double' if kind == 'fractional' else 'unsigned long long'

    def one(name):
        def case():
            v = c.val(ty, 'val')
            r = c.func('operator""_' + name, [v], has_type(ty))
            x = v if kind == 'fractional' else fp.i2f(v, 64)
            b = BITS[x.sort()]
            if name == 'deg':
                want = fp.div(fp.mul(x, fp.cvt(fp.lit(math.pi, 64), b)), fp.cvt(fp.lit(180.0, 64), b))
            elif FACTOR[name] is None:
                want = x
            else:
                want = fp.mul(x, fp.cvt(fp.lit(FACTOR[name], 64), b))
            c.prove('_%s scales by its unit' % name, r == fp.cvt(want, 64))
        return case
    return [one(n) for n in list(FACTOR) + ['deg']]


literals.tu = 'units'
R.unit('unit literals ({0} numbers)', 'fractional', 'whole')(literals)


def constants(c):
    import math
    fp = c.fp

    def case():
        for n, v in (('inf_dB', math.inf), ('oo_dB', math.inf), ('pi_rad', math.pi), ('twoPi_rad', 2 * math.pi), ('halfPi_rad', math.pi / 2),
                     ('pi', math.pi), ('twoPi', 2 * math.pi), ('halfPi', math.pi / 2), ('inf', math.inf), ('oo', math.inf)):
            d = [x for x in c.u.byid.values() if x.get('kind') == 'VarDecl' and x.get('name') == n and x.get('inner')]
            c.prove('the constant %s is exact' % n, c.I.rv(c.I.global_ref(d[0])) == fp.lit(v, 64) if d else False)
    return case


constants.tu = 'units'
R.unit('unit constants')(constants)
