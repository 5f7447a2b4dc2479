"""Saved wav files read back as the same audio: the contracts of the writer (P14) and of the player (P13), proved from the
current source by the units taken over below, compose to the round trip through the file format that dr_wav is assumed to implement."""
from .common import *
from . import p13, p14

R = Registry()
R.units += [u for u in p14.R.units] + [u for u in p13.R.units if 'prepare' in u.name or 'constructor' in u.name or 'one shot' in u.name]


@R.unit('what is written is what is played ({0})', 'pcm16', 'pcm24', 'pcm32', 'float32')
@expects('played')
def round_trip(c, fmt):
    elem, width, bits = p14.FORMATS[fmt]

    def case():
        lib.trust('dr_wav: a file (up to 256 channels and 384 kHz, at least one frame) written frame by frame reads back with the same shape, sample rate and stored samples; a stored whole number n of b bits is played as n / 2^(b-1), rounded to a float')
        V, D, F, P = (z3.Function(n, *([z3.IntSort()] * k), z3.RealSort()) for n, k in (('value', 2), ('stored', 1), ('fileSample', 1), ('played', 2)))
        nc, nf, fnc, fnf, rate, frate = z3.Ints('channels frames fileChannels fileFrames rate fileRate')
        c.assume(z3.And(nc >= 1, nf >= 0, c_ >= 0, c_ < nc, f_ >= 0, f_ < nf))
        at = lambda ch, f, n: f * n + ch
        # the file keeps what it is given (dr_wav)
        c.assume(z3.And(fnc == nc, fnf == nf, frate == rate))
        x, n = V(c_, f_), D(at(c_, f_, nc))
        if fmt == 'float32':
            c.assume(n == x)                                              # P14: stored unchanged
            c.assume(F(at(c_, f_, nc)) == n)
        else:
            m = (1 << (bits - 1)) - 1
            p, r = z3.Reals('scaled rounding')
            c.assume(z3.And(x >= -1, x <= 1))
            u = z3.RealVal(1) / (1 << 53)
            c.assume(z3.And(p - m * x <= m * u, m * x - p <= m * u))      # one double multiplication
            c.assume(z3.And(n - p <= z3.Q(1, 2), p - n <= z3.Q(1, 2)))    # P14: the nearest whole number (values in +-1 do not saturate)
            e = z3.RealVal(0) if bits <= 24 else z3.RealVal(1) / (1 << 24)
            y = F(at(c_, f_, nc))
            c.assume(z3.And(y - n / (m + 1) <= e, n / (m + 1) - y <= e))  # dr_wav: n / 2^(b-1) as a float (exact up to 24 bits)
        c.assume(P(c_, f_) == F(at(c_, f_, fnc)))                         # P13: each sample of the file in its channel and frame
        y = P(c_, f_)
        if fmt == 'float32':
            c.prove('floats come back exactly', y == x)
        else:
            step = z3.RealVal(1) / (1 << (bits - 1))
            c.prove('samples come back within two quantisation steps', z3.And(y - x <= 2 * step + e, x - y <= 2 * step + e))
        c.prove('channels, frames and rate come back', z3.And(fnc == nc, fnf == nf, frate == rate))
        c.cover('played')
    return case
