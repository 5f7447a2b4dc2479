"""Ghost view of phases: the angle a floating point phase stands for (phase arithmetic taken as exact, modulo 2*pi).

angle(x) is an abstract value; advance(a, d) is the angle a moved by d.  Laws (theorems of real arithmetic modulo 2*pi):
   angle(fmod(x, 2*pi)) = angle(remainder(x, 2*pi)) = angle(x +- 2*pi) = angle(x)
   angle(x + d) = advance(angle(x), d)
   sin(x) = sine(angle(x))
Rounding of the phase (about 1e-16 per step) is not modelled; the replay driver measures it."""
import math
import z3
from engine.fp import SORT
from engine import lib

ANGLE = z3.DeclareSort('Angle')
angle = z3.Function('angle', SORT[64], ANGLE)
advance = z3.Function('advance', ANGLE, SORT[64], ANGLE)
sine = z3.Function('sine', ANGLE, SORT[64])


def attach(c):
    fp = c.fp
    if getattr(fp, 'angles', False):
        return
    fp.angles = True
    two = fp.lit(2 * math.pi, 64)
    ntwo = fp.lit(-2 * math.pi, 64)
    seen = set()
    lib.trust('phases stand for angles: fmod, remainder and +-2*pi keep the angle, x+d advances it by d, sin depends on the angle only (rounding of phases not modelled)')

    def same(t, x):
        # only a finite phase has an angle
        fp.ax(angle(t) == angle(x))

    def observe(name, bits, args, t):
        if bits != 64 or t.get_id() in seen:
            return
        seen.add(t.get_id())
        fp.keep.append(t)
        if name in ('fmod', 'remainder') and args[1].eq(two):
            same(t, args[0])
        elif name == 'add':
            for x, d in ((args[0], args[1]), (args[1], args[0])):
                if d.eq(two) or d.eq(ntwo):
                    same(t, x)
                else:
                    fp.ax(angle(t) == advance(angle(x), d))
        elif name == 'sin':
            fp.ax(t == sine(angle(args[0])))
    fp.observers.append(observe)
