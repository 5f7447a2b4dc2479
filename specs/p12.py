import math
from .common import *
from .angles import *
from engine.fp import SORT

R = Registry()
KEPT = ('m_durationSeconds', 'm_startFrequencyHz', 'm_endFrequencyHz', 'm_type', 'm_loop', 'm_sampleRateHz', 'm_durationFrames', 'm_initialPhaseRadians', 'm_isFixedFrequency', 'm_frequencyRatio')


def equal(fp, a, b):
    return fp.lt(fp.abs(fp.sub(a, b)), fp.lit(1e-8, 64))


def sweep(c, T, loop=None, law=None):
    """a sweep in an arbitrary reachable state"""
    I, fp = c.I, c.fp
    CL = 'SineSweep<%s>' % T
    this = c.obj('this', CL)
    v = {n: c.field(this, n) for n in KEPT}
    if loop is not None:
        c.assume(v['m_loop'] == loop)
    else:
        c.assume(z3.Or(v['m_loop'] == 0, v['m_loop'] == 1))
    if law is not None:
        c.assume(v['m_type'] == law)
    else:
        c.assume(z3.Or(v['m_type'] == 0, v['m_type'] == 1))
    # what the constructor establishes
    c.assume(v['m_isFixedFrequency'] == equal(fp, v['m_startFrequencyHz'], v['m_endFrequencyHz']))
    c.assume(v['m_frequencyRatio'] == fp.div(v['m_endFrequencyHz'], v['m_startFrequencyHz']))
    return CL, this, v


def kept(c, this, v):
    return z3.And(*[c.field(this, n) == v[n] for n in KEPT])


@R.unit('SineSweep<{0}>::renderNextBlock ({1}, {2})', *[(T, l, w) for T in FLOATS2 for l in ('once', 'looping') for w in ('linear', 'logarithmic')])
@expects('rendered')
def render(c, T, mode, lawname):
    I, fp = c.I, c.fp
    loop = mode == 'looping'
    law = I.u.enum_value('SineSweep::SweepType', 'linear' if lawname == 'linear' else 'log')

    def case():
        attach(c)
        I.skolems = [(c_, f_)]
        CL, this, v = sweep(c, T, I.u.enum_value('SineSweep::Loop', 'yes' if loop else 'no'), law)
        p0, ph0, sil0, rev0 = (c.field(this, n) for n in ('m_posFrames', 'm_currentPhaseRadians', 'm_generateSilence', 'm_reverseFrequencyDirection'))
        D, sr = v['m_durationFrames'], v['m_sampleRateHz']
        c.assume(z3.And(D < 1 << 60, z3.Implies(D > 0, p0 < D)))
        if not loop:
            c.assume(z3.Not(rev0))
        ob = buf(c, 'out', T)
        vo = c.get(ob)
        quiet = z3.Or(sil0, D == 0)
        A = z3.Function('angleAt', z3.IntSort(), ANGLE)
        P = z3.Function('sweepFrame', z3.IntSort(), z3.IntSort())
        V = z3.Function('reversed', z3.IntSort(), z3.BoolSort())
        pos = (lambda n: P(n)) if loop else (lambda n: p0 + n)
        rev = (lambda n: V(n)) if loop else (lambda n: z3.BoolVal(False))
        zero = fp.lit(0.0, W(T))
        c.assume(A(z3.IntVal(0)) == angle(ph0))
        if loop:
            c.assume(z3.And(P(z3.IntVal(0)) == p0, V(z3.IntVal(0)) == rev0))

        seen = set()

        def define(n):
            n = z3.simplify(n)
            if n.get_id() in seen:
                return
            seen.add(n.get_id())
            I.keepalive.append(n)
            if loop:
                end = P(n) + 1 == D
                fp.ax(P(n + 1) == z3.If(end, 0, P(n) + 1))
                fp.ax(V(n + 1) == z3.Xor(V(n), end))
                fp.ax(z3.Implies(z3.And(n >= 0, D > 0), z3.And(P(n) >= 0, P(n) < D)))
            # the frequency of the next frame; each way the code may write it as its own ground law
            s, e, one = v['m_startFrequencyHz'], v['m_endFrequencyHz'], fp.lit(1.0, 64)
            at = lambda x: fp.add(s, fp.mul(fp.sub(e, s), x)) if lawname == 'linear' else fp.mul(s, fp.bin('pow', v['m_frequencyRatio'], x))

            def state(g, f):
                fp.ax(z3.Implies(g, A(n + 1) == advance(A(n), fp.div(fp.mul(fp.lit(2 * math.pi, 64), f), sr))))
            fixed, back = v['m_isFixedFrequency'], rev(n + 1)
            state(fixed, s)
            for base in ([pos(n + 1), z3.IntVal(0)] if loop else [pos(n + 1)]):
                t = fp.div(fp.div(fp.i2f(base, 64), sr), v['m_durationSeconds'])
                g = z3.And(z3.Not(fixed), pos(n + 1) == base)
                state(z3.And(g, z3.Not(back)), at(t))
                if loop:
                    state(z3.And(g, back), at(fp.sub(one, t)))
                    for r in (V(n), V(n + 1), z3.Not(V(n))):
                        state(z3.And(g, back == r), at(z3.If(r, fp.sub(one, t), t)))

        def value(f):
            s = fp.cvt(sine(A(f)), W(T))
            on = z3.Not(quiet) if loop else z3.And(z3.Not(quiet), p0 + f < D)
            return z3.If(on, s, zero)

        def hint(h):
            out = []
            for a in h.ints:
                if a.v0 is None or 'm_posFrames' in a.name:
                    continue
                n = lambda st, a=a: a.get(st) - a.v0
                define(a.v - a.v0)
                if loop:
                    out.append(('position at %s' % a.name, lambda st, n=n: I.get(this.f('m_posFrames'), st) == P(n(st))))
                    out.append(('direction at %s' % a.name, lambda st, n=n: I.get(this.f('m_reverseFrequencyDirection'), st) == V(n(st))))
                else:
                    out.append(('position at %s' % a.name, lambda st, n=n: I.get(this.f('m_posFrames'), st) == p0 + n(st)))
                for l in float_locs(h, SORT[64]):
                    out.append(('%s at the angle of %s' % (l.name, a.name), lambda st, l=l, n=n: angle(l.get(st)) == A(n(st))))
            out.append(('inside the sweep', lambda st: I.get(this.f('m_posFrames'), st) < D))
            return out
        I.hints = [hint]
        I.elem_specs = [('sweep', lambda I_, l, base, head, idx: value(idx[1]) if len(idx) == 2 else None)]
        c.call(this, CL, 'renderNextBlock', [ob])
        c.cover('rendered')
        o = c.get(ob)
        c.prove('every sample is the sine of the phase of its frame, or zero after the end', z3.Implies(inbuf(o), o.data.read(c_, f_) == value(f_)))
        c.prove('the block keeps its shape', z3.And(o.nc == vo.nc, o.nf == vo.nf))
        n = vo.nf
        p1, ph1, sil1, rev1 = (c.field(this, x) for x in ('m_posFrames', 'm_currentPhaseRadians', 'm_generateSilence', 'm_reverseFrequencyDirection'))
        if loop:
            c.prove('a looping sweep goes on for ever', z3.Implies(z3.Not(quiet), z3.Not(sil1)))
            c.prove('the next block continues at the next frame, in the same direction and phase', z3.Implies(z3.Not(quiet), z3.And(p1 == P(n), rev1 == V(n), angle(ph1) == A(n))))
        else:
            c.prove('the next block continues at the next frame and phase', z3.Implies(z3.And(z3.Not(quiet), p0 + n < D), z3.And(p1 == p0 + n, angle(ph1) == A(n), z3.Not(sil1), z3.Not(rev1))))
            c.prove('a sweep that has ended stays silent', z3.Implies(z3.And(z3.Not(quiet), p0 + n >= D), sil1))
        c.prove('silence stays silence', z3.Implies(sil0, sil1))
        c.prove('the position stays inside the sweep', z3.Implies(D > 0, p1 < D))
        c.prove('the settings are kept', kept(c, this, v))
    return case


@R.unit('SineSweep<{0}> constructor', *FLOATS2)
@expects('accepted', 'refused')
def ctor(c, T):
    I, fp = c.I, c.fp
    CL = 'SineSweep<%s>' % T

    def case():
        attach(c)
        d, s, e, ph = (c.val('double', n) for n in ('duration', 'start', 'end', 'phase'))
        ty, lo = c.val('int', 'type'), c.val('int', 'loop')
        c.assume(z3.And(ty >= 0, ty <= 1, lo >= 0, lo <= 1, fp.isfinite(ph)))
        z = fp.lit(0.0, 64)
        bad = z3.Or(fp.lt(d, z), fp.le(s, z), fp.le(e, z))
        try:
            this = c.ctor('this', CL, [d, s, e, ty, lo, ph])
        except Throw as x:
            c.prove('only a negative duration or a non-positive frequency is refused, with a value error', z3.And(bad, z3.BoolVal(x.ty == 'ValueError')))
            c.cover('refused')
            return
        c.cover('accepted')
        c.prove('a negative duration or a non-positive frequency is refused', z3.Not(bad))
        g = lambda n: c.field(this, n)
        c.prove('the settings are those given', z3.And(g('m_durationSeconds') == d, g('m_startFrequencyHz') == s, g('m_endFrequencyHz') == e, g('m_type') == ty, g('m_loop') == lo))
        c.prove('the derived settings match', z3.And(g('m_isFixedFrequency') == equal(fp, s, e), g('m_frequencyRatio') == fp.div(e, s)))
        c.prove('the sweep starts at the given phase', z3.And(angle(g('m_currentPhaseRadians')) == angle(ph), angle(g('m_initialPhaseRadians')) == angle(ph)))
        c.prove('the sweep starts at its first frame, forwards', z3.And(g('m_posFrames') == 0, z3.Not(g('m_reverseFrequencyDirection'))))
        c.prove('only a sweep of no length starts silent', g('m_generateSilence') == equal(fp, d, z))
    return case


@R.unit('SineSweep<{0}> prepare and reset', *FLOATS2)
def others(c, T):
    I, fp = c.I, c.fp

    def prepare():
        attach(c)
        CL, this, v = sweep(c, T)
        sr = c.val('double', 'sampleRate')
        total = fp.mul(v['m_durationSeconds'], sr)
        c.assume(z3.And(z3.Not(fp.nan(total)), fp.rank(total) >= 0, fp.lt(total, fp.lit(2.0 ** 62, 64))))
        s0 = c.field(this, 'm_generateSilence')
        ph0, p0 = c.field(this, 'm_currentPhaseRadians'), c.field(this, 'm_posFrames')
        c.call(this, CL, 'prepare', [sr, c.val('size_t', 'channels'), c.val('size_t', 'maxBlock')])
        c.prove('the sweep lasts round(duration x sample rate) frames', z3.And(c.field(this, 'm_durationFrames') == fp.f2i(fp.round_(total, 'round')), c.field(this, 'm_sampleRateHz') == sr))
        c.prove('prepare keeps the settings', z3.And(*[c.field(this, n) == v[n] for n in KEPT if n not in ('m_sampleRateHz', 'm_durationFrames')]))
        ph1 = angle(c.field(this, 'm_currentPhaseRadians'))
        p1 = c.field(this, 'm_posFrames')
        c.prove('preparing does not move the stream other than to its start', z3.Or(z3.And(ph1 == angle(ph0), p1 == p0, c.field(this, 'm_generateSilence') == s0), z3.And(ph1 == angle(v['m_initialPhaseRadians']), p1 == 0)))

    def reset():
        attach(c)
        CL, this, v = sweep(c, T)
        c.call(this, CL, 'reset', [])
        g = lambda n: c.field(this, n)
        c.prove('reset starts over at the first frame, forwards, at the start phase', z3.And(g('m_posFrames') == 0, z3.Not(g('m_reverseFrequencyDirection')), angle(g('m_currentPhaseRadians')) == angle(v['m_initialPhaseRadians'])))
        c.prove('only a sweep of no length is silent after a reset', g('m_generateSilence') == equal(fp, v['m_durationSeconds'], fp.lit(0.0, 64)))
        c.prove('reset keeps the settings', kept(c, this, v))
    return [prepare, reset]


@R.unit('SineSweep<{0}> derived sweeps', *FLOATS2)
def derived(c, T):
    I, fp = c.I, c.fp
    FIELD = {'withDuration': 'm_durationSeconds', 'withStartFrequency': 'm_startFrequencyHz', 'withEndFrequency': 'm_endFrequencyHz', 'withType': 'm_type', 'withLoop': 'm_loop', 'withPhase': 'm_initialPhaseRadians'}

    def one(method):
        def case():
            attach(c)
            CL, this, v = sweep(c, T)
            z = fp.lit(0.0, 64)
            c.assume(z3.And(fp.le(z, v['m_durationSeconds']), fp.lt(z, v['m_startFrequencyHz']), fp.lt(z, v['m_endFrequencyHz']), fp.isfinite(v['m_initialPhaseRadians'])))
            if method in ('withType', 'withLoop'):
                x = c.val('int', 'x')
                c.assume(z3.And(x >= 0, x <= 1))
            else:
                x = c.val('double', 'x')
                c.assume(fp.isfinite(x))
                c.assume(z3.BoolVal(True) if method == 'withPhase' else fp.le(z, x) if method == 'withDuration' else fp.lt(z, x))
            s = c.call(this, CL, method, [x])
            g = lambda n: s.fields[n]
            for n in ('m_durationSeconds', 'm_startFrequencyHz', 'm_endFrequencyHz', 'm_type', 'm_loop'):
                c.prove('%s: %s' % (method, 'the setting is the one given' if FIELD[method] == n else 'all other settings are kept'), g(n) == (x if FIELD[method] == n else v[n]))
            ph = x if method == 'withPhase' else v['m_initialPhaseRadians']
            c.prove('%s: the start phase' % method, z3.And(angle(g('m_initialPhaseRadians')) == angle(ph), angle(g('m_currentPhaseRadians')) == angle(ph)))
            c.prove('%s: a new sweep starts at its start' % method, z3.And(g('m_posFrames') == 0, z3.Not(g('m_reverseFrequencyDirection'))))
            c.prove('%s: the sweep it is derived from is untouched' % method, kept(c, this, v))
        return case
    return [one(m) for m in FIELD]
