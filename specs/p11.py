import math
from .common import *
from .angles import *
from engine.fp import SORT

R = Registry()


@R.unit('Silence<{0}>', *FLOATS2)
def silence(c, T):
    I, fp = c.I, c.fp
    CL = 'Silence<%s>' % T

    def case():
        I.skolems = [(c_, f_)]
        this = c.obj('this', CL)
        ob = buf(c, 'out', T)
        vo = c.get(ob)
        zero = fp.lit(0.0, W(T))
        I.elem_specs = [('zero', lambda I_, l, base, head, idx: zero)]
        c.call(this, CL, 'renderNextBlock', [ob])
        o = c.get(ob)
        c.prove('silence: every sample is zero', z3.Implies(inbuf(o), o.data.read(c_, f_) == zero))
        c.prove('silence: the block keeps its shape', z3.And(o.nc == vo.nc, o.nf == vo.nf))
    return case


@R.unit('SineWave<{0}> constructor', *FLOATS2)
@expects('accepted')
def sine_ctor(c, T):
    fp = c.fp
    CL = 'SineWave<%s>' % T

    def case():
        attach(c)
        f, p = c.val('double', 'frequency'), c.val('double', 'phase')
        c.assume(fp.isfinite(p))
        bad = fp.le(f, fp.lit(0.0, 64))
        try:
            this = c.ctor('this', CL, [f, p])
        except Throw as e:
            c.prove('only a non-positive frequency is refused, with a value error', z3.And(bad, z3.BoolVal(e.ty == 'ValueError')))
            return
        c.cover('accepted')
        c.prove('a non-positive frequency is refused', z3.Not(bad))
        c.prove('the frequency is the one given', c.field(this, 'm_frequencyHz') == f)
        c.prove('the stream starts at the given phase', angle(c.field(this, 'm_phaseRadians')) == angle(p))
        c.prove('the stream restarts at the given phase', angle(c.field(this, 'm_initialPhaseRadians')) == angle(p))
    return case


@R.unit('SineWave<{0}> rendering', *FLOATS2)
@expects('rendered')
def sine_wave(c, T):
    I, fp = c.I, c.fp
    CL = 'SineWave<%s>' % T

    def render():
        attach(c)
        I.skolems = [(c_, f_)]
        this = c.obj('this', CL)
        fr, sr, p0, i0 = (c.field(this, n) for n in ('m_frequencyHz', 'm_sampleRateHz', 'm_phaseRadians', 'm_initialPhaseRadians'))
        ob = buf(c, 'out', T)
        vo = c.get(ob)
        step = fp.div(fp.mul(fp.lit(2 * math.pi, 64), fr), sr)
        # the angle at a position of the stream: defined by its start and its step
        A = z3.Function('angleAt', z3.IntSort(), ANGLE)
        n0 = z3.Int('position')
        c.assume(n0 >= 0)
        c.assume(angle(p0) == A(n0))
        law = lambda n: fp.ax(A(n + 1) == advance(A(n), step))

        def hint(h):
            out = []
            for l in float_locs(h, SORT[64]):
                for a in h.ints:
                    if a.v0 is None:
                        continue
                    law(n0 + a.v - a.v0)
                    out.append(('%s at the angle of %s' % (l.name, a.name), lambda st, l=l, a=a: angle(l.get(st)) == A(n0 + a.get(st) - a.v0)))
            return out
        I.hints = [hint]

        def value(n):
            return fp.cvt(sine(A(n)), W(T))
        I.elem_specs = [('sine', lambda I_, l, base, head, idx: value(n0 + idx[1]) if len(idx) == 2 else None)]
        law(n0)
        c.call(this, CL, 'renderNextBlock', [ob])
        o = c.get(ob)
        c.cover('rendered')
        c.prove('every sample of every channel is the sine of the phase of its frame', z3.Implies(inbuf(o), o.data.read(c_, f_) == value(n0 + f_)))
        c.prove('the block keeps its shape', z3.And(o.nc == vo.nc, o.nf == vo.nf))
        c.prove('the next block continues at the next frame', angle(c.field(this, 'm_phaseRadians')) == A(n0 + vo.nf))
        c.prove('frequency, rate and start phase are untouched', z3.And(c.field(this, 'm_frequencyHz') == fr, c.field(this, 'm_sampleRateHz') == sr, c.field(this, 'm_initialPhaseRadians') == i0))

    def restart():
        attach(c)
        this = c.obj('this', CL)
        fr, i0, p0 = c.field(this, 'm_frequencyHz'), c.field(this, 'm_initialPhaseRadians'), c.field(this, 'm_phaseRadians')
        sr = c.val('double', 'sampleRate')
        c.call(this, CL, 'prepare', [sr, c.val('size_t', 'channels'), c.val('size_t', 'maxBlock')])
        c.prove('prepare sets the sample rate', c.field(this, 'm_sampleRateHz') == sr)
        p1 = angle(c.field(this, 'm_phaseRadians'))
        c.prove('preparing does not move the stream to a phase other than its own or the start phase', z3.Or(p1 == angle(p0), p1 == angle(i0)))
        c.call(this, CL, 'reset', [])
        c.prove('reset restarts the stream at its start phase', angle(c.field(this, 'm_phaseRadians')) == angle(i0))
        c.prove('reset and prepare keep the rest', z3.And(c.field(this, 'm_frequencyHz') == fr, c.field(this, 'm_sampleRateHz') == sr, c.field(this, 'm_initialPhaseRadians') == i0))
    return [render, restart]


# ---------------------------------------------------------------- white noise
def generator(c, T):
    """contract of std::mt19937 with std::uniform_real_distribution: draw number k of a seed is a fixed number, draws come in order"""
    I = c.I
    w = W(T)
    U = z3.Function('draw%d' % w, z3.IntSort(), z3.IntSort(), SORT[w], SORT[w], SORT[w])
    lib.trust('std::mt19937 and std::uniform_real_distribution: the sequence of draws is determined by the seed and the bounds')

    def gen(I_, obj, args, node):
        if not args:
            return Struct('gen', {'seed': z3.IntVal(5489), 'n': z3.IntVal(0)})
        a = I.rv(args[0])
        if isinstance(a, Struct):
            return a
        return Struct('gen', {'seed': a, 'n': z3.IntVal(0)})
    I.contracts[('ctor', 'mersenne_twister_engine')] = gen

    def dist(I_, obj, args, node):
        a = [I.rv(x) for x in args]
        if len(a) == 1 and isinstance(a[0], Struct):
            return a[0]
        if not a:
            return Struct('dist', {'lo': c.fp.lit(0.0, w), 'hi': c.fp.lit(1.0, w)})
        return Struct('dist', {'lo': a[0], 'hi': a[1] if len(a) > 1 else c.fp.lit(1.0, w)})
    I.contracts[('ctor', 'uniform_real_distribution')] = dist

    def draw(I_, d, args, node):
        g = args[0]
        gv = I.get(g)
        dv = I.get(d)
        if not isinstance(g, LV):
            raise Unsupported('draw from a copy of the generator')
        r = U(gv.fields['seed'], gv.fields['n'], dv.fields['lo'], dv.fields['hi'])
        I.put(g.f('n'), gv.fields['n'] + 1)
        return r
    I.contracts[('functor', 'uniform_real_distribution')] = draw
    I.contracts[('uniform_real_distribution', 'reset')] = lambda *a: None

    def seed(I_, obj, args, node):
        I.put(obj, Struct('gen', {'seed': I.rv(args[0]) if args else z3.IntVal(5489), 'n': z3.IntVal(0)}))
    I.contracts[('mersenne_twister_engine', 'seed')] = seed
    return U


def noise_obj(c, T):
    I = c.I
    CL = 'WhiteNoise<%s>' % T
    this = c.obj('this', CL)
    sd = c.field(this, 'm_randomSeed')
    n = z3.Int('drawn')
    c.assume(n >= 0)
    I.put(this.f('m_randomNumberGenerator'), Struct('gen', {'seed': z3.Int('gen.seed'), 'n': n}))
    lo, hi = c.fp.lit(-1.0, W(T)), c.fp.lit(1.0, W(T))
    I.put(this.f('m_uniformRealDistribution'), Struct('dist', {'lo': lo, 'hi': hi}))
    return CL, this, sd, n, lo, hi


@R.unit('WhiteNoise<{0}>', *FLOATS2)
@expects('rendered')
def noise(c, T):
    I, fp = c.I, c.fp

    def ctor():
        generator(c, T)
        s = c.val('uint_fast32_t', 'seed')
        this = c.ctor('this', 'WhiteNoise<%s>' % T, [s])
        g, d = c.field(this, 'm_randomNumberGenerator'), c.field(this, 'm_uniformRealDistribution')
        c.prove('a new noise starts at the first draw of its seed', z3.And(g.fields['seed'] == s, g.fields['n'] == 0, c.field(this, 'm_randomSeed') == s))
        c.prove('noise is uniform between -1 and 1', z3.And(d.fields['lo'] == fp.lit(-1.0, W(T)), d.fields['hi'] == fp.lit(1.0, W(T))))

    def restart():
        generator(c, T)
        CL, this, sd, n, lo, hi = noise_obj(c, T)
        ch = c.val('size_t', 'channels')
        c.call(this, CL, 'prepare', [c.val('double', 'sr'), ch, c.val('size_t', 'maxBlock')])
        g = c.field(this, 'm_randomNumberGenerator')
        c.prove('prepare does not move the stream to other draws than the next or the first', z3.Or(z3.And(g.fields['seed'] == z3.Int('gen.seed'), g.fields['n'] == n), z3.And(g.fields['seed'] == sd, g.fields['n'] == 0)))
        c.prove('prepare sets the channel count', c.field(this, 'm_numChannels') == ch)
        c.call(this, CL, 'reset', [])
        g, d = c.field(this, 'm_randomNumberGenerator'), c.field(this, 'm_uniformRealDistribution')
        c.prove('reset restarts at the first draw of the seed', z3.And(g.fields['seed'] == sd, g.fields['n'] == 0, c.field(this, 'm_randomSeed') == sd, c.field(this, 'm_numChannels') == ch))
        c.prove('the bounds are kept', z3.And(d.fields['lo'] == lo, d.fields['hi'] == hi))

    def render():
        U = generator(c, T)
        I.skolems = [(c_, f_)]
        CL, this, sd, n, lo, hi = noise_obj(c, T)
        gs = c.field(this, 'm_randomNumberGenerator', 'seed')
        ob = buf(c, 'out', T)
        vo = c.get(ob)
        c.assume(c.field(this, 'm_numChannels') == vo.nc)    # the block has the prepared number of channels

        def drawn(st):
            return I.get(this.f('m_randomNumberGenerator').f('n'), st)

        def hint(h):
            out = []
            for a in h.ints:
                if a.v0 is None or 'm_random' in a.name:
                    continue
                out.append(('drawn after %s frames' % a.name, lambda st, a=a: drawn(st) == n + (a.get(st) - a.v0) * vo.nc))
                out.append(('drawn after %s channels' % a.name, lambda st, a=a: drawn(st) == drawn(h.init) + a.get(st) - a.v0))
            return out
        I.hints = [hint]
        value = lambda ch, f: U(gs, n + f * vo.nc + ch, lo, hi)
        I.elem_specs = [('draw', lambda I_, l, base, head, idx: value(*idx) if len(idx) == 2 else None)]
        c.call(this, CL, 'renderNextBlock', [ob])
        o = c.get(ob)
        c.cover('rendered')
        c.prove('every sample is the draw of its frame and channel', z3.Implies(inbuf(o), o.data.read(c_, f_) == value(c_, f_)))
        c.prove('the block keeps its shape', z3.And(o.nc == vo.nc, o.nf == vo.nf))
        c.prove('the next block continues at the next draw', drawn(None) == n + vo.nf * vo.nc)
        c.prove('the seed is kept', z3.And(c.field(this, 'm_randomNumberGenerator', 'seed') == gs, c.field(this, 'm_randomSeed') == sd))
    return [ctor, restart, render]
