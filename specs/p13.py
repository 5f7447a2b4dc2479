from .common import *
from engine.fp import SORT

R = Registry()


def player(c, T, loop):
    """a wav player in an arbitrary reachable state"""
    I = c.I
    CL = 'WavFile<%s>' % T
    wav = c.obj('wav', 'AudioBuffer<float>')
    this = c.obj('this', CL)
    I.put(this.f('m_wavFrames'), Ptr('obj', wav))
    vw = c.get(wav)
    off = c.field(this, 'm_wavOffsetFrames')
    c.assume(c.field(this, 'm_wavNumChannels') == vw.nc)
    c.assume(c.field(this, 'm_loop') == c.I.u.enum_value('WavFile::Loop', 'yes' if loop else 'no'))
    c.assume(z3.And(off >= 0, off <= vw.nf))
    if loop:
        c.assume(z3.And(vw.nf > 0, off < vw.nf))     # a looping file with no frames cannot be played (see DESIGN.md)
    return CL, this, wav, vw, off


@R.unit('WavFile<{0}>::renderNextBlock ({1})', *[(T, m) for T in FLOATS2 for m in ('looping', 'one shot')])
@expects('rendered')
def render(c, T, mode):
    I, fp = c.I, c.fp
    loop = mode == 'looping'

    def case():
        I.skolems = [(c_, f_)]
        CL, this, wav, vw, off = player(c, T, loop)
        ob = buf(c, 'out', T)
        vo = c.get(ob)
        c.assume(vo.nc <= vw.nc)             # prepare() refuses more channels than the file has
        N = vw.nf
        # position in the file of frame n of this block
        K = z3.Function('fileFrame', z3.IntSort(), z3.IntSort())
        zero = fp.lit(0.0, W(T))

        def law(n):
            fp.ax(K(n + 1) == z3.If(K(n) + 1 == N, 0, K(n) + 1))
            fp.ax(z3.Implies(n >= 0, z3.And(K(n) >= 0, K(n) < N)))
        if loop:
            c.assume(K(z3.IntVal(0)) == off)
        pos = (lambda n: K(n)) if loop else (lambda n: off + n)

        def value(ch, f):
            if loop:
                return fp.cvt(vw.data.read(ch, K(f)), W(T))
            return z3.If(off + f < N, fp.cvt(vw.data.read(ch, off + f), W(T)), zero)

        def hint(h):
            out = []
            for l in h.ints:
                for a in h.ints:
                    if a is l or a.v0 is None:
                        continue
                    d = lambda st, a=a: a.get(st) - a.v0
                    if loop:
                        law(a.v - a.v0)
                        out.append(('%s is the file position of %s' % (l.name, a.name), lambda st, l=l, d=d: l.get(st) == K(d(st))))
                        out.append(('%s is the file position of frame %s' % (l.name, a.name), lambda st, l=l, a=a: l.get(st) == K(a.get(st))))
                        law(a.v)
            return out
        I.hints = [hint]
        I.elem_specs = [('file', lambda I_, l, base, head, idx: value(*idx) if len(idx) == 2 and l.lv.root == ob.root else None)]
        keep = [c.field(this, n) for n in ('m_wavNumChannels', 'm_wavSampleRateHz', 'm_loop')]
        c.call(this, CL, 'renderNextBlock', [ob])
        c.cover('rendered')
        o = c.get(ob)
        if loop:
            law(f_)
        c.prove('every sample is that of its frame of the file in its channel, or zero after the end', z3.Implies(inbuf(o), o.data.read(c_, f_) == value(c_, f_)))
        c.prove('the block keeps its shape', z3.And(o.nc == vo.nc, o.nf == vo.nf))
        end = c.field(this, 'm_wavOffsetFrames')
        if loop:
            c.prove('the next block continues at the next frame of the file', end == K(vo.nf))
            c.prove('the position stays inside the file', z3.And(end >= 0, end < N))
        else:
            c.prove('the next block continues at the next frame of the file or stays at its end', end == z3.If(off + vo.nf < N, off + vo.nf, N))
        w2 = c.get(wav)
        c.prove('the file data is untouched', z3.And(w2.nc == vw.nc, w2.nf == vw.nf, w2.data.read(c_, f_) == vw.data.read(c_, f_)))
        c.prove('the settings are untouched', z3.And(*[c.field(this, n) == k for n, k in zip(('m_wavNumChannels', 'm_wavSampleRateHz', 'm_loop'), keep)]))
    return case


@R.unit('WavFile<{0}> prepare, reset, supported channels', *FLOATS2)
@expects('accepted', 'refused')
def others(c, T):
    fp = c.fp

    def prepare():
        CL, this, wav, vw, off = player(c, T, False)
        wr = c.field(this, 'm_wavSampleRateHz')
        sr, n = c.val('double', 'sampleRate'), c.val('size_t', 'channels')
        c.assume(z3.And(fp.isfinite(sr), fp.isfinite(wr)))
        same = fp.lt(fp.abs(fp.sub(sr, wr)), fp.lit(1e-8, 64))
        try:
            c.call(this, CL, 'prepare', [sr, n, c.val('size_t', 'maxBlock')])
            c.prove('more channels than the file has, or another sample rate, are refused', z3.And(n <= vw.nc, same))
            c.cover('accepted')
        except Throw as e:
            c.prove('only more channels or another rate are refused, each with its error', z3.Or(z3.And(n > vw.nc, z3.BoolVal(e.ty == 'ChannelLayoutError')), z3.And(z3.Not(same), z3.BoolVal(e.ty == 'UnsupportedError'))))
            c.cover('refused')
        o2 = c.field(this, 'm_wavOffsetFrames')
        c.prove('preparing does not move the playback position elsewhere than to the start', z3.Or(o2 == off, o2 == 0))
        c.prove('preparing keeps the format', z3.And(c.field(this, 'm_wavSampleRateHz') == wr, c.field(this, 'm_wavNumChannels') == vw.nc))

    def reset():
        CL, this, wav, vw, off = player(c, T, False)
        c.call(this, CL, 'reset', [])
        c.prove('reset goes to the first frame', c.field(this, 'm_wavOffsetFrames') == 0)
        n = c.val('size_t', 'channels')
        c.prove('as many channels as the file has are supported', c.I.tobool(c.call(this, CL, 'supportsNumChannels', [n])) == (n <= vw.nc))
        c.prove('reset keeps the file', c.I.get(this.f('m_wavFrames')).lv == wav and z3.And(c.get(wav).nf == vw.nf, c.field(this, 'm_wavNumChannels') == vw.nc))
    return [prepare, reset]


@R.unit('WavFile<{0}> constructor', *FLOATS2)
@expects('loaded', 'unreadable')
def ctor(c, T):
    I, fp = c.I, c.fp
    CL = 'WavFile<%s>' % T

    def case():
        I.skolems = [(c_, f_)]
        lib.trust('drwav_open_file_and_read_pcm_frames_f32: returns null, or channels x frames interleaved samples and sets channels, sample rate and frame count')
        nch, nfr, rate = z3.Ints('file.channels file.frames file.rate')
        c.assume(z3.And(nch >= 1, nch < 1 << 16, nfr >= 0, nfr < 1 << 40, rate >= 0, rate < 1 << 32))
        F = z3.Function('fileSample', z3.IntSort(), SORT[32])
        ok = z3.Bool('readable')
        freed = c.obj('g:freed', 'size_t')
        c.assume(c.get(freed) == 0)
        path = c.val('std::string', 'path')
        absolute = z3.Function('absolutePath', STR, STR)

        def toabs(I_, obj, args, node):
            return StrV((absolute(I.str_term(I.rv(args[0]))),))
        I.contracts[('', 'toAbsolutePath')] = toabs

        def read(I_, obj, args, node):
            a = [I.rv(x) for x in args]
            c.prove('the file read is the one at the absolute path', I.str_term(a[0]) == absolute(I.str_term(path)) if isinstance(a[0], StrV) else False)
            if not I.choose(ok):
                return Ptr('null')
            I.put(a[1].lv, nch)
            I.put(a[2].lv, rate)
            I.put(a[3].lv, nfr)
            lv = I.alloc('g:pcm', 'vector<float>', Vec('float', nfr * nch, FArr(lambda k: F(k))))
            return Ptr('vec', lv, z3.IntVal(0))
        I.contracts[('', 'drwav_open_file_and_read_pcm_frames_f32')] = read

        def free(I_, obj, args, node):
            c.prove('the samples are freed', isinstance(I.rv(args[0]), Ptr))
            I.put(freed, I.get(freed) + 1)
        I.contracts[('', 'drwav_free')] = free
        value = lambda ch, f: F(f * nch + ch)
        I.elem_specs = [('file', lambda I_, l, base, head, idx: value(*idx) if len(idx) == 2 else None)]
        loop = c.val('int', 'loop')
        c.assume(z3.And(loop >= 0, loop <= 1))
        try:
            this = c.ctor('this', CL, [I.temp('std::string', path), loop])
        except Throw as e:
            c.prove('only an unreadable file is refused, with an input/output error', z3.And(z3.Not(ok), z3.BoolVal(e.ty == 'IOError')))
            c.cover('unreadable')
            return
        c.prove('an unreadable file is refused', ok)
        c.cover('loaded')
        p = I.get(this.f('m_wavFrames'))
        w = I.get(p.lv)
        c.prove('the player has the shape of the file', z3.And(w.nc == nch, w.nf == nfr, c.field(this, 'm_wavNumChannels') == nch))
        c.prove('every sample of the file is in its channel and frame', z3.Implies(inbuf(w), w.data.read(c_, f_) == value(c_, f_)))
        c.prove('the rate is that of the file', c.field(this, 'm_wavSampleRateHz') == I.i2f(rate, 64))
        c.prove('playback starts at the first frame', c.field(this, 'm_wavOffsetFrames') == 0)
        c.prove('the loop mode is the one given', c.field(this, 'm_loop') == loop)
        c.prove('the decoder memory is freed exactly once', c.get(freed) == 1)
    return case
