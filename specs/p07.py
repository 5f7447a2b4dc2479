from .common import *

R = Registry()
ALL = [(K, T, m) for K in ('GainLinear', 'GainDb') for T in FLOATS2 for m in ('separate buffers', 'in place')]


@R.unit('{0}<{1}>::process ({2})', *ALL)
@expects('constant gain', 'automated gain')
def process(c, K, T, mode):
    I, fp = c.I, c.fp
    I.skolems = [(c_, f_), (f_,)]
    CL = '%s<%s>' % (K, T)

    def case():
        this = c.obj('this', CL)
        ib = buf(c, 'in', T)
        ob = buf(c, 'out', T) if mode != 'in place' else ib
        env = c.obj('env', ENV)
        vi, vo = c.get(ib), c.get(ob)
        c.assume(vi.nf == vo.nf)
        m = c.get(env)
        zero = z3.IntVal(0)
        ID = z3.IntVal(I.u.enum_value(K + '::Params', K[0].lower() + K[1:]))
        auto = m.has.read(ID)
        values = m.val.read(ID)
        # the host hands over envelope blocks of the prepared block size, which no block exceeds
        c.assume(z3.Implies(auto, vi.nf <= values.size))
        g0 = c.field(this, 'm_gainLinear')
        if K == 'GainDb':
            c.assume(z3.Implies(auto, c.field(this, 'm_gainEnvelopeValuesLinear').size == values.size))

        def curve(f):
            v = values.arr.read(f)
            return db_to_ratio(c, v) if K == 'GainDb' else v

        def expected(ch, f):
            x = z3.If(vi.nc == vo.nc, vi.data.read(ch, f), vi.data.read(zero, f))
            g = z3.If(auto, curve(f), g0)
            return fp.mul(x, fp.cvt(g, W(T)))

        def spec(I_, l, base, head, idx):
            if l.lv.root == ob.root:
                x, y = vi.data.read(*idx), vi.data.read(zero, idx[1])
                return z3.If(vi.nc == vo.nc, z3.If(auto, fp.mul(x, fp.cvt(curve(idx[1]), W(T))), fp.mul(x, fp.cvt(g0, W(T)))),
                             z3.If(auto, fp.mul(y, fp.cvt(curve(idx[1]), W(T))), fp.mul(y, fp.cvt(g0, W(T)))))
            if K == 'GainDb' and l.lv.root == 'this' and len(idx) == 1:
                return curve(idx[0])
            return None
        I.elem_specs = [('gain', spec)]
        try:
            c.call(this, CL, 'process', [ib, ob, env])
        except Throw as e:
            c.prove('a layout is refused only when it is neither n-to-n nor from mono', z3.And(vi.nc != vo.nc, vi.nc != 1))
            c.prove('the refusal is a channel layout error', e.ty == 'ChannelLayoutError')
            c.prove('a refused layout leaves the output untouched', unchanged(c, ob, vo))
            return
        o = c.get(ob)
        if c.I.check(I.path.pc, auto)[0] != z3.unsat:
            c.cover('automated gain')
        if c.I.check(I.path.pc, z3.Not(auto))[0] != z3.unsat:
            c.cover('constant gain')
        c.prove('only n-to-n and from-mono layouts are processed', z3.Or(vi.nc == vo.nc, vi.nc == 1))
        c.prove('the output keeps its shape', z3.And(o.nc == vo.nc, o.nf == vo.nf))
        L = type('L', (), {'lv': ob})
        c.prove('every sample is the input sample times the gain of its frame',
                z3.Implies(inbuf(o), o.data.read(c_, f_) == spec(I, L, None, None, (c_, f_))))
        c.prove('the input is untouched', z3.BoolVal(True) if mode == 'in place' else unchanged(c, ib, vi))
        c.prove('processing does not change the gain', c.field(this, 'm_gainLinear') == g0)
    return case


@R.unit('{0}<{1}> constructor, prepare, setValue, supported layouts and automation', *[(K, T) for K in ('GainLinear', 'GainDb') for T in FLOATS2])
def values(c, K, T):
    ID = c.I.u.enum_value(K + '::Params', K[0].lower() + K[1:])
    fp = c.fp
    CL = '%s<%s>' % (K, T)
    conv = (lambda v: db_to_ratio(c, v)) if K == 'GainDb' else (lambda v: v)

    def ctor():
        g = c.val('double', 'gain')
        this = c.ctor('this', CL, [g])
        c.prove('the gain is the one given', c.field(this, 'm_gainLinear') == conv(g))

    def setv():
        this = c.obj('this', CL)
        old = c.field(this, 'm_gainLinear')
        i, v = c.val('int', 'id'), c.val('double', 'value')
        c.call(this, CL, 'setValue', [i, v])
        c.prove('setValue sets the gain for its parameter and ignores other ids', c.field(this, 'm_gainLinear') == z3.If(i == ID, conv(v), old))

    def getv():
        this = c.obj('this', CL)
        i, old = c.val('int', 'id'), c.field(this, 'm_gainLinear')
        r = c.I.rv(c.call(this, CL, 'getValue', [i]))
        c.prove('getValue tells the current value of its parameter, and 0 for other ids', r == z3.If(i == ID, (c.I.rv(c.func('ratioToDecibels', [old], has_type('double'))) if K == 'GainDb' else old), fp.lit(0.0, 64)))
        c.prove('and changes nothing', c.field(this, 'm_gainLinear') == old)

    def supports():
        this = c.obj('this', CL)
        i, a, b = c.val('int', 'id'), c.val('size_t', 'numIn'), c.val('size_t', 'numOut')
        c.prove('only the gain parameter accepts automation', c.I.tobool(c.call(this, CL, 'supportsEnvelopeFor', [i])) == (i == ID))
        c.prove('n-to-n and from-mono layouts are supported', c.I.tobool(c.call(this, CL, 'supportsChannelLayout', [a, b])) == z3.Or(a == b, a == 1))

    def others():
        this = c.obj('this', CL)
        old = c.field(this, 'm_gainLinear')
        has = z3.Bool('hasEnvelope')
        c.I.contracts[('DSP', 'hasEnvelopeFor')] = lambda I, obj, args, node: z3.And(has, I.rv(args[0]) == ID)
        c.I.contracts[(K, 'hasEnvelopeFor')] = c.I.contracts[('DSP', 'hasEnvelopeFor')]
        n = c.val('size_t', 'maxBlock')
        c.assume(n < 1 << 60)
        c.call(this, CL, 'reset', [])
        c.call(this, CL, 'prepare', [c.val('double', 'sr'), c.val('size_t', 'a'), c.val('size_t', 'b'), n])
        c.prove('prepare and reset leave the gain alone', c.field(this, 'm_gainLinear') == old)
        if K == 'GainDb':
            c.prove('an automated effect is prepared for one automation value per frame of a block',
                    z3.Implies(has, c.field(this, 'm_gainEnvelopeValuesLinear').size == n))
    return [ctor, setv, getv, supports, others]
