from .common import *

R = Registry()


def clip_rel(fp, th, x, y):
    """y is the nearest value to x in [-th, th]; x itself inside"""
    return z3.Implies(z3.Not(fp.nan(x)), z3.And(
        z3.Implies(z3.And(fp.le(fp.neg(th), x), fp.le(x, th)), y == x),
        z3.Implies(fp.lt(th, x), y == th),
        z3.Implies(fp.lt(x, fp.neg(th)), y == fp.neg(th))))


@R.unit('HardClip<{0}>::process ({1})', *[(T, m) for T in FLOATS2 for m in ('separate buffers', 'in place')])
@expects('processed')
def process(c, T, mode):
    I, fp = c.I, c.fp
    I.skolems = [(c_, f_)]

    def case():
        this = c.obj('this', 'HardClip<%s>' % T)
        ib = buf(c, 'in', T)
        ob = buf(c, 'out', T) if mode != 'in place' else ib
        env = c.obj('env', ENV)
        vi, vo = c.get(ib), c.get(ob)
        c.assume(vi.nf == vo.nf)
        thr = c.field(this, 'm_thresholdLinear')
        th = fp.cvt(thr, W(T))
        c.assume(z3.And(z3.Not(fp.nan(thr)), fp.rank(thr) >= 0))

        def spec(I_, l, base, head, idx):
            if l.lv.root != ob.root:
                return None
            x = vi.data.read(*idx)
            return lambda y: clip_rel(fp, th, x, y)
        I.elem_specs = [('clip', spec)]
        try:
            c.call(this, 'HardClip<%s>' % T, 'process', [ib, ob, env])
        except Throw as e:
            c.prove('a layout is refused only when the channel counts differ', vi.nc != vo.nc)
            c.prove('the refusal is a channel layout error', e.ty == 'ChannelLayoutError')
            c.prove('a refused layout leaves the output untouched', unchanged(c, ob, vo))
            return
        o = c.get(ob)
        c.cover('processed')
        c.prove('processing happens only with equal channel counts', vi.nc == vo.nc)
        c.prove('the output keeps its shape', z3.And(o.nc == vo.nc, o.nf == vo.nf))
        y = o.data.read(c_, f_)
        c.prove('every non-NaN sample is clipped to the threshold', z3.Implies(inbuf(o), clip_rel(fp, th, vi.data.read(c_, f_), y)))
        c.prove('the output never exceeds the threshold', z3.Implies(z3.And(inbuf(o), z3.Not(fp.nan(vi.data.read(c_, f_)))), fp.le(fp.abs(y), th)))
        c.prove('the input is untouched', z3.BoolVal(True) if mode == 'in place' else unchanged(c, ib, vi))
        c.prove('the threshold is untouched', c.field(this, 'm_thresholdLinear') == thr)
    return case


@R.unit('HardClip<{0}> constructor, setValue, getValue', *FLOATS2)
def values(c, T):
    ID = c.I.u.enum_value('HardClip::Params', 'thresholdDb')
    fp = c.fp
    CL = 'HardClip<%s>' % T

    def ctor():
        db = c.val('double', 'thresholdDb')
        this = c.ctor('this', CL, [db])
        c.prove('the threshold is the ratio of the given decibels', c.field(this, 'm_thresholdLinear') == db_to_ratio(c, db))
        c.prove('the threshold of a non-NaN level is not negative', z3.Implies(z3.Not(fp.nan(db)), fp.rank(c.field(this, 'm_thresholdLinear')) >= 0))

    def setv():
        this = c.obj('this', CL)
        old = c.field(this, 'm_thresholdLinear')
        i, v = c.val('int', 'id'), c.val('double', 'value')
        c.call(this, CL, 'setValue', [i, v])
        c.prove('setValue sets the threshold for its parameter and ignores other ids',
                c.field(this, 'm_thresholdLinear') == z3.If(i == ID, db_to_ratio(c, v), old))
    def getv():
        this = c.obj('this', CL)
        i, old = c.val('int', 'id'), c.field(this, 'm_thresholdLinear')
        r = c.I.rv(c.call(this, CL, 'getValue', [i]))
        c.prove('getValue tells the current value of its parameter, and 0 for other ids', r == z3.If(i == ID, c.I.rv(c.func('ratioToDecibels', [old], has_type('double'))), fp.lit(0.0, 64)))
        c.prove('and changes nothing', c.field(this, 'm_thresholdLinear') == old)

    def supports():
        this = c.obj('this', CL)
        i, a, b = c.val('int', 'id'), c.val('size_t', 'numIn'), c.val('size_t', 'numOut')
        c.prove('no parameter accepts automation', z3.Not(c.I.tobool(c.call(this, CL, 'supportsEnvelopeFor', [i]))))
        c.prove('exactly equal channel counts are supported', c.I.tobool(c.call(this, CL, 'supportsChannelLayout', [a, b])) == (a == b))
    def others():
        this = c.obj('this', CL)
        old = c.field(this, 'm_thresholdLinear')
        c.call(this, CL, 'reset', [])
        c.call(this, CL, 'prepare', [c.val('double', 'sr'), c.val('size_t', 'a'), c.val('size_t', 'b'), c.val('size_t', 'n')])
        c.prove('prepare and reset leave the threshold alone', c.field(this, 'm_thresholdLinear') == old)
    return [ctor, setv, getv, supports, others]
