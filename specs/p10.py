from .common import *
from .reals import attach, real_, flt
from engine.fp import SORT

R = Registry()
CL = 'SegmentedEnvelope'
RS = z3.RealSort()
START = z3.Function('segmentStart', z3.IntSort(), RS)      # start of segment k, in seconds from the start of the envelope
SEG = z3.Function('segmentOfFrame', z3.IntSort(), z3.IntSort())
TAU = z3.Function('timeOfFrame', z3.IntSort(), RS)


class View:
    """an envelope in an arbitrary reachable state, and its curve"""

    def __init__(s, c):
        s.c, s.I, s.fp = c, c.I, c.fp
        s.real = attach(c)
        s.this = c.obj('this', CL)
        s.segs = c.field(s.this, 'm_segments')
        s.N = s.segs.size
        c.assume(s.N < 1 << 60)
        s.reset = c.field(s.this, 'm_resetValue')
        s.done = set()
        c.assume(START(z3.IntVal(0)) == 0)
        c.assume(s.consistent())

    def seg(s, k):
        return s.segs.arr.read(k).fields

    def prev(s, k):
        return z3.If(k == 0, s.reset, s.seg(k - 1)['targetValue'])

    def g(s, n, st=None):
        return s.I.get(s.this.f(n), st)

    def law(s, k):
        """durations are not negative (precondition), and segments follow each other"""
        k = z3.simplify(k)
        if ('law', k.get_id()) in s.done:
            return
        s.done.add(('law', k.get_id()))
        s.I.keepalive.append(k)
        d = s.real(s.seg(k)['durationSeconds'])
        s.fp.ax(z3.Implies(z3.And(k >= 0, k < s.N), z3.And(d >= 0, START(k + 1) == START(k) + d)))

    def mono(s, a, b):
        a, b = z3.simplify(a), z3.simplify(b)
        if a.eq(b) or ('mono', a.get_id(), b.get_id()) in s.done:
            return
        s.done.add(('mono', a.get_id(), b.get_id()))
        s.I.keepalive += [a, b]
        s.fp.ax(z3.Implies(z3.And(0 <= a, a <= b, b <= s.N), START(a) <= START(b)))

    def at(s, idx, st=None):
        """position in the curve: inside the list, time counted from the start of the segment, ramps start where the previous segment ended"""
        s.law(idx)
        return z3.And(idx >= 0, idx <= s.N, s.real(s.g('m_currentTimeSeconds', st)) >= 0, s.g('m_beginValue', st) == s.prev(idx))

    def consistent(s, st=None):
        idx = s.g('m_currentSegmentIndex', st)
        return z3.And(s.at(idx, st), z3.Implies(s.N == 0, s.g('m_currentValue', st) == s.reset), s.g('m_endValue', st) == s.prev(s.N))

    def elapsed(s, st=None):
        return s.real(s.g('m_currentTimeSeconds', st)) + START(s.g('m_currentSegmentIndex', st))

    def frame(s, n):
        """defines the segment that frame n falls into: the last one that has started"""
        n = z3.simplify(n)
        if ('frame', n.get_id()) in s.done:
            return
        s.done.add(('frame', n.get_id()))
        s.I.keepalive.append(n)
        k = SEG(n)
        s.fp.ax(TAU(n + 1) == TAU(n) + s.real(s.dt))
        s.fp.ax(z3.Implies(n >= 0, TAU(n) >= 0))
        s.law(k)
        s.fp.ax(z3.Implies(n >= 0, z3.And(k >= 0, k <= s.N, START(k) <= TAU(n), z3.Or(k == s.N, TAU(n) < START(k + 1)))))

    def value(s, n):
        """relation: the value of the curve at frame n"""
        s.frame(n)
        s.frame(n - 1)
        fp = s.fp
        k = SEG(n)
        q = s.seg(k)
        d, tgt, shape = q['durationSeconds'], q['targetValue'], q['shape']
        b = s.prev(k)
        T = flt(TAU(n) - START(k))
        t = fp.div(T, d)
        one = fp.lit(1.0, 64)
        r = fp.div(tgt, b)
        lin = fp.add(b, fp.mul(fp.sub(tgt, b), t))
        # b * (target/b)^(T/d), written as b * e^(T * ln(target/b) / d)
        e = fp.un('exp', fp.mul(fp.div(fp.un('log', r), d), T))
        flat = fp.lt(fp.abs(fp.sub(r, one)), fp.lit(1e-9, 64))
        smooth = fp.mul(fp.mul(t, t), fp.sub(fp.lit(3.0, 64), fp.mul(fp.lit(2.0, 64), t)))
        sc = fp.add(b, fp.mul(fp.sub(tgt, b), smooth))
        # e^(-ln(1/r)/d * T) = e^(ln(r)/d * T) and other ways to write the same power
        for alt in (fp.un('exp', fp.mul(fp.neg(fp.div(fp.un('log', fp.div(one, r)), d)), T)), fp.un('exp', fp.mul(fp.un('log', r), t)), fp.bin('pow', r, t), fp.un('exp', fp.mul(fp.neg(fp.un('log', fp.div(one, r))), t))):
            fp.ax(alt == e)
        LINEAR, EXPONENTIAL, SCURVE = (s.I.u.enum_value("SegmentedEnvelope::Shape", x) for x in ('linear', 'exponential', 'sCurve'))
        ramp = lambda v: z3.And(z3.Implies(shape == LINEAR, v == lin), z3.Implies(shape == SCURVE, v == sc),
                                z3.Implies(shape == EXPONENTIAL, z3.Or(v == fp.mul(b, e), z3.And(flat, v == b))))

        def rel(v):
            return z3.If(s.N == 0, v == s.reset, z3.If(k == s.N, v == s.seg(s.N - 1)['targetValue'], z3.If(q['isHold'], v == tgt, ramp(v))))
        return rel


@R.unit('SegmentedEnvelope::renderNextBlock')
@expects('rendered')
def render(c):
    I, fp = c.I, c.fp

    def case():
        attach(c)
        I.skolems = [(f_,)]
        s = View(c)
        s.dt = c.field(s.this, 'm_frameTimeSeconds')
        c.assume(s.real(s.dt) >= 0)
        c.assume(TAU(z3.IntVal(0)) == s.elapsed())
        out = c.obj('out', 'vector<double>')
        n = c.val('size_t', 'blockSize')
        c.assume(n < 1 << 60)
        old = {x: c.field(s.this, x) for x in ('m_resetValue', 'm_endValue', 'm_frameTimeSeconds')}

        def pairs(a, b):
            for x in (a, a + 1):
                for y in (b, b + 1):
                    s.mono(x, y)
                    s.mono(y, x)

        def hint(h):
            res = []
            idx = lambda st: s.g('m_currentSegmentIndex', st)
            counters = [(a.name, (lambda st, a=a: a.get(st) - a.v0), a.v - a.v0) for a in h.ints if a.v0 is not None and 'm_currentSegmentIndex' not in a.name]
            counters += [('next of %s' % u, (lambda st, u=u: u + 1), u + 1) for u in I.enclosing_ints]
            counters += [(str(u), (lambda st, u=u: u), u) for u in I.enclosing_ints]
            moved = [a for a in h.ints if 'm_currentSegmentIndex' in a.name]
            for nm, f, v in counters:
                s.frame(v)
                s.frame(v + 1)
                for a in moved:
                    for x in (a.v, a.v + 1):
                        s.law(x)
                    pairs(a.v, SEG(v))
                    pairs(a.v, SEG(v + 1))
                res.append(('elapsed time at %s' % nm, lambda st, f=f: s.elapsed(st) == TAU(f(st))))
            res.append(('position in the curve', lambda st: s.at(idx(st), st)))
            res.append(('start value without segments', lambda st: z3.Implies(s.N == 0, s.g('m_currentValue', st) == s.reset)))
            return res
        I.hints = [hint]
        I.elem_specs = [('curve', lambda I_, l, base, head, idx: s.value(idx[0] + 1) if len(idx) == 1 else None)]
        c.call(s.this, CL, 'renderNextBlock', [n, out], nparams=2)
        c.cover('rendered')
        o = c.get(out)
        s.frame(n)
        c.prove('the block has the requested size', o.size == n)
        c.prove('every value is that of the curve at its frame', z3.Implies(z3.And(f_ >= 0, f_ < n), s.value(f_ + 1)(o.arr.read(f_))))
        c.prove('time advances by one period per frame', s.elapsed() == TAU(n))
        c.prove('the envelope stays consistent', s.consistent())
        c.prove('start value, end value and frame period are kept', z3.And(*[c.field(s.this, x) == old[x] for x in old]))
        v = c.field(s.this, 'm_segments')
        c.prove('the segments are kept', z3.And(v.size == s.N, same_seg(v.arr.read(f_), s.segs.arr.read(f_))))
    return case


def same_seg(a, b):
    return z3.And(*[a.fields[k] == b.fields[k] for k in a.fields])


@R.unit('SegmentedEnvelope::prepare')
@expects('accepted', 'refused')
def prepare(c):
    I, fp = c.I, c.fp

    def case():
        this = c.obj('this', CL)
        old = c.get(this)
        sr = c.val('double', 'sampleRate')
        try:
            c.call(this, CL, 'prepare', [sr, c.val('size_t', 'maxBlock')])
        except Throw as e:
            c.prove('only a sample rate that is not positive is refused, with a value error', z3.And(z3.Not(fp.lt(fp.lit(1e-8, 64), sr)), z3.BoolVal(e.ty == 'ValueError')))
            c.prove('a refused sample rate changes nothing', z3.And(*[c.field(this, n) == old.fields[n] for n in scalars(old)]))
            c.cover('refused')
            return
        c.cover('accepted')
        c.prove('a non-positive sample rate is refused', z3.Not(fp.le(sr, fp.lit(0.0, 64))))
        c.prove('one frame lasts 1 / sample rate', c.field(this, 'm_frameTimeSeconds') == fp.div(fp.lit(1.0, 64), sr))
        keep = [n for n in scalars(old) if n != 'm_frameTimeSeconds']
        again = z3.And(c.field(this, 'm_currentSegmentIndex') == 0, fp.eq(c.field(this, 'm_currentTimeSeconds'), fp.lit(0.0, 64)), c.field(this, 'm_beginValue') == c.field(this, 'm_resetValue'))
        c.prove('preparing keeps the curve', z3.And(*[c.field(this, n) == old.fields[n] for n in ('m_resetValue', 'm_endValue')] + [same_segments(c, this, old)]))
        c.prove('preparing does not move the envelope other than to its start', z3.Or(again, z3.And(*[c.field(this, n) == old.fields[n] for n in keep])))
    return case


def scalars(st):
    return [n for n, v in st.fields.items() if z3.is_expr(v)]


def same_segments(c, this, old, k=f_):
    v = c.field(this, 'm_segments')
    o = old.fields['m_segments']
    return z3.And(v.size == o.size, z3.Implies(z3.And(k >= 0, k < o.size), same_seg(v.arr.read(k), o.arr.read(k))))


@R.unit('SegmentedEnvelope::reset')
def reset(c):
    def case():
        attach(c)
        s = View(c)
        old = c.get(s.this)
        c.call(s.this, CL, 'reset', [])
        c.prove('a reset envelope is at time zero', z3.And(s.elapsed() == 0, s.g('m_currentSegmentIndex') == 0))
        c.prove('the curve and the frame period are kept', z3.And(same_segments(c, s.this, old), *[c.field(s.this, n) == old.fields[n] for n in ('m_resetValue', 'm_endValue', 'm_frameTimeSeconds')]))
        c.prove('the envelope stays consistent', s.consistent())
    return case


@R.unit('SegmentedEnvelope constructor')
def ctor(c):
    I, fp = c.I, c.fp

    def case():
        attach(c)
        x = c.val('double', 'startValue')
        this = c.ctor('this', CL, [x], pred=lambda d: 'double' in d['type']['qualType'])
        g = lambda n: c.field(this, n)
        c.prove('a new envelope is constant at its start value', z3.And(g('m_segments').size == 0, g('m_resetValue') == x, g('m_currentValue') == x, g('m_endValue') == x, g('m_beginValue') == x))
        c.prove('a new envelope is at time zero', z3.And(g('m_currentSegmentIndex') == 0, c.fp.reals(g('m_currentTimeSeconds')) == 0))
    return case


@R.unit('SegmentedEnvelope segments ({0})', 'hold', 'rampTo')
def segments(c, method):
    I, fp = c.I, c.fp

    def case():
        attach(c)
        s = View(c)
        old = c.get(s.this)
        d, v, shape = c.val('double', 'duration'), c.val('double', 'target'), c.val('int', 'shape')
        c.assume(z3.And(s.real(d) >= 0, shape >= 0, shape <= 2))
        oldEnd = s.g('m_endValue')
        r = c.callref(s.this, CL, method, [d] if method == 'hold' else [v, d, shape])
        n = old.fields['m_segments'].size
        now = c.field(s.this, 'm_segments')
        e = now.arr.read(n).fields
        c.prove('%s adds one segment after the others' % method, z3.And(now.size == n + 1, z3.Implies(z3.And(f_ >= 0, f_ < n), same_seg(now.arr.read(f_), old.fields['m_segments'].arr.read(f_)))))
        c.prove('%s lasts as long as requested' % method, e['durationSeconds'] == d)
        if method == 'hold':
            c.prove('a hold keeps the last target', z3.And(e['isHold'], e['targetValue'] == oldEnd, s.g('m_endValue') == oldEnd))
        else:
            c.prove('a ramp goes to its target in the requested shape', z3.And(z3.Not(e['isHold']), e['targetValue'] == v, e['shape'] == shape, s.g('m_endValue') == v))
        keep = [x for x in scalars(old) if x != 'm_endValue']
        c.prove('%s changes nothing else' % method, z3.And(*[c.field(s.this, x) == old.fields[x] for x in keep]))
        s.segs, s.N = now, now.size
        # without segments the envelope was at its start value; the new segment starts from there
        c.prove('the envelope stays consistent', s.consistent())
        c.prove('%s can be chained' % method, z3.BoolVal(r == s.this))
    return case


@R.unit('SegmentedEnvelope::copy')
def copy(c):
    I, fp = c.I, c.fp

    def case():
        this = c.obj('this', CL)
        old = c.get(this)
        r = c.call(this, CL, 'copy', [])
        o = I.get(r.lv)
        c.prove('a copy has the state of the original', z3.And(*[o.fields[n] == old.fields[n] for n in scalars(old)]))
        v, w = o.fields['m_segments'], old.fields['m_segments']
        c.prove('a copy has the segments of the original', z3.And(v.size == w.size, z3.Implies(z3.And(f_ >= 0, f_ < w.size), same_seg(v.arr.read(f_), w.arr.read(f_)))))
        now = c.get(this)
        c.prove('copying does not change the original', z3.And(same_segments(c, this, old), *[now.fields[n] == old.fields[n] for n in scalars(old)]))
        c.prove('a copy is an object of its own', z3.BoolVal(r.lv != this))
    return case


@R.unit('Envelope::renderNextBlock returning values')
def allocating(c):
    I, fp = c.I, c.fp

    def case():
        e = HLV('Envelope', z3.Int('envelope'))
        c.assume(e.term > 0)
        n = c.val('size_t', 'blockSize')
        c.assume(n < 1 << 60)
        V = z3.Function('rendered', z3.IntSort(), SORT[64])
        seen = []

        def contract(I_, obj, args, node):
            seen.append((obj, I_.rv(args[0])))
            lv = args[1]
            v = I_.get(lv)
            I_.prove('the values are rendered into a container of the block size', z3.And(v.size == I_.rv(args[0]), I_.rv(args[0]) == n))
            I_.put(lv, Vec('double', v.size, FArr(lambda k: V(k)), v.blk))
        I.contracts[('Envelope', 'renderNextBlock')] = contract
        r = c.call(e, 'Envelope', 'renderNextBlock', [n], nparams=1)
        c.prove('one block is rendered', z3.BoolVal(len(seen) == 1))
        c.prove('the rendered block is returned', z3.And(r.size == n, z3.Implies(z3.And(f_ >= 0, f_ < n), r.arr.read(f_) == V(f_))))
    return case
