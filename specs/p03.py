from .common import *

R = Registry()


def peak_hints(c, ib, vi, W_, M, wit, nan_wit=None):
    """loop facts about a running peak, for whatever local holds it"""
    fp = c.fp
    wc, wf = wit

    def hint(h):
        out = []
        x = lambda a, b: fp.abs(vi.data.read(a, b))
        cand_ix = [l.get for l in h.ints] + [(lambda st, u=u: u) for u in h.I.enclosing_ints]
        for l in float_locs(h, SORT_OF[W_]):
            if nan_wit is not None:
                nc, nf = nan_wit
                for n, w in past(h, nc, nf):
                    out.append(('%s is NaN where %s' % (l.name, n), lambda st, w=w, l=l: z3.Implies(w(st), fp.nan(l.get(st)))))
            else:
                out.append(('%s <= peak' % l.name, lambda st, l=l: z3.And(z3.Not(fp.nan(l.get(st))), fp.rank(l.get(st)) <= fp.rank(M))))
                for n, w in past(h, wc, wf):
                    out.append(('%s == peak where %s' % (l.name, n), lambda st, w=w, l=l: (fp.inj(l.get(st), M), z3.Implies(w(st), l.get(st) == M))[1]))
                out.append(('%s zero is +0' % l.name, lambda st, l=l: z3.Implies(fp.rank(l.get(st)) == 0, l.get(st) == fp.lit(0.0, W_))))
            for a in h.ints:
                for b in h.ints:
                    if a is b:
                        continue
                    out.append(('%s is at (%s,%s)' % (l.name, a.name, b.name), lambda st, l=l, a=a, b=b: z3.And(
                        z3.Or(z3.And(fp.rank(l.get(st)) == 0, z3.Not(fp.nan(l.get(st))), a.get(st) == 0, b.get(st) == 0), z3.And(a.get(st) >= 0, a.get(st) < vi.nc, b.get(st) >= 0, b.get(st) < vi.nf, l.get(st) == x(a.get(st), b.get(st)))))))
                    if nan_wit is not None:
                        out.append(('%s is NaN only at (%s,%s)' % (l.name, a.name, b.name), lambda st, l=l, a=a, b=b: z3.Implies(
                            fp.nan(l.get(st)), z3.And(a.get(st) >= 0, a.get(st) < vi.nc, b.get(st) >= 0, b.get(st) < vi.nf, fp.nan(x(a.get(st), b.get(st)))))))
        return out
    return hint


from engine.fp import SORT
SORT_OF = {32: SORT[32], 64: SORT[64]}


@R.unit('PeaksAt<{0}>::match and failure details', *FLOATS2)
@expects('accepted', 'rejected')
def peaksat(c, T):
    I, fp = c.I, c.fp
    CL = 'PeaksAt<%s>' % T
    wc, wf, nc, nf = z3.Ints('wc wf nanc nanf')

    def setup():
        this = c.obj('this', CL)
        ib = buf(c, 'audio', T)
        vi = c.get(ib)
        c.assume(vi.nc < 1 << 31)    # the host accepts at most 128 channels
        return this, ib, vi

    def clean():
        this, ib, vi = setup()
        I.skolems = [(wc, wf)]
        target, tol = c.field(this, 'm_targetLinear'), c.field(this, 'm_toleranceLinear')
        M = z3.Const('peak', SORT[W(T)])
        fp.touch(M)
        nonempty = z3.And(vi.nc > 0, vi.nf > 0)
        # M is by definition the largest absolute sample, attained at (wc, wf); 0 for no audio at all
        d0 = vi.data

        def read(a, b):
            x = d0.read(a, b)
            r = fp.abs(x)
            I.assume(z3.Implies(inbuf(vi, a, b), z3.And(z3.Not(fp.nan(x)), fp.rank(r) <= fp.rank(M))))
            return x
        vi = Buf(vi.ty, vi.nc, vi.nf, FArr(read, 2))
        vi.data.hooks = [lambda a, b: I.assume(z3.Implies(inbuf(vi, a, b), z3.And(z3.Not(fp.nan(d0.read(a, b))), fp.rank(fp.abs(d0.read(a, b))) <= fp.rank(M))))]
        I.put(ib, vi)
        c.assume(z3.And(z3.Not(fp.nan(M)), fp.rank(M) >= 0))
        c.assume(z3.If(nonempty, z3.And(inbuf(vi, wc, wf), M == fp.abs(d0.read(wc, wf))), M == fp.lit(0.0, W(T))))
        I.hints = [peak_hints(c, ib, vi, W(T), M, (wc, wf))]
        r = I.tobool(c.call(this, CL, 'match', [ib]))
        # the comparison of the peak with the target in the sample type
        ok = z3.Not(fp.lt(tol, fp.abs(fp.sub(M, target))))
        c.prove('accepted exactly when the largest absolute sample is within the tolerance of the target', r == ok)
        d = c.call(this, CL, 'getFailureDetails', [])
        fr, ch = d.fields['frame'], d.fields['channel']
        c.prove('the reported sample attains the peak', z3.Implies(z3.And(z3.Not(r), nonempty), z3.And(inbuf(vi, ch, fr), fp.rank(fp.abs(vi.data.read(ch, fr))) == fp.rank(M))))
        c.prove('the audio is untouched', unchanged(c, ib, vi))
        if I.feasible(r):
            c.cover('accepted')
        if I.feasible(z3.Not(r)):
            c.cover('rejected')

    def nan():
        this, ib, vi = setup()
        I.skolems = [(nc, nf)]
        c.assume(z3.And(inbuf(vi, nc, nf), fp.nan(vi.data.read(nc, nf))))
        I.hints = [peak_hints(c, ib, vi, W(T), None, (nc, nf), (nc, nf))]
        r = I.tobool(c.call(this, CL, 'match', [ib]))
        c.prove('audio with a NaN is never accepted', z3.Not(r))
        d = c.call(this, CL, 'getFailureDetails', [])
        fr, ch = d.fields['frame'], d.fields['channel']
        c.prove('the reported sample of audio with a NaN is a NaN', z3.And(inbuf(vi, ch, fr), fp.nan(vi.data.read(ch, fr))))
    return [clean, nan]


@R.unit('PeaksBelow<{0}>::match and failure details', *FLOATS2)
@expects('accepted', 'rejected')
def peaksbelow(c, T):
    I, fp = c.I, c.fp
    CL = 'PeaksBelow<%s>' % T

    def case():
        I.skolems = [(c_, f_)]
        this = c.obj('this', CL)
        ib = buf(c, 'audio', T)
        vi = c.get(ib)
        thr = c.field(this, 'm_thresholdLinear')
        below = lambda a, b: fp.le(fp.abs(vi.data.read(a, b)), thr)

        def above(st):
            ch, fr = I.get(this.f('m_failedChannel'), st), I.get(this.f('m_failedFrame'), st)
            return z3.And(inbuf(vi, ch, fr), z3.Not(below(ch, fr)))
        I.hints = [done_hint(lambda: below(c_, f_), inr=inbuf(vi)), flag_hint(above, 'a sample above is reported')]
        r = I.tobool(c.call(this, CL, 'match', [ib]))
        c.prove('accepted only if every absolute sample is at most the threshold', z3.Implies(z3.And(r, inbuf(vi)), below(c_, f_)))
        d = c.call(this, CL, 'getFailureDetails', [])
        fr, ch = d.fields['frame'], d.fields['channel']
        c.prove('rejected only because of the reported sample, which is above the threshold or a NaN',
                z3.Implies(z3.Not(r), z3.And(inbuf(vi, ch, fr), z3.Not(below(ch, fr)))))
        c.prove('the audio is untouched', unchanged(c, ib, vi))
        c.prove('the threshold is untouched', c.field(this, 'm_thresholdLinear') == thr)
        c.cover('accepted' if I.choose(r) else 'rejected')
    return case


@R.unit('peak matcher constructors and capabilities <{0}>', *FLOATS2)
def others(c, T):
    I, fp = c.I, c.fp
    w = W(T)

    def at():
        t, tol = c.val('double', 'target'), c.val('double', 'tolerance')
        this = c.ctor('this', 'PeaksAt<%s>' % T, [t, tol])
        c.prove('the target is the ratio of the given decibels', c.field(this, 'm_targetLinear') == fp.cvt(db_to_ratio(c, t), w))
        c.prove('the tolerance is the one given', c.field(this, 'm_toleranceLinear') == fp.cvt(tol, w))
        c.prove('PeaksAt asks for the full signal', z3.Not(I.tobool(c.call(this, 'PeaksAt<%s>' % T, 'canOperatePerBlock', []))))

    def below():
        t, tol = c.val('double', 'threshold'), c.val('double', 'tolerance')
        this = c.ctor('this', 'PeaksBelow<%s>' % T, [t, tol])
        c.prove('the threshold is the ratio of the given decibels plus the tolerance', c.field(this, 'm_thresholdLinear') == fp.cvt(fp.add(db_to_ratio(c, t), tol), w))
        c.prove('PeaksBelow accepts blocks', I.tobool(c.call(this, 'PeaksBelow<%s>' % T, 'canOperatePerBlock', [])))

    def lifecycle():
        for K, F in (('PeaksAt', ('m_targetLinear', 'm_toleranceLinear')), ('PeaksBelow', ('m_thresholdLinear',))):
            this = c.obj('t' + K, '%s<%s>' % (K, T))
            old = [c.field(this, x) for x in F]
            c.call(this, '%s<%s>' % (K, T), 'prepare', [c.val('double', 'sr'), c.val('size_t', 'a'), c.val('size_t', 'n')])
            c.call(this, '%s<%s>' % (K, T), 'reset', [])
            c.prove('prepare and reset leave the configuration alone', z3.And(*[c.field(this, x) == o for x, o in zip(F, old)]))
    return [at, below, lifecycle]
