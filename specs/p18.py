"""Failure reports identify the failing sample truthfully."""
from .host import *
from .p02 import reference
from .p03 import peak_hints

R = Registry()


def process(group):
    def unit(c, T):
        I = c.I

        def case():
            I.skolems = [(c_, f_), (k_,)]
            s = World(c, T, ('P18',), group)
            s.cover18 = c.cover
            r, t = run_process(c, T, s)
            c.cover('finished' if t is None else t.ty)
        return case
    unit.__name__ = 'process%d' % group
    return unit


for g, name in enumerate(('checked block by block', 'checked at the end')):
    R.unit('AudioTestBuilder<{0}>::process, reports of checks that are %s' % name, *FLOATS2)(
        expects('finished', 'TestAssertException', 'expectTrue', 'expectFalse', 'assertTrue', 'assertFalse', 'label', 'no label')(process(g)))


def described(c, d):
    I = c.I
    return numbers(flatten(I, d.fields['description'].parts))


def near(before, after, words):
    return any(q in before for q in words)


@R.unit('EqualsTo<{0}> description of the failed sample', *FLOATS2)
@expects('rejected')
def equalsto(c, T):
    I, fp = c.I, c.fp
    CL = 'EqualsTo<%s>' % T

    def case():
        I.skolems = [(c_, f_)]
        S, pos, log = reference(c, T)
        this = c.obj('this', CL)
        c.assume(c.field(this, 'm_referenceSignal') != 0)
        log.append(c.field(this, 'm_referenceSignal'))
        ib = buf(c, 'audio', T)
        vi = c.get(ib)
        c.assume(vi.nc < 1 << 31)        # the host accepts at most 128 channels
        p0 = c.get(pos)
        c.assume(p0 < 1 << 60)

        def kept(st):
            ch, fr, o, e = [I.get(this.f(x), st) for x in ('m_failedChannel', 'm_failedFrame', 'm_failedObservedValue', 'm_failedExpectedValue')]
            return z3.And(inbuf(vi, ch, fr), o == vi.data.read(ch, fr), e == S(ch, p0 + fr))
        I.hints = [flag_hint(kept, 'the values of the failed sample are kept')]
        r = I.tobool(c.call(this, CL, 'match', [ib]))
        if I.choose(r):
            return
        c.cover('rejected')
        d = c.call(this, CL, 'getFailureDetails', [])
        ch, fr = d.fields['channel'], d.fields['frame']
        x, y = vi.data.read(ch, fr), S(ch, p0 + fr)
        fp.touch(y)
        diff = [fp.abs(fp.sub(y, x)), fp.abs(fp.sub(x, y))]
        last, found = None, set()
        for before, n, after in described(c, d):
            if after.strip().startswith('db'):
                if last is None:
                    raise Unsupported('a level that belongs to no value')
                want = [level(fp, T, y)] if last == 'expected value' else [level(fp, T, z) for z in diff]
                c.prove('the described level is that of the %s' % last, z3.Or(*[n == z for z in want]))
                continue
            last = 'difference' if 'differ' in before or 'deviation' in before else 'expected value' if 'expect' in before or 'reference' in before else None
            if last is None:
                raise Unsupported('a number of the description that is not labelled: %r' % before)
            found.add(last)
            c.prove('the described %s is that of the failed sample' % last, z3.Or(*[n == z for z in ([y] if last == 'expected value' else diff)]))
        c.prove('expected value and difference are described', z3.BoolVal(found == {'difference', 'expected value'}))
    return case


def peak(c, d, x, T):
    nums = described(c, d)
    c.prove('the observed peak is described', z3.BoolVal(len(nums) > 0))
    for before, n, after in nums:
        if not after.strip().startswith('db'):
            raise Unsupported('a number of the description that is not a level')
        c.prove('the described peak is the level of the failed sample', n == level(c.fp, T, x))


@R.unit('PeaksBelow<{0}> description of the failed sample', *FLOATS2)
@expects('rejected')
def peaksbelow(c, T):
    I, fp = c.I, c.fp
    CL = 'PeaksBelow<%s>' % T

    def case():
        I.skolems = [(c_, f_)]
        this = c.obj('this', CL)
        ib = buf(c, 'audio', T)
        vi = c.get(ib)

        def kept(st):
            ch, fr, p = [I.get(this.f(x), st) for x in ('m_failedChannel', 'm_failedFrame', 'm_observedPeakDb')]
            return z3.And(inbuf(vi, ch, fr), p == level(fp, T, vi.data.read(ch, fr)))
        I.hints = [flag_hint(kept, 'the level of the failed sample is kept')]
        r = I.tobool(c.call(this, CL, 'match', [ib]))
        if I.choose(r):
            return
        c.cover('rejected')
        d = c.call(this, CL, 'getFailureDetails', [])
        peak(c, d, vi.data.read(d.fields['channel'], d.fields['frame']), T)
    return case


@R.unit('PeaksAt<{0}> description of the failed sample', *FLOATS2)
@expects('rejected')
def peaksat(c, T):
    I, fp = c.I, c.fp
    CL = 'PeaksAt<%s>' % T

    def hint(h):
        """every local of the sample type is the absolute value of the sample at two of the counters, or zero with nothing seen"""
        out = []
        vi = hint.vi
        x = lambda a, b: fp.abs(vi.data.read(a, b))
        for l in float_locs(h, SORT[W(T)]):
            for a in h.ints:
                for b in h.ints:
                    if a is not b:
                        out.append(('%s is at (%s,%s)' % (l.name, a.name, b.name), lambda st, l=l, a=a, b=b: z3.And(a.get(st) >= 0, b.get(st) >= 0, z3.Or(
                            z3.And(l.get(st) == fp.lit(0.0, W(T)), a.get(st) == 0, b.get(st) == 0), z3.And(a.get(st) < vi.nc, b.get(st) < vi.nf, l.get(st) == x(a.get(st), b.get(st)))))))
            # nothing above +0 so far: the first sample is zero as well
            for n, w in past(h, z3.IntVal(0), z3.IntVal(0)):
                out.append(('%s zero: first sample zero where %s' % (l.name, n), lambda st, l=l, w=w: z3.Implies(z3.And(w(st), z3.Not(fp.nan(l.get(st))), fp.rank(l.get(st)) == 0), z3.And(z3.Not(fp.nan(x(z3.IntVal(0), z3.IntVal(0)))), fp.rank(x(z3.IntVal(0), z3.IntVal(0))) <= 0))))
        return out

    def case():
        I.skolems = [(c_, f_)]
        this = c.obj('this', CL)
        ib = buf(c, 'audio', T)
        vi = hint.vi = c.get(ib)
        c.assume(z3.And(vi.nc < 1 << 31, vi.nc > 0, vi.nf > 0))    # the host accepts at most 128 channels
        I.hints = [hint]
        r = I.tobool(c.call(this, CL, 'match', [ib]))
        if I.choose(r):
            return
        c.cover('rejected')
        d = c.call(this, CL, 'getFailureDetails', [])
        peak(c, d, vi.data.read(d.fields['channel'], d.fields['frame']), T)
    return case
