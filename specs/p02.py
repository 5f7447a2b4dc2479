from .common import *
from engine.fp import SORT

R = Registry()


def reference(c, T):
    """the reference signal: an arbitrary stream of samples; rendering a block consumes exactly that many frames of it"""
    I = c.I
    S = z3.Function('reference%d' % W(T), z3.IntSort(), z3.IntSort(), SORT[W(T)])
    pos = c.obj('g:pos', 'size_t')
    log = []

    def render(I, obj, args, node):
        lv = args[0]
        v = I.get(lv)
        p = I.get(pos)
        c.prove('the reference is rendered by the signal that was given', obj.term == log[0] if log and isinstance(obj, HLV) else True)
        I.put(lv, Buf(v.ty, v.nc, v.nf, FArr(lambda a, b: S(a, p + b), 2)))
        I.put(pos, p + v.nf)
        return None

    I.contracts[('Signal', 'renderNextBlockWithDSPChain')] = render
    I.contracts[('Signal', 'renderNextBlock')] = render
    return S, pos, log


@R.unit('EqualsTo<{0}>::match and failure details', *FLOATS2)
@expects('accepted', 'rejected')
def match(c, T):
    I, fp = c.I, c.fp
    CL = 'EqualsTo<%s>' % T

    def case():
        I.skolems = [(c_, f_)]
        S, pos, log = reference(c, T)
        this = c.obj('this', CL)
        c.assume(c.field(this, 'm_referenceSignal') != 0)
        log.append(c.field(this, 'm_referenceSignal'))
        ib = buf(c, 'audio', T)
        vi = c.get(ib)
        c.assume(vi.nc < 1 << 31)        # the host accepts at most 128 channels
        tol = c.field(this, 'm_toleranceLinear')
        p0 = c.get(pos)
        c.assume(p0 < 1 << 60)

        def within(a, b):
            x, y = vi.data.read(a, b), S(a, p0 + b)
            fp.touch(y)
            return z3.And(z3.Not(fp.nan(x)), z3.Not(fp.nan(y)), z3.Or(fp.eq(x, y), fp.le(fp.abs(fp.sub(x, y)), tol)))

        def mismatch(st):
            ch, fr, o, e = [I.get(this.f(x), st) for x in ('m_failedChannel', 'm_failedFrame', 'm_failedObservedValue', 'm_failedExpectedValue')]
            return z3.And(inbuf(vi, ch, fr), z3.Not(within(ch, fr)), o == vi.data.read(ch, fr), e == S(ch, p0 + fr))
        I.hints = [done_hint(lambda: within(c_, f_), inr=inbuf(vi)), flag_hint(mismatch, 'a mismatch is reported')]
        r = I.tobool(c.call(this, CL, 'match', [ib]))
        c.prove('accepted only if every sample is within the tolerance of the reference and no NaN', z3.Implies(z3.And(r, inbuf(vi)), within(c_, f_)))
        c.prove('exactly as many reference frames are consumed as there is audio', c.get(pos) == p0 + vi.nf)
        c.prove('the audio is untouched', unchanged(c, ib, vi))
        c.prove('tolerance and reference are untouched', z3.And(c.field(this, 'm_toleranceLinear') == tol, c.field(this, 'm_referenceSignal') == log[0]))
        accepted = I.choose(r)
        c.cover('accepted' if accepted else 'rejected')
        d = c.call(this, CL, 'getFailureDetails', [])
        fr, ch = d.fields['frame'], d.fields['channel']
        c.prove('rejected only because of the reported sample, which really mismatches', z3.Implies(z3.Not(r), z3.And(inbuf(vi, ch, fr), z3.Not(within(ch, fr)))))
        if not accepted:
            nums = [p[1] for p in d.fields['description'].parts if isinstance(p, tuple) and p[0] == 'num']
            x, y = vi.data.read(ch, fr), S(ch, p0 + fr)
            c.prove('the report names the expected value of that sample', nums[0] == y if nums else False)
            c.prove('the report names the deviation of that sample', nums[2] == fp.abs(fp.sub(y, x)) if len(nums) == 4 else False)
    return case


@R.unit('EqualsTo<{0}> prepare, reset and capabilities', *FLOATS2)
def others(c, T):
    I, fp = c.I, c.fp
    CL = 'EqualsTo<%s>' % T

    def case():
        this = c.obj('this', CL)
        c.assume(c.field(this, 'm_referenceSignal') != 0)
        ref, tol = c.field(this, 'm_referenceSignal'), c.field(this, 'm_toleranceLinear')
        calls = c.obj('g:calls', 'size_t')
        c.assume(c.get(calls) == 0)
        sr, n, m = c.val('double', 'sampleRate'), c.val('size_t', 'numChannels'), c.val('size_t', 'maxBlock')

        def prep(I_, obj, args, node):
            a = [I.rv(x) for x in args]
            c.prove('the reference signal is prepared for the same rate, channels and block size', z3.And(obj.term == ref, a[0] == sr, a[1] == n, a[2] == m))
            I.put(calls, I.get(calls) + 1)

        def reset(I_, obj, args, node):
            c.prove('the reference signal is the one restarted', obj.term == ref)
            I.put(calls, I.get(calls) + 10)
        I.contracts[('Signal', 'prepareWithDSPChain')] = prep
        I.contracts[('Signal', 'resetWithDSPChain')] = reset
        c.call(this, CL, 'prepare', [sr, n, m])
        c.prove('prepare prepares the reference signal once', c.get(calls) == 1)
        c.call(this, CL, 'reset', [])
        c.prove('reset restarts the reference signal once', c.get(calls) == 11)
        c.prove('EqualsTo accepts blocks', I.tobool(c.call(this, CL, 'canOperatePerBlock', [])))
        c.prove('the configuration is untouched', z3.And(c.field(this, 'm_toleranceLinear') == tol, c.field(this, 'm_referenceSignal') == ref))
    return case


@R.unit('EqualsTo<{0}> copies', *FLOATS2)
def copies(c, T):
    I, fp = c.I, c.fp
    CL = 'EqualsTo<%s>' % T
    copyof = z3.Function('copyOf', z3.IntSort(), z3.IntSort())

    def setup():
        def copy(I_, obj, args, node):
            r = copyof(obj.term)
            I.assume(z3.And(r > 0, r != obj.term))
            return r
        I.contracts[('Signal', 'copy')] = copy
        src = c.obj('src', CL)
        c.assume(c.field(src, 'm_referenceSignal') > 0)
        return src, c.field(src, 'm_referenceSignal'), c.field(src, 'm_toleranceLinear')

    def copy():
        src, ref, tol = setup()
        this = c.ctor('this', CL, [src], pred=lambda d: '&&' not in d['type']['qualType'] and 'const' in d['type']['qualType'])
        c.prove('a copy owns a copy of the reference and has the same tolerance', z3.And(c.field(this, 'm_referenceSignal') == copyof(ref), c.field(this, 'm_toleranceLinear') == tol))
        c.prove('the copied matcher keeps its reference', c.field(src, 'm_referenceSignal') == ref)

    def move():
        src, ref, tol = setup()
        this = c.ctor('this', CL, [src], pred=lambda d: '&&' in d['type']['qualType'])
        c.prove('moving hands over the reference and the tolerance', z3.And(c.field(this, 'm_referenceSignal') == ref, c.field(this, 'm_toleranceLinear') == tol))
        c.prove('the moved-from matcher does not keep the reference', c.field(src, 'm_referenceSignal') == 0)
    return [copy, move]
