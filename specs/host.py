"""Vocabulary for the audio test host (AudioTestBuilder)."""
from .maps import *
from engine.fp import SORT
from engine.loops import eqv

k_ = z3.Int('k_')           # an arbitrary position in a list of checks or parameters
RATE = z3.Function('supportsRate', z3.IntSort(), SORT[64], z3.BoolSort())
LAYOUT = z3.Function('supportsLayout', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
SETTINGS = ['m_sampleRateHz', 'm_blockSizeFrames', 'm_numInputChannels', 'm_numOutputChannels', 'paramValues', 'm_durationSeconds', 'm_testLabel',
            'm_saveOutputPath', 'm_saveOutputMode', 'm_saveOutputWavFormat', 'm_savePlotPath', 'm_savePlotMode', 'm_processor', 'm_inputSignal', 'perBlockChecks', 'fullSignalChecks']


def builder(c, T, name='this'):
    """an audio test in an arbitrary state"""
    this = c.obj(name, 'AudioTestBuilder<%s>' % T)
    for l in ('paramValues', 'perBlockChecks', 'fullSignalChecks'):
        c.assume(c.field(this, l).size < 1 << 40)
    c.assume(c.field(this, 'm_processor') > 0)
    return this


def snapshot(c, this):
    return {f: c.field(this, f) for f in SETTINGS}


def same(c, a, b):
    I = c.I
    if isinstance(a, Vec):
        e = equal(I, a.arr.read(k_), b.arr.read(k_))
        return z3.And(a.size == b.size, z3.Implies(z3.And(k_ >= 0, k_ < a.size), e))
    return equal(I, a, b)


def equal(I, a, b):
    if isinstance(a, StrV) and isinstance(b, StrV):
        return z3.BoolVal(True) if a.parts == b.parts else I.str_term(a) == I.str_term(b)
    if isinstance(a, Struct):
        return z3.And(*[equal(I, a.fields[k], b.fields[k]) for k in a.fields])
    return a == b


def unchanged_settings(c, this, before, but=()):
    for f in SETTINGS:
        if f not in but:
            c.prove('unchanged: %s' % f.replace('m_', ''), same(c, before[f], c.field(this, f)))


MATCHERS = ('perBlockChecks', 'fullSignalChecks')
INDEX = z3.Function('indexOf', z3.IntSort(), z3.IntSort())      # position of a matcher in its group (unique ownership)
GROUP = z3.Function('groupOf', z3.IntSort(), z3.IntSort())      # 0: per block, 1: full signal
LIMIT = 1 << 59


class World:
    """One run of a test: contracts on the effect, the signal, the matchers and the writers, and what they are given.
    only: the properties whose obligations are wanted; group, k_: an arbitrary check that is tracked."""

    def __init__(s, c, T, only, group=0):
        I = s.I = c.I
        s.c, s.fp, s.T, s.w, s.only, s.group = c, c.fp, T, W(T), only, group
        s.this = builder(c, T)
        s.before = snapshot(c, s.this)
        g = lambda f: s.before['m_' + f]
        s.rate, s.block, s.ni, s.no, s.fx, s.sig = g('sampleRateHz'), g('blockSizeFrames'), g('numInputChannels'), g('numOutputChannels'), g('processor'), g('inputSignal')
        fp = c.fp
        # what the configuration calls guarantee (P06)
        c.assume(z3.And(fp.lt(fp.lit(0.0, 64), s.rate), s.block > 0, s.ni >= 1, s.ni <= 128, s.no >= 1, s.no <= 128, fp.le(fp.lit(0.0, 64), g('durationSeconds'))))
        # the number of frames: rate times duration, rounded; the test fits in memory
        total = fp.round_(fp.mul(s.rate, g('durationSeconds')), 'round')
        c.assume(fp.lt(total, fp.lit(float(LIMIT), 64)))
        s.D = z3.Int('durationFrames')
        c.assume(s.D == I.f2int(total, 'size_t', None))
        s.SIG = z3.Function('signal%d' % s.w, z3.IntSort(), z3.IntSort(), SORT[s.w])
        s.OUT = z3.Function('output%d' % s.w, z3.IntSort(), z3.IntSort(), SORT[s.w])
        s.params = s.before['paramValues']
        s.layoutok, s.rateok = LAYOUT(s.fx, s.ni, s.no), RATE(s.fx, s.rate)
        s.size = [s.before[l].size for l in MATCHERS]
        s.expectLevel, s.assertLevel = [I.u.enum_value('SignalAssertionLevel', x) for x in ('expect', 'assert')]
        s.lists = []
        for gi, l in enumerate(MATCHERS):
            v = s.before[l]
            s.lists.append(s.lawful(v.arr, v.size, gi))
            I.put(s.this.f(l), Vec(v.elem, v.size, s.lists[gi]))
        s.before.update({l: c.field(s.this, l) for l in MATCHERS})
        c.assume(k_ >= 0)
        s.tracked = s.lists[group].read(k_)
        s.h = s.tracked.fields['matcher']
        s.exists = k_ < s.size[group]
        for n in ('rendered', 'processed', 'sets', 'seen', 'own', 'recorded', 'asserted', 'writes', 'plots'):
            setattr(s, n, s.count(n))
        for n in ('fxReset', 'fxReady', 'sigReset', 'sigReady', 'mReset', 'mReady'):
            setattr(s, n, s.flag(n))
        # recorded failures: any number already there
        s.msgs = c.callref(None, 'ExpectationFailureMessages', 'get')
        v = I.fresh_at('vector<std::string>', 'messages')
        I.put(s.msgs, Vec(I.get(s.msgs).elem, v.size, v.arr))
        s.msgs0 = I.get(s.msgs)
        c.assume(s.msgs0.size < 1 << 40)
        s.always, s.whenFails = [I.u.enum_value('Save', x) for x in ('always', 'whenFails')]
        K = I.contracts
        K[('DSP', 'supportsChannelLayout')] = lambda I_, o, a, node: LAYOUT(o.term, I.rv(a[0]), I.rv(a[1]))
        K[('DSP', 'supportsSampleRate')] = lambda I_, o, a, node: RATE(o.term, I.rv(a[0]))
        K[('DSP', 'resetWithEnvelopes')] = s.fx_reset
        K[('DSP', 'prepareWithEnvelopes')] = s.fx_prepare
        K[('DSP', 'setValue')] = s.fx_set
        K[('DSP', 'processWithEnvelopes')] = s.fx_process
        K[('Signal', 'resetWithDSPChain')] = s.sig_reset
        K[('Signal', 'prepareWithDSPChain')] = s.sig_prepare
        K[('Signal', 'renderNextBlockWithDSPChain')] = s.sig_render
        K[('Matcher', 'prepare')] = s.m_prepare
        K[('Matcher', 'reset')] = s.m_reset
        K[('Matcher', 'match')] = s.m_match
        K[('Matcher', 'getFailureDetails')] = s.m_details
        K[('Matcher', 'represent')] = lambda I_, o, a, node: I.put(a[0], Stream(I.get(a[0]).parts + (('repr', o.term),)))
        K[('push', s.msgs.root)] = s.on_record
        K[('throw', 'TestAssertException')] = s.on_assert
        K[('WavWriter', 'writeBuffer')] = s.write
        K[('', 'plotData')] = s.plot
        I.hints = [s.hint]
        I.plain_families = True

    def lawful(s, arr, size, gi):
        """matchers are held by unique_ptr: non-null and distinct"""
        seen = set()

        def rd(i):
            t = arr.read(i)
            m = t.fields['matcher']
            if i.get_id() not in seen:
                seen.add(i.get_id())
                s.I.keepalive.append(i)
                s.fp.ax(z3.Implies(z3.And(i >= 0, i < size), z3.And(m > 0, INDEX(m) == i, GROUP(m) == gi,
                                                                             z3.Or(*[t.fields['signalAssertionLevel'] == x for x in (s.expectLevel, s.assertLevel)]))))
            return t
        return FArr(rd)

    # ghost state
    def count(s, n):
        lv = s.c.obj('g:' + n, 'size_t')
        s.c.assume(s.I.get(lv) == 0)
        return lv

    def flag(s, n):
        lv = s.c.obj('g:' + n, 'bool')
        s.c.assume(z3.Not(s.I.get(lv)))
        return lv

    def __getitem__(s, lv):
        return s.I.get(lv)

    def add(s, lv, n=1):
        s.I.put(lv, s.I.get(lv) + n)

    def prove(s, prop, name, f):
        if prop in s.only:
            s.c.prove(name, f)

    def audio(s, b, fn, at):
        """the block is the given stream from position at"""
        return z3.Implies(inbuf(b), b.data.read(c_, f_) == fn(c_, at + f_))

    # effect
    def fx_reset(s, I, o, a, node):
        s.prove('P05', 'the tested effect is reset before any audio', z3.And(o.term == s.fx, s[s.processed] == 0))
        I.put(s.fxReset, z3.BoolVal(True))
        I.put(s.sets, z3.IntVal(0))

    def fx_prepare(s, I, o, a, node):
        r, ni, no, m = [I.rv(x) for x in a]
        s.prove('P05', 'the effect is prepared for the configured sample rate, channels and block size', z3.And(o.term == s.fx, r == s.rate, ni == s.ni, no == s.no, m == s.block, s[s.processed] == 0))
        s.prove('P05', 'the effect is prepared only for what it supports', z3.And(s.layoutok, s.rateok))
        I.put(s.fxReady, z3.BoolVal(True))
        I.put(s.sets, z3.IntVal(0))

    def fx_set(s, I, o, a, node):
        i, v = [I.rv(x) for x in a]
        n = s[s.sets]
        e = s.params.arr.read(n)
        s.prove('P05', 'parameter values are set after preparation, in the requested order',
                z3.And(o.term == s.fx, s[s.fxReset], s[s.fxReady], s[s.processed] == 0, n < s.params.size, e.fields['id'] == i, e.fields['value'] == v))
        I.put(s.sets, n + 1)

    def fx_process(s, I, o, a, node):
        i, u = I.get(a[0]), I.get(a[1])
        p = s[s.processed]
        s.prove('P05', 'the effect is reset, prepared and set up before the first block', z3.And(o.term == s.fx, s[s.fxReset], s[s.fxReady], s[s.sets] == s.params.size))
        s.prove('P05', 'blocks have the configured channels', z3.And(i.nc == s.ni, u.nc == s.no))
        s.prove('P05', 'blocks have the configured size, only the last may be shorter', z3.And(i.nf == u.nf, i.nf == z3.If(s.D - p < s.block, s.D - p, s.block), p < s.D))
        s.prove('P05', 'the effect gets the input signal in order', s.audio(i, s.SIG, p))
        I.put(s.processed, p + u.nf)
        I.put(a[1], Buf(u.ty, u.nc, u.nf, FArr(lambda x, y: s.OUT(x, p + y), 2)))

    # signal
    def sig_reset(s, I, o, a, node):
        s.prove('P05', 'the input signal is reset before any audio', z3.And(o.term == s.sig, s[s.rendered] == 0))
        I.put(s.sigReset, z3.BoolVal(True))

    def sig_prepare(s, I, o, a, node):
        r, n, m = [I.rv(x) for x in a]
        s.prove('P05', 'the signal is prepared for the configured sample rate, input channels and block size', z3.And(o.term == s.sig, r == s.rate, n == s.ni, m == s.block, s[s.rendered] == 0))
        if I.choose(z3.Bool('signalRefuses')):
            raise Throw('ChannelLayoutError')
        I.put(s.sigReady, z3.BoolVal(True))

    def sig_render(s, I, o, a, node):
        b = I.get(a[0])
        p = s[s.rendered]
        s.prove('P05', 'the signal is reset and prepared before the first block', z3.And(o.term == s.sig, s[s.sigReset], s[s.sigReady]))
        s.prove('P05', 'input blocks have the configured channels and at most the block size', z3.And(b.nc == s.ni, b.nf <= s.block))
        s.prove('P05', 'no more than the duration is rendered', p + b.nf <= s.D)
        I.put(s.rendered, p + b.nf)
        I.put(a[0], Buf(b.ty, b.nc, b.nf, FArr(lambda x, y: s.SIG(x, p + y), 2)))

    # matchers
    def is_tracked(s, o):
        return z3.And(s.exists, o.term == s.h)

    def group_of(s, o):
        return GROUP(o.term)

    def m_prepare(s, I, o, a, node):
        r, n, m = [I.rv(x) for x in a]
        s.prove('P05', 'matchers are prepared for the output they will receive, before any audio', z3.And(r == s.rate, n == s.no, z3.If(s.group_of(o) == 0, m == s.block, m == s.D), s[s.processed] == 0))
        I.put(s.mReady, z3.Or(s[s.mReady], s.is_tracked(o)))

    def m_reset(s, I, o, a, node):
        s.prove('P05', 'matchers are reset before any audio', s[s.processed] == 0)
        I.put(s.mReset, z3.Or(s[s.mReset], s.is_tracked(o)))

    def m_match(s, I, o, a, node):
        b = I.get(a[0])
        p = s[s.processed]
        g = s.group_of(o)
        t = s.is_tracked(o)
        off = z3.If(g == 0, p - b.nf, z3.IntVal(0))
        s.prove('P05', 'every matcher is prepared and reset before it is used (an arbitrary one)', z3.Implies(t, z3.And(s[s.mReady], s[s.mReset])))
        s.prove('P04', 'a check is applied to the output block, or to the complete output', z3.And(b.nc == s.no, b.nf > 0, z3.Or(g == 0, z3.And(p == s.D, b.nf == s.D)), s.audio(b, s.OUT, off)))
        s.prove('P04', 'a check is applied to all output in order (an arbitrary one)', z3.Implies(t, s[s.seen] == off))
        s.prove('P04', 'a check that failed is not counted again (an arbitrary one)', z3.Implies(t, s[s.own] == 0))
        s.prove('P04', 'nothing is checked after a failed assertion', s[s.asserted] == 0)
        ok = z3.Bool(I.nm('verdict'))
        x = s.info(o)
        wrong = ok != x.fields['shouldPass']
        expect = x.fields['signalAssertionLevel'] == s.expectLevel
        one = lambda cond: z3.If(cond, z3.IntVal(1), z3.IntVal(0))
        s.add(s.seen, z3.If(t, b.nf, z3.IntVal(0)))
        s.add(s.own, one(z3.And(t, wrong)))
        s.add(s.recorded, one(z3.And(wrong, expect)))
        s.add(s.asserted, one(z3.And(wrong, z3.Not(expect))))
        s.last = dict(o=o, block=b, wrong=wrong, expect=expect, off=off, positive=x.fields['shouldPass'])
        return ok

    def info(s, o):
        """kind and requested outcome of a check, as registered"""
        i = INDEX(o.term)
        a, b = [l.read(i) for l in s.lists]
        g = s.group_of(o)
        return Struct('Check', {f: z3.If(g == 0, a.fields[f], b.fields[f]) for f in ('shouldPass', 'signalAssertionLevel')})

    def m_details(s, I, o, a, node):
        d = I.fresh_at('MatcherFailureDetails', I.nm('details'))
        L = getattr(s, 'last', None)
        if L is not None:
            # a failed matcher names a sample of the audio it was last given (P02, P10, P11)
            s.c.assume(z3.And(d.fields['channel'] >= 0, d.fields['channel'] < L['block'].nc, d.fields['frame'] >= 0, d.fields['frame'] < L['block'].nf))
            s.prove('P18', 'the details are those of the check that failed', o.term == L['o'].term)
            L['details'] = d
        return d

    # failures
    def on_record(s, I, o, a, node):
        L = getattr(s, 'last', None)
        s.prove('P04', 'a failure is recorded only for an expectation with the wrong outcome', z3.BoolVal(False) if L is None else z3.And(L['wrong'], L['expect'], s[s.msgs].size == s.msgs0.size + s[s.recorded] - 1))
        s.report(a[0], 'expect')

    def on_assert(s, I, o, a, node):
        L = getattr(s, 'last', None)
        s.prove('P04', 'the test is ended only by an assertion with the wrong outcome', z3.BoolVal(False) if L is None else z3.And(L['wrong'], z3.Not(L['expect']), s[s.msgs].size == s.msgs0.size + s[s.recorded]))
        s.report(a[0], 'assert')

    def report(s, text, kind):
        if 'P18' in s.only:
            Report(s, text, kind)

    # artifacts
    def checked(s):
        return z3.And(s[s.processed] == s.D, z3.Implies(z3.And(s.exists, s[s.own] == 0), s[s.seen] == s.D))

    def wanted(s, mode):
        m = s.before[mode]
        return z3.Or(m == s.always, z3.And(m == s.whenFails, s[s.recorded] > 0))

    def write(s, I, o, a, node):
        b = I.get(a[0])
        path, rate, fmt = I.rv(a[1]), I.rv(a[2]), I.rv(a[3])
        s.prove('P19', 'output is saved only when requested', s.wanted('m_saveOutputMode'))
        s.prove('P19', 'output is saved after all checks', s.checked())
        s.prove('P19', 'the complete output is saved', z3.And(b.nc == s.no, b.nf == s.D, s.audio(b, s.OUT, 0)))
        s.prove('P19', 'output is saved at the sample rate, to the path and in the format requested', z3.And(rate == s.rate, equal(I, path, s.before['m_saveOutputPath']), fmt == s.before['m_saveOutputWavFormat']))
        s.add(s.writes)
        if I.choose(z3.Bool('writerFails')):
            raise Throw('IOError')

    def plot(s, I, o, a, node):
        i, u = I.get(a[0]), I.get(a[1])
        rate, path = I.rv(a[2]), I.rv(a[3])
        s.prove('P19', 'a plot is saved only when requested', s.wanted('m_savePlotMode'))
        s.prove('P19', 'a plot is saved after all checks', s.checked())
        s.prove('P19', 'the plot shows the complete input and output', z3.And(i.nc == s.ni, i.nf == s.D, u.nc == s.no, u.nf == s.D, s.audio(i, s.SIG, 0), s.audio(u, s.OUT, 0)))
        s.prove('P19', 'the plot is saved at the sample rate to the path requested', z3.And(rate == s.rate, equal(I, path, s.before['m_savePlotPath'])))
        s.add(s.plots)
        if I.choose(z3.Bool('plotterFails')):
            raise Throw('IOError')

    # loops
    def hint(s, h):
        I = s.I
        out = []
        cnt = [i for i in h.ints if not i.name.startswith('g:')]
        G = lambda lv: (lambda st: I.get(lv, st))
        p, seen, own, rec, ass = [G(x) for x in (s.processed, s.seen, s.own, s.recorded, s.asserted)]
        n = s.size[s.group]
        for l in h.locs:
            if l.kind == 'arr' and isinstance(l.v, Buf):
                for nm, fn, at in (('input', s.SIG, G(s.rendered)), ('output', s.OUT, p)):
                    out.append(every('%s is the %s so far' % (l.name, nm), l, (c_, f_), lambda st, idx, l=l, fn=fn, at=at: z3.Implies(z3.And(idx[0] >= 0, idx[0] < l.get(st).nc, idx[1] >= 0, idx[1] < l.get(st).nf), l.get(st).data.read(*idx) == fn(*idx))))
                    out.append(('%s has all %s so far' % (l.name, nm), lambda st, l=l, at=at: l.get(st).nf == at(st)))
            if l.kind == 'arr' and isinstance(l.v, Vec) and l.lv.root == s.msgs.root:
                out.append(every('earlier failures are kept', l, (k_,), lambda st, idx, l=l: z3.Implies(z3.And(idx[0] >= 0, idx[0] < s.msgs0.size), equal(I, l.get(st).arr.read(*idx), s.msgs0.arr.read(*idx)))))
                out.append(('failures are recorded once', lambda st, l=l: l.get(st).size == s.msgs0.size + rec(st)))
            if l.kind == 'arr' and isinstance(l.v, Vec) and l.lv.root == 'this':
                skip = lambda st, l=l: l.get(st).arr.read(k_).fields['shouldSkip']
                for gi, nm in enumerate(MATCHERS):
                    if l.lv.path == (('f', nm),) and gi == s.group:
                        out.append(('failed checks are skipped', lambda st, skip=skip: z3.Implies(z3.And(s.exists, own(st) > 0), skip(st))))
                        out.append(('only failed checks are skipped', lambda st, skip=skip: z3.Implies(z3.And(s.exists, skip(st)), own(st) > 0)))
                        for i in cnt:
                            out.append(('checks are not skipped before %s' % i.name, lambda st, i=i, skip=skip: z3.Implies(z3.And(s.exists, k_ < i.get(st)), z3.Not(skip(st)))))
        out.append(('a check fails once', lambda st: z3.And(own(st) >= 0, own(st) <= 1, rec(st) >= 0)))
        out.append(('own failures are recorded', lambda st: own(st) <= rec(st)))
        out.append(('no assertion failed', lambda st: ass(st) == 0))
        out.append(('all output so far checked', lambda st: z3.Implies(z3.And(s.exists, own(st) == 0), seen(st) == p(st))))
        out.append(('nothing checked yet', lambda st: z3.And(seen(st) == 0, own(st) == 0)))
        out.append(('processed all that is rendered', lambda st: p(st) == I.get(s.rendered, st)))
        for l in h.locs:
            if l.kind == 'bool' and not l.name.startswith('g:'):
                for nm, f in (('a check failed', lambda st: rec(st) > 0), ('a check failed meanwhile', lambda st, r0=I.get(s.recorded, h.init): rec(st) != r0)):
                    out.append(('%s iff %s' % (l.name, nm), lambda st, l=l, f=f: l.get(st) == f(st)))
                    out.append(('%s unless %s' % (l.name, nm), lambda st, l=l, f=f: l.get(st) != f(st)))
        for l in h.locs:
            if l.kind == 'int' and not l.name.startswith('g:'):
                for nm, f in (('a check failed', lambda st: rec(st) > 0), ('a check failed meanwhile', lambda st, r0=I.get(s.recorded, h.init): rec(st) != r0)):
                    out.append(('%s is not zero iff %s' % (l.name, nm), lambda st, l=l, f=f: (l.get(st) != 0) == f(st)))
                out.append(('%s is at most the frames processed' % l.name, lambda st, l=l: l.get(st) <= p(st)))
        for i in cnt:
            out.append(('%s frames processed' % i.name, lambda st, i=i: p(st) == i.get(st)))
            out.append(('%s values set' % i.name, lambda st, i=i: I.get(s.sets, st) == i.get(st)))
            for f, nm in ((s.mReady, 'prepared'), (s.mReset, 'reset')):
                out.append(('checks up to %s %s' % (i.name, nm), lambda st, i=i, f=f: z3.Implies(z3.And(s.exists, k_ < i.get(st)), I.get(f, st))))
            seen0 = I.get(s.seen, h.init)
            out.append(('checks up to %s have seen the block' % i.name, lambda st, i=i: z3.Implies(z3.And(s.exists, own(st) == 0), seen(st) == z3.If(k_ < i.get(st), p(st), seen0))))
            out.append(('checks from %s have not failed meanwhile' % i.name, lambda st, i=i, o0=I.get(s.own, h.init): z3.Implies(k_ >= i.get(st), own(st) == o0)))
        return out


def run_process(c, T, s):
    """(handle returned, exception)"""
    try:
        return c.call(s.this, 'AudioTestBuilder<%s>' % T, 'process', []), None
    except Throw as t:
        return None, t


# ------------------------------------------------------------------ reports
def literal(t):
    """text of a string constant, None for anything else"""
    s = str(t)
    return eval(s[4:]) if z3.is_const(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED and s.startswith('str:') else None


def flatten(I, parts):
    """parts of a text with choices between constants settled by what is known on this path"""
    out = []

    def term(t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            cnd, a, b = t.children()
            term(a if I.choose(cnd) else b)
        elif z3.is_app(t) and t.decl().name() == 'append':
            for x in t.children():
                term(x)
        else:
            x = literal(t)
            put(x if x is not None else t)

    def put(p):
        if isinstance(p, str) and out and isinstance(out[-1], str):
            out[-1] += p
        else:
            out.append(p)
    for p in parts:
        if z3.is_expr(p):
            term(p)
        elif not (isinstance(p, tuple) and p[0] == 'manip'):
            put(p)
    return out


def numbers(parts):
    """[(text before, number, text after)]: each number with the text around it"""
    out = []
    for i, p in enumerate(parts):
        if isinstance(p, tuple) and p[0] == 'num':
            before = parts[i - 1] if i and isinstance(parts[i - 1], str) else ''
            after = parts[i + 1] if i + 1 < len(parts) and isinstance(parts[i + 1], str) else ''
            out.append((before.split('\n')[-1].lower(), p[1], after.split('\n')[0].lower()))
    return out


def level(fp, T, x):
    """level in decibels of a sample value (P16)"""
    w = W(T)
    a = fp.abs(x)
    return z3.If(fp.lt(fp.cvt(a, 64), fp.lit(1e-6, 64)), fp.lit(-120.0, w), fp.mul(fp.lit(20.0, w), fp.un('log10', a)))


class Report:
    KINDS = {('expect', True): 'expectTrue', ('expect', False): 'expectFalse', ('assert', True): 'assertTrue', ('assert', False): 'assertFalse'}

    def __init__(s, w, text, kind):
        I, fp, c = w.I, w.fp, w.c
        L = getattr(w, 'last', None)
        if L is None:
            return
        positive = I.choose(L['positive'])
        parts = flatten(I, I.rv(text).parts if isinstance(text, LV) else text.parts)
        words = ' '.join(p for p in parts if isinstance(p, str))
        want = s.KINDS[(kind, positive)]
        prove = lambda n, f: w.prove('P18', n, f if z3.is_expr(f) else z3.BoolVal(bool(f)))
        prove('the report names the kind of check (%s)' % want, want in words and not any(k in words for k in s.KINDS.values() if k != want))
        c.cover(want)
        label = w.before['m_testLabel']
        there = any(z3.is_expr(p) and p.eq(label.parts[0]) for p in parts)
        prove('the report names the test label exactly if there is one', (I.str_len(label) > 0) == there)
        c.cover('label' if there else 'no label')
        reprs = [p[1] for p in parts if isinstance(p, tuple) and p[0] == 'repr']
        prove('the report names the condition of the failed check, and no other', z3.And(*[r == L['o'].term for r in reprs]) if reprs else False)
        nums = numbers(parts)
        if not positive:
            prove('the report of an inverted check names no sample', not nums and 'details' not in L)
            return
        d = L.get('details')
        if d is None:
            prove('the report has the details of the matcher', False)
            return
        ch, fr = d.fields['channel'], d.fields['frame']
        x = w.OUT(ch, L['off'] + fr)
        rate = w.rate
        roles = {'channel': ch, 'frame': fr, 'timestamp': fp.div(fp.i2f(L['off'] + fr, 64), rate), 'value': x, 'level': level(fp, w.T, x)}
        found = {}
        for before, n, after in nums:
            role = 'level' if after.strip().startswith('db') else next((k for k, ws in (('channel', ('channel',)), ('frame', ('frame',)), ('timestamp', ('time', 'second')), ('value', ('value', 'sample'))) if any(q in before for q in ws)), None)
            if role is None:
                raise Unsupported('a number of the report that is not labelled: %r' % before)
            found.setdefault(role, []).append(n)
        for role, want in roles.items():
            ns = found.get(role, [])
            prove('the report names the %s of the failed sample' % role, z3.And(*[n == want for n in ns]) if ns else False)
        desc = d.fields['description']
        prove('the report ends with the description of the matcher', any(z3.is_expr(p) and p.eq(desc.parts[0]) for p in parts))
