"""Descriptions: what an object says about itself are the settings it was created with."""
from .host import *
from .p15 import World as Chain

R = Registry()
PRECISION = {'db': 'Db', 'lin': 'Lin', 'hz': 'Hz', 'sec': 'Sec', 'rad': 'Rad'}


def shown(c, parts):
    """[text before, number, decimals in force] for each number or object shown, and the text at the end"""
    I = c.I
    out, text, dec = [], '', None
    for p in parts:
        if isinstance(p, tuple) and p[0] == 'manip':
            if p[1] == 'setprecision':
                dec = p[2]
            continue
        for q in flatten(I, [p]):
            if isinstance(q, str):
                text += q
            else:
                out.append((text, q, dec))
                text = ''
    return out, text


def describe(c, this, CL):
    I = c.I
    stream = I.alloc('stream', 'ostream', Stream(()))
    c.call(this, CL, 'represent', [stream])
    return shown(c, I.get(stream).parts)


def settings(c, T, CL, got, want, name, words=(), none=()):
    """want: (value, unit, suffix) in the order of the constructor"""
    I, fp = c.I, c.fp
    items, end = got
    cfg = c.callref(None, 'CLIConfig', 'getInstance')
    c.prove('the text names the class', z3.BoolVal((items[0][0] if items else end).startswith(name + ' (') or (items[0][0] if items else end).startswith(name + '(')))
    c.prove('as many settings are shown as the object has', z3.BoolVal(len(items) == len(want)))
    texts = [b for b, _, _ in items] + [end]
    c.prove('the text ends with the closing bracket', z3.BoolVal(end.endswith(')')))
    c.prove('each setting is separated from the one before', z3.BoolVal(all(', ' in b for b in texts[1:len(want)]) and all(', ,' not in b for b in texts)))
    for i, (v, unit, suffix) in enumerate(want):
        if i >= len(items):
            break
        _, q, dec = items[i]
        if isinstance(q, tuple) and q[0] == 'num':
            n = q[1]
            same = [v]
            if v.sort() != n.sort():
                same = [fp.cvt(v, W(T))] if W(T) == 32 else [v]
            c.prove('the setting shown is the one given', z3.Or(*[n == x for x in same]))
        else:
            c.prove('the setting shown is the one given', equal(I, q if z3.is_expr(q) else q[1], v))
        c.prove('its unit is shown', z3.BoolVal(texts[i + 1].startswith(suffix)))
        if unit:
            c.prove('with the decimals of its unit', dec == I.rv(c.call(cfg, 'CLIConfig', 'get%sDecimals' % PRECISION[unit], [])) if dec is not None else z3.BoolVal(False))
    w = ''.join(texts)
    for x in words:
        c.prove('the modes it was created with are shown', z3.BoolVal(x in w))
    for x in none:
        c.prove('no other modes are shown', z3.BoolVal(x not in w))
    c.cover('described')


@R.unit('Silence, SineWave, WhiteNoise<{0}>', *FLOATS2)
@expects('described')
def generators(c, T):
    I, fp = c.I, c.fp

    def silence():
        CL = 'Silence<%s>' % T
        settings(c, T, CL, describe(c, c.ctor('this', CL, []), CL), [], 'Silence')

    def sine():
        CL = 'SineWave<%s>' % T
        f, p = c.val('double', 'frequencyHz'), c.val('double', 'phaseRadians')
        c.assume(z3.And(fp.isfinite(f), fp.isfinite(p), fp.lt(fp.lit(0.0, 64), f)))
        this = c.ctor('this', CL, [f, p])
        I.put(this.f('m_phaseRadians'), c.val('double', 'phase by now'))
        settings(c, T, CL, describe(c, this, CL), [(f, 'hz', '_Hz'), (p, 'rad', '_rad')], 'SineWave')

    def noise():
        CL = 'WhiteNoise<%s>' % T
        for t in ('mersenne_twister_engine', 'uniform_real_distribution'):
            I.contracts[('ctor', t)] = lambda I_, o, a, node: Undef('generator')
        seed = c.val('size_t', 'seed')
        I.contracts[('WhiteNoise', 'reset')] = lambda I_, o, a, node: None
        this = c.ctor('this', CL, [seed])
        settings(c, T, CL, describe(c, this, CL), [(seed, None, '')], 'WhiteNoise')
    return [silence, sine, noise]


@R.unit('SineSweep<{0}>', *FLOATS2)
@expects('described')
def sweep(c, T):
    I, fp = c.I, c.fp
    CL = 'SineSweep<%s>' % T

    def run(linear, loop):
        def case():
            d, a, b, ph = (c.val('double', n) for n in ('durationSeconds', 'startFrequencyHz', 'endFrequencyHz', 'initialPhaseRadians'))
            zero = fp.lit(0.0, 64)
            c.assume(z3.And(*[fp.isfinite(x) for x in (d, a, b, ph)], fp.le(zero, d), fp.lt(zero, a), fp.lt(zero, b)))
            E = lambda e, n: z3.IntVal(I.u.enum_value(e, n))
            this = c.ctor('this', CL, [d, a, b, E('SineSweep::SweepType', 'linear' if linear else 'log'), E('SineSweep::Loop', 'yes' if loop else 'no'), ph])
            I.put(this.f('m_currentPhaseRadians'), c.val('double', 'phase by now'))
            got = describe(c, this, CL)
            want = [(d, 'sec', '_s'), (a, 'hz', '_Hz'), (b, 'hz', '_Hz')]
            if len(got[0]) == 4:
                want.append((c.field(this, 'm_initialPhaseRadians'), 'rad', '_rad'))
            y, n = ('linear', 'log') if linear else ('log', 'linear')
            settings(c, T, CL, got, want, 'SineSweep', (', SweepType::' + y, ', Loop::' + ('yes' if loop else 'no')), ('SweepType::' + n, 'Loop::' + ('no' if loop else 'yes')))
        return case
    return [run(x, y) for x in (False, True) for y in (False, True)]


@R.unit('WavFile<{0}>', *FLOATS2)
@expects('described')
def wav(c, T):
    I = c.I
    CL = 'WavFile<%s>' % T

    def run(loop):
        def case():
            this = c.obj('this', CL)
            e = I.u.enum_value('WavFile::Loop', 'yes' if loop else 'no')
            c.assume(c.field(this, 'm_loop') == e)
            p = c.get(this.f('m_filePath'))
            items, end = describe(c, this, CL)
            c.prove('the file and its mode are shown', z3.BoolVal(len(items) == 1 and items[0][0] == 'WavFile ("' and end == '", Loop::%s)' % ('yes' if loop else 'no')))
            c.prove('the file shown is the one given', z3.BoolVal(z3.is_expr(items[0][1])) if not z3.is_expr(items[0][1]) else items[0][1] == I.str_term(p))
            c.cover('described')
        return case
    return [run(False), run(True)]


@R.unit('GainDb, GainLinear, HardClip<{0}>', *FLOATS2)
@expects('described')
def effects(c, T):
    fp = c.fp

    def run(name, unit, suffix):
        def case():
            CL = '%s<%s>' % (name, T)
            x, later = c.val('double', 'value'), c.val('double', 'set later')
            c.assume(z3.And(fp.isfinite(x), fp.isfinite(later)))
            this = c.ctor('this', CL, [x])
            if c.I.choose(c.val('bool', 'changed since')):
                c.call(this, CL, 'setValue', [z3.IntVal(c.I.u.enum_value(name + '::Params', name[0].lower() + name[1:] if name != 'HardClip' else 'thresholdDb')), later])
            settings(c, T, CL, describe(c, this, CL), [(x, unit, suffix)], name)
        return case
    return [run('GainDb', 'db', '_dB'), run('GainLinear', 'lin', ''), run('HardClip', 'db', '_dB')]


@R.unit('PeaksAt, PeaksBelow, EqualsTo<{0}>', *FLOATS2)
@expects('described')
def matchers(c, T):
    I, fp = c.I, c.fp

    def run(name):
        def case():
            CL = '%s<%s>' % (name, T)
            x, tol = c.val('double', 'level'), c.val('double', 'tolerance')
            c.assume(z3.And(fp.isfinite(x), fp.isfinite(tol)))
            this = c.ctor('this', CL, [x, tol])
            settings(c, T, CL, describe(c, this, CL), [(x, 'db', '_dB'), (tol, 'lin', '')], name)
        return case

    def equalsto():
        CL = 'EqualsTo<%s>' % T
        this = c.obj('this', CL)
        ref, tol = c.field(this, 'm_referenceSignal'), c.field(this, 'm_toleranceLinear')
        c.assume(ref != 0)
        I.contracts[('Signal', 'representWithDSPChain')] = lambda I_, o, a, node: I.put(a[0], Stream(I.get(a[0]).parts + (('repr', o.term),)))
        I.contracts[('Signal', 'represent')] = lambda I_, o, a, node: c.prove('the effects of the reference signal are shown too', False)
        settings(c, T, CL, describe(c, this, CL), [(ref, None, ''), (tol, 'lin', '')], 'EqualsTo')
    return [run('PeaksAt'), run('PeaksBelow'), equalsto]


@R.unit('Signal<{0}> with its effects', *FLOATS2)
@expects('described')
def chain(c, T):
    I = c.I

    def case():
        s = Chain(c, T)
        stage, own = c.obj('g:stage', 'size_t'), c.obj('g:own', 'size_t')
        c.assume(z3.And(c.get(stage) == 0, c.get(own) == 0))
        stream = I.alloc('stream', 'ostream', Stream(()))

        def signal(I_, obj, args, node):
            c.prove('the signal comes first, once', z3.And(I.get(own) == 0, I.get(stage) == 0))
            I.put(own, z3.IntVal(1))

        def effect(I_, obj, args, node):
            n = I.get(stage)
            c.prove('then each effect in the order of attachment', z3.And(I.get(own) == 1, n >= 0, n < s.size, obj.term == s.chain.read(n)))
            I.put(stage, n + 1)
        I.contracts[('Signal', 'represent')] = signal
        I.contracts[('DSP', 'represent')] = effect
        c.call(s.this, s.CL, 'representWithDSPChain', [stream])
        c.prove('every effect is shown once', z3.And(c.get(own) == 1, c.get(stage) == s.size))
        s.keeps()
        c.cover('described')
    return case
