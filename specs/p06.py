"""Test configuration: every setting is stored exactly or refused."""
from .host import *

R = Registry()


def setting(c, T, method, args, bad, effect, errors, nparams=None):
    """calls a configuration method on a test in any state; bad: when it must refuse; effect: {field: value}"""
    this = builder(c, T)
    before = snapshot(c, this)
    I = c.I
    I.contracts[('DSP', 'supportsSampleRate')] = lambda I_, obj, a, node: RATE(obj.term, I.rv(a[0]))
    b = bad(this)
    try:
        r = c.callref(this, 'AudioTestBuilder<%s>' % T, method, args, nparams=nparams)
    except Throw as t:
        c.prove('only illegal values are refused (%s)' % method, b)
        c.prove('refused with the right error (%s)' % method, z3.BoolVal(t.ty in errors))
        unchanged_settings(c, this, before)
        c.cover('refused')
        return
    c.cover('stored')
    c.prove('illegal values are refused (%s)' % method, z3.Not(b))
    for f, v in effect(this, before).items():
        c.prove('stored exactly: %s (%s)' % (f.replace('m_', ''), method), equal(I, c.field(this, f), v))
    unchanged_settings(c, this, before, effect(this, before))
    c.prove('the test itself is returned (%s)' % method, z3.BoolVal(isinstance(r, LV) and r.root == 'this'))


@R.unit('AudioTestBuilder<{0}> sample rate, block size and duration', *FLOATS2)
@expects('stored', 'refused')
def timing(c, T):
    fp = c.fp
    zero = fp.lit(0.0, 64)

    def rate():
        c.I.skolems = [(k_,)]
        x = c.val('double', 'sampleRate')
        setting(c, T, 'withSampleRate', [x], lambda this: z3.Or(z3.Not(fp.lt(zero, x)), z3.Not(RATE(c.field(this, 'm_processor'), x))),
                lambda this, b: {'m_sampleRateHz': x}, ('ValueError', 'SampleRateError'))

    def block():
        c.I.skolems = [(k_,)]
        n = c.val('size_t', 'blockSize')
        setting(c, T, 'withBlockSize', [n], lambda this: n == 0, lambda this, b: {'m_blockSizeFrames': n}, ('SizeError',))

    def duration():
        c.I.skolems = [(k_,)]
        x = c.val('double', 'duration')
        setting(c, T, 'withDuration', [x], lambda this: z3.Not(fp.le(zero, x)), lambda this, b: {'m_durationSeconds': x}, ('ValueError',))
    return [rate, block, duration]


@R.unit('AudioTestBuilder<{0}> channels', *FLOATS2)
@expects('stored', 'refused')
def channels(c, T):
    def counted(method, field):
        def run():
            c.I.skolems = [(k_,)]
            n = c.val('size_t', 'channels')
            setting(c, T, method, [n], lambda this: z3.Or(n == 0, n > 128), lambda this, b: {field: n}, ('SizeError',))
        return run

    def fixed(method, **eff):
        def run():
            c.I.skolems = [(k_,)]
            setting(c, T, method, [], lambda this: z3.BoolVal(False), lambda this, b: {k: z3.IntVal(v) for k, v in eff.items()}, ())
        return run
    i, o = 'm_numInputChannels', 'm_numOutputChannels'
    return [counted('withInputChannels', i), counted('withOutputChannels', o), fixed('withStereoInput', **{i: 2}), fixed('withStereoOutput', **{o: 2}),
            fixed('withMonoInput', **{i: 1}), fixed('withMonoOutput', **{o: 1}), fixed('inMono', **{i: 1, o: 1}), fixed('inStereo', **{i: 2, o: 2})]


@R.unit('AudioTestBuilder<{0}> label and parameter values', *FLOATS2)
@expects('stored', 'appended')
def others(c, T):
    I = c.I

    def label():
        I.skolems = [(k_,)]
        s = c.obj('label', 'std::string')
        v = c.get(s)
        setting(c, T, 'withLabel', [s], lambda this: z3.BoolVal(False), lambda this, b: {'m_testLabel': v}, ())
        c.cover('stored')

    def value():
        I.skolems = [(k_,)]
        this = builder(c, T)
        before = snapshot(c, this)
        i, x = c.val('int', 'id'), c.val('double', 'value')
        r = c.callref(this, 'AudioTestBuilder<%s>' % T, 'withValue', [i, x])
        p0, p = before['paramValues'], c.field(this, 'paramValues')
        c.prove('a parameter value is added', p.size == p0.size + 1)
        e = p.arr.read(p0.size)
        c.prove('it is the given one, after all the others', z3.And(e.fields['id'] == i, e.fields['value'] == x))
        c.prove('the values requested before stay, in order', z3.Implies(z3.And(k_ >= 0, k_ < p0.size), equal(I, p.arr.read(k_), p0.arr.read(k_))))
        unchanged_settings(c, this, before, ('paramValues',))
        c.prove('the test itself is returned', z3.BoolVal(isinstance(r, LV) and r.root == 'this'))
        c.cover('appended')
    return [label, value]


@R.unit('AudioTestBuilder<{0}> defaults', *FLOATS2)
@expects('defaults')
def defaults(c, T):
    fp = c.fp

    def case():
        e = z3.Int('effect')
        c.assume(e > 0)
        this = c.ctor('this', 'AudioTestBuilder<%s>' % T, [e], pred=lambda d: 'unique_ptr' in d['type']['qualType'])
        g = lambda f: c.field(this, f)
        c.prove('44100 Hz', g('m_sampleRateHz') == fp.lit(44100.0, 64))
        c.prove('1024 frames', g('m_blockSizeFrames') == 1024)
        c.prove('0.1 s', g('m_durationSeconds') == fp.lit(0.1, 64))
        c.prove('mono in and out', z3.And(g('m_numInputChannels') == 1, g('m_numOutputChannels') == 1))
        c.prove('no parameter values', g('paramValues').size == 0)
        c.prove('no checks', z3.And(g('perBlockChecks').size == 0, g('fullSignalChecks').size == 0))
        c.prove('no label', c.I.str_len(g('m_testLabel')) == 0)
        c.prove('no files', z3.And(g('m_saveOutputMode') == g('m_savePlotMode'), g('m_saveOutputMode') == z3.IntVal(2)))
        c.prove('the effect to test is the given one', g('m_processor') == e)
        c.prove('no input signal', g('m_inputSignal') == 0)
        c.cover('defaults')
    return case
