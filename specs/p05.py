"""The test host: duration, block order, lifecycle, refusals."""
from .host import *
from engine.run import ExtractionError

R = Registry()


def process(group):
    def unit(c, T):
        I, fp = c.I, c.fp

        def case():
            I.skolems = [(c_, f_), (k_,)]
            s = World(c, T, ('P05',), group)
            legal = z3.And(s.D > 0, s.layoutok, s.rateok, s.sig != 0)
            refuses = z3.Bool('signalRefuses')
            r, t = run_process(c, T, s)
            if t is not None and t.ty == 'TestAssertException':
                c.prove('only a legal test is run (assertion)', legal)
                c.cover('assertion')
                return
            if t is not None and t.ty == 'IOError':
                c.prove('files are written only by a legal test', z3.And(legal, s[s.processed] == s.D))
                c.cover('file')
                return
            if t is not None:
                cause = {'SizeError': s.D == 0, 'ChannelLayoutError': z3.Or(z3.Not(s.layoutok), refuses), 'SampleRateError': z3.Not(s.rateok), 'StateError': s.sig == 0}
                c.prove('a test is refused only for a reason, with an error that says which (%s)' % t.ty, cause.get(t.ty, z3.BoolVal(False)))
                c.prove('a refused test processes no audio', z3.And(s[s.processed] == 0, s[s.rendered] == 0, s[s.seen] == 0))
                c.cover('refused')
                return
            c.cover('finished')
            c.prove('only a legal test is run', legal)
            c.prove('the effect gets exactly the configured duration', s[s.processed] == s.D)
            c.prove('the signal renders exactly the configured duration', s[s.rendered] == s.D)
            c.prove('the effect is handed back', r == s.fx)
        return case
    unit.__name__ = 'process%d' % group
    return unit


for g, name in enumerate(('checks block by block', 'checks at the end')):
    R.unit('AudioTestBuilder<{0}>::process, %s' % name, *FLOATS2)(expects('finished', 'refused', 'assertion', 'file')(process(g)))


MOVED = z3.Function('movedFrom', z3.IntSort(), z3.IntSort())


@R.unit('AudioTestBuilder<{0}> effect and input signal', *FLOATS2)
@expects('by reference', 'named', 'constant', 'temporary', 'pointer', 'signal')
def handed(c, T):
    I = c.I
    B, D, G = 'AudioTestBuilder<%s>' % T, 'DSP<%s>' % T, 'GainDb<%s>' % T

    def contracts():
        for k in ('DSP', 'GainDb'):
            I.contracts[(k, 'copy')] = copy
            I.contracts[(k, 'move')] = move
        I.contracts[('Signal', 'copy')] = copy

    def copy(I_, o, a, node):
        r = COPY(o.term)
        c.assume(r > 0)
        return r

    def move(I_, o, a, node):
        r = MOVED(o.term)
        c.assume(r > 0)
        return r

    def construct(name, ty, kinds, pick):
        def case():
            contracts()
            e = z3.Int('effect')
            c.assume(e > 0)
            a = HLV(ty, e) if ty else e
            match = lambda d: pick(d['type']['qualType'].split('(', 1)[1].split(',')[0])
            try:
                this = c.ctor('this', B, [a], pred=match)
            except ExtractionError:
                this = c.ctor('this', B, [a, z3.IntVal(0)], pred=match)
            fx = c.field(this, 'm_processor')
            c.prove('the effect under test is the given one, or an independent copy of it (%s)' % name, z3.Or(*[fx == k(e) for k in kinds]))
            c.cover(name)
        return case

    def factory(name, ty, kinds, pick):
        def case():
            contracts()
            e = z3.Int('effect')
            c.assume(e > 0)
            r = c.func('processAudioWith', [HLV(ty, e) if ty else e], pred=lambda d: 'GainDb<%s>' % T in d['type']['qualType'] and pick(d['type']['qualType'].split('(', 1)[1]))
            fx = r.fields['m_processor']
            c.prove('processAudioWith: the effect under test is the given one, or an independent copy of it (%s)' % name, z3.Or(*[fx == k(e) for k in kinds]))
        return case

    def signal():
        I.skolems = [(k_,)]
        contracts()
        this = builder(c, T)
        before = snapshot(c, this)
        e = z3.Int('signal')
        c.assume(e > 0)
        r = c.callref(this, B, 'withInputSignal', [HLV('Signal<%s>' % T, e)])
        c.prove('the input signal is an independent copy of the given one', c.field(this, 'm_inputSignal') == COPY(e))
        unchanged_settings(c, this, before, ('m_inputSignal',))
        c.prove('the test itself is returned', z3.BoolVal(isinstance(r, LV) and r.root == 'this'))
        c.cover('signal')
    same = lambda e: e
    out = [construct('by reference', D, [COPY], lambda q: q.startswith('const hart::DSP') or q.startswith('const DSP')),
           construct('named', G, [COPY], lambda q: q.startswith('hart::GainDb') and '&&' not in q),
           construct('constant', G, [COPY], lambda q: q.startswith('const hart::GainDb')),
           construct('temporary', G, [COPY, MOVED], lambda q: q.startswith('hart::GainDb') and '&&' in q),
           construct('pointer', None, [same], lambda q: 'unique_ptr' in q),
           factory('named', G, [COPY], lambda q: q.startswith('hart::GainDb') and '&&' not in q),
           factory('constant', G, [COPY], lambda q: q.startswith('const hart::GainDb')),
           factory('temporary', G, [COPY, MOVED], lambda q: q.startswith('hart::GainDb') and '&&' in q),
           factory('pointer', None, [same], lambda q: 'unique_ptr' in q),
           signal]
    return out
