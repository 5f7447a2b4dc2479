"""Every check is applied to all output and counted exactly once."""
from .host import *
from engine.lib import is_xvalue, args_of

R = Registry()


def process(group):
    def unit(c, T):
        I = c.I

        def case():
            I.skolems = [(c_, f_), (k_,)]
            s = World(c, T, ('P04',), group)
            r, t = run_process(c, T, s)
            m = s[s.msgs]
            c.prove('one failure is recorded for each failed expectation', m.size == s.msgs0.size + s[s.recorded])
            c.prove('failures recorded before are kept', z3.Implies(z3.And(k_ >= 0, k_ < s.msgs0.size), equal(I, m.arr.read(k_), s.msgs0.arr.read(k_))))
            if t is not None and t.ty == 'TestAssertException':
                c.prove('the test ends only for an assertion with the wrong outcome', s[s.asserted] == 1)
                c.cover('assertion')
                return
            c.prove('a failing assertion ends the test', s[s.asserted] == 0)
            if t is not None:
                # refused before any audio, or a file that cannot be written
                c.prove('no check is skipped when an error ends the test', z3.Or(s[s.processed] == 0, s.checked()))
                return
            c.prove('every check sees all output unless it fails (an arbitrary one)', s.checked())
            c.cover('finished')
        return case
    unit.__name__ = 'process%d' % group
    return unit


for g, name in enumerate(('checked block by block', 'checked at the end')):
    R.unit('AudioTestBuilder<{0}>::process, a check that is %s' % name, *FLOATS2)(expects('finished', 'assertion')(process(g)))


MOVED = z3.Function('movedFrom', z3.IntSort(), z3.IntSort())
PER_BLOCK = z3.Function('canOperatePerBlock', z3.IntSort(), z3.BoolSort())


@R.unit('AudioTestBuilder<{0}> adding checks', *FLOATS2)
@expects('constant reference', 'named', 'constant', 'temporary')
def add(c, T):
    I = c.I
    P = 'PeaksAt<%s>' % T
    forms = [('constant reference', 'Matcher<%s>' % T, lambda q: q.startswith('const Matcher<%s> &' % T)),
             ('named', P, lambda q: q.startswith('hart::PeaksAt') and '&&' not in q),
             ('constant', P, lambda q: q.startswith('const hart::PeaksAt')),
             ('temporary', P, lambda q: q.startswith('hart::PeaksAt') and '&&' in q)]

    def run(form, ty, pick, method, level, positive):
        def case():
            I.skolems = [(k_,)]
            this = builder(c, T)
            before = snapshot(c, this)
            I.contracts[('Matcher', 'canOperatePerBlock')] = lambda I_, o, a, node: PER_BLOCK(o.term)
            I.contracts[('PeaksAt', 'canOperatePerBlock')] = lambda I_, o, a, node: PER_BLOCK(o.term)

            def copy(I_, o, a, node):
                r = COPY(o.term)
                c.assume(z3.And(r > 0, PER_BLOCK(r) == PER_BLOCK(o.term)))
                return r
            I.contracts[('Matcher', 'copy')] = copy
            I.contracts[('PeaksAt', 'copy')] = copy

            def make(I_, obj, args, node):
                h = args[0].term
                r = MOVED(h) if is_xvalue(args_of(node)[0]) else COPY(h)
                c.assume(z3.And(r > 0, PER_BLOCK(r) == PER_BLOCK(h)))
                return r
            I.contracts[('', 'make_unique')] = make
            m = z3.Int('matcher')
            c.assume(m > 0)
            r = c.callref(this, 'AudioTestBuilder<%s>' % T, method, [HLV(ty, m)], pred=lambda d: pick(d['type']['qualType'].split('(', 1)[1]))
            lvl = I.u.enum_value('SignalAssertionLevel', level)
            per = z3.And(PER_BLOCK(m), z3.BoolVal(positive))
            for name, mine in (('perBlockChecks', per), ('fullSignalChecks', z3.Not(per))):
                v, w = before[name], c.field(this, name)
                e = w.arr.read(v.size).fields
                own = z3.Or(*[e['matcher'] == k(m) for k in ((COPY, MOVED) if form == 'temporary' else (COPY,))])
                c.prove('%s adds exactly one check, to the right group' % method, w.size == v.size + z3.If(mine, 1, 0))
                c.prove('the checks added before stay in place', z3.Implies(z3.And(k_ >= 0, k_ < v.size), equal(I, v.arr.read(k_), w.arr.read(k_))))
                c.prove('%s registers the requested check' % method, z3.Implies(mine, z3.And(own, e['signalAssertionLevel'] == lvl, e['shouldPass'] == positive)))
            unchanged_settings(c, this, before, MATCHERS)
            c.prove('the test itself is returned', z3.BoolVal(isinstance(r, LV) and r.root == 'this'))
            c.cover(form)
        return case
    return [run(f, ty, pick, kind + ('True' if pos else 'False'), kind, pos) for f, ty, pick in forms for kind in ('expect', 'assert') for pos in (True, False)]
