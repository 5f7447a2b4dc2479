"""Signal chains: a signal and the effects attached to it (preparation, rendering, reset, copying, appending)."""
from .maps import *
from engine.fp import SORT
from engine.lib import is_xvalue, args_of

R = Registry()
k_ = z3.Int('k_')           # an arbitrary position in the chain
INDEX = z3.Function('indexOf', z3.IntSort(), z3.IntSort())      # position of an effect in its chain (unique ownership)
LAYOUT = z3.Function('supportsLayout', z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.BoolSort())
RATE = z3.Function('supportsRate', z3.IntSort(), SORT[64], z3.BoolSort())
AFTER = {}                  # sample of the block after the signal and the first n effects
for w in (32, 64):
    AFTER[w] = z3.Function('after%d' % w, z3.IntSort(), z3.IntSort(), z3.IntSort(), SORT[w])


def laws(c, arr, law):
    """array whose reads bring in law(index, value)"""
    seen = set()

    def rd(i):
        t = arr.read(i)
        if i.get_id() not in seen:
            seen.add(i.get_id())
            c.I.keepalive.append(i)
            c.fp.ax(law(i, t))
        return t
    return FArr(rd)


class World:
    def __init__(s, c, T, name='this', law=None):
        s.c, s.I, s.fp, s.T, s.w = c, c.I, c.fp, T, W(T)
        s.CL = 'Signal<%s>' % T
        s.this = c.obj(name, s.CL)
        s.lv = s.this.f('dspChain')
        v = c.get(s.lv)
        s.size = v.size
        inside = lambda i: z3.And(i >= 0, i < v.size)
        s.chain = laws(c, v.arr, lambda i, t: z3.Implies(inside(i), z3.And(t > 0, INDEX(t) == i, law(t) if law else True)))
        c.I.put(s.lv, Vec(v.elem, v.size, s.chain))
        c.assume(s.size < 1 << 40)
        c.assume(z3.And(k_ >= 0, k_ < s.size))
        s.h = s.chain.read(k_)

    def now(s, lv=None):
        return s.c.get(lv if lv is not None else s.lv)

    def ghost(s, name):
        I = s.I
        lv = I.alloc('g:' + name, 'vector<size_t>', Vec('size_t', z3.IntVal(1 << 59), I.fresh_arr('size_t', 'g:' + name, 1)))
        old = I.get(lv).arr

        def bump(h):
            v = I.get(lv)
            I.put(lv, Vec(v.elem, v.size, v.arr.write((h,), v.arr.read(h) + 1)))

        def hint(h):
            """effects up to some counter were visited once more, the others not"""
            out = []
            for l in h.locs:
                if l.kind == 'arr' and l.lv.root == 'g:' + name:
                    for i in h.ints:
                        if i.name.startswith('g:'):
                            continue

                        for way, seen in (('passed', lambda n, i: n < i), ('passed backwards', lambda n, i: n >= i)):
                            def at(st, idx, l=l, i=i, seen=seen):
                                x = idx[0]
                                n = INDEX(x)
                                return z3.If(z3.And(n >= 0, n < s.size, s.chain.read(n) == x, seen(n, i.get(st))), l.get(st).arr.read(x) == old.read(x) + 1, l.get(st).arr.read(x) == old.read(x))
                            out.append(every('%s of effects %s by %s' % (name, way, i.name), l, (s.h,), at))
            return out
        return bump, (lambda h: I.get(lv).arr.read(h) - old.read(h)), hint

    def keeps(s):
        v = s.now()
        s.c.prove('the chain keeps its effects and their order', z3.And(v.size == s.size, v.arr.read(k_) == s.h))


@R.unit('Signal<{0}>::renderNextBlockWithDSPChain', *FLOATS2)
@expects('rendered', 'empty chain')
def render(c, T):
    I, fp = c.I, c.fp

    def run(empty):
        def case():
            I.skolems = [(c_, f_), (k_,)]
            s = World(c, T) if not empty else None
            if empty:
                s = World.__new__(World)
                s.c, s.I, s.fp, s.T, s.w, s.CL = c, I, fp, T, W(T), 'Signal<%s>' % T
                s.this = c.obj('this', s.CL)
                s.lv = s.this.f('dspChain')
                s.size = c.get(s.lv).size
                s.chain = c.get(s.lv).arr
                c.assume(s.size == 0)
            ob = buf(c, 'output', T)
            v0 = c.get(ob)
            nc, nf = v0.nc, v0.nf
            stage, own = c.obj('g:stage', 'size_t'), c.obj('g:own', 'size_t')
            c.assume(z3.And(c.get(stage) == 0, c.get(own) == 0))
            A = lambda n, a, b: AFTER[s.w](n, a, b)
            aft = lambda n: FArr(lambda a, b: A(n, a, b), 2)

            def audio(I_, obj, args, node):
                v = I.get(args[0])
                c.prove('the signal renders a block of the requested shape before any effect is applied', z3.And(v.nc == nc, v.nf == nf, I.get(own) == 0, I.get(stage) == 0))
                I.put(own, I.get(own) + 1)
                I.put(args[0], Buf(v.ty, v.nc, v.nf, aft(z3.IntVal(0))))
            I.contracts[('Signal', 'renderNextBlock')] = audio

            def effect(I_, obj, args, node):
                st = I.get(stage)
                a, b = I.get(args[0]), I.get(args[1])
                c.prove('the next effect in the order of attachment is applied', z3.And(I.get(own) == 1, st >= 0, st < s.size, obj.term == s.chain.read(st)))
                c.prove('it gets the output of the effect before it', z3.And(a.nc == nc, a.nf == nf, b.nc == nc, b.nf == nf, z3.Implies(inbuf(v0), a.data.read(c_, f_) == A(st, c_, f_))))
                I.put(stage, st + 1)
                I.put(args[1], Buf(b.ty, b.nc, b.nf, aft(st + 1)))
            I.contracts[('DSP', 'processWithEnvelopes')] = effect

            def hint(h):
                out = []
                for l in h.locs:
                    if l.kind == 'arr' and isinstance(l.v, Buf):
                        out.append(every('the block went through the effects so far', l, (c_, f_), lambda st, idx, l=l: z3.Implies(z3.And(idx[0] >= 0, idx[0] < nc, idx[1] >= 0, idx[1] < nf), l.get(st).data.read(*idx) == A(I.get(stage, st), *idx))))
                        out.append(('the block keeps its shape', lambda st, l=l: z3.And(l.get(st).nc == nc, l.get(st).nf == nf)))
                return out
            I.hints = [hint]
            c.call(s.this, s.CL, 'renderNextBlockWithDSPChain', [ob])
            c.cover('empty chain' if empty else 'rendered')
            v = c.get(ob)
            c.prove('the signal rendered once', c.get(own) == 1)
            c.prove('each effect was applied once', c.get(stage) == s.size)
            c.prove('the output is that of the last effect', z3.And(v.nc == nc, v.nf == nf, z3.Implies(inbuf(v), v.data.read(c_, f_) == A(s.size, c_, f_))))
            if not empty:
                s.keeps()
        return case
    return [run(False), run(True)]


@R.unit('Signal<{0}>::prepareWithDSPChain', *FLOATS2)
@expects('prepared', 'supported', 'layout refused', 'rate refused')
def prepare(c, T):
    I, fp = c.I, c.fp

    def case(supported):
        def run():
            I.skolems = [(k_,)]
            sr, n, M = c.val('double', 'sampleRate'), c.val('size_t', 'channels'), c.val('size_t', 'maxBlock')
            law = (lambda t: z3.And(LAYOUT(t, n, n), RATE(t, sr))) if supported else None
            s = World(c, T, law=law)
            bump, prepared, hint = s.ghost('prepared')
            own = c.obj('g:own', 'size_t')
            c.assume(c.get(own) == 0)
            sc, ss = z3.Bools('signalSupportsChannels signalSupportsRate')
            if supported:
                c.assume(z3.And(sc, ss))

            def chans(I_, obj, args, node):
                c.prove('the signal is asked about the given number of channels', I.rv(args[0]) == n)
                return sc

            def rate(I_, obj, args, node):
                c.prove('the signal is asked about the given sample rate', I.rv(args[0]) == sr)
                return ss

            def prep(I_, obj, args, node):
                a = [I.rv(x) for x in args]
                c.prove('the signal is prepared with the given settings, which it supports', z3.And(a[0] == sr, a[1] == n, a[2] == M, sc, ss))
                I.put(own, I.get(own) + 1)
            I.contracts[('Signal', 'supportsNumChannels')] = chans
            I.contracts[('Signal', 'supportsSampleRate')] = rate
            I.contracts[('Signal', 'prepare')] = prep
            I.contracts[('DSP', 'supportsChannelLayout')] = lambda I_, obj, args, node: LAYOUT(obj.term, I.rv(args[0]), I.rv(args[1]))
            I.contracts[('DSP', 'supportsSampleRate')] = lambda I_, obj, args, node: RATE(obj.term, I.rv(args[0]))

            def ready(I_, obj, args, node):
                a = [I.rv(x) for x in args]
                c.prove('effects are prepared with the given settings', z3.And(a[0] == sr, a[1] == n, a[2] == n, a[3] == M))
                c.prove('effects are prepared only for what they support (an arbitrary one)', z3.Implies(obj.term == s.h, z3.And(LAYOUT(s.h, n, n), RATE(s.h, sr))))
                bump(obj.term)
            I.contracts[('DSP', 'prepareWithEnvelopes')] = ready

            def checked(h):
                return [('effects passed by %s support it' % i.name, lambda st, i=i: z3.Implies(k_ < i.get(st), z3.And(LAYOUT(s.h, n, n), RATE(s.h, sr)))) for i in h.ints if not i.name.startswith('g:')]
            I.hints = [hint, checked]
            try:
                c.call(s.this, s.CL, 'prepareWithDSPChain', [sr, n, M])
            except Throw as t:
                c.prove('a chain of which all parts support the settings is not refused', z3.BoolVal(not supported))
                c.prove('the refusal says what is unsupported', z3.BoolVal(t.ty in ('ChannelLayoutError', 'SampleRateError')))
                c.cover('layout refused' if t.ty == 'ChannelLayoutError' else 'rate refused')
                s.keeps()
                return
            c.cover('supported' if supported else 'prepared')
            c.prove('the signal supports the settings', z3.And(sc, ss))
            c.prove('every effect supports the settings', z3.And(LAYOUT(s.h, n, n), RATE(s.h, sr)))
            c.prove('the signal is prepared', c.get(own) >= 1)
            c.prove('every effect is prepared', prepared(s.h) >= 1)
            s.keeps()
        return run
    return [case(False), case(True)]


@R.unit('Signal<{0}>::resetWithDSPChain', *FLOATS2)
@expects('reset')
def reset(c, T):
    I, fp = c.I, c.fp

    def case():
        I.skolems = [(k_,)]
        s = World(c, T)
        bump, resets, hint = s.ghost('resets')
        own = c.obj('g:own', 'size_t')
        c.assume(c.get(own) == 0)
        I.contracts[('Signal', 'reset')] = lambda I_, obj, args, node: I.put(own, I.get(own) + 1)
        I.contracts[('DSP', 'resetWithEnvelopes')] = lambda I_, obj, args, node: bump(obj.term)
        I.hints = [hint]
        c.call(s.this, s.CL, 'resetWithDSPChain', [])
        c.cover('reset')
        c.prove('the signal is reset', c.get(own) >= 1)
        c.prove('every effect and its envelopes are reset', resets(s.h) >= 1)
        s.keeps()
    return case


def copying(c):
    def copy(I_, obj, args, node):
        r = COPY(obj.term)
        c.assume(z3.And(r > 0, r != obj.term))
        return r
    c.I.contracts[('DSP', 'copy')] = copy


@R.unit('Signal<{0}> appending', *FLOATS2)
@expects('by reference', 'by pointer', 'a named effect', 'a constant effect', 'a temporary effect', '>> reference', '>> pointer')
def append(c, T):
    I, fp = c.I, c.fp
    MOVED = z3.Function('movedFrom', z3.IntSort(), z3.IntSort())
    G = 'GainDb<%s>' % T

    def run(name, ty, kinds, fn):
        def case():
            I.skolems = [(k_,)]
            s = World(c, T)
            copying(c)

            def make(I_, obj, args, node):
                h = args[0].term
                r = MOVED(h) if is_xvalue(args_of(node)[0]) else COPY(h)
                c.assume(r > 0)
                return r
            I.contracts[('', 'make_unique')] = make
            e = z3.Int('effect')
            c.assume(e > 0)
            arg = HLV(ty, e) if ty else e
            r = fn(s, arg)
            v = s.now()
            c.prove('one effect is appended', v.size == s.size + 1)
            c.prove('the effects attached before stay in place', v.arr.read(k_) == s.h)
            last = v.arr.read(s.size)
            c.prove('the appended effect comes last, and is the given one or an independent copy of it', z3.Or(*[last == k(e) for k in kinds]))
            c.prove('the signal itself is returned', z3.BoolVal(isinstance(r, LV) and r.root == 'this'))
            c.cover(name)
        return case

    def member(t, ptr=False):
        return lambda s, a: c.callref(s.this, s.CL, 'followedBy', [a], pred=lambda d: t(d['type']['qualType'].split('(', 1)[1]))

    def op(rvalue, ptr):
        def f(s, a):
            ds = [I.u.definition(d['id']) for d in I.u.funcs.get('operator>>', [])]
            ds = [d for d in ds if I.u.body(d) is not None and ('<%s>' % T) in d['type']['qualType'] and (('&&' in d['type']['qualType']) == rvalue) and (('unique_ptr' in d['type']['qualType']) == ptr)]
            if not ds:
                from engine.run import ExtractionError
                raise ExtractionError('operator>> not found')
            return I.call_decl(ds[0], None, [s.this, a])
        return f
    D = 'DSP<%s>' % T
    same = lambda e: e
    cases = [run('by reference', D, [COPY], member(lambda q: q.startswith('const DSP<%s> &' % T))),
             run('by pointer', None, [same], member(lambda q: 'unique_ptr' in q)),
             run('a named effect', G, [COPY], member(lambda q: q.startswith('hart::GainDb') and '&&' not in q)),
             run('a constant effect', G, [COPY], member(lambda q: q.startswith('const hart::GainDb'))),
             run('a temporary effect', G, [COPY, MOVED], member(lambda q: q.startswith('hart::GainDb') and '&&' in q))]
    for rv in (False, True):
        cases.append(run('>> reference', D, [COPY], op(rv, False)))
        cases.append(run('>> pointer', None, [same], op(rv, True)))
    return cases


@R.unit('Signal<{0}> copies and moves', *FLOATS2)
@expects('copied', 'moved', 'assigned', 'move assigned', 'self assigned', 'self move assigned', 'empty')
def copies(c, T):
    I, fp = c.I, c.fp
    const = lambda d: '&&' not in d['type']['qualType']
    moving = lambda d: '&&' in d['type']['qualType']

    def src():
        I.skolems = [(k_,)]
        s = World(c, T, 'other')
        copying(c)
        s.ch0 = c.field(s.this, 'm_numChannels')

        def hint(h):
            out = []
            for l in h.locs:
                if l.kind == 'arr' and isinstance(l.v, Vec) and 'DSP' in l.v.elem:
                    out.append(every('effects are copies in order', l, (k_,), lambda st, idx, l=l: z3.Implies(z3.And(idx[0] >= 0, idx[0] < l.get(st).size), l.get(st).arr.read(*idx) == COPY(s.chain.read(*idx)))))
            return out
        I.hints = [hint]
        return s

    def check(s, this, moved):
        v = c.field(this, 'dspChain')
        c.prove('the same number of effects', v.size == s.size)
        if moved:
            c.prove('the effects are handed over in order', v.arr.read(k_) == s.h)
        else:
            c.prove('independent copies of the effects in the same order', v.arr.read(k_) == COPY(s.h))
            s.keeps()
        c.prove('the same number of channels', c.field(this, 'm_numChannels') == s.ch0)

    def ctor(which, name, moved):
        def run():
            s = src()
            check(s, c.ctor('this', s.CL, [s.this], pred=which), moved)
            c.cover(name)
        return run

    def assign(which, name, moved):
        def run():
            s = src()
            this = c.obj('this', s.CL)
            c.assume(c.field(this, 'dspChain').size < 1 << 40)
            r = c.callref(this, s.CL, 'operator=', [s.this], pred=which)
            check(s, this, moved)
            c.prove('the assigned signal is returned', z3.BoolVal(isinstance(r, LV) and r.root == 'this'))
            c.cover(name)
        return run

    def own(which, name):
        def run():
            s = src()
            c.callref(s.this, s.CL, 'operator=', [s.this], pred=which)
            s.keeps()
            c.cover(name)
        return run

    def empty():
        I.skolems = [(k_,)]
        CL = 'Signal<%s>' % T
        other = c.obj('other', CL)
        c.assume(c.field(other, 'dspChain').size == 0)
        this = c.obj('this', CL)
        copying(c)
        c.callref(this, CL, 'operator=', [other], pred=const)
        c.prove('assigning a signal without effects removes the effects', c.field(this, 'dspChain').size == 0)
        n = c.ctor('new', CL, [other], pred=const)
        c.prove('a copy of a signal without effects has none', c.field(n, 'dspChain').size == 0)
        c.cover('empty')
    return [ctor(const, 'copied', False), ctor(moving, 'moved', True), assign(const, 'assigned', False), assign(moving, 'move assigned', True),
            own(const, 'self assigned'), own(moving, 'self move assigned'), empty]


@R.unit('{1}<{0}> default sample rates', *[(T, K) for T in FLOATS2 for K in ('DSP', 'Signal')])
def defaults(c, T, K):
    CL = '%s<%s>' % (K, T)

    def case():
        this = c.obj('this', CL)
        c.prove('any sample rate is supported unless overridden', c.I.tobool(c.I.rv(c.call(this, CL, 'supportsSampleRate', [c.val('double', 'rate')]))))
    return case
