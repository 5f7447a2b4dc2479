"""Automation: the envelope handling of the effect base class (attachment, preparation, rendering, copying)."""
from .maps import *
from engine.fp import SORT

R = Registry()
VALUE = z3.Function('valueOf', z3.IntSort(), z3.IntSort(), SORT[64])      # value of an envelope at a frame of the stream
SUPPORTED = z3.Function('supported', z3.IntSort(), z3.BoolSort())


class World:
    """an effect with attached envelopes and contracts of its virtual functions and of its envelopes"""

    def __init__(s, c, T, name='this'):
        s.c, s.I, s.fp, s.T = c, c.I, c.fp, T
        s.CL = 'DSP<%s>' % T
        s.this = c.obj(name, s.CL)
        s.envs0 = owned(c, s.this.f('m_envelopes'))
        I = s.I
        big = lambda n, t: I.alloc('g:' + n, 'vector<%s>' % t, Vec(t, z3.IntVal(1 << 59), I.fresh_arr(t, 'g:' + n, 1)))
        s.pos, s.prepared, s.resets = big('pos', 'size_t'), big('prepared', 'size_t'), big('resets', 'size_t')
        s.handle = s.at(K_)
        s.before = {}
        for n in ('pos', 'prepared', 'resets'):
            s.before[n] = c.get(getattr(s, n)).arr
        seen = set()
        sup = s.envs0.has

        def has(k):
            t = sup.read(k)
            if k.get_id() not in seen:
                seen.add(k.get_id())
                I.keepalive.append(k)
                s.fp.ax(z3.Implies(t, SUPPORTED(k)))       # class invariant: envelopes are attached to supported parameters only
            return t
        m = s.envs0
        s.envs0 = Map(m.vty, FArr(has), m.val, m.size, m.keyat, m.pos)
        I.put(s.this.f('m_envelopes'), s.envs0)
        I.contracts[('DSP', 'supportsEnvelopeFor')] = lambda I_, obj, args, node: SUPPORTED(I.rv(args[0]))
        s.calls = c.obj('g:calls', 'size_t')
        c.assume(c.get(s.calls) == 0)

    def at(s, k):
        return s.envs0.val.read(k)

    def has0(s, k=K_):
        return s.envs0.has.read(k)

    def g(s, n, h, st=None):
        return s.I.get(getattr(s, n), st).arr.read(h)

    def bump(s, n, h, by=1):
        I = s.I
        v = I.get(getattr(s, n))
        I.put(getattr(s, n), Vec(v.elem, v.size, v.arr.write((h,), v.arr.read(h) + by)))

    def envelopes(s, st=None):
        return s.I.get(s.this.f('m_envelopes'), st)

    def buffers(s, st=None):
        return s.I.get(s.this.f('m_envelopeBuffers'), st)

    def keeps(s):
        m = s.envelopes()
        s.c.prove('the attached envelopes stay attached', z3.And(m.has.read(K_) == s.has0(), z3.Implies(s.has0(), m.val.read(K_) == s.handle)))

    def track(s, name, changed):
        """hint: state `name` of every envelope is what changed(handle, old, new) says once the loop has passed its parameter, unchanged otherwise"""
        I, m = s.I, s.envs0
        old = s.before[name]

        def hint(h):
            out = []
            for l in h.locs:
                if l.kind == 'arr' and l.lv.root == 'g:' + name:
                    for i in h.ints:
                        for order in orders(s):
                            def at(st, idx, l=l, i=i, order=order):
                                x = idx[0]
                                k = OWNER(x)
                                return z3.If(z3.And(m.has.read(k), m.val.read(k) == x, order(k) < i.get(st)), changed(x, old.read(x), l.get(st).arr.read(x)), l.get(st).arr.read(x) == old.read(x))
                            out.append(every('%s of envelopes passed by %s' % (name, i.name), l, (s.handle,), at))
            return out
        return hint


def orders(s):
    """the orders in which a loop may go through the parameters"""
    def order(m):
        def pos(k):
            m.has.read(k)       # brings in what is known about a key of the map
            return m.pos(k)
        return pos
    return [order(m) for m in (s.envs0, s.buffers()) if m.pos is not None]


@R.unit('DSP<{0}>::processWithEnvelopes', *FLOATS2)
@expects('processed')
def process(c, T):
    I, fp = c.I, c.fp

    def case():
        s = World(c, T)
        I.skolems = [(K_,)]
        M = c.val('size_t', 'maxBlock')
        c.assume(z3.And(M < 1 << 59, M >= 1))
        bl = s.this.f('m_envelopeBuffers')
        was = c.get(bl)
        seen = set()
        # invariant established by prepareWithEnvelopes: a buffer of the block size for every attached envelope and no other

        def has(k):
            t = was.has.read(k)
            if k.get_id() not in seen:
                seen.add(k.get_id())
                I.keepalive.append(k)
                fp.ax(t == s.has0(k))
            return t

        def val(k):
            v = was.val.read(k)
            if ('v', k.get_id()) not in seen:
                seen.add(('v', k.get_id()))
                I.keepalive.append(k)
                fp.ax(z3.Implies(has(k), v.size == M))
            return v
        b0 = Map(was.vty, FArr(has), FArr(val), was.size, was.keyat, was.pos)
        I.put(bl, b0)
        ib, ob = buf(c, 'input', T), buf(c, 'output', T)
        vi, vo = c.get(ib), c.get(ob)
        nf = vi.nf
        c.assume(z3.And(nf <= M, vo.nf == nf))
        # frames of the stream rendered by each envelope
        pos0 = s.before['pos']

        def rendered(h, old, new):
            return z3.If(nf == M, new == old + M, new >= old + nf)

        def right(h, x):
            """the vector holds the values of envelope h for the frames of this block"""
            return z3.And(x.size >= nf, z3.Implies(z3.And(f_ >= 0, f_ < nf), x.arr.read(f_) == VALUE(h, pos0.read(h) + f_)))

        def hint(h):
            out = []
            for l in h.locs:
                if l.kind == 'arr' and isinstance(l.v, Map) and 'vector' in l.v.vty:
                    def size(st, idx, l=l):
                        return z3.Implies(b0.has.read(idx[0]), l.get(st).val.read(*idx).size == M)
                    out.append(every('buffers keep their size', l, (K_,), size))
                    for i in h.ints:
                        for order in orders(s):
                            def at(st, idx, l=l, i=i, order=order):
                                return z3.Implies(z3.And(s.has0(idx[0]), order(idx[0]) < i.get(st)), right(s.at(idx[0]), l.get(st).val.read(*idx)))
                            out.append(every('buffers passed by %s are rendered' % i.name, l, (K_,), at))
            return out
        I.hints = [hint, s.track('pos', rendered)]

        def render(I_, obj, args, node):
            n = I.rv(args[0])
            h = obj.term
            p = s.g('pos', h)
            data = FArr(lambda i: VALUE(h, p + i))
            s.bump('pos', h, n)
            if len(args) == 1:
                return Vec('double', n, data)
            v = I.get(args[1])
            I.put(args[1], Vec('double', v.size, FArr(lambda i: z3.If(z3.And(i >= 0, i < n), VALUE(h, p + i), v.arr.read(i)))))
            c.prove('an envelope is given room for the values it renders', v.size >= n)
        I.contracts[('Envelope', 'renderNextBlock')] = render
        I.contracts[('DSP', 'getValue')] = lambda I_, obj, args, node: c.val('double', 'value')

        def proc(I_, obj, args, node):
            a = args
            c.prove('the effect processes the given input into the given output', z3.BoolVal(obj.root == 'this' and isinstance(a[0], LV) and a[0].root == ib.root and a[1].root == ob.root))
            m = I.get(a[2])
            h = s.handle
            c.prove('the effect gets values exactly for the parameters with an envelope', m.has.read(K_) == s.has0())
            c.prove('the values are those of the envelope at the frames of the block', z3.Implies(s.has0(), right(h, m.val.read(K_))))
            c.prove('every envelope has advanced by the block', z3.Implies(s.has0(), rendered(h, pos0.read(h), s.g('pos', h))))
            I.put(s.calls, I.get(s.calls) + 1)
        I.contracts[('DSP', 'process')] = proc
        c.call(s.this, s.CL, 'processWithEnvelopes', [ib, ob])
        c.cover('processed')
        c.prove('the effect processes the block once', c.get(s.calls) == 1)
        c.prove('every envelope advances by the block', z3.Implies(s.has0(), rendered(s.handle, pos0.read(s.handle), s.g('pos', s.handle))))
        s.keeps()
        m = s.buffers()
        c.prove('the buffers stay ready for the next block', z3.And(m.has.read(K_) == s.has0(), z3.Implies(s.has0(), m.val.read(K_).size == M)))
        c.prove('input and output are left to the effect', z3.And(unchanged(c, ib, vi), unchanged(c, ob, vo)))
    return case


@R.unit('DSP<{0}>::prepareWithEnvelopes and resetWithEnvelopes', *FLOATS2)
@expects('prepared', 'reset')
def prepare(c, T):
    I, fp = c.I, c.fp

    def start():
        s = World(c, T)
        I.skolems = [(K_,)]
        return s

    def prep():
        s = start()
        sr, ni, no, M = c.val('double', 'sampleRate'), c.val('size_t', 'ins'), c.val('size_t', 'outs'), c.val('size_t', 'maxBlock')
        c.assume(M < 1 << 59)

        def ready(I_, obj, args, node):
            a = [I.rv(x) for x in args]
            c.prove('envelopes are prepared for the sample rate and block size of the host', z3.And(a[0] == sr, a[1] == M))
            s.bump('prepared', obj.term)
        I.contracts[('Envelope', 'prepare')] = ready

        def effect(I_, obj, args, node):
            a = [I.rv(x) for x in args]
            c.prove('the effect is prepared with the given settings', z3.And(a[0] == sr, a[1] == ni, a[2] == no, a[3] == M, z3.BoolVal(obj.root == 'this')))
            I.put(s.calls, I.get(s.calls) + 1)
        I.contracts[('DSP', 'prepare')] = effect
        m0 = s.envs0

        def hint(h):
            out = []
            for l in h.locs:
                if l.kind == 'arr' and isinstance(l.v, Map) and 'vector' in l.v.vty:
                    hl = has_loc(l)
                    for i in h.ints:
                        out.append(every('buffers exist for the parameters passed by %s' % i.name, hl, (K_,), lambda st, idx, l=l, i=i: l.get(st).has.read(*idx) == z3.And(m0.has.read(*idx), m0.pos(idx[0]) < i.get(st))))
                    out.append(every('buffers exist for all attached parameters', hl, (K_,), lambda st, idx, l=l: l.get(st).has.read(*idx) == m0.has.read(*idx)))
                    out.append(every('buffers have the size of a block', l, (K_,), lambda st, idx, l=l: z3.Implies(l.get(st).has.read(*idx), l.get(st).val.read(*idx).size == M)))
                    out.append(('as many buffers as passed', lambda st, l=l: z3.Or(*[l.get(st).size == i.get(st) for i in h.ints if i.name.startswith('l:#i')] or [False])))
            return out
        I.hints = [hint, s.track('prepared', lambda h, old, new: new == old + 1)]
        c.call(s.this, s.CL, 'prepareWithEnvelopes', [sr, ni, no, M])
        c.cover('prepared')
        c.prove('the effect is prepared once', c.get(s.calls) == 1)
        c.prove('each attached envelope is prepared', z3.Implies(s.has0(), s.g('prepared', s.handle) > s.before['prepared'].read(s.handle)))
        m = s.buffers()
        c.prove('there is room for a block of values for exactly the attached envelopes', z3.And(m.has.read(K_) == s.has0(), z3.Implies(s.has0(), m.val.read(K_).size == M)))
        s.keeps()

    def reset():
        s = start()

        def back(I_, obj, args, node):
            s.bump('resets', obj.term)
        I.contracts[('Envelope', 'reset')] = back

        def effect(I_, obj, args, node):
            c.prove('the effect itself is reset', z3.BoolVal(obj.root == 'this'))
            I.put(s.calls, I.get(s.calls) + 1)
        I.contracts[('DSP', 'reset')] = effect
        I.hints = [s.track('resets', lambda h, old, new: new == old + 1)]
        c.call(s.this, s.CL, 'resetWithEnvelopes', [])
        c.cover('reset')
        c.prove('the effect is reset once', c.get(s.calls) == 1)
        c.prove('each attached envelope is restarted', z3.Implies(s.has0(), s.g('resets', s.handle) > s.before['resets'].read(s.handle)))
        s.keeps()
    return [prep, reset]


def copying(c):
    """contract of Envelope::copy: a new, independent envelope with the same curve"""
    def copy(I_, obj, args, node):
        r = COPY(obj.term)
        c.assume(z3.And(r > 0, r != obj.term))
        return r
    c.I.contracts[('Envelope', 'copy')] = copy


@R.unit('DSP<{0}>::withEnvelope ({1})', *[(T, k) for T in FLOATS2 for k in ('lvalue', 'temporary')])
@expects('attached', 'refused')
def attach(c, T, kind):
    I, fp = c.I, c.fp

    def case():
        s = World(c, T)
        I.skolems = [(K_,)]
        copying(c)
        k = c.val('int', 'param')
        e = z3.Int('envelope')
        c.assume(e > 0)
        try:
            r = c.callref(s.this, s.CL, 'withEnvelope', [k, HLV('Envelope', e)], pred=lambda d: ('&&' in d['type']['qualType']) == (kind == 'temporary'))
        except Throw as t:
            c.cover('refused')
            c.prove('only unsupported parameters are refused', z3.And(z3.Not(SUPPORTED(k)), z3.BoolVal(t.ty == 'UnsupportedError')))
            s.keeps()
            return
        c.cover('attached')
        c.prove('unsupported parameters are refused', SUPPORTED(k))
        m = s.envelopes()
        c.prove('the parameter has an envelope and no other parameter gains or loses one', m.has.read(K_) == z3.Or(K_ == k, s.has0()))
        c.prove('the last envelope attached wins, the others stay', z3.Implies(m.has.read(K_), m.val.read(K_) == z3.If(K_ == k, COPY(e), s.handle)))
        c.prove('the effect itself is returned', z3.BoolVal(isinstance(r, LV) and r.root == 'this'))
        c.prove('the parameter is known to have an envelope', I.tobool(c.call(s.this, s.CL, 'hasEnvelopeFor', [k])))
        q = c.val('int', 'other')
        c.prove('whether a parameter has an envelope is told truthfully', I.tobool(c.call(s.this, s.CL, 'hasEnvelopeFor', [q])) == s.envelopes().has.read(q))
    return case


@R.unit('DSP<{0}> copies and moves', *FLOATS2)
@expects('copied', 'moved', 'assigned', 'move assigned', 'self assigned', 'self move assigned')
def copies(c, T):
    I, fp = c.I, c.fp
    const = lambda d: '&&' not in d['type']['qualType']
    moving = lambda d: '&&' in d['type']['qualType']

    def src():
        s = World(c, T, 'other')
        copying(c)
        I.skolems = [(K_,)]
        m0 = s.envs0

        def hint(h):
            out = []
            for l in h.locs:
                if l.kind == 'arr' and isinstance(l.v, Map) and 'Envelope' in l.v.vty:
                    hl = has_loc(l)
                    for i in h.ints:
                        out.append(every('envelopes passed by %s are there' % i.name, hl, (K_,), lambda st, idx, l=l, i=i: l.get(st).has.read(*idx) == z3.And(m0.has.read(*idx), m0.pos(idx[0]) < i.get(st))))
                    out.append(every('envelopes are copies', l, (K_,), lambda st, idx, l=l: z3.Implies(l.get(st).has.read(*idx), l.get(st).val.read(*idx) == COPY(m0.val.read(*idx)))))
            return out
        I.hints = [hint]
        return s

    def is_copy(s, this):
        m = c.field(this, 'm_envelopes')
        c.prove('the copy has envelopes for the same parameters, and only those', m.has.read(K_) == s.has0())
        c.prove('the copy owns independent copies of them', z3.Implies(s.has0(), m.val.read(K_) == COPY(s.handle)))
        s.keeps()

    def is_moved(s, this):
        m = c.field(this, 'm_envelopes')
        c.prove('the new effect has envelopes for the same parameters, and only those', m.has.read(K_) == s.has0())
        c.prove('the envelopes are handed over', z3.Implies(s.has0(), m.val.read(K_) == s.handle))

    def copy():
        s = src()
        is_copy(s, c.ctor('this', s.CL, [s.this], pred=const))
        c.cover('copied')

    def move():
        s = src()
        is_moved(s, c.ctor('this', s.CL, [s.this], pred=moving))
        c.cover('moved')

    def assign(which, name, moved):
        def run():
            s = src()
            this = c.obj('this', s.CL)
            r = c.callref(this, s.CL, 'operator=', [s.this], pred=which)
            (is_moved if moved else is_copy)(s, this)
            c.prove('the assigned effect is returned', z3.BoolVal(isinstance(r, LV) and r.root == 'this'))
            c.cover(name)
        return run

    def own(which, name):
        def run():
            s = src()
            c.callref(s.this, s.CL, 'operator=', [s.this], pred=which)
            s.keeps()
            c.cover(name)
        return run
    return [copy, move, assign(const, 'assigned', False), assign(moving, 'move assigned', True), own(const, 'self assigned'), own(moving, 'self move assigned')]


@R.unit('DSP<{0}> defaults', *FLOATS2)
def defaults(c, T):
    CL = 'DSP<%s>' % T

    def case():
        this = c.obj('this', CL)
        c.prove('an effect accepts no automation unless it says so', z3.Not(c.I.tobool(c.I.rv(c.call(this, CL, 'supportsEnvelopeFor', [c.val('int', 'id')])))))
    return case
