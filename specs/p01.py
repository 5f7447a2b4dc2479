"""Audio buffers keep shape, contents and bounds."""
from .common import *
from engine.fp import SORT
from engine.vals import Unsupported

R = Registry()
e_ = z3.Int('e_')        # position of the arbitrary sample in the storage of the buffer a loop fills
LIMIT = 1 << 56


def times(c, *facts):
    for f in facts:
        c.fp.ax(f)


def product_laws(c, rows, n, extra=()):
    """what z3 needs to know about positions channel * n + frame"""
    for r in rows:
        # rows before and after an arbitrary one do not overlap it (true for all whole numbers)
        c.fp.ax(z3.Implies(z3.And(n >= 0, r > c_), r * n >= c_ * n + n))
        c.fp.ax(z3.Implies(z3.And(n >= 0, r < c_), r * n + n <= c_ * n))


class Buffer:
    """a buffer in an arbitrary lawful state: flat storage, one pointer per channel into it"""

    def __init__(s, c, T, name, nc=None):
        I = s.I = c.I
        s.c, s.T = c, T
        s.ty = 'AudioBuffer<%s>' % T
        s.lv = c.obj(name, s.ty)
        s.nc = nc if nc is not None else c.field(s.lv, 'm_numChannels')
        s.nf = c.field(s.lv, 'm_numFrames')
        I.put(s.lv.f('m_numChannels'), s.nc)
        c.assume(z3.And(s.nc >= 0, s.nf >= 0, s.nc < 1 << 31, s.nf < LIMIT, s.nc * s.nf >= 0, s.nc * s.nf < LIMIT))
        v = c.field(s.lv, 'm_frames')
        s.blk, s.arr = v.blk, v.arr
        I.put(s.lv.f('m_frames'), Vec(v.elem, s.nc * s.nf, v.arr, v.blk))
        p = c.field(s.lv, 'm_channelPointers')
        on = s.nf > 0
        I.put(s.lv.f('m_channelPointers'), Vec(p.elem, s.nc, FArr(lambda i: SymPtr(z3.If(on, s.blk, z3.IntVal(0)), z3.If(on, i * s.nf, z3.IntVal(0)))), p.blk))
        s.pblk = p.blk
        times(c, z3.Implies(z3.And(c_ >= 0, c_ < s.nc), z3.And(c_ * s.nf >= 0, c_ * s.nf + s.nf <= s.nc * s.nf)))

    def at(s, ch=c_, fr=f_):
        """sample before"""
        return s.arr.read(ch * s.nf + fr)

    def inside(s):
        return z3.And(c_ >= 0, c_ < s.nc, f_ >= 0, f_ < s.nf)


def separate(c, *bufs):
    """different buffers own different storage"""
    blks = [b for x in bufs for b in (x.blk, x.pblk)]
    for i, a in enumerate(blks):
        for b in blks[i + 1:]:
            c.assume(a != b)


def lawful(c, lv, what):
    """the state of a buffer is lawful; its shape and storage"""
    I = c.I
    nc, nf, v, p = [c.field(lv, f) for f in ('m_numChannels', 'm_numFrames', 'm_frames', 'm_channelPointers')]
    c.prove('%s: storage for exactly channels x frames samples' % what, v.size == nc * nf)
    c.prove('%s: one pointer per channel' % what, p.size == nc)
    q = I.to_symptr(p.arr.read(c_))
    c.prove('%s: channels are laid out one after the other (an arbitrary one)' % what,
            z3.Implies(z3.And(c_ >= 0, c_ < nc), z3.If(nf > 0, z3.And(q.blk == v.blk, q.off == c_ * nf), q.blk == 0)))
    return nc, nf, v, p


def sample(c, lv):
    v, nf = c.field(lv, 'm_frames'), c.field(lv, 'm_numFrames')
    return v.arr.read(c_ * nf + f_)


def unchanged_buffer(c, b, what):
    nc, nf, v, p = lawful(c, b.lv, what)
    c.prove('%s: same shape and samples as before' % what, z3.And(nc == b.nc, nf == b.nf, v.blk == b.blk, z3.Implies(b.inside(), v.arr.read(c_ * nf + f_) == b.at())))


def frames(I, this, st):
    nf = I.get(this.f('m_numFrames'), st)
    if not z3.is_expr(nf):
        raise Unsupported('not set yet')
    return nf


def pointers_hint(this):
    """the pointers set so far"""
    def hint(h):
        I, out = h.I, []
        for a in h.ints:
            def set_(st, a=a):
                nf, v, p = I.get(this.f('m_numFrames'), st), I.get(this.f('m_frames'), st), I.get(this.f('m_channelPointers'), st)
                if not isinstance(v, Vec) or not isinstance(p, Vec) or not z3.is_expr(nf):
                    return z3.BoolVal(False)
                q = I.to_symptr(p.arr.read(c_))
                return z3.Implies(z3.And(c_ >= 0, c_ < a.get(st)), z3.If(nf > 0, z3.And(q.blk == v.blk, q.off == c_ * nf), q.blk == 0))
            out.append(('pointers set up to ' + a.name, set_))
            for b in h.ints:
                if b is not a:
                    out.append(('%s==%s unless empty' % (a.name, b.name), lambda st, a=a, b=b: z3.Implies(frames(I, this, st) > 0, a.get(st) == b.get(st))))
        return out
    return hint


def begin(c):
    I = c.I
    I.abstract = set()
    I.skolems = [(c_, f_), (c_,), (e_,)]


def attempt(fn):
    try:
        return fn(), None
    except Throw as t:
        return None, t


@R.unit('AudioBuffer<{0}> construction', *FLOATS2)
@expects('zero', 'copied', 'moved')
def construct(c, T):
    I, fp = c.I, c.fp
    CL = 'AudioBuffer<%s>' % T

    def zero():
        begin(c)
        nc, nf = c.val('size_t', 'numChannels'), c.val('size_t', 'numFrames')
        c.assume(z3.And(nc < 1 << 31, nf < LIMIT, nc * nf >= 0, nc * nf < LIMIT))
        this = c.obj('this', CL)
        I.hints = [pointers_hint(this)]
        product_laws(c, [nc], nf)
        c.ctor('this', CL, [nc, nf])
        n, f, v, p = lawful(c, this, 'a new buffer')
        c.prove('a new buffer has the requested shape', z3.And(n == nc, f == nf))
        c.prove('a new buffer is silent', z3.Implies(z3.And(c_ >= 0, c_ < nc, f_ >= 0, f_ < nf), fp.eq(sample(c, this), fp.lit(0.0, W(T)))))
        c.cover('zero')

    def copied():
        begin(c)
        o = Buffer(c, T, 'other')
        this = c.obj('this', CL)
        I.hints = [pointers_hint(this)]
        c.ctor('this', CL, [o.lv], pred=lambda d: '&&' not in qt(d))
        n, f, v, p = lawful(c, this, 'the copy')
        c.prove('the copy has the same shape', z3.And(n == o.nc, f == o.nf))
        c.prove('the copy has the same samples', z3.Implies(o.inside(), sample(c, this) == o.at()))
        c.prove('the copy has storage of its own', v.blk != o.blk)
        unchanged_buffer(c, o, 'the buffer that was copied')
        c.cover('copied')

    def moved():
        begin(c)
        o = Buffer(c, T, 'other')
        this = c.obj('this', CL)
        I.hints = [pointers_hint(this), pointers_hint(o.lv)]
        c.ctor('this', CL, [o.lv], pred=lambda d: '&&' in qt(d))
        n, f, v, p = lawful(c, this, 'the new buffer')
        c.prove('the contents are transferred', z3.And(n == o.nc, f == o.nf, z3.Implies(o.inside(), sample(c, this) == o.at())))
        emptied(c, o, 'the buffer that was moved from', v.blk)
        c.cover('moved')
    return [zero, copied, moved]


def qt(d):
    return (d.get('type') or {}).get('qualType', '')


def emptied(c, o, what, other_blk=None):
    n, f, v, p = lawful(c, o.lv, what)
    c.prove('%s: empty, with the same channel count' % what, z3.And(n == o.nc, f == 0))
    if other_blk is not None:
        c.prove('%s: does not share storage' % what, v.blk != other_blk)


@R.unit('AudioBuffer<{0}> assignment', *FLOATS2)
@expects('copied', 'moved', 'refused', 'itself')
def assignment(c, T):
    I = c.I
    CL = 'AudioBuffer<%s>' % T

    def run(move):
        def case():
            begin(c)
            b, o = Buffer(c, T, 'this'), Buffer(c, T, 'other')
            separate(c, b, o)
            I.hints = [pointers_hint(b.lv), pointers_hint(o.lv)]
            r, t = attempt(lambda: c.callref(b.lv, CL, 'operator=', [o.lv], pred=lambda q: ('&&' in qt(q)) == move))
            if t is not None:
                c.prove('a buffer is refused only for its channel count', z3.And(b.nc != o.nc, z3.BoolVal(t.ty == 'ChannelLayoutError')))
                unchanged_buffer(c, b, 'after a refused assignment')
                unchanged_buffer(c, o, 'the refused buffer')
                c.cover('refused')
                return
            c.prove('another channel count is refused', b.nc == o.nc)
            c.prove('assignment returns the buffer itself', z3.BoolVal(r == b.lv))
            n, f, v, p = lawful(c, b.lv, 'the assigned buffer')
            c.prove('the shape and samples are those of the other one', z3.And(n == o.nc, f == o.nf, z3.Implies(o.inside(), sample(c, b.lv) == o.at())))
            if move:
                emptied(c, o, 'the buffer that was moved from', v.blk)
            else:
                c.prove('the assigned buffer has storage of its own', v.blk != o.blk)
                unchanged_buffer(c, o, 'the buffer that was copied')
            c.cover('moved' if move else 'copied')
        return case

    def same(move):
        def case():
            begin(c)
            b = Buffer(c, T, 'this')
            I.hints = [pointers_hint(b.lv)]
            r, t = attempt(lambda: c.callref(b.lv, CL, 'operator=', [b.lv], pred=lambda q: ('&&' in qt(q)) == move))
            c.prove('a buffer can be assigned to itself', z3.BoolVal(t is None))
            unchanged_buffer(c, b, 'a buffer assigned to itself')
            c.cover('itself')
        return case
    return [run(False), run(True), same(False), same(True)]


def append_hint(T, parts, N):
    """the samples appended so far: parts are (first frame, frames, what the sample is)"""
    def hint(h):
        I, out = h.I, []
        for l in h.locs:
            if l.kind != 'arr' or not isinstance(l.v, Vec):
                continue
            for a in h.ints:
                product_laws(h.I.spec_ctx, [a.v], N)
                h.I.spec_ctx.fp.ax(z3.BoolVal(True))
                for name, (rng, want) in [(k, x[:2]) for k, x in parts.items()]:
                    out.append(('%s holds the %s frames up to %s' % (l.name, name, a.name),
                                lambda st, l=l, a=a, rng=rng, want=want: z3.Implies(z3.And(c_ >= 0, c_ < a.get(st), rng), elem(l.get(st).arr.read(c_ * N + f_)) == want)))
                for b in I.enclosing_ints:
                    # a loop over the frames of channel b
                    for name, (rng, want) in [(k, x[:2]) for k, x in parts.items()]:
                        at = lambda st, l=l: l.get(st).arr.read(c_ * N + f_)
                        product_laws(I.spec_ctx, [b], N)
                        I.spec_ctx.fp.ax(z3.Implies(c_ == b, c_ * N == b * N))
                        out.append(('%s holds the %s frames of channels before %s' % (l.name, name, b), lambda st, at=at, b=b, rng=rng, want=want: z3.Implies(z3.And(c_ >= 0, c_ < b, rng), at(st) == want)))
                        out.append(('%s holds the %s frames of channel %s' % (l.name, name, b), lambda st, at=at, b=b, rng=rng, want=want: z3.Implies(z3.And(c_ == b, rng), at(st) == want)))
                        for first in (z3.IntVal(0), parts['second'][2]):
                            out.append(('%s holds the %s frames of channel %s up to %s-%s' % (l.name, name, b, first, a.name), lambda st, at=at, a=a, b=b, rng=rng, want=want, first=first: z3.Implies(z3.And(c_ == b, rng, f_ < first + a.get(st)), at(st) == want)))
        # a position that moves through the storage
        for a in h.ints:
            if a.name.endswith(('.po', '.ix')):
                for b in [(x.name, x.get) for x in h.ints if x is not a] + [(str(x), lambda st, x=x: x) for x in I.enclosing_ints]:
                    out.append(('%s starts channel %s' % (a.name, b[0]), lambda st, a=a, b=b: a.get(st) == b[1](st) * N))
        return out
    return hint


def elem(x):
    return x


@R.unit('AudioBuffer<{0}>::appendFrom', *FLOATS2)
@expects('appended', 'refused', 'itself')
def append(c, T):
    I = c.I
    CL = 'AudioBuffer<%s>' % T
    I.spec_ctx = c

    def check(b, n1, n2, first, second, what):
        N = n1 + n2
        n, f, v, p = lawful(c, b.lv, what)
        c.prove('%s: the frames of both, the same channels' % what, z3.And(n == b.nc, f == N))
        got = v.arr.read(c_ * N + f_)
        own = z3.And(c_ >= 0, c_ < b.nc, f_ >= 0)
        c.prove('%s: earlier samples are kept' % what, z3.Implies(z3.And(own, f_ < n1), got == first))
        c.prove('%s: the other samples follow, channel by channel' % what, z3.Implies(z3.And(own, f_ >= n1, f_ < N), got == second))
        return v

    def other():
        begin(c)
        b, o = Buffer(c, T, 'this'), Buffer(c, T, 'other')
        separate(c, b, o)
        N = b.nf + o.nf
        c.assume(b.nc * N < LIMIT)
        first, second = b.at(), o.at(c_, f_ - b.nf)
        I.hints = [pointers_hint(b.lv), append_hint(T, {'first': (z3.And(f_ >= 0, f_ < b.nf), first), 'second': (z3.And(f_ >= b.nf, f_ < N), second, b.nf)}, N)]
        product_laws(c, [b.nc], N)
        r, t = attempt(lambda: c.call(b.lv, CL, 'appendFrom', [o.lv]))
        unchanged_buffer(c, o, 'the buffer that was appended')
        if t is not None:
            c.prove('a buffer is refused only for its channel count', z3.And(b.nc != o.nc, z3.BoolVal(t.ty == 'ChannelLayoutError')))
            unchanged_buffer(c, b, 'after a refused append')
            c.cover('refused')
            return
        c.prove('another channel count is refused', b.nc == o.nc)
        v = check(b, b.nf, o.nf, first, second, 'the longer buffer')
        c.prove('the longer buffer has storage of its own', v.blk != o.blk)
        c.cover('appended')

    def itself():
        begin(c)
        b = Buffer(c, T, 'this')
        N = b.nf + b.nf
        c.assume(b.nc * N < LIMIT)
        first, second = b.at(), b.at(c_, f_ - b.nf)
        I.hints = [pointers_hint(b.lv), append_hint(T, {'first': (z3.And(f_ >= 0, f_ < b.nf), first), 'second': (z3.And(f_ >= b.nf, f_ < N), second, b.nf)}, N)]
        product_laws(c, [b.nc], N)
        r, t = attempt(lambda: c.call(b.lv, CL, 'appendFrom', [b.lv]))
        c.prove('a buffer can be appended to itself', z3.BoolVal(t is None))
        check(b, b.nf, b.nf, first, second, 'a buffer appended to itself')
        c.cover('itself')
    return [other, itself]


@R.unit('AudioBuffer<{0}>::clear, emptyLike', *FLOATS2)
@expects('cleared', 'like')
def clear(c, T):
    I, fp = c.I, c.fp
    CL = 'AudioBuffer<%s>' % T

    def cleared():
        begin(c)
        b = Buffer(c, T, 'this')
        I.hints = [pointers_hint(b.lv)]
        c.call(b.lv, CL, 'clear', [])
        emptied(c, b, 'a cleared buffer')
        c.cover('cleared')

    def like():
        begin(c)
        o = Buffer(c, T, 'other')
        def hint(h):
            out = []
            for root in list(I.path.store):
                x = I.path.store[root]
                if isinstance(x, Struct) and x.ty == CL and root != 'other':
                    out += pointers_hint(LV(root))(h)
            return out
        I.hints = [hint]
        r = c.call(None, CL, 'emptyLike', [o.lv])
        lv = I.alloc('result', CL, r)
        n, f, v, p = lawful(c, lv, 'the new buffer')
        c.prove('the shape of the other buffer, silent', z3.And(n == o.nc, f == o.nf, z3.Implies(o.inside(), fp.eq(sample(c, lv), fp.lit(0.0, W(T))))))
        unchanged_buffer(c, o, 'the other buffer')
        c.cover('like')
    return [cleared, like]


@R.unit('AudioBuffer<{0}> access', *FLOATS2)
@expects('access')
def access(c, T):
    I = c.I
    CL = 'AudioBuffer<%s>' % T

    def points(b, q, what):
        q = I.to_symptr(q)
        c.prove(what, z3.Implies(b.inside(), z3.And(q.blk == b.blk, q.off + f_ == c_ * b.nf + f_, q.off + f_ < b.nc * b.nf)))

    def case():
        begin(c)
        b = Buffer(c, T, 'this')
        c.prove('the number of channels', c.call(b.lv, CL, 'getNumChannels', []) == b.nc)
        c.prove('the number of frames', c.call(b.lv, CL, 'getNumFrames', []) == b.nf)
        c.assume(z3.And(c_ >= 0, c_ < b.nc))
        points(b, c.call(b.lv, CL, 'operator[]', [c_], pred=lambda q: not qt(q).endswith('const')), 'samples of a channel (writing)')
        points(b, c.call(b.lv, CL, 'operator[]', [c_], pred=lambda q: qt(q).endswith('const')), 'samples of a channel (reading)')
        for n in ('getArrayOfReadPointers', 'getArrayOfWritePointers'):
            q = c.call(b.lv, CL, n, [])
            points(b, I.rv(I.deref(I.ptradd(q, c_), None)), '%s: samples of a channel' % n)
        unchanged_buffer(c, b, 'after reading')
        d = z3.Int('d_')
        g = z3.Int('g_')
        c.prove('samples are independently addressable (lemma)', z3.Implies(z3.And(b.inside(), d >= 0, d < c_, g >= 0, g < b.nf), d * b.nf + g != c_ * b.nf + f_))
        c.cover('access')
    return case


@R.unit('AudioBuffer<{0}>::getMagnitude', *FLOATS2)
@expects('one channel', 'all channels', 'refused channel', 'refused range')
def magnitude(c, T):
    I, fp = c.I, c.fp
    CL = 'AudioBuffer<%s>' % T
    w = W(T)

    def run(single):
        def case():
            begin(c)
            b = Buffer(c, T, 'this')
            ch, start, count = c.val('size_t', 'channel'), c.val('size_t', 'startFrame'), c.val('size_t', 'numFrames')
            bound = z3.Const('bound', SORT[w])      # anything the samples in the range stay below
            c.assume(fp.lt(fp.lit(0.0, w), bound))
            rows, reads, seen = [ch] if single else [], [], set()

            def law(i, t):
                """frame i - a * frames of channel a, for each channel the code talks about, stays below the bound"""
                fp.ax(z3.Not(fp.nan(t)))
                for a in rows:
                    f = i - a * b.nf
                    fp.ax(z3.Implies(z3.And(a >= 0, a < b.nc, f >= start, f < start + count), fp.lt(fp.abs(t), bound)))

            def rd(i, arr=b.arr):
                t = arr.read(i)
                if t.get_id() not in seen:
                    seen.add(t.get_id())
                    I.keepalive.append(t)
                    I.keepalive.append(i)
                    reads.append((i, t))
                    law(i, t)
                return t

            def hint(h):
                for a in h.ints:
                    if not single and not any(a.v.eq(r) for r in rows):
                        rows.append(a.v)
                        for i, t in list(reads):
                            law(i, t)
                out = []
                for l in float_locs(h, SORT[w]):
                    out.append((l.name + '<bound', lambda st, l=l: fp.lt(l.get(st), bound)))
                    out.append((l.name + '>=0', lambda st, l=l: fp.le(fp.lit(0.0, w), l.get(st))))
                    here = c_ * b.nf + f_
                    walked = [('%s>position' % a.name, lambda st, a=a: here < a.get(st)) for a in h.ints]
                    for u in I.enclosing_ints:
                        walked += [('c==%s,%s>position' % (u, a.name), lambda st, a=a, u=u: z3.And(c_ == u, here < a.get(st))) for a in h.ints]
                    walked += [('from the start ' + n, p) for n, p in past(h, c_, f_ - start)]
                    for n, p in past(h, c_, f_) + walked:
                        out.append(('%s>=sample where %s' % (l.name, n), lambda st, l=l, p=p: z3.Implies(z3.And(b.inside(), c_ == ch if single else True, f_ >= start, f_ < start + count, p(st)), fp.le(fp.abs(b.at()), l.get(st)))))
                return out
            I.hints = [hint]
            b.arr = FArr(rd)
            v = c.field(b.lv, 'm_frames')
            I.put(b.lv.f('m_frames'), Vec(v.elem, v.size, b.arr, v.blk))
            I.extra_idx = [c_ * b.nf + f_]
            legal = z3.And(count > 0, start + count <= b.nf)
            if single:
                legal = z3.And(legal, ch < b.nc)
            r, t = attempt(lambda: c.call(b.lv, CL, 'getMagnitude', ([ch] if single else []) + [start, count], nparams=3 if single else 2))
            unchanged_buffer(c, b, 'after asking the magnitude')
            if t is not None:
                c.prove('only a range outside the buffer or an empty one is refused', z3.And(z3.Not(legal), z3.BoolVal(t.ty == 'IndexError')))
                c.cover('refused channel' if single and I.feasible(ch >= b.nc) and not I.feasible(ch < b.nc) else 'refused range')
                return
            c.prove('a range outside the buffer or an empty one is refused', legal)
            mine = z3.And(b.inside(), f_ >= start, f_ < start + count)
            if single:
                mine = z3.And(mine, c_ == ch)
            c.prove('no sample in the range is larger', z3.Implies(mine, fp.le(fp.abs(b.at()), r)))
            c.prove('the magnitude is attained: it stays below whatever the samples in the range stay below', fp.lt(r, bound))
            c.cover('one channel' if single else 'all channels')
        return case
    return [run(True), run(False)]
