from .common import *
from engine.fp import SORT

R = Registry()
FORMATS = {'pcm16': ('short', 1, 16), 'pcm24': ('unsigned char', 3, 24), 'pcm32': ('int', 1, 32), 'float32': ('float', 1, 32)}


@R.unit('WavWriter<{0}>::writeBuffer ({1})', *[(T, f) for T in FLOATS2 for f in FORMATS])
@expects('written', 'not created')
def write(c, T, fmt):
    I, fp = c.I, c.fp
    elem, width, bits = FORMATS[fmt]

    def case():
        lib.trust('drwav_init_file_write / drwav_write_pcm_frames / drwav_uninit: the file holds the frames given, in the format given')
        ob = buf(c, 'buffer', T)
        v0 = c.get(ob)
        nc, nf = v0.nc, v0.nf
        c.assume(z3.And(nc < 1 << 16, nf < 1 << 40))
        S = v0.data

        def rd(ch, f):
            s = S.read(ch, f)
            if fmt != 'float32':
                fp.ax(z3.Not(fp.nan(s)))      # precondition: integer formats cannot store NaN
            return s
        I.put(ob, Buf(v0.ty, nc, nf, FArr(rd, 2)))
        sr = c.val('double', 'sampleRate')
        c.assume(z3.And(fp.le(fp.lit(0.0, 64), sr), fp.lt(sr, fp.lit(4294967295.0, 64))))
        path = c.val('std::string', 'path')
        name = I.str_term(path)
        ok = z3.Bool('created')
        opened, written, closed = (c.obj('g:' + n, 'size_t') for n in ('opened', 'written', 'closed'))
        for g in (opened, written, closed):
            c.assume(c.get(g) == 0)
        K = f_ * nc + c_                       # place of the arbitrary sample in interleaved order
        x = fp.mul(fp.lit(float((1 << (bits - 1)) - 1), 64), fp.cvt(rd(c_, f_), 64)) if fmt != 'float32' else None
        full = (1 << (bits - 1)) - 1

        def code():
            """the stored number: rounded, saturated full scale"""
            hi, lo = fp.lit(float(full), 64), fp.lit(-float(full), 64)
            return z3.If(fp.lt(hi, x), full, z3.If(fp.lt(x, lo), -full, fp.f2i(fp.round_(x, 'round'))))

        def encoded(read):
            """read(k): element k of the interleaved data, relative to the place of the sample"""
            if fmt == 'float32':
                return read(0) == fp.cvt(rd(c_, f_), 32)
            if width == 1:
                return read(0) == code()
            return z3.And(*[read(j) == (code() / (1 << (8 * j))) % 256 for j in range(3)])
        inside = z3.And(c_ >= 0, c_ < nc, f_ >= 0, f_ < nf)
        c.assume(z3.Implies(inside, z3.And(K >= 0, K < nf * nc, K + 1 <= nf * nc)))
        seen = set()

        def one_to_one(a, b):
            """a*nc + b = f_*nc + c_ only for a = f_, b = c_ (0 <= b, c_ < nc); proved as a lemma below"""
            k = (a.get_id(), b.get_id())
            if k in seen:
                return
            seen.add(k)
            I.keepalive += [a, b]
            fp.ax(z3.Implies(z3.And(b >= 0, b < nc, c_ >= 0, c_ < nc, z3.Or(a * nc + b == K, a * nc + b >= K, a * nc + b < K)),
                             z3.And(z3.Implies(a < f_, a * nc + b < f_ * nc), z3.Implies(a > f_, a * nc + b >= f_ * nc + nc), z3.Implies(z3.And(a >= 0, a < nf), a * nc + b < nf * nc))))

        def hint(h):
            out = []
            own = [l.v for l in h.ints]
            enc = list(I.enclosing_ints)
            for a in own + enc:
                for b in own + enc:
                    if not a.eq(b):
                        one_to_one(a, b)
                one_to_one(a, z3.IntVal(0))
            for l in h.locs:
                if l.kind == 'arr' and isinstance(l.v, Vec):
                    rdr = lambda st, l=l: (lambda j: I.get(l.lv, st).arr.read(K * width + j))
                    for n, w in past(h, c_, f_):
                        out.append(('%s holds the sample where %s' % (l.name, n), lambda st, w=w, rdr=rdr: z3.Implies(z3.And(inside, w(st)), encoded(rdr(st)))))
            # a running index
            for l in h.ints:
                for a in h.ints:
                    if a is not l:
                        for u in enc:
                            out.append(('%s is the place of (%s, %s)' % (l.name, a.name, u), lambda st, l=l, a=a, u=u: l.get(st) == (u * nc + a.get(st)) * width))
                        out.append(('%s is the place of frame %s' % (l.name, a.name), lambda st, l=l, a=a: l.get(st) == a.get(st) * nc * width))
            return out
        I.hints = [hint]
        I.skolems = [(K * width + j,) for j in range(width)]

        def init(I_, obj, args, node):
            a = [I.rv(x_) for x_ in args]
            c.prove('the file is created where requested', I.str_term(a[1]) == name if isinstance(a[1], StrV) else z3.BoolVal(False))
            f = I.get(a[2].lv).fields
            c.prove('the file has the channels of the buffer', f['channels'] == nc)
            c.prove('the file has the given sample rate', z3.Or(f['sampleRate'] == fp.f2i(sr), f['sampleRate'] == fp.f2i(fp.round_(sr, 'round'))))
            c.prove('the file has the requested sample format', z3.And(f['bitsPerSample'] == bits, f['format'] == (3 if fmt == 'float32' else 1), z3.BoolVal('container_riff' in str(f['container']))))
            c.prove('the file is created once', I.get(opened) == 0)
            if not I.choose(ok):
                return z3.IntVal(0)
            I.put(opened, z3.IntVal(1))
            return z3.IntVal(1)
        I.contracts[('', 'drwav_init_file_write')] = init

        def put(I_, obj, args, node):
            a = [I.rv(x_) for x_ in args]
            c.prove('frames are written to an open file', z3.And(I.get(opened) == 1, I.get(closed) == 0))
            n, p = a[1], a[2]
            w = I.get(written)
            if p.kind == 'vec':
                v = I.get(p.lv)
                c.prove('the data has the type of the format', z3.BoolVal(v.elem == elem))
                c.prove('the data written is inside the buffer', p.ix[0] + n * nc * width <= v.size)
                first = z3.simplify(p.ix[0] - w * nc * width)
                c.prove('every sample is written in its place, encoded', z3.Implies(z3.And(inside, f_ >= w, f_ < w + n), encoded(lambda j: v.arr.read(z3.simplify(first + K * width + j)))))
            else:
                c.prove('the data written is that of the buffer', n == 0)
            I.put(written, w + n)
            return n
        I.contracts[('', 'drwav_write_pcm_frames')] = put

        def uninit(I_, obj, args, node):
            c.prove('the file is closed once, after it was opened', z3.And(I.get(opened) == 1, I.get(closed) == 0))
            I.put(closed, z3.IntVal(1))
            return z3.IntVal(0)
        I.contracts[('', 'drwav_uninit')] = uninit
        try:
            c.call(None, 'WavWriter<%s>' % T, 'writeBuffer', [ob, I.temp('std::string', path), sr, z3.IntVal(I.u.enum_value('WavFormat', fmt))])
        except Throw as e:
            c.prove('only a file that cannot be created is refused, with an input/output error', z3.And(z3.Not(ok), z3.BoolVal(e.ty == 'IOError')))
            c.cover('not created')
            return
        c.cover('written')
        c.prove('a file that cannot be created is refused', ok)
        c.prove('all frames are written once and the file is closed', z3.And(c.get(opened) == 1, c.get(written) == nf, c.get(closed) == 1))
        v1 = c.get(ob)
        c.prove('the buffer is unchanged', z3.And(v1.nc == nc, v1.nf == nf, z3.Implies(inside, v1.data.read(c_, f_) == S.read(c_, f_))))
    return case


@R.unit('interleaving is one to one')
def lemma(c):
    def case():
        a, b, f, ch, n, m = z3.Ints('a b f ch n m')
        c.assume(z3.And(b >= 0, b < n, ch >= 0, ch < n, n >= 1))
        # (f - a) * n >= n for a < f: multiplication of f - a >= 1 by n >= 1
        d = z3.Int('d')
        c.assume(z3.And(d >= 1))
        c.prove('a later frame is at least one frame further', (d - 1) * n >= 0)
        c.prove('frames do not overlap', z3.Implies(f == a + d, z3.And(a * n + b < f * n + ch, a * n + b < f * n)))
        c.prove('the last frame ends inside the data', z3.Implies(m == a + d, a * n + b < m * n))
    return case
