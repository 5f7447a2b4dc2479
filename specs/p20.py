"""Plots: plotData against contracts of the plotting library (each line of each diagram receives one point per frame)."""
from .common import *
from .reals import attach
from engine.fp import SORT, bits_of

R = Registry()
SIDES = ('input', 'output')


@R.unit('plotData<{0}>', *FLOATS2)
@expects('plotted')
def plot(c, T):
    I, fp = c.I, c.fp

    def case():
        lib.trust('signalsmith::plot: a diagram draws the lines made with line(), each with the points given to add() in order; write() saves the figure')
        real = attach(c)
        sr = c.val('double', 'sampleRate')
        c.assume(real(sr) > 0)
        period = z3.Real('period')              # 1 / sample rate
        c.assume(period > 0)
        CLOCK = z3.Function('CLOCK', z3.IntSort(), z3.RealSort())      # n * period
        fp.ax(CLOCK(0) == 0)
        clock = lambda n: CLOCK(n)

        def times(x, n=None):
            """x * period"""
            if z3.is_app(x) and x.decl().name().startswith('i2f'):
                return CLOCK(x.arg(0))
            v = fp.val(x)
            return real(x) * period if v is not None else None

        def is_period(x):
            return z3.is_app(x) and x.decl().name().startswith('div') and x.num_args() == 2 and fp.val(x.arg(0)) == 1.0 and x.arg(1).eq(sr)

        def observe(name, bits, args, t):
            r = None
            if bits == 64 and name == 'div' and args[1].eq(sr):
                r = times(args[0])
            elif bits == 64 and name == 'mul':
                for a, b in ((args[0], args[1]), (args[1], args[0])):
                    if is_period(b):
                        r = times(a)
            if r is not None:
                k = ('p20', t.get_id())
                if k not in fp.seen:
                    fp.seen.add(k)
                    fp.ax(real(t) == r)
        fp.observers.append(observe)
        I.skolems = []
        src, peak, bufs = {}, {}, {}
        for k, side in enumerate(SIDES):
            ob = buf(c, side, T)
            v = c.get(ob)
            c.assume(z3.And(v.nc < 1 << 31, v.nf < 1 << 40, v.nc > 0, v.nf > 0))    # the host refuses anything else
            G = z3.Const('peak.' + side, SORT[W(T)])
            gc, gf = z3.Ints('peakChannel.%s peakFrame.%s' % (side, side))
            raw = v.data

            def rd(a, b, raw=raw, v=v, G=G):
                x = raw.read(a, b)
                fp.touch(x)
                # precondition: no NaN; the ghost peak bounds every sample
                fp.ax(z3.Implies(z3.And(a >= 0, a < v.nc, b >= 0, b < v.nf), z3.And(z3.Not(fp.nan(x)), fp.rank(fp.abs(x)) <= fp.rank(G))))
                return x
            I.put(ob, Buf(v.ty, v.nc, v.nf, FArr(rd, 2)))
            fp.touch(G)
            c.assume(z3.And(gc >= 0, gc < v.nc, gf >= 0, gf < v.nf, G == fp.abs(rd(gc, gf)), z3.Not(fp.nan(G))))
            I.skolems.append((gc, gf))
            src[k], peak[k], bufs[k] = rd, G, (ob, c.get(ob))
        I.skolems.append((c_, f_))
        path = c.val('std::string', 'path')
        lines = [c.obj('g:lines.' + s, 'size_t') for s in SIDES]
        points = [c.obj('g:points.' + s, 'size_t') for s in SIDES]
        plus = [c.obj('g:plus.' + s, 'bool') for s in SIDES]
        minus = [c.obj('g:minus.' + s, 'bool') for s in SIDES]
        diagrams = [None, None]
        written = c.obj('g:written', 'size_t')
        for g in lines + points + [written]:
            c.assume(c.get(g) == 0)
        for g in plus + minus:
            c.assume(z3.Not(c.get(g)))

        def side_of(obj):
            for k, d in enumerate(diagrams):
                if d is not None and isinstance(obj, LV) and obj.root == d.root:
                    return k
            return None

        def cell(I_, obj, args, node):
            a = [I.rv(x) for x in args]
            c.prove('the figure has an input and an output diagram', z3.And(a[0] == 0, z3.Or(a[1] == 0, a[1] == 1)))
            return HLV('Cell', z3.simplify(a[1]))

        def diagram(I_, obj, args, node):
            k = z3.simplify(obj.term).as_long()
            c.prove('each diagram is made once', z3.BoolVal(diagrams[k] is None))
            diagrams[k] = I.alloc('g:diagram.' + SIDES[k], 'Plot2D', Struct('Plot2D', {'x': Struct('Axis', {}), 'y': Struct('Axis', {})}))
            return diagrams[k]
        for ns in ('signalsmith::plot::', ''):
            I.contracts[('functor', ns + 'Figure')] = I.contracts[('functor', ns + 'Grid')] = cell
            I.contracts[('ctor', ns + 'Figure')] = lambda I_, *a: Struct('Figure', {})
        for cl in ('Cell', 'Grid', 'Figure'):
            I.contracts[(cl, 'plot')] = diagram

        def mark(I_, obj, args, node):
            k = side_of(obj)
            if k is not None and obj.path[-1:] == (('f', 'y'),):
                for x in args:
                    v = I.rv(x)
                    g = fp.cvt(peak[k], bits_of(v))
                    p, m = fp.rank(v) == fp.rank(g), fp.rank(v) == -fp.rank(g)
                    c.prove('the %s diagram marks only the peak of its own signal' % SIDES[k], z3.Or(p, m))
                    I.put(plus[k], z3.Or(p, I.get(plus[k])))
                    I.put(minus[k], z3.Or(m, I.get(minus[k])))
            return obj
        I.contracts[('Axis', 'minor')] = mark
        for m in ('major', 'label', 'tick', 'linear', 'blank'):
            I.contracts[('Axis', m)] = lambda I_, obj, args, node: obj
        I.contracts[('Plot2D', 'title')] = lambda I_, obj, args, node: obj

        def line(I_, obj, args, node):
            k = side_of(obj)
            n = I.get(lines[k])
            I.put(lines[k], n + 1)
            return HLV('Line2D', 2 * n + k)
        I.contracts[('Plot2D', 'line')] = line

        def add(I_, obj, args, node):
            t, y = [fp.cvt(I.rv(x), 64) for x in args[:2]]
            mine = []
            for k in (0, 1):
                here = obj.term == 2 * c_ + k
                n = I.get(points[k])
                x = src[k](c_, n)
                own = z3.And(here, c_ >= 0, c_ < bufs[k][1].nc)
                c.prove('a point of an %s line shows the next frame of its channel' % SIDES[k], z3.Implies(own, z3.And(n < bufs[k][1].nf, y == fp.cvt(x, 64))))
                c.prove('a point of an %s line is at the time of its frame' % SIDES[k], z3.Implies(own, real(t) == clock(n)))
                I.put(points[k], z3.If(here, n + 1, n))
            return obj
        I.contracts[('Line2D', 'add')] = add

        def write(I_, obj, args, node):
            a = [I.rv(x) for x in args]
            c.prove('the figure is written to the given file', I.str_term(a[0]) == I.str_term(path))
            I.put(written, I.get(written) + 1)
        for cl in ('SvgFileDrawable', 'Figure', 'Grid', 'Cell'):
            I.contracts[(cl, 'write')] = write

        def steps(n):
            fp.ax(clock(n + 1) == clock(n) + period)

        def hint(h):
            out = []
            counters = [l for l in h.ints if not l.name.startswith('g:')]
            enc = [u for u in I.enclosing_ints if not str(u).startswith(('lines.', 'points.'))]
            for l in h.ints:
                steps(l.v)
            for l in h.locs:
                if l.kind == 'float' and l.v.sort() == SORT[64]:
                    for k in counters:
                        out.append(('%s is the time of %s' % (l.name, k.name), lambda st, l=l, k=k: real(l.get(st)) == clock(k.get(st))))
            for k, side in enumerate(SIDES):
                b = bufs[k][1]
                pts = lambda st, k=k: I.get(points[k], st)
                for l in counters:
                    out.append(('%s lines made: %s' % (side, l.name), lambda st, l=l, k=k: I.get(lines[k], st) == l.get(st)))
                    out.append(('%s points complete before line %s' % (side, l.name), lambda st, l=l, b=b, pts=pts: z3.Implies(z3.And(c_ >= 0, c_ < b.nc), pts(st) == z3.If(c_ < l.get(st), b.nf, 0))))
                for u in enc:
                    out.append(('%s lines made: %s + 1' % (side, u), lambda st, u=u, k=k: I.get(lines[k], st) == u + 1))
                    for l in counters:
                        out.append(('%s points of line %s: %s' % (side, u, l.name), lambda st, u=u, l=l, b=b, pts=pts: z3.Implies(z3.And(c_ >= 0, c_ < b.nc), pts(st) == z3.If(c_ == u, l.get(st), z3.If(c_ < u, b.nf, 0)))))
            return out
        I.hints = [hint]
        c.func('plotData', [bufs[0][0], bufs[1][0], sr, I.temp('std::string', path)], lambda d: ('<%s>' % T) in d['type']['qualType'])
        c.cover('plotted')
        for k, side in enumerate(SIDES):
            b = bufs[k][1]
            c.prove('there is one line per %s channel' % side, c.get(lines[k]) == b.nc)
            c.prove('every %s line has one point per frame' % side, z3.Implies(z3.And(c_ >= 0, c_ < b.nc), c.get(points[k]) == b.nf))
            c.prove('the %s diagram marks the peak' % side, c.get(plus[k]))
            c.prove('the %s diagram marks minus the peak' % side, c.get(minus[k]))
            v = c.get(bufs[k][0])
            c.prove('the %s is unchanged' % side, z3.And(v.nc == b.nc, v.nf == b.nf, z3.Implies(inbuf(b), v.data.read(c_, f_) == src[k](c_, f_))))
        c.prove('the plot is saved once', c.get(written) == 1)
    return case
