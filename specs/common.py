"""Shared specification vocabulary."""
import z3
from engine.vals import *
from engine.run import Registry, Ctx, sk, FLOATS2
from engine.interp import Throw
from engine import lib

c_, f_ = z3.Ints('c_ f_')      # an arbitrary channel and frame
ENV = 'unordered_map<int,vector<double>>'


def W(T):
    return FLOATS[T]


def buf(c, name, T):
    return c.obj(name, 'AudioBuffer<%s>' % T)


def inbuf(b, ch=c_, fr=f_):
    return z3.And(ch >= 0, ch < b.nc, fr >= 0, fr < b.nf)


def expects(*names):
    def d(fn):
        fn.expects = names
        return fn
    return d


def db_to_ratio(c, x):
    """10^(dB/20), 0 below -120 dB (the value P16 proves decibelsToRatio to return)"""
    fp = c.fp
    w = {v: k for k, v in {}.items()}
    from engine.fp import BITS
    b = BITS[x.sort()]
    return z3.If(fp.lt(x, fp.lit(-120.0, b)), fp.lit(0.0, b), fp.bin('pow', fp.lit(10.0, b), fp.div(x, fp.lit(20.0, b))))


def unchanged(c, lv, v0, where=None):
    """every sample of a buffer is what it was (for the arbitrary channel and frame)"""
    v = c.get(lv)
    g = inbuf(v)
    return z3.And(v.nc == v0.nc, v.nf == v0.nf, z3.Implies(g, v.data.read(c_, f_) == v0.data.read(c_, f_)))


def past(h, c, f):
    """candidate meanings of 'the loop has already passed element (c, f)', over whatever counters the loop has"""
    out = []
    own = [l for l in h.ints]
    enc = list(h.I.enclosing_ints)
    for a in own:
        out.append(('%s>c' % a.name, lambda st, a=a: c < a.get(st)))
        out.append(('%s>f' % a.name, lambda st, a=a: f < a.get(st)))
        for u in enc:
            out.append(('c==%s,%s>f' % (u, a.name), lambda st, a=a, u=u: z3.And(c == u, f < a.get(st))))
            out.append(('f==%s,%s>c' % (u, a.name), lambda st, a=a, u=u: z3.And(f == u, c < a.get(st))))
            out.append(('c<%s or %s>f' % (u, a.name), lambda st, a=a, u=u: z3.Or(c < u, z3.And(c == u, f < a.get(st)))))
            out.append(('f<%s or %s>c' % (u, a.name), lambda st, a=a, u=u: z3.Or(f < u, z3.And(f == u, c < a.get(st)))))
    for u in enc:
        out.append(('c<%s' % u, lambda st, u=u: c < u))
        out.append(('f<%s' % u, lambda st, u=u: f < u))
    # a flag that tells whether the loop goes on
    for l in flags(h):
        for n, w in list(out):
            out.append(('%s and %s' % (n, l.name), lambda st, w=w, l=l: z3.And(w(st), l.get(st))))
            out.append(('%s and not %s' % (n, l.name), lambda st, w=w, l=l: z3.And(w(st), z3.Not(l.get(st)))))
    return out


def flags(h):
    return [l for l in h.locs if l.kind == 'bool']


def flag_hint(fact, name='found'):
    """fact(store) holds whenever a flag of the loop has one of its values"""
    def hint(h):
        out = []
        for l in flags(h):
            out.append(('%s if %s' % (name, l.name), lambda st, l=l: z3.Implies(l.get(st), fact(st))))
            out.append(('%s unless %s' % (name, l.name), lambda st, l=l: z3.Implies(z3.Not(l.get(st)), fact(st))))
        return out
    return hint


def done_hint(pred, c=c_, f=f_, inr=None, name='checked'):
    """pred (a fact about the element (c, f) only) holds once the loop has passed it"""
    def hint(h):
        g = inr if inr is not None else z3.BoolVal(True)
        return [('%s where %s' % (name, n), lambda st, w=w: z3.Implies(z3.And(g, w(st)), pred())) for n, w in past(h, c, f)]
    return hint


def float_locs(h, sort):
    return [l for l in h.locs if l.kind == 'float' and l.v.sort() == sort]


def signum(fp, t):
    return fp.rank(t)


def has_type(T):
    return lambda d: norm_params(d)[0] == T


def norm_params(d):
    from engine.frontend import norm, qtype, strip_ref
    return [strip_ref(norm(qtype(i))) for i in d.get('inner', []) if i.get('kind') == 'ParmVarDecl']
