"""Calls: contracts, inlining, virtual dispatch, and the contracts assumed for the C++ library.

Everything assumed here about code outside hart:: is listed in ASSUMED (reported as trusted)."""
import re
import z3
from .vals import *
from .frontend import norm, strip_ref, is_ref, qtype
from .fp import BITS, SORT

ASSUMED = set()


def trust(s):
    ASSUMED.add(s)


def strip(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr',
                            'CXXBindTemporaryExpr', 'ConstantExpr') and n.get('inner'):
        n = n['inner'][0]
    return n


def args_of(n, skip=1):
    return n.get('inner', [])[skip:]


# ------------------------------------------------------------------ plain calls
def call(I, n):
    callee = strip(n['inner'][0])
    a = args_of(n)
    if callee.get('kind') == 'DeclRefExpr':
        d = callee['referencedDecl']
        return call_fn(I, d, a, n)
    f = I.rve(n['inner'][0])
    if isinstance(f, FnRef):
        return call_fn(I, f.decl, a, n)
    if isinstance(f, Lambda):
        return call_lambda(I, f, [I.ev(x) for x in a])
    k = I.contracts.get(('', '(*)'))
    if k is not None:
        return k(I, f, [I.ev(x) for x in a], n)
    raise Unsupported('indirect call')


def fname(I, d):
    return d.get('name')


def call_fn(I, d, argnodes, n):
    name = d.get('name')
    if d.get('kind') in ('VarDecl', 'ParmVarDecl', 'FieldDecl'):
        f = I.rv(I.ev({'kind': 'DeclRefExpr', 'referencedDecl': d, 'type': d.get('type', {})}))
        if isinstance(f, FnRef):
            return call_fn(I, f.decl, argnodes, n)
        k = I.contracts.get(('', '(*)'))
        if k is not None:
            return k(I, f, [I.ev(x) for x in argnodes], n)
        raise Unsupported('indirect call')
    df = I.u.definition(d.get('id')) if d.get('id') else None
    ow = I.u.owner.get(d.get('id'))
    k = I.contracts.get((I.base_of(ow.name) if ow else '', name))
    if k is not None and I.active_contract(k):
        I.stats['contracts'].add(((I.base_of(ow.name) + '::') if ow else '') + name)
        return k(I, None, [I.ev(x) for x in argnodes], n)
    if ow is not None and I.base_of(ow.name) == 'AudioBuffer' and 'AudioBuffer' in I.abstract:
        if name == 'emptyLike':
            o = I.get(lvof(I, I.ev(argnodes[0]), 'buf'))
            return Buf(o.ty, o.nc, o.nf, FArr(lambda c, f: zero_sample(I, o.ty), 2))
    if df is not None and I.u.body(df) is not None:
        if df.get('name', '').startswith('operator<<'):
            pass
        args = I.bind_args(df, argnodes)
        return I.call_decl(df, None, args)
    return std_call(I, name, argnodes, n)


def zero_sample(I, bufty):
    return I.fp.lit(0.0, FLOATS[norm(split_args(bufty)[0])])


def lvof(I, v, hint='tmp'):
    if isinstance(v, (LV, HLV)):
        return v
    return I.temp(hint, v)


def flt(I, v, w=None):
    """argument of a float function"""
    if v.sort() in BITS:
        return v if w is None else I.fp.cvt(v, w)
    return I.i2f(I.toint(v), w or 64)


def std_call(I, name, an, n):
    fp = I.fp
    ty = I.ty(n)
    if name in ('move', 'forward', 'as_const', 'addressof', 'ref', 'cref'):
        if len(an) == 1:
            v = I.ev(an[0])
            if name == 'addressof':
                return Ptr('obj', v)
            return v
    if name in ('min', 'max'):
        return minmax(I, name, an, n)
    if name in ('swap', 'iter_swap') and len(an) == 2:
        a, b = I.ev(an[0]), I.ev(an[1])
        va, vb = I.get(a), I.get(b)
        I.put(a, vb)
        I.put(b, va)
        return None
    if name == 'exchange':
        lv = I.ev(an[0])
        nv = I.rve(an[1])
        old = I.get(lv)
        I.put(lv, fitptr(I, nv, old))
        return old
    if name in ('abs', 'fabs', 'fabsf', 'labs', '__builtin_fabs', '__builtin_fabsf'):
        v = I.rve(an[0])
        if v.sort() in BITS:
            return fp.abs(flt(I, v, FLOATS.get(ty)))
        t = I.toint(v)
        r = range_of(ty)
        I.prove('abs() is representable', t > r[0], n)
        return z3.If(t < 0, -t, t)
    if name in ('isnan', 'isinf', 'isfinite', 'signbit', '__builtin_isnan', '__builtin_isinf'):
        v = I.rve(an[0])
        if v.sort() == z3.IntSort():
            return z3.BoolVal(name == 'isfinite')
        nm = name.replace('__builtin_', '')
        if nm == 'isnan':
            return fp.nan(v)
        if nm == 'isinf':
            return fp.isinf(v)
        if nm == 'isfinite':
            return fp.isfinite(v)
        raise Unsupported('signbit')
    if name in ('round', 'floor', 'ceil', 'trunc', 'roundf', 'floorf', 'ceilf', 'truncf', 'rint', 'nearbyint'):
        v = flt(I, I.rve(an[0]), FLOATS.get(ty))
        nm = name.rstrip('f') if name != 'floor' and name.endswith('f') else name
        return fp.round_(v, nm)
    if name in ('lround', 'llround', 'lrint', 'llrint'):
        v = flt(I, I.rve(an[0]))
        r = fp.round_(v, 'round')
        return I.f2int(r, ty, n)
    if name in ('sin', 'cos', 'tan', 'exp', 'log', 'log10', 'log2', 'sqrt', 'sinh', 'cosh', 'tanh', 'exp2', 'asin', 'acos', 'atan',
                'sinf', 'cosf', 'expf', 'logf', 'log10f', 'sqrtf', 'cbrt', 'expm1', 'log1p'):
        trust('libm: %s is a deterministic function of its argument (no other law used)' % name)
        return libm(I, name, [flt(I, I.rve(an[0]), FLOATS.get(ty))], ty)
    if name in ('pow', 'fmod', 'remainder', 'atan2', 'hypot', 'copysign', 'fmin', 'fmax', 'powf', 'fmodf', 'ldexp'):
        trust('libm: %s is a deterministic function of its arguments' % name)
        a, b = I.rve(an[0]), I.rve(an[1])
        w = FLOATS.get(ty, 64)
        return libm(I, name, [flt(I, a, w), flt(I, b, w)], ty)
    if name == 'back_inserter':
        lv = I.ev(an[0])
        if not isinstance(lv, LV) or not isinstance(I.get(lv), Vec):
            raise Unsupported('back_inserter')
        return BackIns(lv)
    if name in ALGORITHMS:
        return algo(I, name, an, n)
    if name == 'to_string':
        v = I.rve(an[0])
        return StrV((('num', v),))
    if name == 'setprecision':
        return Struct('manip', {'k': 'setprecision', 'v': I.rve(an[0])})
    if name in ('make_shared', 'make_unique', 'allocate_shared'):
        t = split_args(norm(qtype(n)))[0]
        root = 'h:%s' % I.nm('obj')
        a = [I.ev(x) for x in an]
        v = construct_value(I, t, a, n, LV(root))
        if root not in I.path.store or v is not None:
            I.alloc(root, t, v)
        return Ptr('obj', LV(root))
    if name in ('strlen', 'strcmp'):
        if name == 'strlen':
            return I.str_len(I.rve(an[0]))
    if name == 'isalpha':
        f = z3.Function('isalpha', z3.IntSort(), z3.IntSort())
        return f(I.rve(an[0]))
    if name in ('infinity', 'quiet_NaN', 'max', 'min', 'lowest', 'epsilon', 'denorm_min') and not an:
        w = FLOATS.get(ty)
        import sys, math
        if w:
            val = {'infinity': math.inf, 'quiet_NaN': math.nan}.get(name)
            if val is None and w == 64:
                val = {'max': sys.float_info.max, 'min': sys.float_info.min, 'lowest': -sys.float_info.max, 'epsilon': sys.float_info.epsilon, 'denorm_min': 5e-324}[name]
            if val is None and w == 32:
                val = {'max': 3.4028234663852886e38, 'min': 1.1754943508222875e-38, 'lowest': -3.4028234663852886e38, 'epsilon': 1.1920928955078125e-07, 'denorm_min': 1.401298464324817e-45}[name]
            return fp.lit(val, w)
        r = range_of(ty)
        return z3.IntVal(r[1] if name == 'max' else r[0])
    if name in ('exit', 'abort', 'terminate', '_Exit', 'quick_exit'):
        k = I.contracts.get(('', 'exit'))
        if k:
            return k(I, None, [I.ev(x) for x in an], n)
        raise Infeasible_()
    if name in ('tie', 'make_pair'):
        return Struct('pair', {'first': I.rve(an[0]), 'second': I.rve(an[1])})
    if name in ('isfixed', 'fixed', 'endl', 'flush'):
        return I.rve(an[0])
    if name == 'memcpy' or name == 'memset' or name == 'memmove':
        raise Unsupported(name)
    raise Unsupported('call of %s' % name)


class Infeasible_(Exception):
    pass


def libm(I, name, a, ty):
    w = FLOATS.get(ty, 64)
    import math
    if name == 'remainder':
        return remainder(I, a[0], a[1], w)
    if name in ('fmin', 'fmax'):
        f = I.fp
        x, y = a
        c = f.lt(x, y) if name == 'fmin' else f.lt(y, x)
        return z3.If(f.nan(x), y, z3.If(f.nan(y), x, z3.If(c, x, y)))
    if name == 'sqrt' and False:
        pass
    t = I.fp.un(name.rstrip('f') if name.endswith('f') else name, a[0]) if len(a) == 1 else I.fp.bin(name, a[0], a[1])
    if name in ('pow', 'exp'):
        # IEEE: pow of a positive base / exp of a number is never negative
        k = ('pw', t.get_id())
        if k not in I.fp.seen:
            I.fp.seen.add(k)
            x = a[0]
            if name == 'exp':
                I.fp.ax(z3.Implies(z3.Not(I.fp.nan(x)), z3.And(z3.Not(I.fp.nan(t)), I.fp.rank(t) >= 0)), own=t)
            else:
                v = I.fp.val(x)
                if v is not None and v > 0:
                    I.fp.ax(z3.Implies(z3.Not(I.fp.nan(a[1])), z3.And(z3.Not(I.fp.nan(t)), I.fp.rank(t) >= 0)), own=t)
            trust('libm: exp and pow of a positive base are never negative')
    if name == 'fmod':
        k = ('fm', t.get_id())
        if k not in I.fp.seen:
            I.fp.seen.add(k)
            f = I.fp
            x, y = a
            fin = z3.And(f.isfinite(x), z3.Not(f.nan(y)), f.rank(y) > 0)
            f.ax(z3.Implies(fin, z3.And(z3.Not(f.nan(t)), f.rank(t) < f.rank(y), f.rank(t) > -f.rank(y))), own=t)
            f.ax(z3.Implies(z3.And(fin, f.rank(x) >= 0), f.rank(t) >= 0), own=t)
            trust('libm: |fmod(x,y)| < y for finite x and y > 0, with the sign of x')
    return t


def remainder(I, x, y, w):
    f = I.fp
    t = f.bin('remainder', x, y)
    k = ('rem', t.get_id())
    if k not in f.seen:
        f.seen.add(k)
        fin = z3.And(f.isfinite(x), z3.Not(f.nan(y)), f.rank(y) > 0)
        half = f.mul(y, f.lit(0.5, w))
        f.ax(z3.Implies(fin, z3.And(z3.Not(f.nan(t)), f.rank(t) <= f.rank(half), f.rank(t) >= -f.rank(half))), own=t)
        f.ax(z3.Implies(z3.Not(fin), z3.Implies(z3.Or(f.nan(x), f.isinf(x), f.nan(y), f.rank(y) == 0), f.nan(t))), own=t)
        trust('libm: |remainder(x,y)| <= y/2 for finite x and y > 0')
    return t


def minmax(I, name, an, n):
    f = I.fp
    if len(an) == 1:     # initializer_list
        raise Unsupported('min/max of a list')
    la, lb = I.ev(an[0]), I.ev(an[1])
    a, b = I.rv(la), I.rv(lb)
    if len(an) == 3:
        cmpf = I.rve(an[2])
        c = I.tobool(I.rv(call_lambda(I, cmpf, [b, a] if name == 'min' else [a, b])))
        return ite(c, b, a)
    if a.sort() in BITS:
        c = f.lt(b, a) if name == 'min' else f.lt(a, b)
        return ite(c, b, a)
    a, b = I.toint(a), I.toint(b)
    if z3.is_int_value(a) and z3.is_int_value(b):
        return z3.IntVal((min if name == 'min' else max)(a.as_long(), b.as_long()))
    return z3.If(b < a, b, a) if name == 'min' else z3.If(a < b, b, a)


# ------------------------------------------------------------------ ranges
class Range:
    """n consecutive elements: get(k), and store access"""

    def __init__(self, I, p, count, node, write=False):
        self.I, self.n = I, count
        if isinstance(p, Struct) and p.ty == 'vecit':
            p = p.fields['p']
        self.p = p
        if isinstance(p, Ptr) and p.kind == 'row':
            v = I.get(p.lv)
            self.lv, self.c, self.off = p.lv, p.ix[0], p.ix[1]
            I.prove('range within the buffer', z3.And(self.c >= 0, self.c < v.nc, self.off >= 0, self.off + count <= v.nf), node)
            data = v.data
            self.get = lambda k: data.read(self.c, self.off + k)
            self.kind = 'row'
        else:
            lv, off = I.resolve_range(p, node)
            if lv is None:
                I.prove('pointer refers to live storage', False, node)
                from .interp import Infeasible
                raise Infeasible()
            v = I.get(lv)
            I.prove('range within the storage', z3.And(off >= 0, off + count <= v.size), node)
            self.lv, self.off = lv, off
            arr = v.arr
            self.get = lambda k: arr.read(self.off + k)
            self.kind = 'vec'

    def put(self, fn):
        """element k := fn(k)"""
        I = self.I
        v = I.get(self.lv)
        if self.kind == 'row':
            c, off, n = self.c, self.off, self.n
            d = v.data.update(lambda a, b: z3.And(a == c, b >= off, b < off + n), lambda a, b: fn(b - off))
            nv = Buf(v.ty, v.nc, v.nf, d)
        else:
            off, n = self.off, self.n
            nv = Vec(v.elem, v.size, v.arr.update(lambda k: z3.And(k >= off, k < off + n), lambda k: fn(k - off)), v.blk)
        I.path.store[self.lv.root] = I.upd(I.path.store[self.lv.root], self.lv.path, nv)
        flds = []
        for s in self.lv.path:
            if s[0] != 'f':
                break
            flds.append(s[1])
        I.log(self.lv.root, tuple(flds), 'elem')


def simplify_int(t):
    return z3.simplify(t)


ALGORITHMS = ('fill', 'fill_n', 'copy', 'copy_n', 'transform', 'max_element', 'min_element', 'any_of', 'all_of', 'none_of', 'for_each', 'accumulate', 'find_if',
              'generate', 'reverse', 'shuffle', 'distance', 'advance', 'next', 'begin', 'end', 'cbegin', 'cend', 'minmax_element', 'move', 'equal',
              'find_if_not', 'find', 'count', 'count_if', 'generate_n', 'for_each_n', 'iota', 'replace_if', 'copy_if')


class Walk:
    """the elements from p on, in order: an algorithm of the standard library executed as the loop it stands for"""

    def __init__(self, I, p, n, tag=''):
        self.I, self.p, self.n, self.tag = I, p, n, tag
        self.map = isinstance(p, MapIt)
        if self.map:
            m = I.get(p.lv)
            if not isinstance(m, Map) or m.pos is None or m.keyat is None:
                raise Unsupported('algorithm over a map without an iteration order')
            self.first = z3.IntVal(0) if p.key is not None and p.key.eq(m.keyat(z3.IntVal(0))) else z3.If(p.end, m.size, m.pos(p.key)) if p.key is not None else m.size
            self.keyat = m.keyat

    def count(self, q):
        I, p = self.I, self.p
        if self.map:
            if q.key is not None:
                raise Unsupported('algorithm over a part of a map')
            return I.get(p.lv).size - self.first
        if is_null(p) or is_null(q):
            return z3.IntVal(0)
        return simplify_int(I.ptrdiff(q, p))

    def at(self, i):
        """iterator to element i"""
        if self.map:
            j = self.first + i
            return MapIt(self.p.lv, self.keyat(j), j >= self.I.get(self.p.lv).size)
        return self.I.ptradd(self.p, i)

    def elem(self, i):
        return self.I.deref(self.at(i), self.n)


def walk(I, n, cnt, body):
    """body(i) for i = 0 .. cnt-1; returns where it stopped (cnt, or the i where the body broke off)"""
    root = 'l:#i:%s:%d' % (n['id'], I.frame)
    I.alloc(root, 'unsigned long', z3.IntVal(0))
    idx = LV(root)
    I.loop(n, lambda: I.get(idx) < cnt, lambda: body(I.get(idx)), lambda: I.put(idx, I.get(idx) + 1))
    return I.get(idx)


def in_order(I, name, a, n):
    """algorithms executed as the loop they stand for"""
    from .interp import Brk
    trust('the algorithms of the standard library are executed as the loops the standard describes')
    ty = norm(qtype(n))
    s = Walk(I, a[0], n)
    if name in ('generate_n', 'for_each_n'):
        cnt, a = a[1], [a[0], None] + a[2:]
    else:
        cnt = s.count(a[1])

    def holds(i, lam=None):
        return I.tobool(I.rv(call_lambda(I, lam if lam is not None else a[2], [s.elem(i)])))

    def same(i):
        x, y = I.rv(s.elem(i)), I.rv(a[2])
        return I.cmp('==', x, y, n) if not (z3.is_expr(x) and z3.is_expr(y) and x.sort() != y.sort()) else no_mix()

    def no_mix():
        raise Unsupported('algorithm over elements of another type')
    if name in ('for_each', 'for_each_n'):
        walk(I, n, cnt, lambda i: call_lambda(I, a[2], [s.elem(i)]))
        return a[2]
    if name in ('generate', 'generate_n'):
        def body(i):
            v = I.rv(call_lambda(I, a[2], []))
            e = s.elem(i)
            I.put(e, to_elem(I, a[0], v, n))
        walk(I, n, cnt, body)
        return s.at(cnt)
    if name == 'iota':
        cur = I.temp(val_type(a[2]) if not z3.is_int(a[2]) else 'long', a[2])

        def body(i):
            I.put(s.elem(i), to_elem(I, a[0], I.get(cur), n))
            I.put(cur, I.binop('+', I.get(cur), z3.IntVal(1), 'long', n))
        walk(I, n, cnt, body)
        return None
    if name == 'replace_if':
        def body(i):
            if I.choose(holds(i)):
                I.put(s.elem(i), to_elem(I, a[0], I.rv(a[3]), n))
        walk(I, n, cnt, body)
        return None
    if name in ('find_if', 'find_if_not', 'find'):
        def body(i):
            h = same(i) if name == 'find' else holds(i)
            if I.choose(h if name != 'find_if_not' else z3.Not(h)):
                raise Brk()
        return s.at(walk(I, n, cnt, body))
    if name in ('any_of', 'all_of', 'none_of'):
        def body(i):
            h = holds(i)
            if I.choose(h if name != 'all_of' else z3.Not(h)):
                raise Brk()
        at = walk(I, n, cnt, body)
        return at < cnt if name == 'any_of' else z3.Not(at < cnt)
    if name in ('count_if', 'count'):
        c = LV('l:#c:%s:%d' % (n['id'], I.frame))
        I.alloc(c.root, 'long', z3.IntVal(0))

        def body(i):
            if I.choose(same(i) if name == 'count' else holds(i)):
                I.put(c, I.get(c) + 1)
        walk(I, n, cnt, body)
        return I.get(c)
    if name == 'accumulate':
        c = LV('l:#s:%s:%d' % (n['id'], I.frame))
        v0 = I.rv(a[2])
        I.alloc(c.root, ty, v0)

        def body(i):
            if len(a) > 3:
                v = I.rv(call_lambda(I, a[3], [I.get(c), s.elem(i)]))
            else:
                x, y = I.get(c), I.rv(s.elem(i))
                if isinstance(x, StrV):
                    v = x + y
                else:
                    et = elem_type(I, a[0])
                    rank = [t for t in ('long double', 'double', 'float') if t in (ty, et)]
                    common = rank[0] if rank else ty
                    v = I.conv(I.binop('+', I.conv(x, ty, common), I.conv(y, et, common), common, n), common, ty)
            I.put(c, v)
        walk(I, n, cnt, body)
        return I.get(c)
    if name == 'equal':
        t = Walk(I, a[2], n)
        if len(a) == 4 and not isinstance(a[3], (Lambda, FnRef)):
            if not I.choose(t.count(a[3]) == cnt):
                return z3.BoolVal(False)
        lam = a[-1] if isinstance(a[-1], (Lambda, FnRef)) else None

        def body(i):
            x, y = s.elem(i), t.elem(i)
            if lam is not None:
                h = I.tobool(I.rv(call_lambda(I, lam, [x, y])))
            else:
                x, y = I.rv(x), I.rv(y)
                h = I.cmp('==', x, y, n) if not (z3.is_expr(x) and x.sort() != y.sort()) else no_mix()
            if not I.choose(h):
                raise Brk()
        return z3.Not(walk(I, n, cnt, body) < cnt)
    if name == 'transform':
        two = len(a) == 5
        d = a[3] if two else a[2]
        t = Walk(I, a[2], n) if two else None
        if isinstance(d, BackIns):
            def push(i):
                v = I.rv(call_lambda(I, a[-1], [s.elem(i)] + ([t.elem(i)] if two else [])))
                el = norm(I.get(d.lv).elem)
                push_value(I, d.lv, I.conv(v, val_type(v), el, n) if z3.is_expr(v) and (el in FLOATS or el in INTS) else v, n)
            walk(I, n, cnt, push)
            return d
        d = Walk(I, d, n)

        def body(i):
            v = I.rv(call_lambda(I, a[-1], [s.elem(i)] + ([t.elem(i)] if two else [])))
            I.put(d.elem(i), to_elem(I, d.p, v, n))
        walk(I, n, cnt, body)
        return d.at(cnt)
    raise Unsupported('algorithm ' + name)


def to_elem(I, p, v, n):
    if not z3.is_expr(v):
        return I.storable(v)
    et = elem_type(I, p)
    return I.conv(v, val_type(v), et, n) if et in FLOATS or et in INTS else v


def is_null(p):
    return isinstance(p, Ptr) and p.kind == 'null'


def algo(I, name, an, n):
    fp = I.fp
    if name in ('begin', 'end', 'cbegin', 'cend'):
        return vec_member(I, I.ev(an[0]), name, [], n)
    a = [I.rve(x) for x in an] if name not in ('swap', 'shuffle') else [I.ev(x) for x in an]

    def dist(p, q):
        if is_null(p) or is_null(q):
            return z3.IntVal(0)
        return simplify_int(I.ptrdiff(q, p))
    if name == 'distance':
        return dist(a[0], a[1])
    if name in ('next',):
        return I.ptradd(a[0], a[1] if len(a) > 1 else z3.IntVal(1))
    if name == 'fill' or name == 'fill_n':
        cnt = dist(a[0], a[1]) if name == 'fill' else a[1]
        if not I.choose(cnt > 0):
            return None
        val = a[2]
        el = elem_type(I, a[0])
        if el in FLOATS or el in INTS:
            val = I.conv(val, val_type(val), el, n)
        val = I.storable(val)
        r = Range(I, a[0], cnt, n, True)
        r.put(lambda k: val)
        return None
    if isinstance(a[2] if len(a) > 2 else None, BackIns) and name == 'transform':
        return in_order(I, name, a, n)
    if name in ('copy', 'copy_n') and isinstance(a[2], BackIns):
        s = Walk(I, a[0], n)
        el = norm(I.get(a[2].lv).elem)
        if el.startswith(('unique_ptr', 'shared_ptr')):
            raise Unsupported('copy of smart pointers')

        def push(i):
            v = I.rv(s.elem(i))
            push_value(I, a[2].lv, I.conv(v, val_type(v), el, n) if z3.is_expr(v) and (el in FLOATS or el in INTS) else v, n)
        walk(I, n, a[1] if name == 'copy_n' else s.count(a[1]), push)
        return a[2]
    if name in ('copy', 'copy_n') or (name == 'move' and len(an) == 3):
        cnt = a[1] if name == 'copy_n' else dist(a[0], a[1])
        if not I.choose(cnt > 0):
            return a[2]
        s = Range(I, a[0], cnt, n)
        d = Range(I, a[2], cnt, n, True)
        se, de = elem_type(I, a[0]), elem_type(I, a[2])
        d.put(lambda k: I.conv(s.get(k), se, de) if se in FLOATS and de in FLOATS else s.get(k))
        return I.ptradd(a[2], cnt)
    if name == 'transform' and len(a) == 4:
        cnt = dist(a[0], a[1])
        if not I.choose(cnt > 0):
            return a[2]
        s = Range(I, a[0], cnt, n)
        d = Range(I, a[2], cnt, n, True)
        de = elem_type(I, a[2])
        try:
            pure = pure_fn(I, a[3])
            pure(s.get(z3.Const(I.nm('any'), z3.IntSort())))
        except Unsupported:
            return in_order(I, name, a, n)
        d.put(lambda k: I.conv(pure(s.get(k)), val_type(pure(s.get(k))), de))
        return I.ptradd(a[2], cnt)
    if name in ('max_element', 'min_element'):
        cnt = dist(a[0], a[1])
        if not I.choose(cnt > 0):
            return a[0]
        s = Range(I, a[0], cnt, n)
        k = z3.Const(I.nm('argmax'), z3.IntSort())
        I.assume(z3.And(k >= 0, k < cnt))
        if len(a) > 2:
            lessf = pure_fn(I, a[2])
            less = lambda x, y: I.tobool(lessf(x, y))
        else:
            less = lambda x, y: I.cmp('<', x, y)
        off = s.off
        best = s.get(k)
        trust('std::max_element/min_element return an extreme element of a NaN-free range')

        def inst(j):
            x = s.get(j)
            g = z3.And(j >= 0, j < cnt)
            I.assume(z3.Implies(g, z3.Not(less(best, x)) if name == 'max_element' else z3.Not(less(x, best))))
        for sk in I.skolems:
            if s.kind == 'row' and len(sk) == 2:
                inst(sk[1] - off)
            elif len(sk) == 1:
                inst(sk[0] - off)
        for extra in I.extra_idx:
            inst(extra - off if not (s.kind == 'row') else extra - off)
        return I.ptradd(a[0], k)
    if name in ('for_each', 'find_if', 'find_if_not', 'find', 'count', 'count_if', 'generate', 'generate_n', 'for_each_n', 'accumulate', 'equal', 'iota', 'replace_if') or name == 'transform' or name in ('any_of', 'all_of', 'none_of'):
        return in_order(I, name, a, n)
    if name == 'shuffle':
        return shuffle(I, a, n)
    raise Unsupported('algorithm ' + name)


def shuffle(I, a, n):
    """the range becomes a permutation of itself"""
    p = I.rv(a[0])
    q = I.rv(a[1])
    cnt = simplify_int(I.ptrdiff(q, p))
    s = Range(I, p, cnt, n, True)
    nm = I.nm('perm')
    f, g = z3.Function(nm, z3.IntSort(), z3.IntSort()), z3.Function(nm + 'inv', z3.IntSort(), z3.IntSort())
    seen = set()

    def perm(k):
        t = f(k)
        if k.get_id() not in seen:
            seen.add(k.get_id())
            I.keepalive.append(k)
            I.axioms_extra.append(z3.Implies(z3.And(k >= 0, k < cnt), z3.And(t >= 0, t < cnt, g(t) == k)))
        return t
    old = s.get
    s.put(lambda k: old(perm(k)))
    I.perms.append((perm, g, f, cnt))
    trust('std::shuffle permutes its range')
    if isinstance(a[2], LV):
        I.put(a[2], I.fresh('rng'))
    return None


def elem_type(I, p):
    if isinstance(p, Struct) and p.ty == 'vecit':
        p = p.fields['p']
    if isinstance(p, Ptr) and p.kind == 'row':
        return norm(split_args(I.get(p.lv).ty)[0])
    lv, off = I.resolve_range(p, None)
    return norm(I.get(lv).elem) if lv is not None else None


def val_type(v):
    if z3.is_expr(v):
        if v.sort() in BITS:
            return {32: 'float', 64: 'double', 80: 'long double'}[BITS[v.sort()]]
        if v.sort() == z3.BoolSort():
            return 'bool'
        return 'long'
    return '?'


def call_lambda(I, lam, args):
    if isinstance(lam, FnRef):
        df = I.u.definition(lam.decl['id'])
        if df is None or I.u.body(df) is None:
            raise Unsupported('call of function ' + str(lam.decl.get('name')))
        return I.call_decl(df, None, [deref_arg(I, p, x) for p, x in zip(I.u.params(df), args)])
    if not isinstance(lam, Lambda):
        raise Unsupported('call of %r' % (lam,))
    m = None
    for c in lam.node.get('inner', []):
        if c.get('kind') == 'CXXRecordDecl':
            for j in c.get('inner', []):
                if j.get('kind') == 'CXXMethodDecl' and j.get('name') == 'operator()':
                    m = j
                if j.get('kind') == 'FunctionTemplateDecl':
                    for q in j.get('inner', []):
                        if q.get('kind') == 'CXXMethodDecl' and I.u.is_inst(q):
                            m = q
    if m is None:
        raise Unsupported('lambda')
    if I.u.body(m) is None:
        b = [i for i in lam.node['inner'] if i.get('kind') == 'CompoundStmt']
        m = dict(m)
        m['inner'] = m.get('inner', []) + b
    I.lambda_env = lam.env
    saved = dict(lam.env)
    r = I.call_decl(m, lam.this, [deref_arg(I, p, x) for p, x in zip(I.u.params(m), args)], label='lambda', outer=lam.env)
    return r


def deref_arg(I, p, x):
    t = norm(qtype(p))
    if is_ref(t):
        return x if isinstance(x, (LV, HLV)) else I.temp(strip_ref(t), x)
    return I.rv(x)


def pure_fn(I, lam):
    """function object without side effects as a python function over values (paths merged)"""
    memo = {}

    def f(*xs):
        key = tuple(x.get_id() if z3.is_expr(x) else id(x) for x in xs)
        if key in memo:
            return memo[key][0]
        store = I.path.store
        base = list(I.path.pc)
        saverec = I.recording
        outs = I.explore(lambda: I.rv(call_lambda(I, lam, list(xs))), store, base)
        res = None
        for p, (k, v) in outs:
            if k not in ('normal', 'return'):
                raise Unsupported('function object that throws')
        nb = len(base)
        for p, (k, v) in reversed(outs):
            if res is None:
                res = v
            else:
                c = p.pc[nb:]
                res = ite(z3.And(*c) if len(c) != 1 else c[0], v, res)
        if len(outs) == 1:
            for c in outs[0][0].pc[nb:]:
                pass
        memo[key] = (res, xs)
        return res
    return f


# ------------------------------------------------------------------ member calls
def member_call(I, n):
    me = n['inner'][0]
    while me.get('kind') in ('ImplicitCastExpr', 'ParenExpr'):
        me = me['inner'][0]
    if me.get('kind') == 'MemberExpr':
        base = me['inner'][0]
        name = me['name']
        an = args_of(n)
        obj = I.ev(base)
        oty = strip_ref(norm(qtype(base)))
        if me.get('isArrow'):
            p = I.rv(obj)
            obj = I.deref(p, n)
            oty = oty[:-1].strip() if oty.endswith('*') else oty
        qualified = False
        return invoke(I, obj, oty, name, me.get('referencedMemberDecl'), an, n, me)
    raise Unsupported('member call through %s' % me.get('kind'))


def dyn_type(I, obj):
    if isinstance(obj, LV):
        v = I.get(obj)
        if isinstance(v, Struct):
            return v.ty
    return None


def invoke(I, obj, oty, name, declid, an, n, me=None):
    if not isinstance(obj, (LV, HLV)):
        obj = I.temp(oty, obj)
    val = I.get(obj) if isinstance(obj, LV) else None
    dt = dyn_type(I, obj)
    decl = I.u.byid.get(declid)
    ow = I.u.owner.get(declid)
    if isinstance(val, Buf):
        return buf_member(I, obj, name, an, n)
    # contracts
    for cn in ([dt] if dt else []) + ([ow.name] if ow else []) + [oty]:
        k = I.contracts.get((I.base_of(cn), name))
        if k is not None and I.active_contract(k):
            I.stats['contracts'].add(I.base_of(cn) + '::' + name)
            pl = I.u.params(decl) if decl else []
            args = [Undef('default argument') if x['kind'] == 'CXXDefaultArgExpr' and not x.get('inner') else I.ev(x) for x in an]
            return k(I, obj, args, n)
    if isinstance(obj, HLV):
        raise Unsupported('call of %s on an unknown object' % name)
    if decl is not None and ow is not None:
        d = decl
        if dt and dt != ow.name and (decl.get('virtual') or has_override(I, dt, ow, decl)):
            o = find_override(I, dt, ow.name, decl)
            if o is not None:
                d = o
        d2 = I.u.definition(d['id'])
        if d2 is not None and I.u.body(d2) is not None:
            args = I.bind_args(d2, an)
            return I.call_decl(d2, obj, args)
        raise Unsupported('no body for %s::%s' % (ow.name, name))
    if isinstance(val, Vec):
        return vec_member(I, obj, name, an, n)
    if isinstance(val, Map):
        return map_member(I, obj, name, an, n)
    if isinstance(val, MapPair):
        raise Unsupported('pair member')
    if isinstance(val, StrV):
        return str_member(I, obj, name, an, n)
    if isinstance(val, Stream):
        return stream_member(I, obj, name, an, n)
    if isinstance(val, Struct) and val.ty == 'unordered_set':
        return set_member(I, obj, name, an, n)
    if isinstance(val, Struct) and val.ty == 'exc' and name == 'what':
        return val.fields['what']
    if isinstance(val, Ptr) or (z3.is_expr(val) and val.sort() == z3.IntSort()) and oty.startswith(('unique_ptr', 'shared_ptr')):
        return uptr_member(I, obj, name, an, n)
    if isinstance(val, Undef) and name in ('reset',) and 'distribution' in oty:
        return None
    raise Unsupported('member %s of %s' % (name, oty))


def is_base(I, name, base):
    if name == base:
        return True
    c = I.u.find_class(name)
    return c is not None and any(is_base(I, b, base) for b in c.bases)


def has_override(I, dt, ow, decl):
    return True


def sigkey(I, d):
    return tuple(norm(qtype(p)) for p in I.u.params(d))


def find_override(I, dt, upto, decl):
    """final overrider of decl in dt"""
    if not is_base(I, dt, upto):
        return None
    c = I.u.find_class(dt)
    if c is None:
        return None
    if not is_virtual(I, decl):
        return None
    for m in c.methods.get(decl['name'], []):
        if sigkey(I, m) == sigkey(I, decl):
            return I.u.definition(m['id'])
    for b in c.bases:
        if b == upto:
            return None
        r = find_override(I, b, upto, decl)
        if r is not None:
            return r
    return None


def is_virtual(I, decl):
    if decl.get('virtual') or decl.get('pure'):
        return True
    return any(i.get('kind') == 'OverrideAttr' for i in decl.get('inner', []))


# ------------------------------------------------------------------ AudioBuffer (contract proved by P01)
def buf_assign(I, a, src, node):
    from .interp import Throw
    av, o = I.get(lvof(I, a)), I.get(lvof(I, src))
    I.stats['contracts'].add('AudioBuffer::operator=')
    if not I.choose(o.nc == av.nc):
        raise Throw('ChannelLayoutError')
    I.put(a, Buf(av.ty, o.nc, o.nf, o.data))
    if isinstance(src, LV) and is_xvalue(node) and not (src == a) and not src.root.startswith('t:'):
        I.put(src, Buf(o.ty, o.nc, z3.IntVal(0), o.data))
    return a


def buf_member(I, obj, name, an, n):
    v = I.get(obj)
    I.stats['contracts'].add('AudioBuffer::' + name)
    if name == 'getNumChannels':
        return v.nc
    if name == 'getNumFrames':
        return v.nf
    if name in ('getArrayOfReadPointers', 'getArrayOfWritePointers'):
        return Ptr('rows', obj, z3.IntVal(0))
    if name == 'clear':
        I.put(obj, Buf(v.ty, v.nc, z3.IntVal(0), v.data))
        return None
    if name == 'operator[]':
        return buf_row(I, obj, I.rve(an[0]), n)
    if name == 'appendFrom':
        o = I.get(lvof(I, I.ev(an[0])))
        from .interp import Throw
        if not I.choose(o.nc == v.nc):
            raise Throw('ChannelLayoutError')
        vd, od, vf = v.data, o.data, v.nf
        d = FArr(lambda c, f: ite(f < vf, lambda: vd.read(c, f), lambda: od.read(c, f - vf)), 2)
        I.put(obj, Buf(v.ty, v.nc, v.nf + o.nf, d))
        return None
    if name == 'operator=':
        return buf_assign(I, obj, I.ev(an[0]), an[0])
    if name == 'getMagnitude':
        from .interp import Throw
        a = [I.rve(x) for x in an]
        if len(a) == 2:
            ch, s, cnt = None, a[0], a[1]
        else:
            ch, s, cnt = a
        ok = z3.And(s >= 0, s <= v.nf, cnt <= v.nf - s, cnt > 0)
        if ch is not None:
            ok = z3.And(ok, ch < v.nc)
        if not I.choose(ok):
            raise Throw('IndexError')
        return magnitude(I, v, ch, s, cnt)
    raise Unsupported('AudioBuffer::' + name)


def magnitude(I, v, ch, s, cnt):
    """largest |sample| of the range: bounds every sample at the tracked indices and is attained (or zero)"""
    fp = I.fp
    el = norm(split_args(v.ty)[0])
    key = ('mag', id(v.data), ch.get_id() if ch is not None else None, s.get_id(), cnt.get_id())
    if key in I.magcache:
        for f in I.magcache[key][5]:
            I.assume(f)
        return I.magcache[key][0]
    p0 = len(I.path.pc)
    nm = I.nm('mag')
    m = z3.Const(nm, SORT[FLOATS[el]])
    wc, wf = z3.Const(nm + '.c', z3.IntSort()), z3.Const(nm + '.f', z3.IntSort())
    fp.touch(m)
    inr = lambda c, f: z3.And(c >= 0, c < v.nc, f >= s, f < s + cnt) if ch is None else z3.And(c == ch, f >= s, f < s + cnt)
    I.assume(z3.And(z3.Not(fp.nan(m)), fp.rank(m) >= 0))
    I.assume(z3.Or(fp.rank(m) == 0, z3.And(inr(wc, wf), m == fp.abs(v.data.read(wc, wf)))))
    for sk in I.skolems:
        if len(sk) == 2:
            x = v.data.read(*sk)
            I.assume(z3.Implies(inr(*sk), z3.And(z3.Not(fp.nan(x)), fp.rank(fp.abs(x)) <= fp.rank(m))))
    I.magcache[key] = (m, v, ch, s, cnt, I.path.pc[p0:])
    return m


def buf_row(I, obj, c, n):
    v = I.get(obj)
    I.prove('channel within the buffer', z3.And(c >= 0, c < v.nc), n)
    return Ptr('row', obj, c, z3.IntVal(0))


# ------------------------------------------------------------------ vector
def vec_member(I, obj, name, an, n):
    v = I.get(obj)
    el = v.elem
    if name in ('size', 'length'):
        return v.size
    if name == 'empty':
        return v.size == 0
    if name in ('begin', 'cbegin'):
        return Struct('vecit', {'p': vptr(I, obj, z3.IntVal(0))})
    if name in ('end', 'cend'):
        return Struct('vecit', {'p': vptr(I, obj, v.size)})
    if name in ('rbegin', 'crbegin'):
        return Struct('rvecit', {'p': vptr(I, obj, v.size)})
    if name in ('rend', 'crend'):
        return Struct('rvecit', {'p': vptr(I, obj, z3.IntVal(0))})
    if name == 'data':
        return vptr(I, obj, z3.IntVal(0))
    if name in ('operator[]', 'at'):
        i = I.rve(an[0])
        if name == 'at':
            from .interp import Throw
            if not I.choose(z3.And(i >= 0, i < v.size)):
                raise Throw('out_of_range')
        else:
            I.prove('element access within the vector', z3.And(i >= 0, i < v.size), n)
        return obj.i(i)
    if name == 'back':
        I.prove('back() of a non-empty vector', v.size > 0, n)
        return obj.i(v.size - 1)
    if name == 'front':
        I.prove('front() of a non-empty vector', v.size > 0, n)
        return obj.i(z3.IntVal(0))
    if name in ('reserve', 'shrink_to_fit'):
        for x in an:
            I.rve(x)
        return None
    if name == 'capacity':
        return I.fresh('unsigned long', 'capacity')
    if name == 'clear':
        I.put(obj, Vec(el, z3.IntVal(0), v.arr, v.blk))
        return None
    if name == 'resize':
        sz = I.rve(an[0])
        if len(an) > 1:
            dv = I.rve(an[1])
        else:
            dv = I.zero(el)
        old, osz = v.arr, v.size
        arr = FArr(lambda k: ite(k < osz, lambda: old.read(k), lambda: dv))
        nv = Vec(el, sz, arr, v.blk)
        if v.blk is not None:
            nv.blk = I.new_block()
        I.put(obj, nv)
        return None
    if name in ('push_back', 'emplace_back'):
        vals = [I.ev(x) for x in an]
        val = elem_value(I, el, vals, an, n)
        push_value(I, obj, val, n)
        return obj.i(v.size)
    if name == 'pop_back':
        I.prove('pop_back() of a non-empty vector', v.size > 0, n)
        I.put(obj, Vec(el, v.size - 1, v.arr, v.blk))
        return None
    if name == 'assign' and len(an) == 2:
        a = [I.rve(x) for x in an]
        if z3.is_expr(a[0]):
            val = I.storable(a[1])
            nv = Vec(el, a[0], FArr(lambda k: val), v.blk)
        else:
            cnt = simplify_int(I.ptrdiff(a[1], a[0]))
            s = Range(I, a[0], cnt, n)
            g = s.get
            nv = Vec(el, cnt, FArr(lambda k: g(k)), v.blk)
        if v.blk is not None:
            nv.blk = I.new_block()
        I.put(obj, nv)
        return None
    if name == 'insert' and len(an) == 3:
        a = [I.rve(x) for x in an]
        p = a[0].fields['p'] if isinstance(a[0], Struct) else a[0]
        off = simplify_int(I.ptrdiff(p, vptr(I, obj, z3.IntVal(0))))
        if z3.is_expr(a[1]):
            cnt, val = a[1], a[2]
            g = lambda k: val
        else:
            cnt = simplify_int(I.ptrdiff(a[2], a[1]))
            if is_null(a[1]) or not I.choose(cnt > 0):
                return None
            s = Range(I, a[1], cnt, n)
            g = s.get
        I.prove('insert position within the vector', z3.And(off >= 0, off <= v.size), n)
        old = v.arr
        arr = FArr(lambda k: ite(k < off, lambda: old.read(k), lambda: ite(k < off + cnt, lambda: g(k - off), lambda: old.read(k - cnt))))
        nv = Vec(el, v.size + cnt, arr, v.blk)
        if v.blk is not None:
            nv.blk = I.new_block()
        I.put(obj, nv)
        return None
    if name == 'swap':
        o = I.ev(an[0])
        ov = I.get(o)
        I.put(obj, ov)
        I.put(o, v)
        return None
    if name == 'operator=':
        return assign(I, obj, I.ev(an[0]), an[0])
    raise Unsupported('vector::' + name)


def vptr(I, obj, off):
    return Ptr('vec', obj, off)


def push_value(I, obj, val, n):
    k = I.contracts.get(('push', obj.root))
    if k is not None:
        k(I, obj, [val], n)
    v = I.get(obj)
    nv = Vec(v.elem, v.size + 1, v.arr.write((v.size,), I.storable(val)), v.blk)
    if v.blk is not None:
        nv.blk = I.new_block()
    I.put(obj, nv)


class BackIns(Val):
    """std::back_inserter of a vector"""

    def __init__(self, lv):
        self.lv = lv


def elem_value(I, el, vals, an, n):
    """value of a new element of type el built from the given arguments"""
    el = norm(el)
    if len(vals) == 1:
        v = vals[0]
        c = I.u.find_class(el)
        rv = I.rv(v) if isinstance(v, LV) else v
        if isinstance(v, HLV):
            raise Unsupported('copy of a polymorphic object')
        if el.startswith(('unique_ptr', 'shared_ptr')):
            if isinstance(v, LV):
                if el.startswith('unique_ptr'):
                    I.put(v, z3.IntVal(0) if not isinstance(rv, Ptr) else Ptr('null'))
            return rv
        if isinstance(rv, Struct) and c is not None and isinstance(v, LV) and is_xvalue(an[0]):
            return move_out(I, v)
        if isinstance(rv, StrV) or isinstance(rv, Struct) or isinstance(rv, Vec):
            return rv
        if el in FLOATS or el in INTS:
            return I.conv(rv, val_type(rv), el, n)
        return rv
    c = I.u.find_class(el)
    if c is not None:
        return construct_value(I, el, vals, n, None)
    if len(vals) == 0:
        return I.zero(el)
    raise Unsupported('emplace of %s' % el)


def is_xvalue(node):
    return node.get('valueCategory') in ('xvalue', 'prvalue')


def empty_like(I, v):
    """moved-from state"""
    if isinstance(v, Vec):
        return Vec(v.elem, z3.IntVal(0), FArr(lambda k: I.zero(v.elem)), I.new_block() if v.blk is not None else None)
    if isinstance(v, Map):
        return empty_map(I, v.vty)
    if isinstance(v, StrV):
        return StrV((z3.Const(I.nm('moved'), STR),))
    if isinstance(v, Ptr) and v.kind == 'obj':
        return Ptr('null')
    return v


def move_out(I, lv):
    v = I.get(lv)
    if isinstance(v, Struct):
        for f in list(v.fields):
            move_out(I, lv.f(f))
        return v
    if isinstance(v, (Vec, Map, StrV)):
        I.put(lv, empty_like(I, v))
    elif isinstance(v, Ptr) or (z3.is_expr(v) and I.roottype.get(lv.root, '').startswith('unique_ptr') and not lv.path):
        I.put(lv, z3.IntVal(0) if z3.is_expr(v) else Ptr('null'))
    return v


def assign(I, dst, src, srcnode):
    rv = I.rv(src)
    if isinstance(src, LV) and is_xvalue(srcnode) and isinstance(rv, (Vec, Map, StrV)):
        if not (src == dst):
            if isinstance(rv, Vec) and rv.blk is not None:
                e = empty_like(I, rv)
                I.put(dst, rv)
                I.put(src, e)
                return dst
            I.put(dst, rv)
            I.put(src, empty_like(I, rv))
        return dst
    if isinstance(rv, Vec) and rv.blk is not None and isinstance(src, LV):
        nv = Vec(rv.elem, rv.size, rv.arr, I.new_block())
        I.put(dst, nv)
        return dst
    I.put(dst, rv)
    return dst


# ------------------------------------------------------------------ maps and sets
def empty_map(I, vty):
    return Map(vty, FArr(lambda k: z3.BoolVal(False)), FArr(lambda k: I.zero(vty)), z3.IntVal(0))


def map_member(I, obj, name, an, n):
    m = I.get(obj)
    from .interp import Throw
    if name == 'size':
        return m.size
    if name == 'empty':
        return m.size == 0
    if name in ('find',):
        k = I.rve(an[0])
        return MapIt(obj, k, z3.Not(m.has.read(k)))
    if name == 'count':
        k = I.rve(an[0])
        return z3.If(m.has.read(k), z3.IntVal(1), z3.IntVal(0))
    if name in ('end', 'cend'):
        return MapIt(obj, None, True)
    if name in ('begin', 'cbegin'):
        if m.keyat is None:
            I.order_map(obj)
            m = I.get(obj)
        return MapIt(obj, m.keyat(z3.IntVal(0)), m.size <= 0)
    if name == 'at':
        k = I.rve(an[0])
        if not I.choose(m.has.read(k)):
            raise Throw('out_of_range')
        return obj.m(k)
    if name == 'operator[]':
        k = I.rve(an[0])
        if not I.choose(m.has.read(k)):
            map_put(I, obj, k, I.zero(m.vty))
        return obj.m(k)
    if name in ('emplace', 'insert', 'try_emplace', 'insert_or_assign'):
        a = [I.ev(x) for x in an]
        if len(a) == 1:
            pr = I.rv(a[0])
            if isinstance(pr, Struct) and pr.ty == 'pair':
                a = [pr.fields['first'], pr.fields['second']]
            else:
                raise Unsupported('map insert')
        k = I.rv(a[0])
        if I.choose(m.has.read(k)):
            if name == 'insert_or_assign':
                val = elem_value(I, m.vty, a[1:], an[1:], n)
                I.put(obj.m(k), val)
            return Struct('pair', {'first': MapIt(obj, k, z3.BoolVal(False)), 'second': z3.BoolVal(False)})
        val = elem_value(I, m.vty, a[1:], an[1:], n)
        map_put(I, obj, k, val)
        return Struct('pair', {'first': MapIt(obj, k, z3.BoolVal(False)), 'second': z3.BoolVal(True)})
    if name == 'clear':
        I.put(obj, empty_map(I, m.vty))
        return None
    if name == 'erase':
        k = I.rve(an[0])
        if isinstance(k, MapIt):
            k = k.key
        had = m.has.read(k)
        I.put(obj, Map(m.vty, m.has.write((k,), z3.BoolVal(False)), m.val, m.size - z3.If(had, z3.IntVal(1), z3.IntVal(0))))
        return z3.If(had, z3.IntVal(1), z3.IntVal(0))
    if name == 'operator=':
        return assign(I, obj, I.ev(an[0]), an[0])
    if name == 'reserve':
        return None
    raise Unsupported('unordered_map::' + name)


def map_put(I, obj, k, val):
    m = I.get(obj)
    I.put(obj, Map(m.vty, m.has.write((k,), z3.BoolVal(True)), m.val.write((k,), I.storable(val)), m.size + 1))


def set_member(I, obj, name, an, n):
    v = I.get(obj)
    has, cnt = v.fields['has'], v.fields['n']
    if name == 'insert' or name == 'emplace':
        s = I.str_term(I.rv(I.ev(an[0])))
        new = z3.Not(has.read(s))
        from .interp import SetArr
        I.put(obj, Struct('unordered_set', {'has': SetArr(lambda k: z3.Or(k == s, has.read(k))), 'n': cnt + z3.If(new, z3.IntVal(1), z3.IntVal(0))}))
        return Struct('pair', {'first': Undef('it'), 'second': new})
    if name in ('count', 'find', 'contains'):
        s = I.str_term(I.rv(I.ev(an[0])))
        if name == 'count':
            return z3.If(has.read(s), z3.IntVal(1), z3.IntVal(0))
        if name == 'find':
            return MapIt(obj, None, z3.Not(has.read(s)))
        return has.read(s)
    if name == 'end':
        return MapIt(obj, None, True)
    if name == 'size':
        return cnt
    if name == 'empty':
        return cnt == 0
    raise Unsupported('unordered_set::' + name)


# ------------------------------------------------------------------ strings and streams
def str_member(I, obj, name, an, n):
    v = I.get(obj)
    if name in ('empty',):
        return I.str_len(v) == 0
    if name in ('size', 'length'):
        return I.str_len(v)
    if name in ('c_str', 'data'):
        return v
    if name in ('operator[]', 'at', 'front'):
        i = I.rve(an[0]) if an else z3.IntVal(0)
        I.prove('character access within the string', z3.And(i >= 0, i <= I.str_len(v)), n)
        return I.temp('char', I.char_at(v, i))
    if name in ('append', 'operator+='):
        o = I.rve(an[0])
        if not isinstance(o, StrV):
            o = StrV((('chr', o),)) if not z3.is_int_value(o) else StrV((chr(o.as_long() & 255),))
        I.put(obj, v + o)
        return obj
    if name == 'operator=':
        return assign(I, obj, I.ev(an[0]), an[0])
    if name == 'clear':
        I.put(obj, StrV(()))
        return None
    if name == 'back' and not an:
        k = I.str_len(v) - 1
        I.prove('character access within the string', k >= 0, n)
        return I.temp('char', I.char_at(v, k))
    if name in ('compare', 'find', 'rfind'):
        trust('std::string comparison and search')
        a = [I.rve(x) for x in an]
        t = z3.Int(I.nm(name))
        if name == 'compare':
            if len(a) == 1 and isinstance(a[0], StrV):
                I.assume((t == 0) == (I.str_term(v) == I.str_term(a[0])))
                return t
            if len(a) == 3 and literal_of(a[2]) is not None:
                w = literal_of(a[2])
                at, cnt, ln = a[0], a[1], I.str_len(v)
                if not I.choose(at <= ln):
                    from .interp import Throw
                    raise Throw('out_of_range')
                part = z3.If(cnt < ln - at, cnt, ln - at)
                I.assume((t == 0) == z3.And(part == len(w), *[I.char_at(v, at + i) == ord(ch) for i, ch in enumerate(w)]))
                return t
        elif len(a) in (1, 2):
            w = literal_of(a[0]) if isinstance(a[0], StrV) else None
            ch = [z3.IntVal(ord(x)) for x in w] if w is not None else [a[0]] if z3.is_expr(a[0]) else None
            npos = (1 << 64) - 1
            if ch:
                ln = I.str_len(v)
                match = lambda i: z3.And(i >= 0, i + len(ch) <= ln, *[I.char_at(v, i + j) == x for j, x in enumerate(ch)])
                at = a[1] if len(a) == 2 else z3.IntVal(0) if name == 'find' else z3.IntVal(npos)
                ok = (lambda i: z3.And(match(i), i >= at)) if name == 'find' else (lambda i: z3.And(match(i), i <= at))
                I.assume(z3.Or(t == npos, ok(t)))
                zero = z3.IntVal(0)
                for i in (zero, ln - len(ch)):       # nothing is missed at the ends; what is between is left open
                    I.assume(z3.Implies(ok(i), z3.And(t != npos, t <= i if name == 'find' else t >= i)))
                return t
    raise Unsupported('string::' + name)


def literal_of(s):
    return ''.join(s.parts) if isinstance(s, StrV) and all(isinstance(p, str) for p in s.parts) else None


def stream_member(I, obj, name, an, n):
    v = I.get(obj)
    if name == 'str' and not an:
        return StrV(v.parts_as_str() if hasattr(v, 'parts_as_str') else strparts(v.parts))
    if name in ('operator<<',):
        return stream_put(I, obj, I.ev(an[0]), n, an[0])
    if name == 'precision':
        for x in an:
            I.put(obj, Stream(v.parts + (('manip', 'setprecision', I.rve(x)),)))
        return I.fresh('long', 'prec')
    if name == 'setf' and an:
        # setf (std::ios::fixed, std::ios::floatfield)
        flag = re.findall(r"'name': '(fixed|scientific|boolalpha|dec|hex|oct|showpos|showpoint)'", str(an[0]))
        if len(flag) != 1:
            raise Unsupported('stream::setf')
        I.put(obj, Stream(v.parts + (('manip', flag[0]),)))
        return I.fresh('int', 'flags')
    if name == 'flush':
        return obj
    raise Unsupported('stream::' + name)


def strparts(parts):
    return tuple(p for p in parts if not (isinstance(p, tuple) and p[0] == 'manip'))


def stream_put(I, obj, v, n, an=None):
    if isinstance(v, HLV):
        k = I.contracts.get(('', 'represent'))
        if k is None:
            raise Unsupported('stream << polymorphic object')
        I.put(obj, Stream(I.get(obj).parts + (('repr', v.term),)))
        return obj
    if isinstance(v, LV):
        v = I.rv(v)
    s = I.get(obj)
    if isinstance(v, FnRef):
        nm = v.decl.get('name')
        df = I.u.definition(v.decl.get('id'))
        if df is not None and I.u.body(df) is not None:
            I.call_decl(df, None, [obj])
            return obj
        if nm == 'endl':
            I.put(obj, Stream(s.parts + ('\n',)))
        elif nm in ('fixed', 'scientific', 'defaultfloat', 'hex', 'dec', 'boolalpha', 'noboolalpha', 'flush', 'showpos', 'noshowpos'):
            I.put(obj, Stream(s.parts + (('manip', nm),)))
        else:
            raise Unsupported('manipulator ' + str(nm))
        return obj
    if isinstance(v, StrV):
        parts = v.parts
    elif isinstance(v, Struct) and v.ty == 'manip':
        parts = (('manip', v.fields['k'], v.fields['v']),)
    elif isinstance(v, Ptr) and v.kind == 'vec':
        parts = (('chars',),)
    elif isinstance(v, Vec):
        parts = (('chars',),)
    elif z3.is_expr(v):
        t = I.ty(an) if an is not None else ''
        if t == 'char' and z3.is_int_value(v):
            parts = (chr(v.as_long() & 255),)
        else:
            parts = (('num', v),)
    else:
        raise Unsupported('stream << %r' % (v,))
    I.put(obj, Stream(s.parts + tuple(parts)))
    k = I.contracts.get(('print', obj.root))
    if k is not None:
        k(I, parts)
    return obj


# ------------------------------------------------------------------ smart pointers
def uptr_member(I, obj, name, an, n):
    v = I.get(obj)
    if name == 'get':
        return v
    if name == 'operator->':
        return v
    if name == 'operator bool':
        return I.tobool(v) if z3.is_expr(v) else z3.BoolVal(v.kind != 'null')
    if name == 'release':
        I.put(obj, z3.IntVal(0))
        return v
    if name == 'reset':
        I.put(obj, fitptr(I, I.rve(an[0]), v) if an else z3.IntVal(0))
        return None
    if name == 'swap':
        o = I.ev(an[0])
        ov = I.get(o)
        I.put(obj, ov)
        I.put(o, v)
        return None
    if name == 'operator=':
        return uptr_assign(I, obj, I.ev(an[0]), an[0])
    raise Unsupported('smart pointer ' + name)


def fitptr(I, v, like=None):
    if isinstance(v, Ptr) and v.kind == 'null':
        return z3.IntVal(0)
    return v


def uptr_assign(I, obj, src, node):
    rv = I.rv(src)
    nv = fitptr(I, rv)
    if isinstance(src, LV) and not I.is_shared(obj, node):
        if not (src == obj):
            I.put(src, z3.IntVal(0))
    I.put(obj, nv)
    return obj


# ------------------------------------------------------------------ operators
def operator_call(I, n):
    inner = n['inner']
    callee = strip(inner[0])
    d = callee.get('referencedDecl', {})
    op = d.get('name', '')
    an = inner[1:]
    df = I.u.definition(d.get('id')) if d.get('id') else None
    ow = I.u.owner.get(d.get('id'))
    if df is not None and ow is not None and op != 'operator()':
        obj = I.ev(an[0])
        oty = strip_ref(norm(qtype(an[0])))
        return invoke(I, lvof(I, obj), oty, op, d.get('id'), an[1:], n)
    if op == 'operator()':
        f = I.ev(an[0])
        fv = I.rv(f)
        if isinstance(fv, (Lambda, FnRef)):
            return call_lambda(I, fv, [I.ev(x) for x in an[1:]])
        k = I.contracts.get(('functor', norm(qtype(an[0])).split('<')[0]))
        if k is not None:
            return k(I, f, [I.ev(x) for x in an[1:]], n)
        if df is not None and ow is not None:
            return invoke(I, lvof(I, f), I.ty(an[0]), op, d.get('id'), an[1:], n)
        raise Unsupported('call operator of ' + norm(qtype(an[0])))
    if df is not None and I.u.body(df) is not None and ow is None:
        # hart::operator<<, operator>>
        if op == 'operator<<':
            x = I.ev(an[1])
            known = isinstance(x, HLV) and any((I.base_of(strip_ref(norm(qtype(an[1])))), m) in I.contracts for m in ('represent', 'representWithDSPChain'))
            if isinstance(x, HLV) and not known or (isinstance(x, LV) and isinstance(I.get(x), Struct) and I.base_of(I.get(x).ty) in I.repr_opaque):
                s = I.ev(an[0])
                t = x.term if isinstance(x, HLV) else z3.Const('repr:' + repr(x), z3.IntSort())
                I.put(s, Stream(I.get(s).parts + (('repr', t),)))
                return s
        args = I.bind_args(df, an)
        return I.call_decl(df, None, args)
    a = I.ev(an[0])
    av = a if isinstance(a, HLV) else (I.get(a) if isinstance(a, LV) else a)
    if isinstance(av, Stream):
        if op == 'operator<<':
            return stream_put(I, a, I.ev(an[1]), n, an[1])
    if isinstance(av, Buf):
        if op == 'operator[]':
            return buf_row(I, lvof(I, a), I.rve(an[1]), n)
        if op == 'operator=':
            return buf_assign(I, a, I.ev(an[1]), an[1])
    if op == 'operator*' and len(an) == 1:
        return I.deref(I.rv(a), n)
    if op == 'operator->':
        v = I.rv(a)
        if isinstance(v, MapIt):
            return Ptr('obj', I.deref(v, n))
        return v
    if op == 'operator bool':
        return I.tobool(I.rv(a))
    if isinstance(av, Vec):
        return vec_member(I, lvof(I, a), op, an[1:], n)
    if isinstance(av, Map):
        return map_member(I, lvof(I, a), op, an[1:], n)
    if op == 'operator=':
        src = I.ev(an[1])
        if isinstance(av, StrV):
            return assign(I, a, src if isinstance(src, (LV, HLV)) else lvof(I, src), an[1])
        t = norm(qtype(an[0]))
        if t.startswith('unique_ptr'):
            return uptr_assign(I, a, src, an[1])
        if t.startswith('shared_ptr'):
            I.put(a, fitptr(I, I.rv(src)))
            return a
        if isinstance(av, (Undef, Stream)) or z3.is_expr(av):
            I.put(a, I.rv(src))
            return a
        if isinstance(av, Struct):
            c = I.u.find_class(av.ty)
            return struct_assign(I, a, src, an[1], c)
    if op in ('operator==', 'operator!=') and len(an) == 2:
        b = I.rve(an[1])
        return I.cmp(op[8:], I.rv(a), b, n)
    if op in ('operator++', 'operator--', 'operator+=', 'operator-=') and isinstance(av, (Struct, MapIt)):
        if isinstance(av, MapIt):
            return mapit_next(I, a, av, n, len(an) > 1)
        k = z3.IntVal(1) if op in ('operator++', 'operator--') else I.rve(an[1])
        nv = I.ptradd(av, k if '+' in op else -k)
        I.put(a, nv)
        return av if len(an) > 1 and op in ('operator++', 'operator--') else a
    if op in ('operator+', 'operator-') and isinstance(av, Struct) and av.ty in ('vecit', 'rvecit'):
        b = I.rve(an[1])
        if isinstance(b, Struct):
            return I.ptrdiff(av, b)
        return I.ptradd(av, b if op == 'operator+' else -b)
    if op in ('operator<', 'operator>', 'operator<=', 'operator>=') and isinstance(av, Struct) and av.ty in ('vecit', 'rvecit'):
        return I.cmp(op[8:], av, I.rve(an[1]))
    if op == 'operator+':
        x, y = I.rv(a), I.rve(an[1])
        if isinstance(x, StrV) or isinstance(y, StrV):
            return tostr(x, an[0], I) + tostr(y, an[1], I)
    if op == 'operator+=' and isinstance(av, StrV):
        return str_member(I, a, op, an[1:], n)
    if op == 'operator[]' and isinstance(av, StrV):
        return str_member(I, lvof(I, a), op, an[1:], n)
    if op == 'operator()' or True:
        raise Unsupported('operator %s on %s' % (op, type(av).__name__))


def tostr(x, node, I):
    if isinstance(x, StrV):
        return x
    if z3.is_int_value(x):
        return StrV((chr(x.as_long() & 255),))
    if isinstance(x, (Vec,)) or isinstance(x, Ptr):
        return StrV((('chars',),))
    return StrV((('chr', x),))


def mapit_next(I, a, it, n, post):
    m = I.get(it.lv)
    if m.keyat is None:
        I.order_map(it.lv)
        m = I.get(it.lv)
    I.prove('iterator is not at the end', I.mapit_valid(it), n)
    i = m.pos(it.key)
    nk = m.keyat(i + 1)
    I.put(a, MapIt(it.lv, nk, i + 1 >= m.size))
    return it if post else a


def struct_assign(I, dst, src, srcnode, c):
    """implicit assignment operator: memberwise"""
    v = I.rv(src)
    if c is not None:
        for m in c.methods.get('operator=', []):
            d = I.u.definition(m['id'])
            if I.u.body(d) is not None and not m.get('isImplicit') and not m.get('explicitlyDefaulted'):
                ps = I.u.params(d)
                t = norm(qtype(ps[0]))
                if t.endswith('&&') == is_xvalue(srcnode):
                    return I.call_decl(d, dst, [src if isinstance(src, LV) else I.temp(c.name, src)])
    if isinstance(src, LV) and is_xvalue(srcnode) and not src.root.startswith('t:'):
        v = move_out(I, src)
    I.put(dst, v)
    return dst


# ------------------------------------------------------------------ construction
def construct(I, n):
    t = I.ty(n)
    an = n.get('inner', [])
    return construct_from(I, t, an, n, None)


def construct_at(I, e, this):
    """base class initialiser"""
    n = strip(e)
    t = I.ty(n)
    if n.get('kind') not in ('CXXConstructExpr', 'CXXTemporaryObjectExpr'):
        raise Unsupported('base initialiser ' + n.get('kind', '?'))
    an = n.get('inner', [])
    c = I.u.find_class(t)
    if c is None:
        return None
    run_ctor(I, c, n, an, this, base=True)


def ctor_for(I, c, n):
    want = norm((n.get('ctorType') or {}).get('qualType') or '')
    wp = want[want.index('(') + 1:want.rindex(')')] if '(' in want else ''
    cands = []
    for d in c.ctors:
        q = norm((d.get('type') or {}).get('qualType') or '')
        qp = q[q.index('(') + 1:q.rindex(')')] if '(' in q else ''
        if qp == wp:
            cands.append(d)
    if not cands:
        wc = canon(wp)
        for d in c.ctors:
            q = norm((d.get('type') or {}).get('qualType') or '')
            qp = q[q.index('(') + 1:q.rindex(')')] if '(' in q else ''
            if canon(qp) == wc:
                cands.append(d)
    return cands[0] if cands else None


def canon(s):
    import re
    return re.sub(r'\s+', '', s).replace('noexcept', '')


def run_ctor(I, c, n, an, this, base=False):
    d = ctor_for(I, c, n)
    if d is not None:
        d2 = I.u.definition(d['id'])
        if I.u.body(d2) is not None:
            key = (I.base_of(c.name), 'ctor')
            args = I.bind_args(d2, an)
            I.call_decl(d2, this, args, label=I.base_of(c.name) + ' constructor')
            return
    if len(an) == 0:
        # implicit default constructor: default member initialisers
        init_defaults(I, c, this)
        return
    if len(an) == 1:
        src = I.ev(an[0])
        v = I.rv(src)
        if isinstance(v, Struct):
            sub = {f: v.fields[f] for f, _ in I.all_fields(c) if f in v.fields}
            if isinstance(src, LV) and is_xvalue(an[0]) and not src.root.startswith('t:'):
                for f in sub:
                    move_out(I, src.f(f))
            for f, x in sub.items():
                if isinstance(x, Vec) and x.blk is not None and not is_xvalue(an[0]):
                    x = Vec(x.elem, x.size, x.arr, I.new_block())
                I.put(this.f(f), x)
            return
    raise Unsupported('constructor of ' + c.name)


def init_defaults(I, c, this):
    for b in c.bases:
        bc = I.u.find_class(b)
        if bc is not None:
            init_defaults(I, bc, this)
    for fd in c.fields:
        ini = [i for i in fd.get('inner', []) if i.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]
        t = norm(qtype(fd))
        if ini:
            I.put(this.f(fd['name']), I.rve(ini[0]))
        else:
            I.put(this.f(fd['name']), I.default(t))


def construct_from(I, t, an, n, at):
    if t.startswith('AudioBuffer<') and 'AudioBuffer' in I.abstract:
        return buf_ctor(I, t, an, n)
    c = I.u.find_class(t)
    if c is not None:
        fs = I.all_fields(c)
        root = 'n:%s' % I.nm(I.base_of(c.name))
        I.alloc(root, c.name, Struct(c.name, {k: I.default(ft) for k, ft in fs}))
        run_ctor(I, c, n, an, LV(root))
        v = I.path.store.pop(root)
        return v
    if t.startswith('vector<'):
        return vec_ctor(I, t, an, n)
    if t.startswith('basic_string<') or t == 'string':
        if not an:
            return StrV(())
        v = I.ev(an[0])
        rv = I.rv(v)
        if isinstance(rv, StrV):
            if isinstance(v, LV) and is_xvalue(an[0]) and not v.root.startswith('t:'):
                I.put(v, empty_like(I, rv))
            return rv
        if len(an) >= 2 and z3.is_expr(rv):
            ch = I.rve(an[1])
            return StrV((('rep', rv, ch),))
        if isinstance(rv, (Ptr, Vec)):
            return StrV((('chars',),))
        raise Unsupported('string constructor')
    if t.startswith(('unique_ptr<', 'shared_ptr<')):
        if not an:
            return z3.IntVal(0)
        v = I.ev(an[0])
        rv = fitptr(I, I.rv(v))
        if isinstance(v, LV) and t.startswith('unique_ptr') and strip_ref(norm(qtype(an[0]))).startswith('unique_ptr'):
            if not v.root.startswith('t:'):
                I.put(v, z3.IntVal(0))
        return rv
    if 'stringstream' in t or t in ('ostringstream', 'stringstream'):
        return Stream(())
    if t.startswith('unordered_map<'):
        if not an:
            return empty_map(I, split_args(t)[1])
        v = I.ev(an[0])
        rv = I.rv(v)
        if isinstance(v, LV) and is_xvalue(an[0]) and not v.root.startswith('t:'):
            I.put(v, empty_map(I, rv.vty))
        return rv
    if t.startswith('pair<'):
        if len(an) == 2:
            return Struct('pair', {'first': I.rve(an[0]), 'second': I.rve(an[1])})
        return I.rve(an[0])
    if t.startswith('__gnu_cxx::__normal_iterator') or 'iterator' in t.lower():
        return I.rve(an[0])
    k = I.contracts.get(('ctor', t.split('<')[0]))
    if k is not None:
        return k(I, None, [Undef('default argument') if x['kind'] == 'CXXDefaultArgExpr' and not x.get('inner') else I.ev(x) for x in an], n)
    if len(an) == 1 and I.ty(an[0]) == t:
        return I.rve(an[0])
    if t.startswith(('allocator', 'initializer_list', 'function<')):
        return I.rve(an[0]) if an else Undef(t)
    if t in ('runtime_error', 'logic_error', 'out_of_range', 'invalid_argument', 'exception'):
        return Struct('exc', {'what': I.rve(an[0]) if an else StrV(()), 'ty': t})
    if not an:
        return I.default(t)
    raise Unsupported('construction of ' + t)


def construct_value(I, t, args, n, at):
    """construct from already evaluated arguments (make_shared, emplace)"""
    t = norm(t)
    nodes = [{'kind': 'Evaluated', 'v': a, 'type': {'qualType': val_ty_guess(I, a)}, 'valueCategory': 'lvalue'} for a in args]
    if t.startswith('AudioBuffer<') and 'AudioBuffer' in I.abstract:
        return buf_ctor(I, t, nodes, n)
    if t.startswith('vector<'):
        return vec_ctor(I, t, nodes, n)
    c = I.u.find_class(t)
    if c is not None:
        fs = I.all_fields(c)
        root = 'n:%s' % I.nm(I.base_of(c.name))
        I.alloc(root, c.name, Struct(c.name, {k: I.default(ft) for k, ft in fs}))
        for d in c.ctors:
            d2 = I.u.definition(d['id'])
            ps = I.u.params(d2)
            if I.u.body(d2) is not None and len(ps) >= len(args) and not (len(ps) == 1 and I.base_of(c.name) in norm(qtype(ps[0]))):
                av = []
                for p, a in zip(ps, args):
                    pt = norm(qtype(p))
                    av.append((a if isinstance(a, LV) else I.temp(strip_ref(pt), a)) if is_ref(pt) else I.conv(I.rv(a), val_ty_guess(I, a), pt))
                for p in ps[len(args):]:
                    dfl = [i for i in p.get('inner', []) if i.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]
                    if not dfl:
                        break
                    x = I.rve(dfl[0])
                    av.append(x)
                if len(av) == len(ps):
                    I.call_decl(d2, LV(root), av)
                    return I.path.store.pop(root)
        raise Unsupported('constructor of ' + t)
    if len(args) == 1:
        return I.rv(args[0])
    raise Unsupported('construction of ' + t)


def val_ty_guess(I, a):
    v = I.rv(a) if isinstance(a, LV) else a
    return val_type(v)


def buf_ctor(I, t, an, n):
    I.stats['contracts'].add('AudioBuffer constructor')
    if not an:
        return Buf(t, z3.IntVal(0), z3.IntVal(0), FArr(lambda c, f: zero_sample(I, t), 2))
    a0 = I.ev(default_arg(I, t, an, 0))
    v0 = I.rv(a0)
    if isinstance(v0, Buf):
        if isinstance(a0, LV) and is_xvalue(an[0]) and not a0.root.startswith('t:'):
            I.put(a0, Buf(v0.ty, v0.nc, z3.IntVal(0), v0.data))
        return Buf(v0.ty, v0.nc, v0.nf, v0.data)
    nc = I.toint(v0)
    nf = I.toint(I.rve(default_arg(I, t, an, 1))) if len(an) > 1 else z3.IntVal(0)
    return Buf(t, nc, nf, FArr(lambda c, f: zero_sample(I, t), 2))


def default_arg(I, t, an, i):
    """argument i of a constructor call; a default argument is looked up in the declaration"""
    a = an[i]
    if a.get('kind') == 'CXXDefaultArgExpr' and not a.get('inner'):
        for d in I.u.find_class(t).ctors:
            ps = I.u.params(d)
            if len(ps) != len(an) or any(x.get('kind') != 'CXXDefaultArgExpr' and norm(qtype(x)) != norm(qtype(p)) for x, p in zip(an, ps)):
                continue
            dfl = [x for x in ps[i].get('inner', []) if x.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))]
            if dfl:
                return dfl[0]
    return a


def vec_ctor(I, t, an, n):
    el = norm(split_args(t)[0])
    an = [x for x in an if not I.ty(x).startswith('allocator')]
    if not an:
        return I.new_vec(el, z3.IntVal(0))
    a0 = I.ev(an[0])
    v0 = I.rv(a0)
    if isinstance(v0, Vec):
        if v0.blk is not None:
            if is_xvalue(an[0]) and isinstance(a0, LV):
                if not a0.root.startswith('t:'):
                    I.put(a0, empty_like(I, v0))
                return v0
            return Vec(v0.elem, v0.size, v0.arr, I.new_block())
        if isinstance(a0, LV) and is_xvalue(an[0]) and not a0.root.startswith('t:'):
            I.put(a0, empty_like(I, v0))
        return v0
    if z3.is_expr(v0):
        if len(an) > 1:
            val = I.rve(an[1])
            return I.new_vec(el, v0, FArr(lambda k: val))
        z = I.zero(el)
        return I.new_vec(el, v0, FArr(lambda k: z))
    if len(an) == 2:
        b = I.rve(an[1])
        cnt = simplify_int(I.ptrdiff(b, v0))
        s = Range(I, v0, cnt, n)
        g = s.get
        return I.new_vec(el, cnt, FArr(lambda k: g(k)))
    raise Unsupported('vector constructor')


def new(I, n):
    t = strip_ref(norm(qtype(n)))
    t = t[:-1].strip() if t.endswith('*') else t
    if n.get('isArray'):
        raise Unsupported('array new')
    init = [i for i in n.get('inner', []) if i.get('kind')]
    root = 'h:%s' % I.nm('obj')
    if init:
        v = I.rve(init[0])
    else:
        v = I.zero(t)
    if isinstance(v, HLV):
        raise Unsupported('new')
    I.alloc(root, t, v)
    return Ptr('obj', LV(root))
