"""Floating point values.

A floating point value is an element of an uninterpreted sort (one per format); every C++
operation is an uninterpreted function on it, so a proof never depends on what an operation
computes, only on where it is applied.  Order is exact: rank(x) is the position of a non-NaN x
in the IEEE order (literals get the concrete value of that rank from their bit pattern; +0 and -0
share rank 0), nan(x) says x is a NaN, and a comparison is a formula over rank/nan.

The only laws used are the instances emitted below.  Every one of them is a theorem of IEEE 754
round-to-nearest-even arithmetic; engine/fplemmas.py proves them bit-precisely (SMT FP theory)
for binary32 and binary64 as part of setup."""
import struct
import math
from fractions import Fraction
import z3

F32 = z3.DeclareSort('f32')
F64 = z3.DeclareSort('f64')
F80 = z3.DeclareSort('f80')
SORT = {32: F32, 64: F64, 80: F80}
BITS = {F32: 32, F64: 64, F80: 80}
I = z3.IntSort()
B = z3.BoolSort()
RANK = {b: z3.Function('rank%d' % b, SORT[b], I) for b in SORT}
NAN = {b: z3.Function('nan%d' % b, SORT[b], B) for b in SORT}
EMAX = {32: 0x7f800000, 64: 0x7ff0000000000000, 80: 0x7fff8000000000000000}  # rank of +inf


SORTKEY = {k.get_id(): v for k, v in BITS.items()} if hasattr(F32, 'get_id') else {}


def bits_of(t):
    return SORTKEY.get(z3.Z3_get_ast_id(t.ctx.ref(), z3.Z3_sort_to_ast(t.ctx.ref(), z3.Z3_get_sort(t.ctx.ref(), t.as_ast()))))


def f32round(x):
    try:
        return struct.unpack('<f', struct.pack('<f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf


def rank_const(bits, v):
    if v == 0:
        return 0
    if bits == 32:
        r = struct.unpack('<I', struct.pack('<f', abs(v)))[0]
    elif bits == 64:
        r = struct.unpack('<Q', struct.pack('<d', abs(v)))[0]
    else:
        if math.isinf(v):
            r = EMAX[80]
        else:  # exact for every double: mantissa/exponent as an integer in order
            m, e = math.frexp(abs(v))
            r = ((e + 16382) << 64) + int(Fraction(m) * (1 << 64))
    return r if v > 0 else -r


class FP:
    def __init__(self):
        self.axioms = []
        self.axscan = {}
        self.owners, self.always, self.byowner, self.scancache = [], [], {}, {}
        self.lits = {}      # (bits,hex) -> term
        self.litval = {}    # term id -> (bits, python float)
        self.seen = set()
        self.cvt_terms = {}   # (from,to) -> list of (arg,result)
        self.round_terms = {}
        self.f2i_terms = {}
        self.keep = []
        self.observers = []   # called for every new operation (specifications attach ghost laws to operations here)

    def ax(self, f, own=None):
        """own: the float term(s) the law is about; it is used once the order or NaN-ness of all of them matters"""
        self.axioms.append(f)
        own = () if own is None else (own if isinstance(own, tuple) else (own,))
        ids = tuple(t.get_id() for t in own)
        k = len(self.axioms) - 1
        self.owners.append(ids)
        if not ids:
            self.always.append(k)
        else:
            self.byowner.setdefault(ids[0], []).append(k)
            for j in ids[1:]:
                self.byowner.setdefault(j, []).append(k)

    # -- which laws a query needs
    def scan(self, f):
        """(float terms whose order or NaN-ness f mentions, equalities between float terms)"""
        r = self.scancache.get(f.get_id())
        if r is not None:
            return r
        rel, eqs = set(), []
        seen = set()
        todo = [f]
        while todo:
            t = todo.pop()
            i = t.get_id()
            if i in seen:
                continue
            seen.add(i)
            if z3.is_quantifier(t):
                continue
            d = t.decl()
            k = d.kind()
            ch = t.children()
            if k == z3.Z3_OP_UNINTERPRETED and len(ch) == 1:
                nm = d.name()
                if (nm.startswith('rank') or nm.startswith('nan')) and bits_of(ch[0]) is not None:
                    rel.add(ch[0].get_id())
            elif k == z3.Z3_OP_EQ and bits_of(ch[0]) is not None:
                eqs.append((tuple(self.leaves(ch[0])), tuple(self.leaves(ch[1]))))
            todo.extend(ch)
        self.keep.append(f)
        r = (rel, eqs)
        self.scancache[f.get_id()] = r
        return r

    def leaves(self, t):
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            return self.leaves(t.arg(1)) + self.leaves(t.arg(2))
        return [t.get_id()]

    def relevant(self, formulas):
        self.all_axioms()
        rel, eqs = set(), []
        for f in formulas:
            r, e = self.scan(f)
            rel |= r
            eqs += e
        used = set()
        new = []

        def use(k):
            if k in used:
                return
            used.add(k)
            new.append(self.axioms[k])
            r, e = self.axscan.get(k) or self.axscan.setdefault(k, self.scan(self.axioms[k]))
            eqs.extend(e)
            work.extend(r - rel)
            rel.update(r)
        work = list(rel)
        for k in self.always:
            use(k)
        while True:
            while work:
                i = work.pop()
                for k in self.byowner.get(i, ()):
                    if all(j in rel for j in self.owners[k]):
                        use(k)
            add = set()
            for a, b in eqs:
                s = set(a) | set(b)
                if s & rel and not s <= rel:
                    add |= s - rel
            if not add:
                return new
            rel |= add
            work = list(add)

    # -- literals
    def lit(self, v, bits):
        if bits == 32:
            v = f32round(v)
        key = (bits, 'nan' if v != v else float(v).hex())
        t = self.lits.get(key)
        if t is None:
            t = z3.Const('lit%d_%s' % key, SORT[bits])
            self.lits[key] = t
            self.litval[t.get_id()] = (bits, v)
            self.keep.append(t)
            if v != v:
                self.ax(NAN[bits](t), own=t)
            else:
                self.ax(z3.Not(NAN[bits](t)), own=t)
                self.ax(RANK[bits](t) == rank_const(bits, v), own=t)
        return t

    def val(self, t):
        x = self.litval.get(t.get_id())
        return None if x is None else x[1]

    # -- basic predicates
    def touch(self, t):
        """well-formedness of a float term"""
        k = ('wf', t.get_id())
        if k in self.seen:
            return
        self.seen.add(k)
        self.keep.append(t)
        b = bits_of(t)
        r = RANK[b](t)
        if t.get_id() not in self.litval:
            self.ax(z3.And(r >= -EMAX[b], r <= EMAX[b]), own=t)

    def nan(self, t):
        v = self.val(t)
        if v is not None:
            return z3.BoolVal(v != v)
        if self.is_neg(t):
            return self.nan(t.arg(0))
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(t.arg(0), self.nan(t.arg(1)), self.nan(t.arg(2)))
        self.touch(t)
        return NAN[bits_of(t)](t)

    def rank(self, t):
        v = self.val(t)
        if v is not None and v == v:
            return z3.IntVal(rank_const(bits_of(t), v))
        if self.is_neg(t):
            return -self.rank(t.arg(0))
        if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(t.arg(0), self.rank(t.arg(1)), self.rank(t.arg(2)))
        self.touch(t)
        return RANK[bits_of(t)](t)

    def lt(self, a, b):
        return z3.And(z3.Not(self.nan(a)), z3.Not(self.nan(b)), self.rank(a) < self.rank(b))

    def le(self, a, b):
        return z3.And(z3.Not(self.nan(a)), z3.Not(self.nan(b)), self.rank(a) <= self.rank(b))

    def eq(self, a, b):
        return z3.And(z3.Not(self.nan(a)), z3.Not(self.nan(b)), self.rank(a) == self.rank(b))

    def ne(self, a, b):
        return z3.Not(self.eq(a, b))

    def isinf(self, a):
        r = self.rank(a)
        m = EMAX[bits_of(a)]
        return z3.And(z3.Not(self.nan(a)), z3.Or(r == m, r == -m))

    def isfinite(self, a):
        r = self.rank(a)
        m = EMAX[bits_of(a)]
        return z3.And(z3.Not(self.nan(a)), r < m, r > -m)

    # -- structure helpers
    def is_app(self, t, op):
        return z3.is_app(t) and t.decl().name() == '%s%d' % (op, bits_of(t) or 0)

    def is_neg(self, t):
        return z3.is_app(t) and bits_of(t) is not None and t.decl().name() == 'neg%d' % bits_of(t)

    def fn(self, name, bits, n, rs=None):
        return z3.Function('%s%d' % (name, bits), *([SORT[bits]] * n + [rs if rs is not None else SORT[bits]]))

    def app(self, name, bits, *args, rs=None):
        t = self.fn(name, bits, len(args), rs)(*args)
        self.keep.append(t)
        for o in self.observers:
            o(name, bits, args, t)
        return t

    def first(self, t):
        k = ('ax', t.get_id())
        if k in self.seen:
            return False
        self.seen.add(k)
        self.keep.append(t)
        return True

    def link(self, raw, res):
        """a simplification that was applied, stated for terms equal to the argument"""
        k = ('link', raw.get_id())
        if k not in self.seen:
            self.seen.add(k)
            self.keep.append(raw)
            self.keep.append(res)
            self.ax(raw == res)
        return res

    # -- operations
    def neg(self, a):
        b = bits_of(a)
        v = self.val(a)
        if v is not None:
            return self.link(self.fn('neg', b, 1)(a), self.lit(-v, b))
        if self.is_neg(a):
            return self.link(self.fn('neg', b, 1)(a), a.arg(0))
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(a.arg(0), self.neg(a.arg(1)), self.neg(a.arg(2)))
        t = self.app('neg', b, a)
        if self.first(t):
            self.touch(a)
            self.ax(z3.And(RANK[b](t) == -self.rank(a), NAN[b](t) == self.nan(a)), own=t)
        return t

    def abs(self, a):
        b = bits_of(a)
        v = self.val(a)
        if v is not None:
            return self.link(self.fn('abs', b, 1)(a), self.lit(abs(v), b))
        if self.is_neg(a):
            return self.link(self.fn('abs', b, 1)(a), self.abs(a.arg(0)))
        if self.is_app(a, 'abs'):
            return self.link(self.fn('abs', b, 1)(a), a)
        if self.is_app(a, 'add'):     # |x+y| = |-x-y|
            x, y = a.arg(0), a.arg(1)
            alt = self.add(self.neg(x), self.neg(y))
            if self.is_app(alt, 'add') and alt.get_id() < a.get_id():
                return self.link(self.fn('abs', b, 1)(a), self.abs(alt))
        t = self.app('abs', b, a)
        if self.first(t):
            self.touch(t)
            r, q = RANK[b](t), self.rank(a)
            self.ax(NAN[b](t) == self.nan(a), own=t)
            self.ax(r == z3.If(q < 0, -q, q), own=t)
            # the value itself when it is positive, its negation when negative
            self.ax(z3.Implies(z3.And(z3.Not(self.nan(a)), q > 0), t == a), own=t)
            self.ax(z3.Implies(z3.And(z3.Not(self.nan(a)), q < 0), t == self.neg(a)), own=t)
            self.ax(z3.Implies(z3.And(z3.Not(self.nan(a)), q == 0), t == self.lit(0.0, b)), own=t)
        return t

    def inj(self, a, b):
        """numbers of the same order that are not zeros are the same number"""
        k = ('inj', a.get_id(), b.get_id())
        if k not in self.seen:
            self.seen.add(k)
            self.keep += [a, b]
            self.ax(z3.Implies(z3.And(z3.Not(self.nan(a)), z3.Not(self.nan(b)), self.rank(a) == self.rank(b), self.rank(a) != 0), a == b), own=(a, b))

    def order(self, a, b):
        return (a, b) if a.get_id() <= b.get_id() else (b, a)

    def add(self, a, b):
        w = bits_of(a)
        va, vb = self.val(a), self.val(b)
        if va is not None and vb is not None and w != 80:
            return self.lit(va + vb, w)
        if a.eq(b):
            return self.mul(a, self.lit(2.0, w))
        x, y = self.order(a, b)
        t = self.app('add', w, x, y)
        if self.first(t):
            self.ax(t == self.app('add', w, y, x))
            self.touch(t)
            nx, ny, nt = self.nan(x), self.nan(y), NAN[w](t)
            rx, ry, rt = self.rank(x), self.rank(y), RANK[w](t)
            self.ax(z3.Implies(z3.Or(nx, ny), nt), own=t)
            m = EMAX[w]
            self.ax(z3.Implies(z3.And(z3.Not(nx), z3.Not(ny), z3.Or(z3.And(rx < m, rx > -m), z3.And(ry < m, ry > -m))), z3.Not(nt)), own=t)
            ok = z3.Not(nt)
            self.ax(z3.Implies(z3.And(ok, ry >= 0), rt >= rx), own=t)
            self.ax(z3.Implies(z3.And(ok, rx >= 0), rt >= ry), own=t)
            self.ax(z3.Implies(z3.And(ok, ry <= 0), rt <= rx), own=t)
            self.ax(z3.Implies(z3.And(ok, rx <= 0), rt <= ry), own=t)
            # gradual underflow: the sum is zero exactly for opposite values
            self.ax(z3.Implies(ok, (rt == 0) == (rx == -ry)), own=t)
            self.ax(z3.Implies(ok, (rt > 0) == (rx > -ry)), own=t)
        return t

    def sub(self, a, b):
        return self.add(a, self.neg(b))

    def sgn(self, t):
        """split a term into sign and non-negated part"""
        if self.is_neg(t):
            return -1, t.arg(0)
        v = self.val(t)
        if v is not None and v == v and math.copysign(1, v) < 0:
            return -1, self.lit(-v, bits_of(t))
        return 1, t

    def mul(self, a, b):
        w = bits_of(a)
        va, vb = self.val(a), self.val(b)
        if va is not None and vb is not None and w != 80:
            return self.lit(va * vb, w)
        a0, b0 = a, b
        s1, a = self.sgn(a)
        s2, b = self.sgn(b)
        f = self.fn('mul', w, 2)
        if s1 * s2 < 0:
            return self.link(f(a0, b0), self.neg(self.mul(a, b)))
        if self.val(a) == 1.0:
            return self.link(f(a0, b0), b)
        if self.val(b) == 1.0:
            return self.link(f(a0, b0), a)
        x, y = self.order(a, b)
        t = self.app('mul', w, x, y)
        if self.first(t):
            self.ax(t == self.app('mul', w, y, x))
            self.touch(t)
            nx, ny, nt = self.nan(x), self.nan(y), NAN[w](t)
            rx, ry, rt = self.rank(x), self.rank(y), RANK[w](t)
            m = EMAX[w]
            self.ax(z3.Implies(z3.Or(nx, ny), nt), own=t)
            xi, yi = z3.Or(rx == m, rx == -m), z3.Or(ry == m, ry == -m)
            self.ax(z3.Implies(z3.And(z3.Not(nx), z3.Not(ny)), nt == z3.Or(z3.And(rx == 0, yi), z3.And(xi, ry == 0))), own=t)
            ok = z3.Not(nt)
            self.ax(z3.Implies(z3.And(ok, z3.Or(z3.And(rx >= 0, ry >= 0), z3.And(rx <= 0, ry <= 0))), rt >= 0), own=t)
            self.ax(z3.Implies(z3.And(ok, z3.Or(z3.And(rx >= 0, ry <= 0), z3.And(rx <= 0, ry >= 0))), rt <= 0), own=t)
            # a finite non-NaN factor times a non-zero literal is not a NaN
            for p, q in ((x, y), (y, x)):
                v = self.val(p)
                if v is not None and v != 0 and v == v and not math.isinf(v):
                    self.ax(z3.Implies(z3.Not(self.nan(q)), z3.Not(nt)), own=t)
        return t

    def div(self, a, b):
        w = bits_of(a)
        va, vb = self.val(a), self.val(b)
        if va is not None and vb is not None and w != 80 and vb != 0:
            return self.lit(va / vb, w)
        s1, a = self.sgn(a)
        s2, b = self.sgn(b)
        if s1 * s2 < 0:
            return self.neg(self.div(a, b))
        vb = self.val(b)
        if vb is not None and vb > 0 and not math.isinf(vb):
            m, e = math.frexp(vb)
            if m == 0.5 and -100 < e < 100:    # division by a power of two
                return self.mul(a, self.lit(1.0 / vb, w))
        t = self.app('div', w, a, b)
        if self.first(t):
            self.touch(t)
            na, nb, nt = self.nan(a), self.nan(b), NAN[w](t)
            ra, rb, rt = self.rank(a), self.rank(b), RANK[w](t)
            m = EMAX[w]
            self.ax(z3.Implies(z3.Or(na, nb), nt), own=t)
            ai, bi = z3.Or(ra == m, ra == -m), z3.Or(rb == m, rb == -m)
            self.ax(z3.Implies(z3.And(z3.Not(na), z3.Not(nb)), nt == z3.Or(z3.And(ra == 0, rb == 0), z3.And(ai, bi))), own=t)
            ok = z3.And(z3.Not(nt), rb != 0)
            self.ax(z3.Implies(z3.And(ok, z3.Or(z3.And(ra >= 0, rb > 0), z3.And(ra <= 0, rb < 0))), rt >= 0), own=t)
            self.ax(z3.Implies(z3.And(ok, z3.Or(z3.And(ra >= 0, rb < 0), z3.And(ra <= 0, rb > 0))), rt <= 0), own=t)
        return t

    def cvt(self, a, to):
        fr = bits_of(a)
        if fr == to:
            return a
        v = self.val(a)
        raw = z3.Function('cvt%d_%d' % (fr, to), SORT[fr], SORT[to])
        if v is not None:
            return self.link(raw(a), self.lit(v, to))
        if self.is_neg(a):
            return self.link(raw(a), self.neg(self.cvt(a.arg(0), to)))
        if self.is_app(a, 'abs'):
            return self.link(raw(a), self.abs(self.cvt(a.arg(0), to)))
        if z3.is_app(a) and a.decl().kind() == z3.Z3_OP_ITE:
            return z3.If(a.arg(0), self.cvt(a.arg(1), to), self.cvt(a.arg(2), to))
        # narrowing a widened value gives the value back
        if z3.is_app(a) and a.decl().name() == 'cvt%d_%d' % (to, fr) and to < fr:
            return self.link(raw(a), a.arg(0))
        f = z3.Function('cvt%d_%d' % (fr, to), SORT[fr], SORT[to])
        t = f(a)
        if self.first(t):
            self.touch(t)
            self.touch(a)
            self.ax(NAN[to](t) == self.nan(a), own=t)
            ra, rt = self.rank(a), RANK[to](t)
            self.ax(z3.Implies(ra == 0, rt == 0), own=t)
            self.ax(z3.Implies(ra >= 0, rt >= 0), own=t)
            self.ax(z3.Implies(ra <= 0, rt <= 0), own=t)
            if fr < to:
                self.ax(z3.Implies(rt == 0, ra == 0), own=t)
                self.ax((ra == EMAX[fr]) == (rt == EMAX[to]), own=t)
                self.ax((ra == -EMAX[fr]) == (rt == -EMAX[to]), own=t)
            l = self.cvt_terms.setdefault((fr, to), [])
            for (a2, t2) in l:
                r2, q2 = self.rank(a2), RANK[to](t2)
                if fr < to:
                    self.ax((ra < r2) == (rt < q2), own=(t, t2))
                    self.ax((ra > r2) == (rt > q2), own=(t, t2))
                    self.ax((ra < -r2) == (rt < -q2), own=(t, t2))
                    self.ax((ra > -r2) == (rt > -q2), own=(t, t2))
                else:
                    self.ax(z3.Implies(ra <= r2, rt <= q2), own=(t, t2))
                    self.ax(z3.Implies(ra >= r2, rt >= q2), own=(t, t2))
                    self.ax(z3.Implies(ra <= -r2, rt <= -q2), own=(t, t2))
                    self.ax(z3.Implies(ra >= -r2, rt >= -q2), own=(t, t2))
            l.append((a, t))
        return t

    def cvt_lit_axioms(self):
        """order of converted values relative to literals (called before each query)"""
        for (fr, to), l in self.cvt_terms.items():
            for key, lt in list(self.lits.items()):
                bits, v = self.litval[lt.get_id()]
                if v != v:
                    continue
                for (a, t) in l:
                    k = ('cl', t.get_id(), lt.get_id())
                    if k in self.seen:
                        continue
                    for v1 in ((v, -v) if v != 0 else (v,)):
                        self.cvt_lit(k, fr, to, bits, a, t, v1)

    def cvt_lit(self, k, fr, to, bits, a, t, v):
        if fr < to and bits == to and to == 64 and fr == 32:
            self.seen.add(k)
            x = f32round(v)
            ra, rt = self.rank(a), RANK[to](t)
            rx = rank_const(32, x)
            rl = rank_const(64, v)
            ok = z3.Not(self.nan(a))
            if x == v:
                self.ax(z3.Implies(ok, z3.And((rt < rl) == (ra < rx), (rt > rl) == (ra > rx))), own=t)
            elif x > v:   # v strictly between pred(x) and x
                self.ax(z3.Implies(ok, z3.And((rt > rl) == (ra >= rx), (rt < rl) == (ra < rx))), own=t)
            else:
                self.ax(z3.Implies(ok, z3.And((rt < rl) == (ra <= rx), (rt > rl) == (ra > rx))), own=t)
        elif fr > to and bits == fr and fr == 64 and to == 32:
            self.seen.add(k)
            ra, rt = self.rank(a), RANK[to](t)
            rl, rx = rank_const(64, v), rank_const(32, f32round(v))
            ok = z3.Not(self.nan(a))
            self.ax(z3.Implies(ok, z3.And(z3.Implies(ra <= rl, rt <= rx), z3.Implies(ra >= rl, rt >= rx))), own=t)

    def round_(self, a, name='round'):
        w = bits_of(a)
        v = self.val(a)
        pf = {'round': lambda x: math.copysign(math.floor(abs(x) + 0.5), x) if abs(x) < 2**52 else x,
              'floor': lambda x: float(math.floor(x)) if abs(x) < 2**53 else x,
              'ceil': lambda x: float(math.ceil(x)) if abs(x) < 2**53 else x,
              'trunc': lambda x: float(math.trunc(x)) if abs(x) < 2**53 else x}[name]
        if name == 'round':
            def pf(x):
                if math.isinf(x) or abs(x) >= 2**52:
                    return x
                fl = math.floor(abs(x))
                r = fl + (1 if Fraction(abs(x)) - fl >= Fraction(1, 2) else 0)
                return math.copysign(float(r), x)
        if v is not None and v == v and not math.isinf(v):
            return self.lit(pf(v), w)
        t = self.app(name, w, a)
        if self.first(t):
            self.touch(t)
            self.ax(NAN[w](t) == self.nan(a), own=t)
            self.round_terms.setdefault((name, w), []).append((a, t, pf))
        return t

    def round_lit_axioms(self):
        for (name, w), l in self.round_terms.items():
            for key, lt in list(self.lits.items()):
                bits, v = self.litval[lt.get_id()]
                if bits != w or v != v or math.isinf(v):
                    continue
                for (a, t, pf) in l:
                    k = ('rl', t.get_id(), lt.get_id())
                    if k in self.seen:
                        continue
                    self.seen.add(k)
                    rl = rank_const(w, v)
                    rv = rank_const(w, pf(v))
                    ra, rt = self.rank(a), RANK[w](t)
                    self.ax(z3.Implies(z3.Not(self.nan(a)), z3.And(z3.Implies(ra <= rl, rt <= rv), z3.Implies(ra >= rl, rt >= rv))), own=t)

    def un(self, name, a):
        """library function without any law: sin, log10, exp, ..."""
        t = self.app(name, bits_of(a), a)
        self.touch(t)
        return t

    def bin(self, name, a, b):
        t = self.app(name, bits_of(a), a, b)
        self.touch(t)
        return t

    def i2f(self, n, w):
        if z3.is_int_value(n):
            return self.lit(float(n.as_long()), w)
        f = z3.Function('i2f%d' % w, I, SORT[w])
        t = f(n)
        if self.first(t):
            self.touch(t)
            self.ax(z3.Not(NAN[w](t)), own=t)
            rt = RANK[w](t)
            self.ax(z3.Implies(n >= 0, rt >= 0), own=t)
            self.ax(z3.Implies(n <= 0, rt <= 0), own=t)
            self.ax(z3.Implies(n == 0, t == self.lit(0.0, w)), own=t)
            self.ax(z3.Implies(n >= 1, rt >= rank_const(w, 1.0)), own=t)
            self.ax(z3.And(rt < EMAX[w], rt > -EMAX[w]), own=t)   # 64 bit integers never reach infinity
        return t

    def f2i(self, a):
        """truncation toward zero, for values inside the range of the integer type"""
        w = bits_of(a)
        v = self.val(a)
        if v is not None and v == v and not math.isinf(v):
            return z3.IntVal(int(v))
        f = z3.Function('f2i%d' % w, SORT[w], I)
        t = f(a)
        if self.first(t):
            self.touch(a)
            self.f2i_terms.setdefault(w, []).append((a, t))
            ra = self.rank(a)
            self.ax(z3.Implies(z3.And(z3.Not(self.nan(a)), ra >= 0), t >= 0), own=None)
            self.ax(z3.Implies(z3.And(z3.Not(self.nan(a)), ra <= 0), t <= 0), own=None)
            self.ax(z3.Implies(z3.And(z3.Not(self.nan(a)), ra < rank_const(w, 1.0), ra > -rank_const(w, 1.0)), t == 0), own=None)
            self.ax(z3.Implies(z3.And(z3.Not(self.nan(a)), ra >= rank_const(w, 1.0)), t >= 1), own=None)
        return t

    def f2i_lit_axioms(self):
        for w, l in self.f2i_terms.items():
            for key, lt in list(self.lits.items()):
                bits, v = self.litval[lt.get_id()]
                if bits != w or v != v or math.isinf(v):
                    continue
                for (a, t) in l:
                    k = ('fl', t.get_id(), lt.get_id())
                    if k in self.seen:
                        continue
                    self.seen.add(k)
                    rl, iv = rank_const(w, v), int(v)
                    ra = self.rank(a)
                    self.ax(z3.Implies(z3.Not(self.nan(a)), z3.And(z3.Implies(ra <= rl, t <= iv), z3.Implies(ra >= rl, t >= iv))), own=None)

    def all_axioms(self):
        self.cvt_lit_axioms()
        self.round_lit_axioms()
        self.f2i_lit_axioms()
        return self.axioms
