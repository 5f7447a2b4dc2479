"""Symbolic values and locations."""
import z3
from . import fp as FPM

I = z3.IntSort()
B = z3.BoolSort()
STR = z3.DeclareSort('Str')

INTS = {'bool': None,
        'char': (1, 8), 'signed char': (1, 8), 'unsigned char': (0, 8), 'short': (1, 16), 'unsigned short': (0, 16),
        'int': (1, 32), 'unsigned int': (0, 32), 'long': (1, 64), 'unsigned long': (0, 64),
        'long long': (1, 64), 'unsigned long long': (0, 64), 'size_t': (0, 64), 'unsigned': (0, 32),
        'uint8_t': (0, 8), 'int8_t': (1, 8), 'uint16_t': (0, 16), 'int16_t': (1, 16), 'uint32_t': (0, 32),
        'int32_t': (1, 32), 'uint64_t': (0, 64), 'int64_t': (1, 64), 'ptrdiff_t': (1, 64),
        'uint_fast32_t': (0, 64), 'int_fast32_t': (1, 64), 'size_type': (0, 64), 'difference_type': (1, 64),
        'drwav_uint64': (0, 64), 'drwav_uint32': (0, 32), 'drwav_uint16': (0, 16), 'drwav_int32': (1, 32), 'drwav_bool32': (0, 32),
        'wchar_t': (1, 32), 'streamsize': (1, 64)}
FLOATS = {'float': 32, 'double': 64, 'long double': 80}


class Unsupported(Exception):
    pass


def split_args(s):
    """arguments of the outermost template in s"""
    i = s.index('<')
    depth, cur, out = 0, '', []
    for ch in s[i + 1:s.rindex('>')]:
        if ch in '<(':
            depth += 1
        if ch in '>)':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return out


class Val:
    pass


class Struct(Val):
    def __init__(self, ty, fields):
        self.ty, self.fields = ty, fields

    def set(self, f, v):
        d = dict(self.fields)
        d[f] = v
        return Struct(self.ty, d)

    def __repr__(self):
        return 'Struct(%s,%s)' % (self.ty, self.fields)


class Undef(Val):
    def __init__(self, ty):
        self.ty = ty


TRACE = []


class FArr:
    """immutable functional array over n integer indices; read() builds an ite term, no array theory.

    Arrays of a loop head carry hooks that add the loop's element-wise invariant at the index read;
    a memoised read replays them so that every path gets its facts."""

    def __init__(self, fn, n=1):
        self.fn, self.n, self.memo = fn, n, {}
        self.hooks = None

    def fire(self, idx):
        if self.hooks is not None:
            for r in TRACE:
                r.append((self, idx))
            for h in list(self.hooks):
                h(*idx)

    def read(self, *idx):
        k = tuple(i.get_id() for i in idx)
        r = self.memo.get(k)
        if r is None:
            ev = []
            TRACE.append(ev)
            try:
                v = self.fn(*idx)
            finally:
                TRACE.pop()
            for r_ in TRACE:
                r_.extend(ev)
            self.memo[k] = (v, idx, ev)
            self.fire(idx)
            return v
        for (a, i) in r[2]:
            a.fire(i)
        self.fire(idx)
        return r[0]

    def write(self, idx, v):
        return FArr(lambda *k: ite(eq_idx(k, idx), v, lambda: self.read(*k)), self.n)

    def update(self, cond, val):
        """comprehension: cond(*k) -> Bool, val(*k) -> value"""
        return FArr(lambda *k: ite(cond(*k), lambda: val(*k), lambda: self.read(*k)), self.n)


def eq_idx(k, idx):
    cs = []
    for a, b in zip(k, idx):
        if a.eq(b):
            continue
        if z3.is_int_value(a) and z3.is_int_value(b) and a.as_long() != b.as_long():
            return z3.BoolVal(False)
        cs.append(a == b)
    if not cs:
        return z3.BoolVal(True)
    return z3.And(*cs) if len(cs) > 1 else cs[0]


def ite(c, a, b):
    """if-then-else over values; a and b may be thunks"""
    if z3.is_true(c):
        return a() if callable(a) else a
    if z3.is_false(c):
        return b() if callable(b) else b
    a = a() if callable(a) else a
    b = b() if callable(b) else b
    if a is b:
        return a
    if z3.is_expr(a) and z3.is_expr(b):
        if a.eq(b):
            return a
        return z3.If(c, a, b)
    if isinstance(a, Struct) and isinstance(b, Struct):
        return Struct(a.ty, {f: ite(c, a.fields[f], b.fields[f]) for f in a.fields})
    if isinstance(a, Vec) and isinstance(b, Vec):
        return Vec(a.elem, ite(c, a.size, b.size), FArr(lambda *k: ite(c, a.arr.read(*k), b.arr.read(*k))), ite(c, a.blk, b.blk) if a.blk is not None else None)
    if isinstance(a, Buf) and isinstance(b, Buf):
        return Buf(a.ty, ite(c, a.nc, b.nc), ite(c, a.nf, b.nf), FArr(lambda *k: ite(c, a.data.read(*k), b.data.read(*k)), 2))
    if isinstance(a, SymPtr) and isinstance(b, Ptr) and b.kind == 'null':
        b = SymPtr(z3.IntVal(0), z3.IntVal(0))
    if isinstance(b, SymPtr) and isinstance(a, Ptr) and a.kind == 'null':
        a = SymPtr(z3.IntVal(0), z3.IntVal(0))
    if isinstance(a, SymPtr) and isinstance(b, SymPtr):
        return SymPtr(ite(c, a.blk, b.blk), ite(c, a.off, b.off))
    if type(a) is type(b) and isinstance(a, Ptr) and a.kind == b.kind and a.lv == b.lv:
        return Ptr(a.kind, a.lv, *(ite(c, x, y) for x, y in zip(a.ix, b.ix)))
    if isinstance(a, Undef):
        return b
    if isinstance(b, Undef):
        return a
    if isinstance(a, StrV) and isinstance(b, StrV):
        return StrV((z3.If(c, str_term(a), str_term(b)),))
    raise Unsupported('merge of %r and %r' % (type(a), type(b)))


class Vec(Val):
    def __init__(self, elem, size, arr, blk=None):
        self.elem, self.size, self.arr, self.blk = elem, size, arr, blk


class Buf(Val):
    """abstract AudioBuffer: shape and samples"""

    def __init__(self, ty, nc, nf, data):
        self.ty, self.nc, self.nf, self.data = ty, nc, nf, data


class Map(Val):
    """unordered_map<int,V>: membership, values, size, and an (arbitrary) iteration order"""
    cnt = 0

    def __init__(self, vty, has, val, size, keyat=None, pos=None):
        self.vty, self.has, self.val, self.size = vty, has, val, size
        self.keyat, self.pos = keyat, pos


class MapIt(Val):
    def __init__(self, lv, key, end):
        self.lv, self.key, self.end = lv, key, end


class Ptr(Val):
    """kind: null | obj (lv) | vec (lv, off) | row (lv of Buf, channel, off) | rows (lv of Buf, off) | str"""

    def __init__(self, kind, lv=None, *ix):
        self.kind, self.lv, self.ix = kind, lv, ix

    def __repr__(self):
        return 'Ptr(%s,%s,%s)' % (self.kind, self.lv, self.ix)


class SymPtr(Val):
    """pointer stored in memory: block id and offset (block 0: null)"""

    def __init__(self, blk, off):
        self.blk, self.off = blk, off


class Lambda(Val):
    def __init__(self, node, env, this):
        self.node, self.env, self.this = node, env, this


class FnRef(Val):
    def __init__(self, decl):
        self.decl = decl


class Stream(Val):
    """parts written so far (concrete list)"""

    def __init__(self, parts=()):
        self.parts = tuple(parts)


class StrV(Val):
    """string as a concatenation of parts: python str literals and opaque terms of sort Str / ('num',t)"""

    def __init__(self, parts=()):
        out = []
        for p in parts:
            if isinstance(p, str) and out and isinstance(out[-1], str):
                out[-1] += p
            elif isinstance(p, str) and p == '':
                continue
            else:
                out.append(p)
        self.parts = tuple(out)

    def __add__(self, o):
        return StrV(self.parts + o.parts)


KEEP = []


def str_term(s):
    """a string as one term"""
    if len(s.parts) == 1 and z3.is_expr(s.parts[0]):
        return s.parts[0]
    t = None
    for p in s.parts:
        if z3.is_expr(p):
            q = p
        elif isinstance(p, str):
            q = z3.Const('str:' + repr(p), STR)
        elif isinstance(p, tuple) and len(p) == 2 and z3.is_expr(p[1]):
            q = z3.Function('text:%s:%s' % (p[0], p[1].sort()), p[1].sort(), STR)(p[1])
        else:
            q = z3.Const('str:' + repr(p), STR)
        t = q if t is None else z3.Function('append', STR, STR, STR)(t, q)
    if t is None:
        t = z3.Const("str:''", STR)
    KEEP.append(t)
    return t


class LV:
    __slots__ = ('root', 'path')

    def __init__(self, root, path=()):
        self.root, self.path = root, path

    def f(self, name):
        return LV(self.root, self.path + (('f', name),))

    def i(self, idx):
        return LV(self.root, self.path + (('i', idx),))

    def b(self, c, f):
        return LV(self.root, self.path + (('b', c, f),))

    def m(self, k):
        return LV(self.root, self.path + (('m', k),))

    def __eq__(self, o):
        if not isinstance(o, LV) or self.root != o.root or len(self.path) != len(o.path):
            return False
        for a, b in zip(self.path, o.path):
            if a[0] != b[0]:
                return False
            for x, y in zip(a[1:], b[1:]):
                if isinstance(x, str):
                    if x != y:
                        return False
                elif not x.eq(y):
                    return False
        return True

    def __hash__(self):
        return hash(self.root)

    def __repr__(self):
        return '%s%s' % (self.root, ''.join('.%s' % s[1] if s[0] == 'f' else '[%s]' % (s[1:],) for s in self.path))


class HLV:
    """lvalue of a polymorphic object known by handle"""

    def __init__(self, ty, term):
        self.ty, self.term = ty, term


def range_of(ty):
    s = INTS.get(ty)
    if s is None:
        return None
    sg, n = s
    return (-(1 << (n - 1)), (1 << (n - 1)) - 1) if sg else (0, (1 << n) - 1)


class SetArr(Val):
    def __init__(self, fn):
        self.fn = fn

    def read(self, k):
        return self.fn(k)


class MapPair(Val):
    def __init__(self, lv, key):
        self.lv, self.key = lv, key
