"""Forward symbolic execution of clang's AST with contracts and automatically found loop invariants.

Every path is executed from the function's precondition; loops are cut by inductive invariants
(candidates filtered by Houdini), calls are replaced by contracts or inlined, and every
obligation (memory safety, callee preconditions, arithmetic, postconditions) goes to z3."""
import os
import time
import traceback
import hashlib
import z3
from .vals import *
from .frontend import norm, strip_ref, is_ref, qtype, Unit
from .fp import FP, SORT, BITS

TWO = lambda n: 1 << n


def lib_trust(s):
    from . import lib
    lib.trust(s)


class Throw(Exception):
    def __init__(self, ty, val=None):
        self.ty, self.val = ty, val


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Infeasible(Exception):
    pass


class ModTooDeep(Exception):
    pass


class Path:
    def __init__(self, store, pc, prefix, uid):
        self.store, self.pc, self.prefix, self.uid = dict(store), list(pc), list(prefix), uid
        self.pos, self.nf, self.wlogs = 0, 0, []
        self.dec = []
        self.ghostlog = []


class Ob:
    __slots__ = ('name', 'ok', 'why', 'model', 'time', 'backend', 'fn', 'loc')


def strip_cast(n):
    while n.get('kind') in ('ImplicitCastExpr', 'ParenExpr', 'ExprWithCleanups', 'MaterializeTemporaryExpr',
                            'CXXBindTemporaryExpr', 'ConstantExpr', 'CXXFunctionalCastExpr') and n.get('inner'):
        n = n['inner'][0]
    return n


_ASSERT = z3.z3core.Z3_solver_assert.__defaults__[0]


def add_all(s, fs):
    """s.add for many formulas, without the per-call overhead of the Python binding"""
    c, h = s.ctx.ref(), s.solver
    for f in fs:
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        _ASSERT.f(c, h, f.ast)
    _ASSERT.Check(c)


class Interp:
    DEBUG = False

    def __init__(self, unit, title='', timeout=20000):
        self.u = unit
        self.title = title
        self.fp = FP()
        self.contracts = {}          # (class base, method) -> fn(I, this, args, node)
        self.abstract = {'AudioBuffer'}
        self.obs = []
        self.recording = True
        self.mode = 'full'
        self.path = None
        self.uid = 0
        self.frame = 0
        self.roottype = {}
        self.loopcache = {}
        self.survivors = {}
        self.modcache = {}
        self.hints = []
        self.elem_specs = []
        self.skolems = []
        self.enclosing_ints = []
        self.timeout = timeout
        self.depth = 0
        self.fnstack = []
        self.stats = {'queries': 0, 'time': 0.0, 'loops': set(), 'inlined': set(), 'contracts': set(), 'invs': 0}
        self.axioms_extra = []
        self.unestablished = []
        self.this_stack = [None]
        self.env_stack = [{}]
        self.qcache = {}
        self.keepalive = []
        self.univ = []
        self.globals_init = {}
        self.max_paths = 3000
        self.extra_idx = []
        self.perms = []
        self.magcache = {}
        self.specmemo = {}
        self.repr_opaque = set()
        self.off_contracts = set()
        self.linear_hints = False
        self.head_arrays = []
        self.terminates = set()

    # ---------------------------------------------------------------- solver
    def solver(self, pc, timeout=None, goals=(), full=False):
        s = z3.SolverFor('QF_AUFLIA') if False else z3.Solver()
        s.set('timeout', timeout or self.timeout)
        s.set('random_seed', 1)
        add_all(s, pc)
        add_all(s, self.fp.all_axioms() if full else self.fp.relevant(list(pc) + list(goals)))
        add_all(s, self.axioms_extra)
        return s

    def check(self, pc, extra, timeout=None):
        key = (frozenset(f.get_id() for f in pc), extra.get_id() if extra is not None else None, len(self.fp.axioms), len(self.axioms_extra))
        if key in self.qcache:
            return self.qcache[key]
        t = time.time()
        s = self.solver(pc, timeout, [extra] if extra is not None else [])
        if extra is not None:
            s.add(extra)
        r = s.check()
        self.stats['queries'] += 1
        self.stats['time'] += time.time() - t
        res = (r, s)
        if r != z3.sat:
            res = (r, None)
        self.keepalive.append((list(pc), extra))
        self.qcache[key] = res
        return res

    def feasible(self, f):
        f = z3.simplify(f) if not (z3.is_true(f) or z3.is_false(f)) else f
        if z3.is_true(f):
            return True
        if z3.is_false(f):
            return False
        if self.mode == 'mod':
            return True
        r, _ = self.check(self.path.pc, f, 3000)
        return r != z3.unsat

    def assume(self, f):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if z3.is_true(f):
            return
        self.path.pc.append(f)

    def prove(self, name, f, node=None):
        if isinstance(f, bool):
            f = z3.BoolVal(f)
        if self.recording and self.mode == 'full':
            t = time.time()
            o = Ob()
            o.name, o.fn, o.loc = name, '/'.join(self.fnstack), self.where(node)
            o.model, o.why, o.backend = None, '', 'z3'
            g = z3.simplify(f)
            if z3.is_true(g):
                o.ok, o.backend = True, 'simplifier'
            else:
                r, s = self.check(self.path.pc, z3.Not(f))
                if r == z3.sat:
                    s2 = self.solver(self.path.pc, None, full=True)
                    s2.add(z3.Not(f))
                    r2 = s2.check()
                    if r2 != z3.unknown:
                        r, s = r2, s2
                o.ok = r == z3.unsat
                if r == z3.unknown:
                    ok, why = self.second_opinion(self.path.pc, f)
                    if ok:
                        o.ok, o.backend = True, 'cvc5'
                    else:
                        o.why = 'unknown (z3 timeout); cvc5: ' + why
                elif r == z3.sat:
                    o.why = 'counterexample'
                    o.model = s.model()
            o.time = time.time() - t
            self.obs.append(o)
            if not o.ok and self.DEBUG:
                print('FAILED', o.name, o.fn, o.loc, o.why)
        self.assume(f)

    def second_opinion(self, pc, f):
        import subprocess, tempfile, os
        s = self.solver(pc, None, [f])
        s.add(z3.Not(f))
        txt = '(set-logic ALL)\n' + s.to_smt2().replace('(set-info :status unknown)', '')
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as fh:
            fh.write(txt)
        try:
            r = subprocess.run(['cvc5', '--tlimit=20000', fh.name], capture_output=True, text=True, timeout=40)
            out = r.stdout.strip().splitlines()[:1]
            return out == ['unsat'], str(out)
        except Exception as e:
            return False, str(e)[:80]
        finally:
            os.unlink(fh.name)

    def where(self, node):
        n = node or {}
        for k in ('range',):
            r = n.get(k, {}).get('begin', {})
            r = r.get('expansionLoc', r)
            if 'line' in r:
                return str(r['line'])
        return ''

    # ---------------------------------------------------------------- exploration
    def explore(self, fn, store, pc, recording=None, ghost=True):
        """run fn() on every feasible path from (store,pc); returns [(path, outcome)]"""
        saved = (self.path, self.recording, self.frame, self.depth)
        if recording is not None:
            self.recording = recording
        self.uid += 1
        uid = self.uid
        work, out = [[]], []
        n = 0
        base_frame = self.frame
        env_len, this_len, fn_len = len(self.env_stack), len(self.this_stack), len(self.fnstack)
        try:
            while work:
                pre = work.pop()
                n += 1
                if n > self.max_paths:
                    raise Unsupported('too many paths')
                p = Path(store, pc, pre, uid)
                p.work = work
                p.wlogs = [set()]
                self.path = p
                self.frame = base_frame
                del self.env_stack[env_len:]
                del self.this_stack[this_len:]
                del self.fnstack[fn_len:]
                envsave = dict(self.env_stack[-1])
                try:
                    r = ('normal', fn())
                except Brk:
                    r = ('break', None)
                except Cont:
                    r = ('continue', None)
                except Ret as e:
                    r = ('return', e.v)
                except Throw as e:
                    r = ('throw', e)
                except Infeasible:
                    if os.environ.get('INF'):
                        traceback.print_exc()
                    r = None
                self.env_stack[-1] = envsave
                if r is not None:
                    out.append((p, r))
        finally:
            del self.env_stack[env_len:]
            del self.this_stack[this_len:]
            del self.fnstack[fn_len:]
            self.path, self.recording, self.frame, self.depth = saved
        return out

    def choose(self, c):
        if isinstance(c, bool):
            return c
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        p = self.path
        if p.pos < len(p.prefix):
            d = p.prefix[p.pos]
        else:
            nc = z3.Not(c)
            t, f = self.feasible(c), self.feasible(nc)
            if not t and not f:
                raise Infeasible()
            d = t
            if t and f:
                p.work.append(p.prefix[:p.pos] + [False])
            p.prefix = p.prefix[:p.pos] + [d]
        p.pos += 1
        p.pc.append(c if d else z3.Not(c))
        return d

    def choose_n(self, n):
        p = self.path
        if n == 0:
            raise Infeasible()
        if n == 1:
            return 0
        if p.pos < len(p.prefix):
            d = p.prefix[p.pos]
        else:
            d = 0
            for k in range(n - 1, 0, -1):
                p.work.append(p.prefix[:p.pos] + [k])
            p.prefix = p.prefix[:p.pos] + [d]
        p.pos += 1
        return d

    # ---------------------------------------------------------------- fresh values
    def nm(self, hint):
        p = self.path
        p.nf += 1
        return '%s!%d.%d' % (hint, p.uid, p.nf)

    def fresh(self, ty, hint='v'):
        v = self.fresh_at(ty, self.nm(hint))
        return v

    def kind(self, ty):
        ty = strip_ref(norm(ty)) if ty else ty
        return ty

    def is_enum(self, ty):
        return ty in self.u.enumtypes or any(e.endswith('::' + ty) or ty.endswith('::' + e) for e in self.u.enumtypes)

    def sort_of(self, ty):
        if ty == 'bool':
            return B
        if ty in INTS:
            return I
        if ty in FLOATS:
            return SORT[FLOATS[ty]]
        if ty.startswith('basic_string<') or ty == 'string':
            return STR
        if ty.startswith('unique_ptr<') or self.is_enum(ty) or self.is_handle_ptr(ty) or '(*)' in ty:
            return I
        return None

    def poly(self, ty):
        return ty.split('<')[0] in ('DSP', 'Signal', 'Matcher', 'Envelope')

    def is_handle_ptr(self, ty):
        return ty.endswith('*') and self.poly(ty[:-1].strip())

    def fresh_at(self, ty, name):
        """symbolic value of a type under the given name"""
        ty = norm(ty)
        s = self.sort_of(ty)
        if s is not None:
            t = z3.Const(name, s)
            if s is STR:
                return StrV((t,))
            r = range_of(ty)
            if r:
                self.assume(z3.And(t >= r[0], t <= r[1]))
            elif s is I and ty.startswith('unique_ptr'):
                self.assume(t >= 0)
            return t
        if ty.startswith('vector<'):
            el = split_args(ty)[0]
            size = z3.Const(name + '.size', I)
            self.assume(z3.And(size >= 0, size < TWO(60)))
            blk = None
            v = Vec(el, size, self.fresh_arr(el, name + '.data', 1), blk)
            if self.track_blocks():
                v.blk = z3.Const(name + '.blk', I)
                self.assume(v.blk > 0)
            return v
        if ty.startswith('AudioBuffer<') and 'AudioBuffer' in self.abstract:
            nc, nf = z3.Const(name + '.nc', I), z3.Const(name + '.nf', I)
            self.assume(z3.And(nc >= 0, nf >= 0, nc < TWO(60), nf < TWO(60)))
            return Buf(ty, nc, nf, self.fresh_arr(split_args(ty)[0], name + '.data', 2))
        if ty.startswith('unordered_map<'):
            return self.fresh_map(split_args(ty)[1], name)
        if ty.startswith('unordered_set<'):
            f = z3.Function(name + '.has', STR, B)
            n = z3.Const(name + '.n', I)
            return Struct('unordered_set', {'has': SetArr(lambda k: f(k)), 'n': n})
        if ty.startswith('basic_stringstream') or ty.startswith('basic_ostream') or ty in ('stringstream', 'ostringstream', 'ostream'):
            return Stream((('opaque', name),))
        c = self.u.find_class(ty)
        if c is not None:
            return Struct(c.name, {k: self.fresh_at(t, name + '.' + k) for k, t in self.all_fields(c)})
        if ty.endswith('*'):
            if self.track_blocks():
                b, o = z3.Const(name + '.pb', I), z3.Const(name + '.po', I)
                return SymPtr(b, o)
            if ty.startswith('char') or ty == 'char*':
                return StrV((z3.Const(name, STR),))
        return Undef(ty)

    def track_blocks(self):
        return 'AudioBuffer' not in self.abstract

    def fresh_arr(self, el, name, n, elemassume=True):
        el = norm(el)
        s = self.sort_of(el)
        me = self
        if s is not None:
            f = z3.Function(name, *([I] * n + [s]))
            r = range_of(el)
            seen = set()

            def rd(*k):
                t = f(*k)
                if s is STR:
                    return StrV((t,))
                if r is not None and t.get_id() not in seen:
                    seen.add(t.get_id())
                    me.keepalive.append(t)
                    me.axioms_extra.append(z3.And(t >= r[0], t <= r[1]))
                return t
            return FArr(rd, n)
        c = self.u.find_class(el)
        if c is not None:
            parts = {k: self.fresh_arr(t, name + '.' + k, n) for k, t in self.all_fields(c)}
            return FArr(lambda *k: Struct(c.name, {f: a.read(*k) for f, a in parts.items()}), n)
        if el.endswith('*') and self.track_blocks():
            fb, fo = z3.Function(name + '.pb', *([I] * n + [I])), z3.Function(name + '.po', *([I] * n + [I]))
            return FArr(lambda *k: SymPtr(fb(*k), fo(*k)), n)
        if el.startswith('vector<'):
            e2 = split_args(el)[0]
            fs = z3.Function(name + '.size', *([I] * n + [I]))
            inner = self.fresh_arr(e2, name + '.el', n + 1)

            def rdv(*k):
                sz = fs(*k)
                me.keepalive.append(sz)
                me.axioms_extra.append(sz >= 0)
                return Vec(e2, sz, FArr(lambda j: inner.read(*(tuple(k) + (j,)))))
            return FArr(rdv, n)
        return FArr(lambda *k: Undef(el), n)

    def fresh_map(self, vty, name):
        has = z3.Function(name + '.has', I, B)
        keyat = z3.Function(name + '.keyat', I, I)
        pos = z3.Function(name + '.pos', I, I)
        size = z3.Const(name + '.size', I)
        self.assume(size >= 0)
        me = self
        seen = set()

        def rd(k):
            t = has(k)
            if t.get_id() not in seen:
                seen.add(t.get_id())
                me.keepalive.append(t)
                me.axioms_extra.append(z3.Implies(t, z3.And(pos(k) >= 0, pos(k) < size, keyat(pos(k)) == k)))
            return t

        def ka(i):
            t = keyat(i)
            there = rd(t)       # on every path: facts known about every key are then known about this one
            if ('k', t.get_id()) not in seen:
                seen.add(('k', t.get_id()))
                me.keepalive.append(t)
                me.axioms_extra.append(z3.Implies(z3.And(i >= 0, i < size), z3.And(there, pos(t) == i)))
                me.axioms_extra.append(z3.And(t >= -TWO(31), t < TWO(31)))
            return t
        m = Map(vty, FArr(rd), self.fresh_arr(vty, name + '.val', 1), size, ka, lambda k: pos(k))
        return m

    def all_fields(self, c):
        out = []
        for b in c.bases:
            bc = self.u.find_class(b)
            if bc is not None:
                out += self.all_fields(bc)
        for f in c.fields:
            out.append((f['name'], norm(qtype(f))))
        return out

    # ---------------------------------------------------------------- store
    def get(self, lv, store=None):
        store = self.path.store if store is None else store
        if isinstance(lv, HLV):
            return lv
        v = store[lv.root]
        for s in lv.path:
            v = self.proj(v, s)
        return v

    def proj(self, v, s):
        if s[0] == 'f':
            if isinstance(v, Struct):
                if s[1] not in v.fields:
                    raise Unsupported('field %s of %s' % (s[1], v.ty))
                return v.fields[s[1]]
            if isinstance(v, Buf):
                if s[1] in ('m_numChannels',):
                    return v.nc
                if s[1] in ('m_numFrames',):
                    return v.nf
            raise Unsupported('field %s of %s' % (s[1], type(v).__name__))
        if s[0] == 'i':
            if isinstance(v, Vec):
                return v.arr.read(s[1])
            raise Unsupported('index of %s' % type(v).__name__)
        if s[0] == 'b':
            return v.data.read(s[1], s[2])
        if s[0] == 'm':
            return v.val.read(s[1])
        raise Unsupported('proj')

    def upd(self, v, path, new):
        if not path:
            return new
        s, rest = path[0], path[1:]
        if s[0] == 'f':
            if isinstance(v, Buf):
                raise Unsupported('write to a field of an abstract buffer')
            if isinstance(v, Undef):     # uninitialised object of a library type: fields appear as they are written
                v = Struct(v.ty, {})
            if not isinstance(v, Struct):
                raise Unsupported('write to field of %s' % type(v).__name__)
            return v.set(s[1], self.upd(v.fields[s[1]] if rest else None, rest, new))
        if s[0] == 'i':
            nv = self.upd(v.arr.read(s[1]), rest, new) if rest else new
            return Vec(v.elem, v.size, v.arr.write((s[1],), self.storable(nv)), v.blk)
        if s[0] == 'b':
            return Buf(v.ty, v.nc, v.nf, v.data.write((s[1], s[2]), new))
        if s[0] == 'm':
            nv = self.upd(v.val.read(s[1]), rest, new) if rest else new
            return Map(v.vty, v.has, v.val.write((s[1],), self.storable(nv)), v.size, v.keyat, v.pos)
        raise Unsupported('upd')

    def storable(self, v):
        if isinstance(v, Ptr) and self.track_blocks():
            return self.to_symptr(v)
        return v

    def to_symptr(self, v):
        if isinstance(v, SymPtr):
            return v
        if v.kind == 'null':
            return SymPtr(z3.IntVal(0), z3.IntVal(0))
        if v.kind == 'vec':
            vec = self.get(v.lv)
            return SymPtr(vec.blk, v.ix[0])
        raise Unsupported('pointer stored in memory: %r' % v)

    def put(self, lv, new):
        if isinstance(lv, HLV):
            raise Unsupported('assignment to polymorphic object')
        p = self.path
        p.store[lv.root] = self.upd(p.store[lv.root], lv.path, new) if lv.path else new
        fields, mode = [], 'whole'
        for s in lv.path:
            if s[0] == 'f':
                fields.append(s[1])
            else:
                mode = 'elem'
                break
        self.log(lv.root, tuple(fields), mode)

    def log(self, root, fields, mode):
        for w in self.path.wlogs:
            w.add((root, fields, mode))

    def alloc(self, root, ty, v):
        self.roottype[root] = ty
        self.path.store[root] = v
        return LV(root)

    def temp(self, ty, v):
        p = self.path
        p.nf += 1
        return self.alloc('t:%d.%d' % (p.uid, p.nf), ty, v)

    def rv(self, x):
        """value of an lvalue-or-value"""
        if isinstance(x, LV):
            v = self.get(x)
            if isinstance(v, Undef):
                # reading an indeterminate value
                raise Unsupported('read of an uninitialised %s (%s)' % (v.ty, x))
            return v
        return x

    # ---------------------------------------------------------------- integer semantics
    def wrap(self, t, ty, node=None):
        r = range_of(ty)
        if r is None:
            return t
        if z3.is_int_value(t):
            v = t.as_long()
            n = r[1] - r[0] + 1
            return z3.IntVal((v - r[0]) % n + r[0])
        return t

    def arith(self, op, a, b, ty, node):
        r = range_of(ty)
        if op == '+':
            t = a + b
        elif op == '-':
            t = a - b
        elif op == '*':
            t = self.imul(a, b)
        else:
            raise Unsupported(op)
        t = z3.simplify(t) if z3.is_int_value(a) and z3.is_int_value(b) else t
        if z3.is_int_value(t):
            if r[0] <= t.as_long() <= r[1]:
                return t
        if r is None:
            return t
        if INTS[ty][0]:
            self.prove('signed arithmetic does not overflow', z3.And(t >= r[0], t <= r[1]), node)
            return t
        n = r[1] + 1
        if z3.is_int_value(t):
            return z3.IntVal(t.as_long() % n)
        if op == '+':
            return z3.If(t >= n, t - n, t)
        if op == '-':
            return z3.If(t < 0, t + n, t)
        if z3.is_int_value(a) or z3.is_int_value(b):
            return z3.If(t < n, t, t % n)
        # product of two unknowns: obligation-free only when it cannot wrap
        if self.mode == 'full' and not self.nowrap_mul:
            self.prove('product is representable', t < n, node)
        return t

    nowrap_mul = False

    def imul(self, a, b):
        return a * b

    def udiv(self, a, b, node):
        self.prove('division by zero does not happen', b != 0, node)
        if z3.is_int_value(a) and z3.is_int_value(b):
            return z3.IntVal(abs(a.as_long()) // abs(b.as_long()) * (1 if a.as_long() * b.as_long() >= 0 else -1))
        if z3.is_int_value(b) and b.as_long() > 0:
            q = z3.If(a >= 0, a / b, -((-a) / b))
            return q
        f = z3.Function('idiv', I, I, I)
        t = f(a, b)
        self.axioms_extra.append(z3.Implies(z3.And(a >= 0, b > 0), z3.And(t >= 0, t <= a, b * t <= a, a < b * t + b)))
        self.keepalive.append(t)
        return t

    def umod(self, a, b, node):
        self.prove('modulo by zero does not happen', b != 0, node)
        if z3.is_int_value(b) and b.as_long() > 0:
            if z3.is_int_value(a):
                v = a.as_long()
                return z3.IntVal(v % b.as_long() if v >= 0 else -((-v) % b.as_long()))
            return z3.If(a >= 0, a % b, -((-a) % b))
        return self.modf(a, b)

    def modf(self, a, b):
        f = z3.Function('imod', I, I, I)
        t = f(a, b)
        k = ('mod', t.get_id())
        if k not in self.fp.seen:
            self.fp.seen.add(k)
            self.keepalive.append(t)
            g = z3.And(a >= 0, b > 0)
            self.axioms_extra.append(z3.Implies(g, z3.And(t >= 0, t < b, t <= a)))
            self.axioms_extra.append(z3.Implies(z3.And(g, a < b), t == a))
            self.axioms_extra.append(z3.Implies(z3.And(g, a >= b, a < 2 * b), t == a - b))
        return t

    def icast(self, t, fr, to, node=None):
        r, q = range_of(to), range_of(fr)
        if r is None:
            return t
        if q is not None and q[0] >= r[0] and q[1] <= r[1]:
            return t
        if z3.is_int_value(t):
            return self.wrap(t, to)
        n = r[1] - r[0] + 1
        if r[0] == 0 and q is not None and q[1] < n:
            return z3.If(t < 0, t + n, t)
        if r[0] == 0:
            if q is None and False:
                return t
            return z3.If(z3.And(t >= 0, t < n), t, t % n)
        return z3.If(z3.And(t >= r[0], t <= r[1]), t, (t - r[0]) % n + r[0])

    def tobool(self, v, node=None):
        if isinstance(v, bool):
            return z3.BoolVal(v)
        if z3.is_expr(v):
            if v.sort() == B:
                return v
            if v.sort() == I:
                return v != 0
            if v.sort() in BITS:
                return self.fp.ne(v, self.fp.lit(0.0, BITS[v.sort()]))
        if isinstance(v, Ptr):
            return z3.BoolVal(v.kind != 'null')
        if isinstance(v, SymPtr):
            return v.blk != 0
        if isinstance(v, StrV) or (isinstance(v, str)):
            return z3.BoolVal(True)     # a string literal
        raise Unsupported('truth of %r' % (v,))

    def toint(self, v):
        if z3.is_expr(v) and v.sort() == B:
            return z3.If(v, z3.IntVal(1), z3.IntVal(0))
        return v

    # ---------------------------------------------------------------- expressions
    def ty(self, node):
        return strip_ref(norm(qtype(node)))

    def ev(self, n):
        k = n.get('kind')
        m = getattr(self, 'x_' + k, None)
        if m is None:
            raise Unsupported('expression %s' % k)
        return m(n)

    def rve(self, n):
        return self.rv(self.ev(n))

    def x_ParenExpr(self, n):
        return self.ev(n['inner'][0])
    x_ExprWithCleanups = x_CXXBindTemporaryExpr = x_ConstantExpr = x_ParenExpr
    x_SubstNonTypeTemplateParmExpr = x_ParenExpr

    def x_MaterializeTemporaryExpr(self, n):
        v = self.ev(n['inner'][0])
        if isinstance(v, (LV, HLV)):
            return v
        return self.temp(self.ty(n), v)

    def x_IntegerLiteral(self, n):
        return z3.IntVal(int(n['value']))

    def x_CharacterLiteral(self, n):
        return z3.IntVal(int(n['value']))

    def x_CXXBoolLiteralExpr(self, n):
        return z3.BoolVal(bool(n['value']))

    def x_FloatingLiteral(self, n):
        b = FLOATS[self.ty(n)]
        return self.fp.lit(float(n['value']), b)

    def x_StringLiteral(self, n):
        import json
        s = n['value']
        try:
            s = json.loads(s)
        except Exception:
            s = s[1:-1]
        return StrV((s,))

    def x_CXXNullPtrLiteralExpr(self, n):
        return Ptr('null')
    x_GNUNullExpr = x_CXXNullPtrLiteralExpr

    def x_CXXThisExpr(self, n):
        t = self.this_stack[-1]
        if isinstance(t, HLV):
            return t.term
        return Ptr('obj', t)

    def x_CXXDefaultArgExpr(self, n):
        if n.get('inner'):
            return self.ev(n['inner'][0])
        raise Unsupported('default argument without expression')

    def x_CXXDefaultInitExpr(self, n):
        return self.ev(n['inner'][0])

    def x_CXXScalarValueInitExpr(self, n):
        return self.zero(self.ty(n))

    x_ImplicitValueInitExpr = x_CXXScalarValueInitExpr

    def zero(self, ty):
        ty = norm(ty)
        if ty == 'bool':
            return z3.BoolVal(False)
        if ty in INTS or self.is_enum(ty):
            return z3.IntVal(0)
        if ty in FLOATS:
            return self.fp.lit(0.0, FLOATS[ty])
        if ty.startswith('unique_ptr<') or self.is_handle_ptr(ty):
            return z3.IntVal(0)
        if ty.endswith('*'):
            return Ptr('null') if not self.track_blocks() else SymPtr(z3.IntVal(0), z3.IntVal(0))
        if ty.startswith('basic_string<'):
            return StrV(())
        if ty.startswith('vector<'):
            return self.new_vec(split_args(ty)[0], z3.IntVal(0))
        c = self.u.find_class(ty)
        if c is not None:
            return Struct(c.name, {k: self.zero(t) for k, t in self.all_fields(c)})
        return Undef(ty)

    def new_vec(self, el, size, arr=None):
        v = Vec(el, size, arr if arr is not None else FArr(lambda k: self.zero(el)))
        if self.track_blocks():
            v.blk = self.new_block()
        return v

    def new_block(self):
        """identity of a newly allocated storage block: different from every block in the store"""
        b = z3.Const(self.nm('blk'), I)
        self.assume(b > 0)
        for t in self.live_blocks():
            self.assume(b != t)
        return b

    def live_blocks(self):
        out = []

        def w(v):
            if isinstance(v, Vec) and v.blk is not None:
                out.append(v.blk)
            elif isinstance(v, Struct):
                for x in v.fields.values():
                    w(x)
        for v in self.path.store.values():
            w(v)
        return out

    def x_DeclRefExpr(self, n):
        d = n['referencedDecl']
        k = d['kind']
        if k == 'EnumConstantDecl':
            if d['id'] in self.u.enums:
                return z3.IntVal(self.u.enums[d['id']])
            # an enumerator outside hart:: (e.g. dr_wav): named constant
            return z3.Const('enum:' + d['name'], I)
        if k in ('FunctionDecl', 'CXXMethodDecl'):
            return FnRef(d)
        env = self.env_stack[-1]
        if d['id'] in env:
            return env[d['id']]
        return self.global_ref(d)

    def global_ref(self, d):
        nm = d['name']
        root = 'g:' + nm
        if root in self.path.store:
            return LV(root)
        ty = norm(qtype(d))
        g = self.u.byid.get(d['id'])
        if nm in ('cout', 'cerr', 'clog'):
            return self.alloc(root, 'ostream', Stream(()))
        if g is not None and g.get('inner'):
            init = [i for i in g['inner'] if i.get('kind', '').endswith(('Expr', 'Literal', 'Operator'))]
            if init:
                v = self.rve(init[0])
                return self.alloc(root, ty, v)
        hook = self.globals_init.get(nm)
        if hook is not None:
            return self.alloc(root, ty, hook(self))
        raise Unsupported('global %s' % nm)

    def x_MemberExpr(self, n):
        nm = n['name']
        b = self.ev(n['inner'][0])
        if n.get('isArrow'):
            b = self.rv(b)
            b = self.deref(b, n)
        if isinstance(b, HLV):
            raise Unsupported('member %s of polymorphic object' % nm)
        if not isinstance(b, LV):
            b = self.temp(self.ty(n['inner'][0]), b)
        md = self.u.byid.get(n.get('referencedMemberDecl'))
        v = self.get(b)
        if isinstance(v, MapPair):
            if nm == 'first':
                return self.temp('int', v.key)
            return v.lv.m(v.key)
        if isinstance(v, Struct) and nm not in v.fields and md is None and self.u.find_class(v.ty) is not None:
            raise Unsupported('member %s' % nm)
        return b.f(nm)

    def deref(self, p, node=None):
        if isinstance(p, Ptr):
            if p.kind == 'null':
                self.prove('pointer is not null', False, node)
                raise Infeasible()
            if p.kind == 'obj':
                return p.lv
            if p.kind == 'vec':
                v = self.get(p.lv)
                self.prove('element access within the storage', z3.And(p.ix[0] >= 0, p.ix[0] < v.size), node)
                return p.lv.i(p.ix[0])
            if p.kind == 'row':
                v = self.get(p.lv)
                c, o = p.ix
                self.prove('sample access within the buffer', z3.And(c >= 0, c < v.nc, o >= 0, o < v.nf), node)
                return p.lv.b(c, o)
            if p.kind == 'rows':
                v = self.get(p.lv)
                self.prove('channel within the buffer', z3.And(p.ix[0] >= 0, p.ix[0] < v.nc), node)
                return self.temp('float *', Ptr('row', p.lv, p.ix[0], z3.IntVal(0)))
        if isinstance(p, SymPtr):
            return self.resolve(p, node)
        if isinstance(p, MapIt):
            self.prove('iterator refers to an element', self.mapit_valid(p), node)
            return self.temp('pair', MapPair(p.lv, p.key))
        if isinstance(p, Struct) and p.ty == 'vecit':
            return self.deref(p.fields['p'], node)
        if isinstance(p, Struct) and p.ty == 'rvecit':
            return self.deref(self.ptradd(p.fields['p'], z3.IntVal(-1)), node)
        if z3.is_expr(p) and p.sort() == I:
            self.prove('object pointer is not null', p != 0, node)
            return HLV('obj', p)
        raise Unsupported('dereference of %r' % (p,))

    def resolve(self, p, node, count=None):
        """block pointer -> vector storage it points into"""
        cands = []

        def w(v, lv):
            if isinstance(v, Vec) and v.blk is not None:
                cands.append((lv, v))
            elif isinstance(v, Struct):
                for f, x in v.fields.items():
                    w(x, lv.f(f))
        for r, v in self.path.store.items():
            w(v, LV(r))
        for lv, v in cands:
            if v.blk.eq(p.blk):
                return self.resolved(lv, v, p, node)
        for lv, v in cands:
            r, _ = self.check(self.path.pc, p.blk != v.blk, 3000)
            if r == z3.unsat:
                return self.resolved(lv, v, p, node)
        # into one of several pieces of storage, depending on a condition
        parts = {}
        from .loops import subterms
        subterms(p.blk, parts)
        maybe = [(lv, v) for lv, v in cands if v.blk.get_id() in parts]
        if maybe:
            self.prove('pointer refers to live storage', z3.Or(*[p.blk == v.blk for lv, v in maybe]), node)
        for lv, v in maybe:
            if self.choose(p.blk == v.blk):
                return self.resolved(lv, v, p, node)
        self.prove('pointer refers to live storage', False, node)
        raise Infeasible()

    def resolved(self, lv, v, p, node):
        self.prove('element access within the storage', z3.And(p.off >= 0, p.off < v.size), node)
        return lv.i(p.off)

    def resolve_range(self, p, node):
        """(lv of vector, offset) of a block pointer, without access"""
        if isinstance(p, Ptr) and p.kind == 'vec':
            return p.lv, p.ix[0]
        if isinstance(p, SymPtr):
            save = self.recording
            cands = []

            def w(v, lv):
                if isinstance(v, Vec) and v.blk is not None:
                    cands.append((lv, v))
                elif isinstance(v, Struct):
                    for f, x in v.fields.items():
                        w(x, lv.f(f))
            for r, v in self.path.store.items():
                w(v, LV(r))
            for lv, v in cands:
                if v.blk.eq(p.blk):
                    return lv, p.off
            for lv, v in cands:
                r, _ = self.check(self.path.pc, p.blk != v.blk, 3000)
                if r == z3.unsat:
                    return lv, p.off
        return None, None

    def ptradd(self, p, k, node=None):
        if isinstance(p, Ptr):
            if p.kind in ('vec', 'rows'):
                return Ptr(p.kind, p.lv, p.ix[0] + k)
            if p.kind == 'row':
                return Ptr('row', p.lv, p.ix[0], p.ix[1] + k)
            if p.kind == 'null':
                return p
        if isinstance(p, SymPtr):
            return SymPtr(p.blk, p.off + k)
        if isinstance(p, Struct) and p.ty == 'vecit':
            return Struct('vecit', {'p': self.ptradd(p.fields['p'], k)})
        if isinstance(p, Struct) and p.ty == 'rvecit':
            return Struct('rvecit', {'p': self.ptradd(p.fields['p'], -k)})
        if isinstance(p, StrV):
            return Struct('strptr', {'s': p, 'o': k})
        raise Unsupported('pointer arithmetic on %r' % (p,))

    def ptrdiff(self, a, b):
        if isinstance(a, Struct) and a.ty == 'rvecit' and isinstance(b, Struct) and b.ty == 'rvecit':
            a, b = b.fields['p'], a.fields['p']
        if isinstance(a, Struct) and a.ty == 'vecit':
            a = a.fields['p']
        if isinstance(b, Struct) and b.ty == 'vecit':
            b = b.fields['p']
        if isinstance(a, Ptr) and isinstance(b, Ptr) and a.kind == b.kind and a.lv == b.lv:
            if a.kind == 'row':
                if self.check(self.path.pc, a.ix[0] != b.ix[0])[0] == z3.unsat:
                    return a.ix[1] - b.ix[1]
                raise Unsupported('difference of pointers into different channels')
            return a.ix[0] - b.ix[0]
        if isinstance(a, SymPtr) and isinstance(b, SymPtr):
            return a.off - b.off
        raise Unsupported('pointer difference')

    def x_ArraySubscriptExpr(self, n):
        a, b = self.rve(n['inner'][0]), self.rve(n['inner'][1])
        if isinstance(a, StrV):
            return self.temp('char', self.char_at(a, b))
        return self.deref(self.ptradd(a, b, n), n)

    def char_at(self, s, i):
        f = z3.Function('charat', STR, I, I)
        t = f(self.str_term(s), i)
        self.keepalive.append(t)
        self.axioms_extra.append(z3.And(t >= -128, t <= 127))
        return t

    def str_term(self, s):
        return str_term(s)

    def str_len(self, s):
        n = 0
        out = None
        for p in s.parts:
            if isinstance(p, str):
                n += len(p)
            else:
                t = z3.Function('strlen', STR, I)(p if z3.is_expr(p) else self.str_term(StrV((p,))))
                self.keepalive.append(t)
                self.axioms_extra.append(z3.And(t >= 0, t < TWO(40)))
                out = t if out is None else out + t
        return z3.IntVal(n) if out is None else out + n

    def x_UnaryOperator(self, n):
        op = n['opcode']
        e = n['inner'][0]
        if op == '&':
            v = self.ev(e)
            if isinstance(v, HLV):
                return v.term
            if isinstance(v, FnRef):
                return v
            if v.path and v.path[-1][0] == 'i':
                return Ptr('vec', LV(v.root, v.path[:-1]), v.path[-1][1])
            if v.path and v.path[-1][0] == 'b':
                return Ptr('row', LV(v.root, v.path[:-1]), v.path[-1][1], v.path[-1][2])
            return Ptr('obj', v)
        if op == '*':
            v = self.rve(e)
            if isinstance(v, FnRef):
                return v
            return self.deref(v, n)
        ty = self.ty(n)
        if op in ('++', '--'):
            lv = self.ev(e)
            old = self.rv(lv)
            d = z3.IntVal(1)
            if isinstance(old, (Ptr, SymPtr)):
                new = self.ptradd(old, d if op == '++' else -d, n)
            elif old.sort() in BITS:
                o = self.fp.lit(1.0, BITS[old.sort()])
                new = self.fp.add(old, o) if op == '++' else self.fp.sub(old, o)
            else:
                new = self.arith('+' if op == '++' else '-', old, d, ty, n)
            self.put(lv, new)
            return old if n.get('isPostfix') else lv
        v = self.rve(e)
        if op == '!':
            return z3.Not(self.tobool(v))
        if op == '-':
            if v.sort() in BITS:
                return self.fp.neg(v)
            v = self.toint(v)
            return self.arith('-', z3.IntVal(0), v, ty, n)
        if op == '+':
            return self.toint(v)
        if op == '~':
            r = range_of(ty)
            return (-v - 1) if r[0] < 0 else (r[1] - v)
        raise Unsupported('unary ' + op)

    def cmp(self, op, a, b, node=None):
        if isinstance(a, Struct) and a.ty == 'rvecit' and isinstance(b, Struct) and b.ty == 'rvecit':
            a, b = b.fields['p'], a.fields['p']
        if isinstance(a, Struct) and a.ty == 'vecit':
            a = a.fields['p']
        if isinstance(b, Struct) and b.ty == 'vecit':
            b = b.fields['p']
        if isinstance(a, (Ptr, SymPtr)) or isinstance(b, (Ptr, SymPtr)):
            return self.ptrcmp(op, a, b)
        if isinstance(a, StrV) and isinstance(b, StrV):
            e = z3.BoolVal(a.parts == b.parts) if all(isinstance(p, str) for p in a.parts + b.parts) else self.str_term(a) == self.str_term(b)
            if op == '==':
                return e
            if op == '!=':
                return z3.Not(e)
            raise Unsupported('string order')
        if isinstance(a, FnRef) or isinstance(b, FnRef):
            raise Unsupported('function pointer comparison')
        if isinstance(a, MapIt) and isinstance(b, MapIt):
            e = self.mapit_eq(a, b)
            return e if op == '==' else z3.Not(e)
        if a.sort() in BITS:
            f = self.fp
            return {'<': lambda: f.lt(a, b), '>': lambda: f.lt(b, a), '<=': lambda: f.le(a, b), '>=': lambda: f.le(b, a),
                    '==': lambda: f.eq(a, b), '!=': lambda: f.ne(a, b)}[op]()
        if a.sort() == B and b.sort() == B:
            if op == '==':
                return a == b
            if op == '!=':
                return a != b
        a, b = self.toint(a), self.toint(b)
        return {'<': lambda: a < b, '>': lambda: a > b, '<=': lambda: a <= b, '>=': lambda: a >= b,
                '==': lambda: a == b, '!=': lambda: a != b}[op]()

    def mapit_valid(self, it):
        if it.key is None:
            return z3.BoolVal(False) if it.end is True else z3.Not(it.end)
        v = self.get(it.lv)
        e = z3.Not(it.end) if z3.is_expr(it.end) else z3.BoolVal(not it.end)
        return z3.And(e, v.has.read(it.key)) if isinstance(v, Map) else e

    def mapit_eq(self, a, b):
        if a.end is True and b.end is True:
            return z3.BoolVal(True)
        ae = z3.BoolVal(True) if a.end is True else a.end
        be = z3.BoolVal(True) if b.end is True else b.end
        if a.key is None or b.key is None:
            return z3.And(ae, be) if (a.key is None and b.key is None) else (ae if b.key is None else be)
        return z3.Or(z3.And(ae, be), z3.And(z3.Not(ae), z3.Not(be), a.key == b.key))

    def ptrcmp(self, op, a, b):
        if z3.is_expr(a) and isinstance(b, Ptr) and b.kind == 'null':
            return a == 0 if op == '==' else a != 0
        if z3.is_expr(b) and isinstance(a, Ptr) and a.kind == 'null':
            return b == 0 if op == '==' else b != 0
        if isinstance(a, SymPtr) or isinstance(b, SymPtr):
            a, b = self.to_symptr(a), self.to_symptr(b)
            if op == '==':
                return z3.And(a.blk == b.blk, a.off == b.off)
            if op == '!=':
                return z3.Not(z3.And(a.blk == b.blk, a.off == b.off))
            return self.cmp(op, a.off, b.off)
        if a.kind == 'null' or b.kind == 'null':
            e = a.kind == b.kind
            return z3.BoolVal(e if op == '==' else not e)
        if a.kind == 'obj' and b.kind == 'obj':
            e = a.lv == b.lv
            return z3.BoolVal(e if op == '==' else not e)
        if a.kind == b.kind and a.lv == b.lv:
            if a.kind == 'row':
                if op == '==':
                    return z3.And(a.ix[0] == b.ix[0], a.ix[1] == b.ix[1])
                if op == '!=':
                    return z3.Not(z3.And(a.ix[0] == b.ix[0], a.ix[1] == b.ix[1]))
                return self.cmp(op, a.ix[1], b.ix[1])
            return self.cmp(op, a.ix[0], b.ix[0])
        raise Unsupported('pointer comparison %r %r' % (a, b))

    def x_BinaryOperator(self, n):
        op = n['opcode']
        L, R = n['inner'][0], n['inner'][1]
        if op == '=':
            rhs = self.ev(R)
            lhs = self.ev(L)
            self.put(lhs, self.storev(self.rv(rhs)))
            return lhs
        if op == ',':
            self.ev(L)
            return self.ev(R)
        if op in ('&&', '||'):
            a = self.tobool(self.rve(L))
            if op == '&&':
                if z3.is_false(a):
                    return a
                if self.simple(R):
                    return self.And(a, self.tobool(self.rve(R)))
                if not self.choose(a):
                    return z3.BoolVal(False)
                return self.tobool(self.rve(R))
            if z3.is_true(a):
                return a
            if self.simple(R):
                return self.Or(a, self.tobool(self.rve(R)))
            if self.choose(a):
                return z3.BoolVal(True)
            return self.tobool(self.rve(R))
        a, b = self.rve(L), self.rve(R)
        return self.binop(op, a, b, self.ty(n), n)

    @staticmethod
    def And(a, b):
        return z3.And(a, b)

    @staticmethod
    def Or(a, b):
        return z3.Or(a, b)

    SIMPLE = ('DeclRefExpr', 'MemberExpr', 'CXXThisExpr', 'ImplicitCastExpr', 'ParenExpr', 'IntegerLiteral', 'FloatingLiteral',
              'CXXBoolLiteralExpr', 'BinaryOperator', 'UnaryOperator', 'ConstantExpr', 'CXXNullPtrLiteralExpr',
              'CXXStaticCastExpr', 'CStyleCastExpr', 'CXXFunctionalCastExpr')

    def simple(self, n):
        """expression without side effects or obligations"""
        if n.get('kind') not in self.SIMPLE:
            return False
        if n['kind'] == 'UnaryOperator' and n['opcode'] in ('++', '--', '*'):
            return False
        if n['kind'] == 'BinaryOperator' and n['opcode'] in ('=', '/', '%', '&&', '||', ',') and not (n['opcode'] == '/' and self.ty(n) in FLOATS):
            return False
        if n['kind'] == 'BinaryOperator' and n['opcode'] in ('+', '-', '*') and self.ty(n) in INTS and INTS[self.ty(n)] and INTS[self.ty(n)][0]:
            return False
        if n['kind'] == 'MemberExpr' and n.get('isArrow') and n['inner'][0].get('kind') != 'CXXThisExpr':
            return False
        return all(self.simple(i) for i in n.get('inner', []) if i.get('kind'))

    def binop(self, op, a, b, ty, n):
        if op in ('<', '>', '<=', '>=', '==', '!='):
            return self.cmp(op, a, b, n)
        if isinstance(a, (Ptr, SymPtr)) or (isinstance(a, Struct) and a.ty == 'vecit'):
            if op == '+':
                return self.ptradd(a, b, n)
            if op == '-':
                if isinstance(b, (Ptr, SymPtr, Struct)):
                    return self.ptrdiff(a, b)
                return self.ptradd(a, -b, n)
        if isinstance(b, (Ptr, SymPtr)) and op == '+':
            return self.ptradd(b, a, n)
        if z3.is_expr(a) and a.sort() in BITS:
            f = {'+': self.fp.add, '-': self.fp.sub, '*': self.fp.mul, '/': self.fp.div}.get(op)
            if f is None:
                raise Unsupported('float op ' + op)
            return f(a, b)
        if op in ('|', '&', '^') and ty == 'bool' or (z3.is_expr(a) and a.sort() == B and z3.is_expr(b) and b.sort() == B and op in '|&^'):
            a, b = self.tobool(a), self.tobool(b)
            return {'|': z3.Or, '&': z3.And, '^': z3.Xor}[op](a, b)
        a, b = self.toint(a), self.toint(b)
        if op in '+-*':
            return self.arith(op, a, b, ty, n)
        if op == '/':
            return self.udiv(a, b, n)
        if op == '%':
            return self.umod(a, b, n)
        if op == '>>' and z3.is_int_value(b):
            return a / z3.IntVal(1 << b.as_long())
        if op == '<<' and z3.is_int_value(b):
            t = a * (1 << b.as_long())
            r = range_of(ty)
            if r[0] < 0:
                self.prove('shift does not overflow', z3.And(t >= r[0], t <= r[1]), n)
                return t
            return t % (r[1] + 1)
        if op == '&':
            for x, y in ((a, b), (b, a)):
                if z3.is_int_value(y):
                    m = y.as_long()
                    if m >= 0 and (m & (m + 1)) == 0:
                        return x % (m + 1)
            if isinstance(a, z3.ExprRef) and z3.eq(a, b):
                return a
        if op == '|':
            # the recorded part of a bit set: booleans mixed with ints
            if all(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and z3.is_int_value(x.arg(1)) and x.arg(1).as_long() == 1
                   and z3.is_int_value(x.arg(2)) and x.arg(2).as_long() == 0 for x in (a, b)):
                return z3.If(z3.Or(a.arg(0), b.arg(0)), z3.IntVal(1), z3.IntVal(0))
        if op == '&':
            if all(z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE for x in (a, b)):
                return z3.If(z3.And(a != 0, b != 0), z3.IntVal(1), z3.IntVal(0))
        if z3.is_int_value(a) and z3.is_int_value(b):
            x, y = a.as_long(), b.as_long()
            return z3.IntVal({'|': x | y, '&': x & y, '^': x ^ y, '<<': x << y, '>>': x >> y}[op])
        raise Unsupported('operator ' + op)

    def x_CompoundAssignOperator(self, n):
        op = n['opcode'][:-1]
        L, R = n['inner']
        rhs = self.rve(R)
        lv = self.ev(L)
        old = self.rv(lv)
        ct = norm((n.get('computeResultType') or {}).get('desugaredQualType') or (n.get('computeResultType') or {}).get('qualType') or self.ty(n))
        lt = self.ty(L)
        a = self.conv(old, lt, ct, n)
        new = self.binop(op, a, rhs, ct, n)
        self.put(lv, self.storev(self.conv(new, ct, lt, n)))
        return lv

    def conv(self, v, fr, to, n=None):
        if fr == to:
            return v
        if not z3.is_expr(v):
            return v
        if to == 'bool':
            return self.tobool(v)
        if to in FLOATS:
            w = FLOATS[to]
            if v.sort() in BITS:
                return self.fp.cvt(v, w)
            return self.i2f(self.toint(v), w)
        if to in INTS:
            if v.sort() in BITS:
                return self.f2int(v, to, n)
            return self.icast(self.toint(v), fr if v.sort() != B else 'bool', to, n) if v.sort() != B else self.toint(v)
        return v

    def i2f(self, t, w):
        return self.fp.i2f(t, w)

    f2i_checked = True

    def f2int(self, v, to, n):
        r = range_of(to)
        if self.f2i_checked:
            f = self.fp
            w = BITS[v.sort()]
            # truncated value must be representable: lo-1 < v < hi+1
            lo = f.lit(float(r[0]), w)
            hi = f.lit(float(r[1] + 1), w)   # a power of two: exact
            if r[0] == 0:
                ok = z3.And(f.lt(f.lit(-1.0, w), v), f.lt(v, hi))
            elif r[0] - 1 > -(1 << 50) and w == 64:
                ok = z3.And(f.lt(f.lit(float(r[0] - 1), w), v), f.lt(v, hi))
            else:
                ok = z3.And(f.le(lo, v), f.lt(v, hi))
            self.prove('float to integer conversion is in range', ok, n)
        return self.fp.f2i(v)

    def storev(self, v):
        return v

    def x_ImplicitCastExpr(self, n):
        return self.cast(n, n['castKind'])

    def x_CXXStaticCastExpr(self, n):
        return self.cast(n, n['castKind'])
    x_CStyleCastExpr = x_CXXFunctionalCastExpr = x_CXXConstCastExpr = x_CXXReinterpretCastExpr = x_CXXStaticCastExpr

    def cast(self, n, ck):
        e = n['inner'][0]
        if ck == 'LValueToRValue':
            return self.rve(e)
        if ck == 'NoOp':
            v = self.ev(e)
            return v
        if ck in ('FunctionToPointerDecay', 'BuiltinFnToFnPtr', 'ConstructorConversion', 'UserDefinedConversion', 'ArrayToPointerDecay'):
            v = self.ev(e)
            if ck == 'ArrayToPointerDecay' and isinstance(v, LV):
                x = self.get(v)
                if isinstance(x, Vec):
                    return Ptr('vec', v, z3.IntVal(0))
                return x
            return v
        if ck in ('UncheckedDerivedToBase', 'DerivedToBase', 'BitCast', 'BaseToDerived'):
            return self.ev(e)
        v = self.rve(e)
        to, fr = self.ty(n), self.ty(e)
        if ck == 'ToVoid':
            return None
        if ck == 'NullToPointer':
            return Ptr('null')
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean'):
            return self.tobool(v)
        if ck == 'IntegralCast':
            if z3.is_expr(v) and v.sort() == B:
                v = self.toint(v)
                return v
            return self.icast(v, fr, to, n)
        if ck == 'IntegralToFloating':
            return self.i2f(self.toint(v), FLOATS[to])
        if ck == 'FloatingCast':
            return self.fp.cvt(v, FLOATS[to])
        if ck == 'FloatingToIntegral':
            return self.f2int(v, to, n)
        raise Unsupported('cast ' + ck)

    def x_ConditionalOperator(self, n):
        c = self.tobool(self.rve(n['inner'][0]))
        A, Bn = n['inner'][1], n['inner'][2]
        if z3.is_true(c):
            return self.ev(A)
        if z3.is_false(c):
            return self.ev(Bn)
        if n.get('valueCategory') == 'prvalue' and self.simple(A) and self.simple(Bn):
            a, b = self.rve(A), self.rve(Bn)
            if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
                return z3.If(c, a, b)
        return self.ev(A) if self.choose(c) else self.ev(Bn)

    def x_InitListExpr(self, n):
        ty = self.ty(n)
        c = self.u.find_class(ty)
        if c is not None:
            vals = {}
            fs = self.all_fields(c)
            inner = n.get('inner', [])
            for (f, t), e in zip(fs, inner):
                vals[f] = self.rve(e)
            for f, t in fs[len(inner):]:
                vals[f] = self.zero(t)
            return Struct(c.name, vals)
        if len(n.get('inner', [])) == 1:
            return self.ev(n['inner'][0])
        if not n.get('inner'):
            return self.zero(ty)
        if '[' in ty or n.get('array_filler') or True:
            vals = [self.rve(e) for e in n['inner']]
            if all(z3.is_expr(v) for v in vals):
                def rd(k):
                    r = vals[-1]
                    for i in range(len(vals) - 2, -1, -1):
                        r = ite(k == i, vals[i], r)
                    return r
                return Vec(ty.split('[')[0], z3.IntVal(len(vals)), FArr(rd))
        raise Unsupported('initializer list for ' + ty)

    def x_CXXStdInitializerListExpr(self, n):
        return self.ev(n['inner'][0])

    def x_LambdaExpr(self, n):
        return Lambda(n, dict(self.env_stack[-1]), self.this_stack[-1])

    def x_CXXThrowExpr(self, n):
        ty = None
        e = n.get('inner', [None])[0]
        if e is None:
            raise Throw(self.current_exc.ty if getattr(self, 'current_exc', None) else 'rethrow')
        t = self.ty(e)
        val = None
        if t == 'TestAssertException':
            val = self.exc_message(e)
        k = self.contracts.get(('throw', t))
        if k is not None:
            k(self, None, [val], n)
        raise Throw(t, val)

    def exc_message(self, e):
        """evaluate the message of an exception (needed for failure reports)"""
        n = e
        while n.get('kind') in ('CXXConstructExpr', 'MaterializeTemporaryExpr', 'CXXFunctionalCastExpr', 'CXXBindTemporaryExpr', 'ExprWithCleanups', 'ImplicitCastExpr', 'CXXTemporaryObjectExpr') \
                and self.ty(n).split('<')[0] != 'basic_string' and n.get('inner'):
            n = n['inner'][0]
        try:
            return self.rve(n)
        except Unsupported:
            return None

    # ---------------------------------------------------------------- statements
    def ex(self, n):
        k = n.get('kind')
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n)
        self.ev(n)

    def s_CompoundStmt(self, n):
        for i in n.get('inner', []):
            self.ex(i)

    def s_NullStmt(self, n):
        pass

    def s_DeclStmt(self, n):
        for d in n.get('inner', []):
            k = d.get('kind')
            if k == 'VarDecl':
                self.decl(d)
            elif k in ('TypeAliasDecl', 'TypedefDecl', 'StaticAssertDecl', 'UsingDecl', 'UsingDirectiveDecl', 'EmptyDecl', 'CXXRecordDecl', 'EnumDecl'):
                pass
            else:
                raise Unsupported('declaration ' + str(k))

    def decl(self, d):
        ty = norm(qtype(d))
        init = [i for i in d.get('inner', []) if i.get('kind') and not i['kind'].endswith(('Attr', 'Comment'))]
        if d.get('storageClass') == 'static' or d.get('tls'):
            root = 'static:' + d['name'] + ':' + d['id']
            if root not in self.path.store:
                if 'static:' + d['name'] in self.path.store:
                    self.env_stack[-1][d['id']] = LV('static:' + d['name'])
                    return
                if any(t.startswith('CLI::') for _, t in (self.all_fields(self.u.find_class(ty)) if self.u.find_class(ty) else [])):
                    # command line settings: arbitrary, but the same throughout a run
                    lib_trust('CLI11: the command line configuration is arbitrary but fixed')
                    self.alloc(root, ty, self.fresh_at(ty, 'static.' + d['name']))
                else:
                    self.alloc(root, ty, self.rve(init[0]) if init else self.zero(ty))
            self.env_stack[-1][d['id']] = LV(root)
            return
        if is_ref(ty):
            v = self.ev(init[0])
            if not isinstance(v, (LV, HLV)):
                v = self.temp(strip_ref(ty), v)
            self.env_stack[-1][d['id']] = v
            return
        root = 'l:%s:%s:%d' % (d['name'], d['id'], self.frame)
        if init:
            v = self.rv(self.ev(init[0]))
            self.alloc(root, ty, self.storev(v))
        else:
            c = None
            self.alloc(root, ty, self.default(ty))
        self.env_stack[-1][d['id']] = LV(root)

    def default(self, ty):
        if ty.startswith(('vector<', 'basic_string<', 'unique_ptr<', 'shared_ptr<')):
            return self.zero(ty)
        if 'stringstream' in ty:
            return Stream(())
        c = self.u.find_class(ty)
        if c is not None:
            return Struct(c.name, {k: Undef(t) for k, t in self.all_fields(c)})
        return Undef(ty)

    def s_IfStmt(self, n):
        inner = [i for i in n['inner']]
        if n.get('hasInit') or n.get('hasVar'):
            raise Unsupported('if with initialiser')
        c = self.tobool(self.rve(inner[0]))
        if self.choose(c):
            self.ex(inner[1])
        elif len(inner) > 2:
            self.ex(inner[2])

    def s_ReturnStmt(self, n):
        if n.get('inner'):
            v = self.ev(n['inner'][0])
            if not self.ret_ref[-1]:
                v = self.rv(v)
            raise Ret(v)
        raise Ret(None)

    ret_ref = [False]

    def s_BreakStmt(self, n):
        raise Brk()

    def s_ContinueStmt(self, n):
        raise Cont()

    def s_CXXTryStmt(self, n):
        body, handlers = n['inner'][0], n['inner'][1:]
        try:
            self.ex(body)
        except Throw as e:
            for h in handlers:
                var = None
                hb = h['inner'][-1]
                vs = [i for i in h['inner'] if i.get('kind') == 'VarDecl']
                if vs:
                    var = vs[0]
                    ct = strip_ref(norm(qtype(var)))
                    if not self.exc_is(e.ty, ct):
                        continue
                    if var.get('id'):
                        self.env_stack[-1][var['id']] = self.temp(ct, Struct('exc', {'what': e.val if e.val is not None else StrV((z3.Const(self.nm('what'), STR),)), 'ty': e.ty}))
                save = getattr(self, 'current_exc', None)
                self.current_exc = e
                try:
                    self.ex(hb)
                finally:
                    self.current_exc = save
                return
            raise

    STD_EXC = {'runtime_error': ['exception'], 'logic_error': ['exception'], 'out_of_range': ['logic_error'],
               'invalid_argument': ['logic_error'], 'exception': [], 'bad_alloc': ['exception'], 'domain_error': ['logic_error'],
               'length_error': ['logic_error'], 'range_error': ['runtime_error'], 'system_error': ['runtime_error'],
               'filesystem_error': ['system_error']}

    def exc_is(self, t, base):
        if t == base:
            return True
        c = self.u.find_class(t)
        bs = c.bases if c is not None else self.STD_EXC.get(t, [])
        return any(self.exc_is(b, base) for b in bs)

    def s_SwitchStmt(self, n):
        inner = n['inner']
        v = self.toint(self.rve(inner[0]))
        body = inner[-1]
        flat = []          # (labels, stmt)

        def add(s, labels):
            while s.get('kind') in ('CaseStmt', 'DefaultStmt'):
                if s['kind'] == 'CaseStmt':
                    labels = labels + [s['inner'][0]]
                    s = s['inner'][-1]
                else:
                    labels = labels + ['default']
                    s = s['inner'][-1]
            flat.append((labels, s))
        for s in body.get('inner', []):
            add(s, [])
        start = None
        dflt = None
        try:
            for i, (labels, s) in enumerate(flat):
                for l in labels:
                    if l == 'default':
                        dflt = i
                        continue
                    lv = self.toint(self.rve(l))
                    if start is None and self.choose(v == lv):
                        start = i
                if start is not None:
                    break
            if start is None:
                # default may come after: finish scanning
                for i, (labels, s) in enumerate(flat):
                    if 'default' in labels:
                        dflt = i
                start = dflt
            if start is None:
                return
            for labels, s in flat[start:]:
                self.ex(s)
        except Brk:
            return

    # -- loops
    def s_DoStmt(self, n):
        body, cond = n['inner'][0], n['inner'][1]
        c = strip_cast(cond)
        if c.get('kind') in ('IntegerLiteral', 'CXXBoolLiteralExpr') and c.get('value') in ('0', 0, False):
            try:
                self.ex(body)
            except Brk:
                pass
            except Cont:
                pass
            return
        # body; while(cond) body
        try:
            self.ex(body)
        except Cont:
            pass
        except Brk:
            return
        self.loop(n, lambda: self.tobool(self.rve(cond)), lambda: self.ex(body), lambda: None)

    def s_WhileStmt(self, n):
        cond, body = n['inner'][0], n['inner'][-1]
        if len(n['inner']) > 2:
            raise Unsupported('while with declaration')
        self.loop(n, lambda: self.tobool(self.rve(cond)), lambda: self.ex(body), lambda: None)

    def s_ForStmt(self, n):
        init, cv, cond, inc, body = n['inner']
        if init.get('kind'):
            self.ex(init)
        if self.counted(init, cond, inc, body):
            # a fixed, small number of iterations: executed one by one
            while True:
                go = z3.simplify(self.tobool(self.rve(cond)))
                if z3.is_false(go):
                    return
                if not z3.is_true(go):
                    raise Unsupported('counted loop')
                try:
                    self.ex(body)
                except Cont:
                    pass
                except Brk:
                    return
                self.ev(inc)
        self.loop(n, lambda: self.tobool(self.rve(cond)) if cond.get('kind') else z3.BoolVal(True),
                  lambda: self.ex(body), lambda: self.ev(inc) if inc.get('kind') else None)

    def counted(self, init, cond, inc, body, most=8):
        """a loop over a counter from one literal to another that its body only reads"""
        def lit(e):
            e = strip_cast(e)
            return int(e['value']) if e.get('kind') == 'IntegerLiteral' else None

        def ref(e):
            e = strip_cast(e)
            return e['referencedDecl']['id'] if e.get('kind') == 'DeclRefExpr' else None

        if init.get('kind') != 'DeclStmt' or len(init['inner']) != 1 or cond.get('kind') != 'BinaryOperator':
            return False
        v = init['inner'][0]
        if v.get('kind') != 'VarDecl' or not v.get('inner') or is_ref(norm(qtype(v))):
            return False
        a, b, op = lit(v['inner'][0]), lit(cond['inner'][1]), cond.get('opcode')
        if a is None or b is None or ref(cond['inner'][0]) != v['id']:
            return False
        if inc.get('kind') != 'UnaryOperator' or inc.get('opcode') not in ('++', '--') or ref(inc['inner'][0]) != v['id']:
            return False
        up = inc['opcode'] == '++'
        count = {('<', True): b - a, ('<=', True): b - a + 1, ('!=', True): b - a, ('>', False): a - b, ('>=', False): a - b + 1, ('!=', False): a - b}.get((op, up))
        if count is None or not 0 <= count <= most:
            return False

        def reads(n, loaded=False):
            if not isinstance(n, dict):
                return True
            if n.get('kind') == 'DeclRefExpr' and n.get('referencedDecl', {}).get('id') == v['id'] and not loaded:
                return False
            if n.get('kind') == 'LambdaExpr':
                return False
            loads = n.get('kind') == 'ImplicitCastExpr' and n.get('castKind') == 'LValueToRValue'
            return all(reads(x, loads) for x in n.get('inner', []))
        return reads(body)

    def s_CXXForRangeStmt(self, n):
        inner = n['inner']
        rng = inner[1]['inner'][0]['inner'][0]
        var = inner[6]['inner'][0] if len(inner) > 7 - 1 else None
        body = inner[-1]
        var = [i for i in inner if i.get('kind') == 'DeclStmt'][-1]['inner'][0]
        items = strip_cast(rng)
        while items.get('kind') == 'CXXStdInitializerListExpr':
            items = strip_cast(items['inner'][0])
        if items.get('kind') == 'InitListExpr' and len(items.get('inner', [])) <= 16:
            # over a list that is spelled out: item by item
            vals = [self.rve(x) for x in items.get('inner', [])]
            for v in vals:
                t = norm(qtype(var))
                rt = 'l:%s:%s:%d' % (var['name'], var['id'], self.frame)
                self.alloc(rt, strip_ref(t), v)
                self.env_stack[-1][var['id']] = LV(rt)
                try:
                    self.ex(body)
                except Cont:
                    pass
                except Brk:
                    return
            return
        r = self.ev(rng)
        if not isinstance(r, LV):
            r = self.temp(self.ty(rng), r)
        root = 'l:#i:%s:%d' % (n['id'], self.frame)
        self.alloc(root, 'unsigned long', z3.IntVal(0))
        idx = LV(root)
        isref = is_ref(norm(qtype(var)))
        v0 = self.get(r)

        def bind():
            env = self.env_stack[-1]
            v = self.get(r)
            i = self.get(idx)
            if isinstance(v, Vec):
                e = r.i(i)
                if isref:
                    env[var['id']] = e
                else:
                    rt = 'l:%s:%s:%d' % (var['name'], var['id'], self.frame)
                    self.alloc(rt, norm(qtype(var)), self.get(e))
                    env[var['id']] = LV(rt)
            elif isinstance(v, Map):
                key = v.keyat(i)
                env[var['id']] = self.temp('pair', MapPair(r, key))
            else:
                raise Unsupported('range-for over %s' % type(v).__name__)

        def size():
            v = self.get(r)
            if isinstance(v, Map):
                if v.keyat is None:
                    raise Unsupported('iteration over a map without an iteration order')
                return v.size
            if not isinstance(v, Vec):
                raise Unsupported('range-for over %s' % type(v).__name__)
            return v.size

        if isinstance(v0, Map) and v0.keyat is None:
            self.order_map(r)

        def b():
            bind()
            self.ex(body)

        def inc():
            self.put(idx, self.get(idx) + 1)
        self.loop(n, lambda: self.get(idx) < size(), b, inc)

    def order_map(self, lv):
        """give a map that was just modified an iteration order (existence of an enumeration)"""
        m = self.get(lv)
        name = self.nm('ord')
        keyat, pos = z3.Function(name + '.keyat', I, I), z3.Function(name + '.pos', I, I)
        size = m.size
        me = self
        seen = set()

        def rd(k):
            t = m.has.read(k)
            if k.get_id() not in seen:
                seen.add(k.get_id())
                me.keepalive.append(k)
                me.axioms_extra.append(z3.Implies(t, z3.And(pos(k) >= 0, pos(k) < size, keyat(pos(k)) == k)))
            return t

        def ka(i):
            t = keyat(i)
            there = rd(t)       # on every path: facts known about every key are then known about this one
            if ('k', t.get_id()) not in seen:
                seen.add(('k', t.get_id()))
                me.keepalive.append(t)
                me.axioms_extra.append(z3.Implies(z3.And(i >= 0, i < size), z3.And(there, pos(t) == i)))
                me.axioms_extra.append(z3.And(t >= -TWO(31), t < TWO(31)))
            return t
        self.path.store[lv.root] = self.upd(self.path.store[lv.root], lv.path, Map(m.vty, FArr(rd), m.val, size, ka, lambda k: pos(k)))

    def loop(self, node, cond, body, inc):
        p = self.path
        p.loopn = getattr(p, 'loopn', 0) + 1
        key = (node['id'], p.uid, tuple(p.prefix[:p.pos]), p.loopn, self.mode, self.recording)
        if key not in self.loopcache:
            from .loops import analyze
            self.loopcache[key] = analyze(self, node, cond, body, inc)
        exits, mods = self.loopcache[key]
        for (root, f, m) in mods:
            self.log(root, f, m)
        k = self.choose_n(len(exits))
        store, pc, oc, envd = exits[k]
        p.store = dict(store)
        p.pc = list(pc)
        kind, v = oc
        if kind == 'return':
            raise Ret(v)
        if kind == 'throw':
            raise Throw(v.ty, v.val)
        return

    # ---------------------------------------------------------------- calls
    def skolems_for(self, dim):
        return [s for s in self.skolems if len(s) == dim]

    def active_contract(self, k):
        return k not in self.off_contracts

    def is_shared(self, obj, node):
        return strip_ref(norm(qtype(node))).startswith('shared_ptr')

    def x_Evaluated(self, n):
        return n['v']

    def base_of(self, cname):
        return cname.split('<')[0] if cname else ''

    def x_CallExpr(self, n):
        from . import lib
        return lib.call(self, n)

    def x_CXXMemberCallExpr(self, n):
        from . import lib
        return lib.member_call(self, n)

    def x_CXXOperatorCallExpr(self, n):
        from . import lib
        return lib.operator_call(self, n)

    def x_UserDefinedLiteral(self, n):
        from . import lib
        return lib.call(self, n)

    def x_CXXConstructExpr(self, n):
        from . import lib
        return lib.construct(self, n)
    x_CXXTemporaryObjectExpr = x_CXXConstructExpr

    def x_CXXNewExpr(self, n):
        from . import lib
        return lib.new(self, n)

    def bind_args(self, decl, argnodes):
        ps = self.u.params(decl)
        out = []
        for p, a in zip(ps, argnodes):
            t = norm(qtype(p))
            if a.get('kind') == 'CXXDefaultArgExpr' and not a.get('inner'):
                dfl = [i for i in p.get('inner', []) if i.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))]
                if dfl:
                    a = dfl[0]
            v = self.ev(a)
            if is_ref(t):
                if not isinstance(v, (LV, HLV)):
                    v = self.temp(strip_ref(t), v)
            else:
                v = self.rv(v)
            out.append(v)
        return out

    def call_decl(self, decl, this, args, label=None, outer=None):
        """inline a function body"""
        body = self.u.body(decl)
        if body is None:
            raise Unsupported('no body for ' + str(decl.get('name')))
        if len(self.fnstack) > 25:
            raise Unsupported('recursion')
        self.frame_counter = getattr(self.path, 'framec', 0) + 1
        self.path.framec = self.frame_counter
        saveframe = self.frame
        self.frame = self.path.uid * 100000 + self.frame_counter
        env = dict(outer) if outer else {}
        for p, a in zip(self.u.params(decl), args):
            t = norm(qtype(p))
            if is_ref(t):
                env[p['id']] = a
            else:
                root = 'l:%s:%s:%d' % (p.get('name', '_'), p['id'], self.frame)
                self.alloc(root, t, a)
                env[p['id']] = LV(root)
        self.env_stack.append(env)
        self.this_stack.append(this)
        nm = label or decl.get('name', '?')
        self.fnstack.append(nm)
        ow = self.u.owner.get(decl.get('id'))
        self.stats['inlined'].add(((ow.name + '::') if ow else '') + decl.get('name', '?'))
        rt = norm((decl.get('type') or {}).get('qualType', '').split('(')[0])
        Interp.ret_ref.append(rt.endswith('&'))
        try:
            if decl['kind'] == 'CXXConstructorDecl':
                self.run_inits(decl, this)
            self.ex(body)
            return None
        except Ret as r:
            return r.v
        finally:
            Interp.ret_ref.pop()
            self.fnstack.pop()
            self.this_stack.pop()
            self.env_stack.pop()
            self.frame = saveframe

    def run_inits(self, decl, this):
        cls = self.u.owner.get(decl['id'])
        for i in decl.get('inner', []):
            if i.get('kind') != 'CXXCtorInitializer':
                continue
            e = i['inner'][0]
            if 'anyInit' in i:
                f = i['anyInit']['name']
                fl = this.f(f)
                ft = None
                for fd in cls.fields:
                    if fd['name'] == f:
                        ft = norm(qtype(fd))
                        if e.get('kind') == 'CXXDefaultInitExpr' and not e.get('inner'):
                            ini = [k for k in fd.get('inner', []) if k.get('kind', '').endswith(('Expr', 'Literal', 'Operator', 'Cleanups'))]
                            if not ini:
                                raise Unsupported('default member initializer of ' + f)
                            e = ini[0]
                v = self.ev(e)
                if ft and is_ref(ft):
                    raise Unsupported('reference member')
                v = self.rv(v)
                if isinstance(v, Ptr) and v.kind == 'null' and ft and self.sort_of(ft) is I:
                    v = z3.IntVal(0)
                self.put(fl, v)
            elif 'baseInit' in i:
                self.base_init = this
                v = self.ev_base(e, this)
            else:
                self.ev_base(e, this)     # delegating constructor

    def ev_base(self, e, this):
        from . import lib
        return lib.construct_at(self, e, this)
