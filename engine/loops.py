"""Loops: the invariant of every loop is found mechanically and checked by the solver.

Candidates (bounds, lock-step relations, element-wise 'done / not yet done' facts, facts named by
the property's contract) are assumed together at the loop head, one arbitrary iteration is
executed, and candidates that do not hold initially or are not preserved are removed until the
rest is inductive.  Element-wise candidates are checked for an arbitrary (skolem) index and may
then be used at every index the iteration reads."""
import z3
from .vals import *
from .frontend import norm, qtype
from .fp import BITS, SORT

INT, BOOL = z3.IntSort(), z3.BoolSort()


class Hints:
    """what a property hint can look at"""

    def __init__(self, I, node, base, head, ints, init):
        self.I, self.node, self.base, self.head, self.ints, self.init = I, node, base, head, ints, init

    def fn(self):
        return self.I.fnstack[-1] if self.I.fnstack else ''


def analyze(I, node, cond, body, inc):
    base_store, base_pc = I.path.store, list(I.path.pc)
    mods = modset(I, node, cond, body, inc)
    I.head_arrays = []
    head, newpc = havoc(I, base_store, mods, node)
    own = I.head_arrays
    if I.mode == 'mod':
        return [(head, list(base_pc) + newpc, ('normal', None), None)], mods
    I.stats['loops'].add((I.fnstack[-1] if I.fnstack else '?', I.where(node)))
    # scalar locations
    locs = locations(I, base_store, head, mods)
    ints = [l for l in locs if l.kind == 'int']
    directions(I, ints)
    # make condition terms known
    cands = candidates(I, node, base_store, head, locs, mods, cond, newpc, base_pc)
    # ---- initiation
    live = []
    allc = [(nm, fam, fn) for (nm, fam, fn) in cands]
    live = filter_initial(I, base_store, base_pc, allc)
    rounds = redo = 0
    while True:
        rounds += 1
        if rounds > 12:
            live = []
        paths = run_iteration(I, head, list(base_pc) + newpc, live, cond, body, inc, recording=False, ints=ints, base=base_store, own=own)
        n0 = len(live)
        live = preserved(I, head, live, paths)
        grown = uncovered(mods, paths, base_store)
        if grown:
            # a location the first look at the body did not see being changed
            mods, redo = minimise(mods | grown), redo + 1
            if redo > 6:
                raise Unsupported('what the loop changes')
            I.head_arrays = []
            head, newpc = havoc(I, base_store, mods, node)
            own = I.head_arrays
            locs = locations(I, base_store, head, mods)
            ints = [l for l in locs if l.kind == 'int']
            directions(I, ints)
            live = filter_initial(I, base_store, base_pc, candidates(I, node, base_store, head, locs, mods, cond, newpc, base_pc))
            rounds = 0
            continue
        if len(live) == n0:
            break
    I.stats['invs'] += len(live)
    if I.DEBUG:
        import re as _re
        print(_re.sub(r'l:(\w+):0x[0-9a-f]+:\d+', r'\1', 'L'), *[_re.sub(r'l:(\w+):0x[0-9a-f]+:\d+', r'\1', str(x)) for x in ('LOOP', I.fnstack, I.where(node), 'mods', sorted(mods, key=repr), 'cands', len(cands), 'kept', [c[0] for c in live], 'rounds', rounds)])
    # ---- final pass: record obligations of the body, collect exits
    paths = run_iteration(I, head, list(base_pc) + newpc, live, cond, body, inc, recording=I.recording, ints=ints, base=base_store, own=own)
    if uncovered(mods, paths, base_store):
        raise Unsupported('what the loop changes')
    exits = []
    for p, (kind, v) in paths:
        if kind == 'exit':
            exits.append((p.store, p.pc, ('normal', None), None))
        elif kind == 'break':
            exits.append((p.store, p.pc, ('normal', None), None))
        elif kind in ('return', 'throw'):
            exits.append((p.store, p.pc, (kind, v), None))
    # keep only what outlives the loop
    keep = set(base_store)
    out = []
    for (st, pc, oc, env) in exits:
        out.append((st, pc, oc, env))
    termination(I, node, head, paths, ints, newpc, base_pc, cond, live)
    return out, mods


# ------------------------------------------------------------------ modified locations
def locations(I, base, head, mods):
    locs = []
    for (root, fields, mode) in sorted(mods, key=repr):
        lv = LV(root, tuple(('f', f) for f in fields))
        collect(I, base, head, lv, mode, locs)
    return locs


def uncovered(mods, paths, base):
    """what an iteration changed without being among the locations the loop was said to change"""
    out = set()
    for p, (kind, v) in paths:
        if kind != 'iter':
            continue
        for (r, f, m) in p.wlogs[0]:
            if r in base and not any(r2 == r and f[:len(f2)] == f2 and (m2 == 'whole' or (m, len(f)) == (m2, len(f2)) or (m2 == 'elem' and len(f2) < len(f))) for (r2, f2, m2) in mods):
                out.add((r, f, m))
    return out


def modset(I, node, cond, body, inc):
    key = node['id']
    saved_mode = I.mode
    saved_obs = len(I.obs)
    base_store, base_pc = I.path.store, I.path.pc
    store, pc = base_store, base_pc
    mods = set()
    I.last_dirs = None
    I.mode = 'mod'
    try:
        for _ in range(6):
            def one():
                I.tobool(cond())
                from .interp import Cont
                try:
                    body()
                except Cont:
                    pass
                inc()
            outs = I.explore(one, store, pc, recording=False)
            new = set()
            for p, r in outs:
                new |= p.wlogs[0]
            new = minimise({m for m in new if m[0] in base_store})
            tot = minimise(mods | new)
            if tot == mods:
                if outs and store is not base_store:
                    I.last_dirs = (store, [p.store for p, _ in outs])
                break
            mods = tot
            head, extra = havoc(I, base_store, mods, node)
            store, pc = head, list(base_pc) + extra
    finally:
        I.mode = saved_mode
        del I.obs[saved_obs:]
    return mods


def minimise(mods):
    out = set()
    for (r, f, m) in mods:
        cov = False
        for (r2, f2, m2) in mods:
            if r2 == r and (f2, m2) != (f, m) and f[:len(f2)] == f2 and m2 == 'whole':
                cov = True
        if not cov:
            out.add((r, f, m))
    # an element write below another element write location (struct in vector)
    res = set()
    for (r, f, m) in out:
        if any(r2 == r and m2 == 'elem' and len(f2) < len(f) and f[:len(f2)] == f2 for (r2, f2, m2) in out):
            pass
        res.add((r, f, m))
    return res


# ------------------------------------------------------------------ havoc
def havoc(I, store, mods, node):
    save_store, save_pc = I.path.store, I.path.pc
    I.path.store, I.path.pc = dict(store), []
    try:
        for (root, fields, mode) in sorted(mods, key=repr):
            lv = LV(root, tuple(('f', f) for f in fields))
            v = I.get(lv, store)
            ty = I.roottype.get(root, '')
            nv = havoc_val(I, v, type_at(I, root, fields), root.split(':')[1] if ':' in root else root, mode)
            I.path.store[root] = I.upd(I.path.store[root], lv.path, nv)
        return I.path.store, I.path.pc
    finally:
        I.path.store, I.path.pc = save_store, save_pc


def type_at(I, root, fields):
    ty = norm(I.roottype.get(root, ''))
    for f in fields:
        c = I.u.find_class(ty)
        if c is None:
            return None
        ty = dict(I.all_fields(c)).get(f)
        if ty is None:
            return None
    return ty


def havoc_val(I, v, ty, name, mode):
    nm = I.nm(name)
    if isinstance(v, Undef):
        if ty and not ty.startswith('?'):
            return I.fresh_at(ty, nm)
        return v
    if z3.is_expr(v):
        t = z3.Const(nm, v.sort())
        if v.sort() == INT:
            r = range_of(ty) if ty in INTS else None
            if r is None and ty and (ty.startswith('unique_ptr') or ty.startswith('shared_ptr')):
                I.assume(t >= 0)
            if r is None and ty not in INTS and not (ty or '').startswith('unique_ptr'):
                r = None
            if r:
                I.assume(z3.And(t >= r[0], t <= r[1]))
        return t
    if isinstance(v, Vec):
        if mode == 'elem':
            return Vec(v.elem, v.size, hooked(I, I.fresh_arr(v.elem, nm + '.data', 1)), v.blk)
        size = z3.Const(nm + '.size', INT)
        I.assume(z3.And(size >= 0, size < (1 << 60)))
        return Vec(v.elem, size, hooked(I, I.fresh_arr(v.elem, nm + '.data', 1)), z3.Const(nm + '.blk', INT) if v.blk is not None else None)
    if isinstance(v, Buf):
        el = norm(split_args(v.ty)[0])
        if mode == 'elem':
            return Buf(v.ty, v.nc, v.nf, hooked(I, I.fresh_arr(el, nm + '.data', 2)))
        nc, nf = z3.Const(nm + '.nc', INT), z3.Const(nm + '.nf', INT)
        I.assume(z3.And(nc >= 0, nf >= 0, nf < (1 << 60)))
        return Buf(v.ty, nc, nf, hooked(I, I.fresh_arr(el, nm + '.data', 2)))
    if isinstance(v, Map):
        if mode == 'elem':
            m = Map(v.vty, hooked(I, v.has), hooked(I, I.fresh_arr(v.vty, nm + '.val', 1)), v.size, v.keyat, v.pos)
        else:
            m = I.fresh_map(v.vty, nm)
            m.has, m.val = hooked(I, m.has), hooked(I, m.val)
        if m.keyat is not None:
            # what the loop's invariants say about every key is known about each key met in an iteration
            def keyat(i, m=m, keyat=m.keyat):
                k = keyat(i)
                m.has.read(k)
                m.val.read(k)
                return k
            m.keyat = keyat
        return m
    if isinstance(v, Struct):
        if v.ty in ('vecit', 'rvecit'):
            return Struct(v.ty, {'p': havoc_val(I, v.fields['p'], None, name, mode)})
        c = I.u.find_class(v.ty)
        ft = dict(I.all_fields(c)) if c is not None else {}
        if v.ty == 'unordered_set':
            f = z3.Function(nm + '.has', STR, BOOL)
            from .interp import SetArr
            return Struct('unordered_set', {'has': SetArr(lambda k: f(k)), 'n': z3.Const(nm + '.n', INT)})
        return Struct(v.ty, {k: havoc_val(I, x, ft.get(k), name + '.' + k, 'whole') for k, x in v.fields.items()})
    if isinstance(v, FArr):
        return hooked(I, v.havoc(nm)) if hasattr(v, 'havoc') else v
    if isinstance(v, Ptr) and v.ix:
        ix = list(v.ix)
        ix[-1] = z3.Const(nm + '.ix', INT)
        return Ptr(v.kind, v.lv, *ix)
    if isinstance(v, SymPtr):
        return SymPtr(z3.Const(nm + '.pb', INT), z3.Const(nm + '.po', INT))
    if isinstance(v, Stream):
        return Stream((('opaque', nm),))
    if isinstance(v, StrV):
        return StrV((z3.Const(nm, STR),))
    if isinstance(v, MapIt):
        return MapIt(v.lv, z3.Const(nm + '.key', INT), z3.Const(nm + '.end', BOOL))
    raise Unsupported('havoc of %s' % type(v).__name__)


def hooked(I, arr):
    h = FArr(lambda *k: arr.read(*k), arr.n)
    h.hooks = []
    I.head_arrays.append(h)
    return h


# ------------------------------------------------------------------ scalar locations
class Loc:
    def __init__(self, kind, name, get, v0, v, ty=None):
        self.kind, self.name, self.get, self.v0, self.v, self.ty = kind, name, get, v0, v, ty


def collect(I, base, head, lv, mode, out):
    v = I.get(lv, head)
    v0 = I.get(lv, base)
    rec(I, lv, v, v0, mode, out, lambda st: I.get(lv, st))
    for l in list(out):
        if l.v is None and hasattr(l, 'head_at'):
            l.v0, l.v = l.head_at(base), l.head_at(head)


def rec(I, lv, v, v0, mode, out, get):
    name = repr(lv)
    if z3.is_expr(v) and v.sort() == INT:
        out.append(Loc('int', name, get, v0 if z3.is_expr(v0) else None, v))
    elif z3.is_expr(v) and v.sort() == BOOL:
        out.append(Loc('bool', name, get, v0 if z3.is_expr(v0) else None, v))
    elif z3.is_expr(v) and v.sort() in BITS:
        out.append(Loc('float', name, get, v0 if z3.is_expr(v0) else None, v))
    elif isinstance(v, Ptr) and v.ix:
        same = isinstance(v0, Ptr) and v0.kind == v.kind
        out.append(Loc('int', name + '.ix', lambda st: pix(get(st)), v0.ix[-1] if same else None, v.ix[-1]))
    elif isinstance(v, SymPtr):
        # a position in some storage
        sym = isinstance(v0, SymPtr)
        out.append(Loc('const', name + '.pb', lambda st: I.to_symptr(get(st)).blk, v0.blk if sym else None, v.blk))
        out.append(Loc('int', name + '.po', lambda st: I.to_symptr(get(st)).off, v0.off if sym else None, v.off))
    elif isinstance(v, MapIt) and v.key is not None and isinstance(I.get(v.lv), Map) and I.get(v.lv).pos is not None:
        # an iterator through a map: how many keys it has passed
        def at(st):
            it = get(st)
            m = I.get(it.lv, st)
            if it.key is None:
                return m.size
            m.has.read(it.key)
            return z3.If(it.end if z3.is_expr(it.end) else z3.BoolVal(it.end), m.size, m.pos(it.key))

        def valid(st):
            it = get(st)
            if it.key is None:
                return z3.BoolVal(True)
            return z3.Or(it.end, I.get(it.lv, st).has.read(it.key))
        out.append(Loc('int', name + '.at', at, None, None))
        out[-1].head_at = at
        out.append(Loc('mapit', name, get, v0, v))
        out[-1].valid = valid
    elif isinstance(v, Struct) and v.ty in ('vecit', 'rvecit'):
        rec(I, lv, v.fields['p'], v0.fields['p'], mode, out, lambda st: get(st).fields['p'])
    elif isinstance(v, Struct) and v.ty != 'unordered_set':
        for k in v.fields:
            rec(I, lv.f(k), v.fields[k], v0.fields.get(k) if isinstance(v0, Struct) else None, mode, out, lambda st, k=k: get(st).fields[k])
    elif isinstance(v, Vec) and mode == 'whole':
        out.append(Loc('int', name + '.size', lambda st: get(st).size, v0.size if isinstance(v0, Vec) else None, v.size))
    elif isinstance(v, Buf) and mode == 'whole':
        out.append(Loc('int', name + '.nf', lambda st: get(st).nf, v0.nf, v.nf))
        out.append(Loc('const', name + '.nc', lambda st: get(st).nc, v0.nc, v.nc))
    elif isinstance(v, Map) and mode == 'whole':
        out.append(Loc('int', name + '.size', lambda st: get(st).size, v0.size, v.size))
    elif isinstance(v, Struct) and v.ty == 'unordered_set':
        out.append(Loc('int', name + '.n', lambda st: get(st).fields['n'], v0.fields['n'], v.fields['n']))
    if isinstance(v, Vec) or isinstance(v, Buf) or isinstance(v, Map):
        out.append(Loc('arr', name, get, v0, v))
        out[-1].lv = lv


def pix(p):
    if isinstance(p, Ptr) and p.ix:
        return p.ix[-1]
    return None


def directions(I, ints):
    """does a counter only go up or only go down (only prunes the candidate list)"""
    for l in ints:
        l.dir = 0
        if I.last_dirs is None:
            continue
        st, outs = I.last_dirs
        try:
            a = l.get(st)
            signs = set()
            for o in outs:
                d = z3.simplify(l.get(o) - a)
                if z3.is_app(d) and d.decl().kind() == z3.Z3_OP_ITE:
                    vs = [d.arg(1), d.arg(2)]
                else:
                    vs = [d]
                small = [x.as_long() for x in vs if z3.is_int_value(x) and abs(x.as_long()) < 1 << 20]
                if not small:
                    signs.add(0)
                for v in small:
                    signs.add(1 if v > 0 else -1 if v < 0 else 2)
            signs.discard(2)
            if signs == {1}:
                l.dir = 1
            if signs == {-1}:
                l.dir = -1
        except Exception:
            pass


# ------------------------------------------------------------------ candidates
def subterms(t, out, depth=0):
    if depth > 12 or t.get_id() in out:
        return
    if t.sort() == INT:
        out[t.get_id()] = t
    for c in t.children():
        subterms(c, out, depth + 1)


def has_const(t, ids, memo=None):
    if memo is None:
        memo = {}
    if t.get_id() in memo:
        return memo[t.get_id()]
    r = t.get_id() in ids or any(has_const(c, ids, memo) for c in t.children())
    memo[t.get_id()] = r
    return r


def eqv(I, a, b):
    if a is b:
        return z3.BoolVal(True)
    if z3.is_expr(a) and z3.is_expr(b) and a.sort() == b.sort():
        return a == b
    if isinstance(a, Struct) and isinstance(b, Struct) and a.fields.keys() == b.fields.keys():
        cs = []
        for k in a.fields:
            e = eqv(I, a.fields[k], b.fields[k])
            if e is None:
                return None
            cs.append(e)
        return z3.And(*cs) if cs else z3.BoolVal(True)
    if isinstance(a, StrV) and isinstance(b, StrV):
        if a.parts == b.parts:
            return z3.BoolVal(True)
        return I.str_term(a) == I.str_term(b)
    if isinstance(a, SymPtr) and isinstance(b, SymPtr):
        return z3.And(a.blk == b.blk, a.off == b.off)
    if isinstance(a, Vec) and isinstance(b, Vec):
        if a.arr is b.arr:
            return a.size == b.size
        cs = [a.size == b.size]
        for sk in I.skolems:
            if len(sk) == 1:
                e = eqv(I, a.arr.read(*sk), b.arr.read(*sk))
                if e is None:
                    return None
                cs.append(z3.Implies(z3.And(sk[0] >= 0, sk[0] < a.size), e))
        return z3.And(*cs)
    if isinstance(a, Undef) and isinstance(b, Undef):
        return z3.BoolVal(True)
    if type(a) is type(b) and isinstance(a, Ptr) and a.kind == b.kind and a.lv == b.lv:
        return z3.And(*[x == y for x, y in zip(a.ix, b.ix)]) if a.ix else z3.BoolVal(True)
    return None


def candidates(I, node, base, head, locs, mods, cond, newpc, base_pc):
    out = []
    ints = [l for l in locs if l.kind == 'int']
    headids = set()
    for l in locs:
        if z3.is_expr(l.v):
            headids.add(l.v.get_id())
    real_ints = ints
    if getattr(I, 'plain_families', False):
        ints = [c for c in ints if not c.name.startswith('g:')]
    # bound terms: loop-constant integers
    terms = {}
    for root, v in base.items():
        if getattr(I, 'plain_families', False) and root.startswith('g:'):
            continue
        if any(m[0] == root for m in mods) and not isinstance(v, Struct):
            pass
        consts_of(I, root, v, mods, terms)
    for u in I.enclosing_ints:
        terms[u.get_id()] = u
    # terms of the loop condition
    save = (I.path.store, I.path.pc, I.recording, I.mode)
    try:
        def c():
            return I.tobool(cond())
        outs = I.explore(c, head, list(base_pc) + newpc, recording=False)
        for p, (k, v) in outs:
            if k == 'normal' and v is not None:
                st = {}
                subterms(v, st)
                for t in st.values():
                    if not has_const(t, headids):
                        terms[t.get_id()] = t
    except Unsupported:
        pass
    finally:
        I.path.store, I.path.pc, I.recording, I.mode = save
    consts = [t for t in terms.values() if not (z3.is_int_value(t) and abs(t.as_long()) > 1 << 40)][:26]

    def add(nm, fn):
        out.append((nm, None, fn))
    for l in ints:
        if l.v0 is not None:
            if l.dir >= 0:
                add('%s>=init' % l.name, lambda st, l=l: l.get(st) >= l.v0)
            if l.dir <= 0:
                add('%s<=init' % l.name, lambda st, l=l: l.get(st) <= l.v0)
        for t in consts:
            add('%s<=%s' % (l.name, t), lambda st, l=l, t=t: l.get(st) <= t)
            add('%s>=%s' % (l.name, t), lambda st, l=l, t=t: l.get(st) >= t)
            add('%s<%s' % (l.name, t), lambda st, l=l, t=t: l.get(st) < t)
            add('%s>%s' % (l.name, t), lambda st, l=l, t=t: l.get(st) > t)
        add('%s>=0' % l.name, lambda st, l=l: l.get(st) >= 0)
    for i, l in enumerate(ints):
        for m in ints[i + 1:]:
            if l.v0 is not None and m.v0 is not None:
                add('%s-init==%s-init' % (l.name, m.name), lambda st, l=l, m=m: l.get(st) - l.v0 == m.get(st) - m.v0)
                add('%s-init==init-%s' % (l.name, m.name), lambda st, l=l, m=m: l.get(st) - l.v0 == m.v0 - m.get(st))
            add('%s<=%s' % (l.name, m.name), lambda st, l=l, m=m: l.get(st) <= m.get(st))
            add('%s>=%s' % (l.name, m.name), lambda st, l=l, m=m: l.get(st) >= m.get(st))
            for t in consts:
                if z3.is_int_value(t):
                    continue
                if l.v0 is not None and m.v0 is not None and I.linear_hints:
                    add('%s=%s*%s' % (l.name, m.name, t), lambda st, l=l, m=m, t=t: l.get(st) - l.v0 == (m.get(st) - m.v0) * t)
                    add('%s=%s*%s' % (m.name, l.name, t), lambda st, l=l, m=m, t=t: m.get(st) - m.v0 == (l.get(st) - l.v0) * t)
    for l in locs:
        if l.kind in ('bool', 'float', 'int') and l.v0 is not None:
            if l.kind == 'bool' or l.kind == 'float':
                add('%s unchanged' % l.name, lambda st, l=l: l.get(st) == l.v0)
        if l.kind == 'bool':
            add('%s' % l.name, lambda st, l=l: l.get(st))
            add('!%s' % l.name, lambda st, l=l: z3.Not(l.get(st)))
        if l.kind == 'float':
            add('%s not NaN' % l.name, lambda st, l=l: z3.Not(I.fp.nan(l.get(st))))
            add('%s >= 0' % l.name, lambda st, l=l: I.fp.rank(l.get(st)) >= 0)
            for m in locs:
                if m.kind == 'float' and m is not l and m.v.sort() == l.v.sort():
                    pass
        if l.kind == 'mapit':
            add('%s refers to an element' % l.name, l.valid)
        if l.kind == 'const' and l.v0 is not None:
            add('%s unchanged' % l.name, lambda st, l=l: l.get(st) == l.v0)
    # element-wise families
    for l in locs:
        if l.kind == 'arr':
            families(I, l, ints, base, head, out)
            if isinstance(l.v, Map) and isinstance(l.v0, Map) and l.v.has is not l.v0.has:
                hl = Loc('has', l.name + '.has', lambda st, l=l: HasView(l.get(st)), HasView(l.v0), HasView(l.v))
                for idx in I.skolems:
                    if len(idx) == 1:
                        def same(st, k, l=l):
                            return l.get(st).has.read(*k) == l.v0.has.read(*k)
                        out.append(('%s has the same keys' % l.name, (hl, same), lambda st, idx=idx, same=same: same(st, idx)))
    # property hints
    h = Hints(I, node, base, head, real_ints, base)
    h.locs = locs
    for hint in I.hints:
        for t in hint(h) or []:
            # (name, fn(store)) or, for a fact about every index of an array, (name, fn(store), (location, at(store, idx)))
            out.append((t[0], t[2] if len(t) > 2 else None, t[1]))
    return out


def consts_of(I, root, v, mods, terms, fields=()):
    for (r, f, m) in mods:
        if r == root and f == fields and m == 'whole':
            return
    if z3.is_expr(v) and v.sort() == INT:
        if not root.startswith(('static', 'g:')) or True:
            terms[v.get_id()] = v
    elif isinstance(v, Vec):
        terms[v.size.get_id()] = v.size
    elif isinstance(v, Buf):
        for t in (v.nc, v.nf):
            terms[t.get_id()] = t
    elif isinstance(v, Map):
        terms[v.size.get_id()] = v.size
    elif isinstance(v, Struct) and v.ty != 'unordered_set' and len(fields) < 2:
        for k, x in v.fields.items():
            consts_of(I, root, x, mods, terms, fields + (k,))


class HasView:
    """the membership of a map, as an array"""

    def __init__(self, m):
        self.m = m


def arr_of(v, part=None):
    if isinstance(v, HasView):
        return v.m.has
    if isinstance(v, Vec):
        return v.arr
    if isinstance(v, Buf):
        return v.data
    if isinstance(v, Map):
        return v.val
    return None


def inrange(v, idx):
    if isinstance(v, Buf):
        return z3.And(idx[0] >= 0, idx[0] < v.nc, idx[1] >= 0, idx[1] < v.nf)
    if isinstance(v, Vec):
        return z3.And(idx[0] >= 0, idx[0] < v.size)
    return z3.BoolVal(True)


def families(I, l, ints, base, head, out):
    v0, v = l.v0, l.v
    a0, a = arr_of(v0), arr_of(v)
    if a is None:
        return
    dim = a.n
    for sk in I.skolems_for(dim):
        def emit(nm, guardfn, valfn, gkey, ranged=False):
            def at(st, idx):
                arr = arr_of(l.get(st))
                x = arr.read(*idx)
                y = valfn(idx)
                if y is None:
                    return None
                e = y(x) if callable(y) else eqv(I, x, y)
                if e is None:
                    return None
                return z3.Implies(z3.And(guardfn(st, idx), inrange(l.get(st), idx)) if ranged else guardfn(st, idx), e)
            out.append((nm, (l, at), lambda st: at(st, sk)))
        try:
            e0 = a0.read(*sk)
        except Unsupported:
            e0 = None
        if isinstance(e0, Struct):
            # each field on its own: loops often change one of them
            for fld in e0.fields:
                emit('%s.%s unchanged' % (l.name, fld), lambda st, idx: z3.BoolVal(True), lambda idx, fld=fld: (lambda x: eqv(I, x.fields[fld], a0.read(*idx).fields[fld])), 'all')
        # guards over own counters
        guards = [('all', lambda st, idx: z3.BoolVal(True))]
        if getattr(I, 'plain_families', False):
            ints = [c for c in ints if not c.name.startswith('g:')]
        for c in ints:
            rels = [('<', lambda x, y: x < y), ('>=', lambda x, y: x >= y), ('>', lambda x, y: x > y), ('<=', lambda x, y: x <= y)]
            if c.dir > 0:
                rels = rels[:2]
            for k in range(dim):
                for (rn, rf) in rels:
                    guards.append(('s%d%s%s' % (k, rn, c.name), lambda st, idx, c=c, k=k, rf=rf: rf(idx[k], c.get(st))))
        done = list(guards)
        for c in ints:
            if c.v0 is None:
                continue
            for k in range(dim):
                if c.dir >= 0:
                    done.append(('init<=s%d<%s' % (k, c.name), lambda st, idx, c=c, k=k: z3.And(c.v0 <= idx[k], idx[k] < c.get(st))))
                if c.dir > 0:
                    continue
                done.append(('%s<=s%d<init' % (c.name, k), lambda st, idx, c=c, k=k: z3.And(c.get(st) <= idx[k], idx[k] < c.v0)))
                done.append(('%s<s%d<=init' % (c.name, k), lambda st, idx, c=c, k=k: z3.And(c.get(st) < idx[k], idx[k] <= c.v0)))
        if dim == 1 and isinstance(v0, Vec):
            s0 = v0.size
            guards.append(('s<size0', lambda st, idx, s0=s0: z3.And(idx[0] >= 0, idx[0] < s0)))
        sel = []
        for u in I.enclosing_ints:
            for k in range(dim):
                sel.append((k, u))
        # unchanged
        for (gn, g) in guards:
            emit('%s unchanged where %s' % (l.name, gn), g, lambda idx: a0.read(*idx), gn)
        for (k, u) in sel:
            emit('%s unchanged where s%d!=%s' % (l.name, k, u), lambda st, idx, k=k, u=u: idx[k] != u, lambda idx: a0.read(*idx), 'x')
        # done
        for (sn, spec) in I.elem_specs:
            try:
                probe = spec(I, l, base, head, sk)
            except Unsupported:
                probe = None
            if probe is None:
                continue
            key = (id(spec), repr(l.lv), dim)
            if key not in I.specmemo:
                I.specmemo[key] = (FArr(lambda *idx, spec=spec: spec(I, l, base, head, idx), dim), spec)
            sarr = I.specmemo[key][0]
            valfn = lambda idx, sarr=sarr: sarr.read(*idx)
            for (gn, g) in done:
                emit('%s %s where %s' % (l.name, sn, gn), g, valfn, gn, True)
                for (k, u) in sel:
                    emit('%s %s where %s and s%d==%s' % (l.name, sn, gn, k, u), lambda st, idx, g=g, k=k, u=u: z3.And(idx[k] == u, g(st, idx)), valfn, gn, True)
                # relative to the initial size (appending loops)
                if dim == 1 and isinstance(v0, Vec):
                    emit('%s %s where %s and s>=size0' % (l.name, sn, gn), lambda st, idx, g=g: z3.And(idx[0] >= v0.size, g(st, idx)), valfn, gn, True)


# ------------------------------------------------------------------ Houdini
def eval_at(I, path_or_store, cands):
    out = []
    for (nm, fam, fn) in cands:
        try:
            f = fn(path_or_store)
        except (Unsupported, AttributeError, KeyError, z3.Z3Exception):
            f = None
        out.append(f)
    return out


def eliminate(I, pc, items):
    """items: [(index, formula)]; returns set of indices not implied by pc"""
    bad = set()
    items = [(i, z3.simplify(f)) for i, f in items]
    todo = [(i, f) for i, f in items if not z3.is_true(f)]
    while todo:
        s = I.solver(pc, 8000, [f for _, f in todo])
        s.add(z3.Or(*[z3.Not(f) for _, f in todo]))
        import time
        t = time.time()
        r = s.check()
        I.stats['queries'] += 1
        I.stats['time'] += time.time() - t
        if r == z3.unsat:
            return bad
        if r == z3.unknown:
            # fall back to one query each
            rest = []
            for i, f in todo:
                q = I.solver(pc, 2000, [f])
                q.add(z3.Not(f))
                if q.check() != z3.unsat:
                    bad.add(i)
            return bad
        m = s.model()
        gone = set()
        for i, f in todo:
            v = m.eval(f, model_completion=True)
            if z3.is_false(v):
                gone.add(i)
        if not gone:
            for i, f in todo:
                v = m.eval(f, model_completion=True)
                if not z3.is_true(v):
                    gone.add(i)
            if not gone:
                gone.add(todo[0][0])
        bad |= gone
        todo = [(i, f) for i, f in todo if i not in gone]
    return bad


def with_path(I, store, pc, fn):
    """evaluate fn with a scratch path so that reads can record facts"""
    from .interp import Path
    save = I.path
    I.uid += 1
    p = Path(store, pc, [], I.uid)
    p.work = []
    p.wlogs = [set()]
    I.path = p
    try:
        r = fn()
        return r, p.pc
    finally:
        I.path = save


def filter_initial(I, store, pc, cands):
    def ev():
        return eval_at(I, store, cands)
    fs, pc2 = with_path(I, store, pc, ev)
    items = [(i, f) for i, f in enumerate(fs) if f is not None]
    bad = eliminate(I, pc2, items)
    keep = []
    for i, c in enumerate(cands):
        if fs[i] is not None and i not in bad:
            keep.append(c)
    return keep


def install_hooks(I, head, live):
    """surviving element-wise invariants hold at every index read from the head state"""
    by = {}
    for (nm, fam, fn) in live:
        if fam is None:
            continue
        l, at = fam
        arr = arr_of(l.get(head))
        by.setdefault(id(arr), (arr, []))[1].append((nm, at))
    seen_arr = set()
    for k, (arr, lst) in by.items():
        busy = [False]

        def hook(*idx, lst=lst, arr=arr, busy=busy):
            if busy[0] or I.path is None:
                return
            key = ('h', id(arr)) + tuple(i.get_id() for i in idx)
            ins = getattr(I.path, 'insts', None)
            if ins is None:
                ins = I.path.insts = set()
            if key in ins:
                return
            ins.add(key)
            I.keepalive.append((arr, idx))
            busy[0] = True
            try:
                for (nm, at) in lst:
                    f = at(head, idx)
                    if f is not None:
                        I.path.pc.append(f)
                        I.keepalive.append(f)
            finally:
                busy[0] = False
        arr.hooks = [hook]
        seen_arr.add(id(arr))
    # arrays without surviving families
    return by


def run_iteration(I, head, pc, live, cond, body, inc, recording, ints, base, own):
    from .interp import Cont
    for (nm, fam, fn) in live:
        pass
    # hooks of this loop's own head arrays are reset to the current survivors
    for l in own:
        l.hooks = []
    install_hooks(I, head, live)
    (_, pc1) = with_path(I, head, pc, lambda: [I.path.pc.append(f) for f in eval_at(I, head, live) if f is not None])
    saved = list(I.enclosing_ints)
    I.enclosing_ints = saved + [l.v for l in ints if z3.is_expr(l.v)]

    def one():
        c = cond()
        c = I.tobool(c)
        if not I.choose(c):
            return 'exit'
        try:
            body()
        except Cont:
            pass
        inc()
        return 'iter'
    try:
        outs = I.explore(one, head, pc1, recording=recording)
    finally:
        I.enclosing_ints = saved
    res = []
    for p, (k, v) in outs:
        if k == 'normal':
            k = 'exit' if v == 'exit' else 'iter'
        res.append((p, (k, v)))
    return res


def preserved(I, head, live, paths):
    bad = set()
    for p, (k, v) in paths:
        if k != 'iter':
            continue
        cur = [(i, c) for i, c in enumerate(live) if i not in bad]

        def ev():
            return eval_at(I, p.store, [c for _, c in cur])
        fs, pc2 = with_path(I, p.store, p.pc, ev)
        for (i, c), f in zip(cur, fs):
            if f is None:
                bad.add(i)
        items = [(i, f) for (i, c), f in zip(cur, fs) if f is not None]
        bad |= eliminate(I, pc2, items)
    return [c for i, c in enumerate(live) if i not in bad]


# ------------------------------------------------------------------ termination (reported, not an alarm)
def termination(I, node, head, paths, ints, newpc, base_pc, cond, live):
    iters = [p for p, (k, v) in paths if k == 'iter']
    if not iters:
        return
    where = '%s:%s' % (I.fnstack[-1] if I.fnstack else '?', I.where(node))
    for l in ints:
        up = down = True
        for p in iters:
            try:
                x = l.get(p.store)
            except Exception:
                up = down = False
                break
            if up and I.check(p.pc, z3.Not(x > l.v), 2000)[0] != z3.unsat:
                up = False
            if down and I.check(p.pc, z3.Not(z3.And(x < l.v)), 2000)[0] != z3.unsat:
                down = False
            if not (up or down):
                break
        if up or down:
            I.terminates.add(where)
            return
    I.unestablished.append(where)
