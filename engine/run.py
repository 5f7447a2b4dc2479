"""Runs the proof units of one property and collects the obligations."""
import multiprocessing as mp
import os
import re
import signal
import time
import traceback
import importlib
import z3
from .vals import *
from .frontend import norm, ExtractionError
from . import lib

FLOATS2 = ('float', 'double')


class ProofUnit:
    def __init__(self, name, fn, args):
        self.name, self.fn, self.args = name, fn, args


class Registry:
    def __init__(self):
        self.units = []

    def unit(self, name, *argsets):
        """register fn as a proof unit, once per argument tuple"""
        def deco(fn):
            for a in (argsets or [()]):
                a = a if isinstance(a, tuple) else (a,)
                self.units.append(ProofUnit(name.format(*a) if a else name, fn, a))
            return fn
        return deco


class Ctx:
    """what a specification works with"""

    def __init__(self, I):
        self.I, self.u, self.fp = I, I.u, I.fp
        self.covers = []

    # -- state
    def obj(self, name, ty):
        return self.I.alloc(name, ty, self.I.fresh_at(ty, name))

    def get(self, lv):
        return self.I.get(lv)

    def field(self, lv, *path):
        for p in path:
            lv = lv.f(p)
        return self.I.get(lv)

    def val(self, ty, name):
        """argument of a value type"""
        return self.I.fresh_at(ty, name)

    def assume(self, f):
        self.I.assume(f)

    def prove(self, name, f):
        self.I.prove(name, f)

    # -- calls
    def decl(self, cls, name, nparams=None, pred=None):
        c = self.u.find_class(cls)
        if c is None:
            raise ExtractionError('class %s not found' % cls)
        todo = [c.name]
        while todo:
            k = todo.pop(0)
            cc = self.u.find_class(k)
            if cc is None:
                continue
            if name in cc.methods:
                ms = [self.u.definition(m['id']) for m in cc.methods[name]]
                ms = [m for m in ms if (nparams is None or len(self.u.params(m)) == nparams) and (pred is None or pred(m)) and self.u.body(m) is not None]
                if ms:
                    return ms[0]
            todo += cc.bases
        raise ExtractionError('%s::%s not found' % (cls, name))

    def call(self, this, cls, name, args=(), nparams=None, pred=None):
        return self.I.rv(self.I.call_decl(self.decl(cls, name, nparams, pred), this, list(args)))

    def callref(self, this, cls, name, args=(), nparams=None, pred=None):
        return self.I.call_decl(self.decl(cls, name, nparams, pred), this, list(args))

    def func(self, name, args, pred=None):
        ds = [self.u.definition(d['id']) for d in self.u.funcs.get(name, [])]
        ds = [d for d in ds if self.u.body(d) is not None and (pred is None or pred(d)) and len(self.u.params(d)) == len(args)]
        if not ds:
            raise ExtractionError('function %s not found' % name)
        return self.I.rv(self.I.call_decl(ds[0], None, list(args)))

    def ctor(self, name, ty, args, pred=None):
        """run a constructor of a class on a fresh object"""
        c = self.u.find_class(ty)
        if c is None:
            raise ExtractionError('class %s not found' % ty)
        lv = self.I.alloc(name, c.name, Struct(c.name, {k: self.I.default(t) for k, t in self.I.all_fields(c)}))
        for d in c.ctors:
            d2 = self.u.definition(d['id'])
            if self.u.body(d2) is None or len(self.u.params(d2)) != len(args):
                continue
            if pred is not None and not pred(d2):
                continue
            if pred is None and len(args) == 1 and norm(c.name.split('<')[0]) in norm((self.u.params(d2)[0].get('type') or {}).get('qualType', '')):
                continue
            self.I.call_decl(d2, lv, list(args))
            return lv
        raise ExtractionError('constructor of %s not found' % ty)

    def cover(self, name):
        self.covers.append(name)
        self.I.covered.add(name)


def sk(*names):
    return tuple(z3.Int(n) for n in names)


def run_unit(args):
    prop, name = args
    from .interp import Interp, Throw
    from .tu import unit
    t0 = time.time()
    out = {'name': name, 'obligations': [], 'error': None, 'paths': 0, 'functions': [], 'contracts': [], 'loops': [], 'invariants': 0,
           'queries': 0, 'solver_s': 0.0, 'trusted': [], 'covered': [], 'expected': [], 'unterminated': []}
    try:
        R = importlib.import_module('specs.' + prop.lower()).R
        pu = [x for x in R.units if x.name == name][0]
        lib.ASSUMED.clear()
        I = Interp(unit(getattr(pu.fn, 'tu', 'main')))
        I.covered = set()
        c = Ctx(I)
        try:
            cases = pu.fn(c, *pu.args)
            if not isinstance(cases, (list, tuple)):
                cases = [cases]
            for case in cases:
                r = I.explore(case, {}, [])
                out['paths'] += len(r)
                for p, (k, v) in r:
                    if k == 'throw':
                        I.path = p
                        I.recording = True
                        I.prove('no unexpected exception escapes (%s)' % v.ty, False)
        finally:
            for o in I.obs:
                out['obligations'].append({'name': o.name, 'fn': o.fn, 'line': o.loc, 'ok': bool(o.ok), 'why': o.why,
                                           'backend': o.backend, 's': round(o.time, 3), 'model': model_text(o.model) if o.model is not None else None})
            out['functions'] = sorted(I.stats['inlined'])
            out['contracts'] = sorted(I.stats['contracts'])
            out['loops'] = sorted('%s:%s' % x for x in I.stats['loops'])
            out['invariants'] = I.stats['invs']
            out['queries'] = I.stats['queries']
            out['solver_s'] = round(I.stats['time'], 2)
            out['trusted'] = sorted(lib.ASSUMED)
            out['covered'] = sorted(I.covered)
            out['expected'] = sorted(getattr(pu.fn, 'expects', ()))
            out['unterminated'] = sorted(set(I.unestablished) - I.terminates)
    except ExtractionError as e:
        out['error'] = 'extraction: %s' % e
    except Unsupported as e:
        out['error'] = 'unsupported construct: %s' % e
        if os.environ.get('TB'):
            out['error'] += '\n' + traceback.format_exc()[-3500:]
    except Exception as e:
        out['error'] = '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc()[-1500:])
    out['wall_s'] = round(time.time() - t0, 2)
    return out


def model_text(m, limit=60):
    out = []
    try:
        for d in m.decls():
            if d.arity() == 0:
                v = m[d]
                s = str(v)
                if len(s) < 80 and not d.name().startswith('lit'):
                    out.append('%s = %s' % (d.name(), s))
    except Exception:
        pass
    return sorted(out)[:limit]


def prove_property(prop, budget=700, jobs=8, only=None):
    """run all proof units of a property in parallel; a unit that runs out of time is undecided"""
    from .tu import unit
    R = importlib.import_module('specs.' + prop.lower()).R
    names = [u.name for u in R.units if only is None or re.search(only, u.name)]
    assert len(set(names)) == len(names), 'duplicate unit names'
    t0 = time.time()
    try:
        for k in sorted(set(getattr(u.fn, 'tu', 'main') for u in R.units if u.name in names)):
            unit(k)
    except ExtractionError as e:
        return [{'name': n, 'obligations': [], 'error': 'extraction: %s' % e, 'paths': 0, 'functions': [], 'contracts': [], 'loops': [],
                 'invariants': 0, 'queries': 0, 'solver_s': 0, 'trusted': [], 'covered': [], 'expected': [], 'unterminated': [], 'wall_s': 0} for n in names]
    ctx = mp.get_context('fork')
    res = {}
    running = {}
    todo = list(names)
    while todo or running:
        while todo and len(running) < jobs:
            n = todo.pop(0)
            a, b = ctx.Pipe(duplex=False)
            p = ctx.Process(target=child, args=(b, (prop, n)))
            p.start()
            b.close()
            running[n] = (p, a, time.time())
        for n in list(running):
            p, a, ts = running[n]
            if a.poll(0.02):
                try:
                    res[n] = a.recv()
                except EOFError:
                    res[n] = empty(n, 'proof process ended')
                p.join(5)
                del running[n]
            elif not p.is_alive():
                res[n] = empty(n, 'proof process ended with %s' % p.exitcode)
                del running[n]
            elif time.time() - t0 > budget:
                p.kill()
                p.join(5)
                res[n] = empty(n, 'out of time')
                del running[n]
        if time.time() - t0 > budget:
            for n in todo:
                res[n] = empty(n, 'out of time')
            todo = []
    return [res[n] for n in names]


def child(conn, a):
    import sys
    sys.setrecursionlimit(20000)
    conn.send(run_unit(a))
    conn.close()


def empty(n, why):
    return {'name': n, 'obligations': [], 'error': why, 'paths': 0, 'functions': [], 'contracts': [], 'loops': [], 'invariants': 0,
            'queries': 0, 'solver_s': 0, 'trusted': [], 'covered': [], 'expected': [], 'unterminated': [], 'wall_s': 0}


def main():
    import sys
    prop = sys.argv[1]
    only = sys.argv[2] if len(sys.argv) > 2 else None
    t = time.time()
    if os.environ.get('DBG'):
        from .interp import Interp
        Interp.DEBUG = True
    bad = 0
    for r in prove_property(prop, only=only):
        f = [o for o in r['obligations'] if not o['ok']]
        print('%-60s obl %3d failed %d paths %d  %.1fs %s' % (r['name'], len(r['obligations']), len(f), r['paths'], r['wall_s'], 'ERROR ' + (r['error'] if os.environ.get('TB') else r['error'].split('\n')[0]) if r['error'] else ''))
        miss = set(r['expected']) - set(r['covered'])
        if miss:
            print('   NOT REACHED:', miss)
        seen = set()
        for o in f:
            k = (o['name'], o['fn'], o['line'])
            if k in seen:
                continue
            seen.add(k)
            print('   FAILED', o['name'], '|', o['fn'], o['line'], o['why'])
            if os.environ.get('MODEL'):
                print('      ', '\n       '.join(o['model'] or []))
        bad += len(f) + bool(r['error'])
    print('bad', bad, 'wall', round(time.time() - t, 1))


if __name__ == '__main__':
    import sys
    sys.setrecursionlimit(20000)
    main()
