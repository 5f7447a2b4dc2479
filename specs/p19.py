"""Artifacts are saved exactly when and where requested."""
from .host import *

R = Registry()


def process(group):
    def unit(c, T):
        I = c.I

        def case():
            I.skolems = [(c_, f_), (k_,)]
            s = World(c, T, ('P19',), group)
            r, t = run_process(c, T, s)
            c.prove('output is saved at most once', s[s.writes] <= 1)
            c.prove('a plot is saved at most once', s[s.plots] <= 1)
            if t is not None:
                c.cover(t.ty)
                return
            c.prove('output is saved when requested', (s[s.writes] == 1) == s.wanted('m_saveOutputMode'))
            c.prove('a plot is saved when requested', (s[s.plots] == 1) == s.wanted('m_savePlotMode'))
            c.cover('finished')
            c.cover('saved' if I.feasible(s[s.writes] == 1) else 'not saved')
            c.cover('plotted' if I.feasible(s[s.plots] == 1) else 'not plotted')
        return case
    unit.__name__ = 'process%d' % group
    return unit


for g, name in enumerate(('checked block by block', 'checked at the end')):
    R.unit('AudioTestBuilder<{0}>::process, a check that is %s' % name, *FLOATS2)(expects('finished', 'saved', 'not saved', 'plotted', 'not plotted')(process(g)))


def absolute(I, v):
    c0 = I.char_at(v, z3.IntVal(0))
    return z3.And(I.str_len(v) > 0, z3.Or(c0 == ord('/'), c0 == ord(chr(92))))


def resolved(c, v):
    """(condition, expected) pairs for a resolved path"""
    I = c.I
    cfg = c.callref(None, 'CLIConfig', 'getInstance')
    root = I.get(cfg).fields['m_dataRootPath']
    return [(absolute(I, v), v), (z3.Not(absolute(I, v)), root + StrV(('/',)) + v)]


@R.unit('isAbsolutePath, toAbsolutePath')
@expects('absolute', 'relative', 'resolved')
def paths(c):
    I = c.I

    def is_abs():
        s = c.obj('path', 'std::string')
        v = c.get(s)
        r = c.func('isAbsolutePath', [s])
        c.prove('a path is absolute iff it begins with a separator', r == absolute(I, v))
        c.cover('absolute' if I.feasible(r) else 'relative')

    def to_abs():
        s = c.obj('path', 'std::string')
        v = c.get(s)
        r = c.func('toAbsolutePath', [s])
        for cond, want in resolved(c, v):
            c.prove('absolute paths are used as they are, others resolve under the data root', z3.Implies(cond, equal(I, r, want)))
        c.prove('the given path is not changed', equal(I, c.get(s), v))
        c.cover('resolved')
    return [is_abs, to_abs]


@R.unit('AudioTestBuilder<{0}> requests for files', *FLOATS2)
@expects('ignored', 'requested')
def requests(c, T):
    I = c.I

    def run(method, pathf, modef, fmtf):
        def case():
            I.skolems = [(k_,)]
            this = builder(c, T)
            before = snapshot(c, this)
            s = c.obj('path', 'std::string')
            v = c.get(s)
            mode = c.val('Save', 'mode')
            args = [s, mode]
            if fmtf:
                fmt = c.val('WavFormat', 'format')
                args.append(fmt)
            r = c.callref(this, 'AudioTestBuilder<%s>' % T, method, args)
            empty = I.str_len(v) == 0
            fields = [f for f in (pathf, modef, fmtf) if f]
            for f in fields:
                c.prove('requests with an empty path are ignored (%s)' % method, z3.Implies(empty, same(c, before[f], c.field(this, f))))
            for cond, want in resolved(c, v):
                c.prove('the file goes where it is requested (%s)' % method, z3.Implies(z3.And(z3.Not(empty), cond), equal(I, c.field(this, pathf), want)))
            c.prove('when to save is stored (%s)' % method, z3.Implies(z3.Not(empty), c.field(this, modef) == mode))
            if fmtf:
                c.prove('the requested format is stored', z3.Implies(z3.Not(empty), c.field(this, fmtf) == fmt))
            unchanged_settings(c, this, before, fields)
            c.prove('the test itself is returned', z3.BoolVal(isinstance(r, LV) and r.root == 'this'))
            c.cover('ignored' if I.feasible(empty) else 'requested')
        return case
    return [run('saveOutputTo', 'm_saveOutputPath', 'm_saveOutputMode', 'm_saveOutputWavFormat'), run('savePlotTo', 'm_savePlotPath', 'm_savePlotMode', None)]
