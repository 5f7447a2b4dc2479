"""Command line options: each sets its own value, and only that."""
from .host import *

R = Registry()
# documented options: names, the accessor that reports the value, the documented default
OPTIONS = (
    (('--data-root-path', '-d'), 'getDataRootPath', '.'),
    (('--tags', '-t'), None, ''),
    (('--seed', '-s'), 'getRandomSeed', 0),
    (('--lin-decimals',), 'getLinDecimals', 6),
    (('--db-decimals',), 'getDbDecimals', 1),
    (('--sec-decimals',), 'getSecDecimals', 3),
    (('--hz-decimals',), 'getHzDecimals', 1),
    (('--rad-decimals',), 'getRadDecimals', 1),
    (('--run-generators', '-g'), 'shouldRunGenerators', False),
    (('--shuffle',), 'shouldShuffleTasks', False),
)


def text(I, v):
    v = I.rv(v)
    return ''.join(x if isinstance(x, str) else '\0' for x in v.parts) if isinstance(v, StrV) else None


def parser(c):
    """what the command line library is assumed to do: remember the registrations, write defaults at once"""
    I = c.I
    lib.trust('CLI11: a registered option writes its value to the variable it was registered with exactly when it is given; default_val writes the default there at once; parse throws ParseError for a malformed command line before anything runs')
    known = []                          # (names, variable, its type)

    def add(I_, obj, args, node):
        names = tuple(n.strip() for n in text(I, args[0]).split(','))
        c.prove('an option is registered with a variable', z3.BoolVal(isinstance(args[1], LV)))
        known.append((names, args[1], I.ty(node['inner'][2])))
        return Ptr('obj', I.alloc('g:option%d' % len(known), 'Option', z3.IntVal(len(known) - 1)))
    for cl in ('Option', 'CLI::Option'):
        I.contracts[(cl, 'capture_default_str')] = lambda I_, obj, args, node: Ptr('obj', obj)
    for cl in ('App', 'CLI::App'):
        I.contracts[(cl, 'add_option')] = add
        I.contracts[(cl, 'add_flag')] = add
    I.contracts[('ctor', 'CLI::App')] = lambda I_, obj, args, node: Struct('CLI::App', {})

    def default(I_, obj, args, node):
        n = [o for o in range(len(known)) if obj.root == 'g:option%d' % (o + 1)][0]
        I.put(known[n][1], I.rv(args[0]))
        return Ptr('obj', obj)
    for cl in ('Option', 'CLI::Option'):
        I.contracts[(cl, 'default_val')] = default
    return known


@R.unit('CLIConfig, initCommandLineArgs and the values reported')
@expects('configured')
def config(c):
    I = c.I

    def run(k):
        names, get, default = OPTIONS[k]

        def case():
            known = parser(c)
            this = c.ctor('cfg', 'CLIConfig', [])
            c.call(this, 'CLIConfig', 'initCommandLineArgs', [])
            seen = [n for ns, lv, ty in known for n in ns]
            c.prove('every documented option is registered once', z3.BoolVal(len(set(seen)) == len(seen) and all(n in seen for n in names)))
            # the options of interest: this one and any other one
            mine = [o for o in known if names[0] in o[0]]
            c.prove('its names denote one option', z3.BoolVal(len(mine) == 1 and all(n in mine[0][0] for n in names)))
            before = I.rv(c.call(this, 'CLIConfig', get, []))
            want = StrV((default,)) if isinstance(default, str) else (z3.BoolVal(default) if isinstance(default, bool) else z3.IntVal(default))
            c.prove('not given, an option has its documented default', equal(I, before, want))
            for o in known:
                if o is not mine[0]:
                    I.put(o[1], any_value(c, o, 'other'))
            c.prove('other options do not change it', equal(I, I.rv(c.call(this, 'CLIConfig', get, [])), want))
            v = any_value(c, mine[0], 'given')
            I.put(mine[0][1], v)
            for o in known:
                if o is not mine[0]:
                    I.put(o[1], any_value(c, o, 'later'))
            got = I.rv(c.call(this, 'CLIConfig', get, []))
            c.prove('given, an option sets exactly its value', equal(I, got, v))
            c.cover('configured')
        return case
    return [run(k) for k in range(len(OPTIONS)) if OPTIONS[k][1]]


def any_value(c, option, tag):
    return c.val(option[2], '%s:%s' % (tag, option[0][0]))


@R.unit('linPrecision, dbPrecision, secPrecision, hzPrecision, radPrecision')
@expects('set')
def precision(c):
    I = c.I

    def run(unit):
        def case():
            stream = I.alloc('stream', 'ostream', Stream(()))
            c.func(unit + 'Precision', [stream])
            cfg = c.callref(None, 'CLIConfig', 'getInstance')
            want = I.rv(c.call(cfg, 'CLIConfig', 'get%sDecimals' % unit.capitalize(), []))
            manip = [p for p in I.get(stream).parts if isinstance(p, tuple) and p[0] == 'manip']
            c.prove('nothing is printed', z3.BoolVal(len(manip) == len(I.get(stream).parts)))
            kinds = [p[1] for p in manip if p[1] in ('fixed', 'scientific', 'defaultfloat')]
            c.prove('numbers are shown with decimals', z3.BoolVal(kinds[-1:] == ['fixed']))
            decimals = [p[2] for p in manip if p[1] == 'setprecision']
            c.prove('with as many as configured for their unit', decimals[-1] == want if decimals else z3.BoolVal(False))
            c.cover('set')
        return case
    return [run(u) for u in ('lin', 'db', 'sec', 'hz', 'rad')]


@R.unit('HART_RUN_ALL_TESTS')
@expects('run', 'refused')
def run_all(c):
    I = c.I

    def case():
        steps = []
        accepted = z3.Bool('acceptedCommandLine')
        argc, status, refusal = z3.Ints('argc status refusal')
        argv = Ptr('opaque')
        lib.trust('CLI11: App::exit prints the reason a command line was refused, or the help asked for, and returns its exit status')
        I.contracts[('CLIConfig', 'initCommandLineArgs')] = lambda I_, o, a, n: steps.append('options')

        def parse(I_, obj, args, node):
            a = [I.rv(x) for x in args]
            c.prove('the whole command line is read, once, with the options known', z3.And(a[0] == argc, z3.BoolVal(len(a) >= 2 and a[1] is argv and steps == ['options'])))
            steps.append('parse')
            if not I.choose(accepted):
                raise Throw('CLI::ParseError', Struct('CLI::ParseError', {}))

        def leave(I_, obj, args, node):
            steps.append('exit')
            return refusal

        def go(I_, obj, args, node):
            steps.append('run')
            return status
        for cl in ('App', 'CLI::App'):
            I.contracts[(cl, 'parse')] = parse
            I.contracts[(cl, 'exit')] = leave
        I.contracts[('TestRegistry', 'runAll')] = go
        r = c.func('verif_main', [argc, argv])
        if 'run' in steps:
            c.prove('tasks run once, after the command line was accepted', z3.And(accepted, z3.BoolVal(steps == ['options', 'parse', 'run'])))
            c.prove('the exit status is that of the run', r == status)
            c.cover('run')
        else:
            c.prove('only a refused command line runs nothing, and says why', z3.And(z3.Not(accepted), z3.BoolVal(steps == ['options', 'parse', 'exit'])))
            c.prove('the exit status is that of the refusal', r == refusal)
            c.cover('refused')
    return case


run_all.tu = 'macros'
