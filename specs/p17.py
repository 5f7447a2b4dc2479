"""The test runner runs every test once and reports the truth."""
from .host import *

R = Registry()
LISTS = ('tests', 'generators')
NAMES = ('registeredTestNames', 'registeredGeneratorNames')
KIND = z3.Function('kindOf', z3.IntSort(), z3.IntSort())        # which list the task of a function is in
PLACE = z3.Function('placeOf', z3.IntSort(), z3.IntSort())      # and where
ERRORS = ('TestAssertException', 'ConfigurationError', 'StateError', 'runtime_error', 'logic_error', 'bad_alloc', 'exception')


class Run:
    """a registry with any tasks; what they do is arbitrary"""

    def __init__(s, c, group):
        I = s.I = c.I
        s.c = c
        s.this = c.obj('this', 'TestRegistry')
        s.lists = []
        for gi, l in enumerate(LISTS):
            v = c.field(s.this, l)
            c.assume(v.size < 1 << 40)
            seen = set()

            def rd(i, arr=v.arr, size=v.size, gi=gi, seen=seen):
                t = arr.read(i)
                if i.get_id() not in seen:
                    seen.add(i.get_id())
                    I.keepalive.append(i)
                    f = t.fields['func']
                    c.fp.ax(z3.Implies(z3.And(i >= 0, i < size), z3.And(f > 0, KIND(f) == gi, PLACE(f) == i)))
                return t
            I.put(s.this.f(l), Vec(v.elem, v.size, FArr(rd)))
            s.lists.append(c.field(s.this, l))
        c.assume(k_ >= 0)
        s.tracked = s.lists[group].arr.read(k_)
        s.group = group
        for n in ('runs', 'total', 'failed', 'saidFailed', 'saidPassed', 'shown', 'toShow'):
            lv = c.obj('g:' + n, 'size_t')
            c.assume(c.get(lv) == 0)
            setattr(s, n, lv)
        for n in ('named', 'errorShown'):                   # nothing is owed before the first task
            lv = c.obj('g:' + n, 'bool')
            c.assume(c.get(lv))
            setattr(s, n, lv)
        s.name, s.error = (c.obj('g:' + n, 'std::string') for n in ('name', 'error'))
        s.msgs = c.callref(None, 'ExpectationFailureMessages', 'get')
        v = I.fresh_at('vector<std::string>', 'messages')
        I.put(s.msgs, Vec(I.get(s.msgs).elem, v.size, v.arr))
        c.assume(v.size < 1 << 40)
        I.contracts[('', '(*)')] = s.task
        I.contracts[('print', 'g:cout')] = s.printed
        I.contracts[('ctor', 'mersenne_twister_engine')] = lambda I_, o, a, node: Undef('rng')
        I.hints = [s.hint]
        I.plain_families = True

    def __getitem__(s, lv):
        return s.I.get(lv)

    def task(s, I, f, args, node):
        c = s.c
        c.prove('each task starts with no recorded failures', s[s.msgs].size == 0)
        c.prove('only tasks of the selected kind are run', KIND(f) == s.kind)
        s.complete('the report of the task before')
        c.prove('tasks run in the order of registration unless shuffling is asked for', z3.Or(s.shuffles, PLACE(f) == s[s.total]))
        me = [l.arr.read(PLACE(f)).fields['name'] for l in s.lists]
        I.put(s.name, StrV((z3.If(s.kind == 1, I.str_term(me[1]), I.str_term(me[0])),)))
        I.put(s.named, z3.BoolVal(False))
        I.put(s.shown, z3.IntVal(0))
        I.put(s.runs, s[s.runs] + z3.If(z3.And(KIND(f) == s.group, PLACE(f) == k_), z3.IntVal(1), z3.IntVal(0)))
        I.put(s.total, s[s.total] + 1)
        # any number of failures is recorded, then any error may be raised
        m = s[s.msgs]
        n = z3.Const(I.nm('recordedFailures'), z3.IntSort())
        I.assume(z3.And(n >= m.size, n < 1 << 40))
        v = I.fresh_at('vector<std::string>', I.nm('messages'))
        I.put(s.msgs, Vec(m.elem, n, v.arr))
        I.put(s.toShow, n)
        for e in ERRORS:
            if I.choose(z3.Bool(I.nm('raises'))):
                I.put(s.failed, s[s.failed] + 1)
                why = StrV((z3.Const(I.nm('why'), I.str_term(s[s.name]).sort()),))
                I.put(s.error, why)
                I.put(s.errorShown, z3.BoolVal(False))
                c.cover(e)
                raise Throw(e, why)
        I.put(s.errorShown, z3.BoolVal(True))
        I.put(s.failed, s[s.failed] + z3.If(n > 0, z3.IntVal(1), z3.IntVal(0)))

    def complete(s, what):
        c = s.c
        c.prove(what + ' is complete', z3.And(s[s.saidFailed] == s[s.failed], s[s.saidPassed] == s[s.total] - s[s.failed]))
        c.prove(what + ' names the task', s[s.named])
        c.prove(what + ' shows every recorded failure', s[s.shown] >= s[s.toShow])
        c.prove(what + ' shows the error that ended the task', s[s.errorShown])

    def printed(s, I, parts):
        texts = [p for p in parts if z3.is_expr(p)]
        while any(t.decl().name() == 'append' for t in texts):
            texts = [x for t in texts for x in (t.children() if t.decl().name() == 'append' else [t])]
        for q in texts:
            m = s[s.msgs]
            n = s[s.shown]
            I.put(s.shown, n + z3.If(z3.And(n < m.size, I.str_term(m.arr.read(n)) == q), z3.IntVal(1), z3.IntVal(0)))
            I.put(s.named, z3.Or(s[s.named], I.str_term(s[s.name]) == q))
            I.put(s.errorShown, z3.Or(s[s.errorShown], I.str_term(s[s.error]) == q))
        for q in flatten(I, parts):
            if isinstance(q, str):
                for word, lv in (('failed', s.saidFailed), ('passed', s.saidPassed)):
                    if word in q:
                        I.put(lv, s[lv] + q.count(word))

    def hint(s, h):
        out = [('reported', lambda st: s.I.get(s.saidFailed, st) == s.I.get(s.failed, st)),
               ('reportedPassed', lambda st: s.I.get(s.saidPassed, st) == s.I.get(s.total, st) - s.I.get(s.failed, st)),
               ('failed<=total', lambda st: z3.And(s.I.get(s.failed, st) >= 0, s.I.get(s.failed, st) <= s.I.get(s.total, st)))]
        g = lambda st, n: s.I.get(s.this.f(n), st)
        out.append(('counted', lambda st: g(st, 'tasksFailed') == s.I.get(s.failed, st)))
        out.append(('countedPassed', lambda st: g(st, 'tasksPassed') == s.I.get(s.total, st) - s.I.get(s.failed, st)))
        at = k_
        if s.I.perms:
            perm, inv, f, cnt = s.I.perms[-1]
            at = inv(k_)
            s.c.fp.ax(z3.Implies(z3.And(k_ >= 0, k_ < cnt), z3.And(inv(k_) >= 0, inv(k_) < cnt, f(inv(k_)) == k_)))
        for a in h.ints:
            out.append(('run up to ' + a.name, lambda st, a=a: s.I.get(s.total, st) == a.get(st)))
            for p in {at, k_}:
                out.append(('once before %s %s' % (a.name, p), lambda st, a=a, p=p: z3.Implies(k_ < s.lists[s.group].size, s.I.get(s.runs, st) == z3.If(p < a.get(st), z3.IntVal(1), z3.IntVal(0)))))
        out += [('named', lambda st: s.I.get(s.named, st)), ('error shown', lambda st: s.I.get(s.errorShown, st)),
                ('all shown', lambda st: s.I.get(s.shown, st) >= s.I.get(s.toShow, st))]
        for a in h.ints:
            out.append(('shown up to ' + a.name, lambda st, a=a: s.I.get(s.shown, st) >= a.get(st)))
        out.append(('never', lambda st: s.I.get(s.runs, st) == 0))
        return out


def runner(group):
    def unit(c):
        I = c.I

        def case():
            I.skolems = [(k_,)]
            s = Run(c, group)
            cfg = c.callref(None, 'CLIConfig', 'getInstance')
            s.kind = z3.If(I.tobool(c.field(cfg, 'm_runGeneratorsNotTests')), z3.IntVal(1), z3.IntVal(0))
            s.shuffles = I.tobool(I.rv(c.call(cfg, 'CLIConfig', 'shouldShuffleTasks', [])))
            r = c.call(s.this, 'TestRegistry', 'runAll', [])
            s.complete('the report of the last task')
            n = z3.If(s.kind == 1, s.lists[1].size, s.lists[0].size)
            exists = k_ < s.lists[group].size
            c.prove('every task of the selected kind is run exactly once (an arbitrary one)', z3.Implies(z3.And(exists, s.kind == group), s[s.runs] == 1))
            c.prove('no task of the other kind is run', z3.Implies(z3.And(exists, s.kind != group), s[s.runs] == 0))
            c.prove('as many runs as tasks', s[s.total] == n)
            # the system keeps the low eight bits
            c.prove('the exit status is zero exactly when no task failed', (r % 256 == 0) == (s[s.failed] == 0))
            c.prove('exactly the failed tasks are reported as failed', s[s.saidFailed] == s[s.failed])
            c.prove('exactly the passed tasks are reported as passed', s[s.saidPassed] == n - s[s.failed])
            nums = numbers(flatten(I, I.get(LV('g:cout')).parts))
            for word, want in (('passed', n - s[s.failed]), ('failed', s[s.failed])):
                for before, x, after in nums:
                    if word in before:
                        c.prove('the total of %s tasks is right' % word, x == want)
                        c.cover(word)
            c.cover('nothing' if not I.feasible(n > 0) else 'finished')
            c.cover('shuffled' if I.perms else 'in order')
        return case
    unit.__name__ = 'runAll%d' % group
    return unit


for g, name in enumerate(('a test', 'a generator')):
    R.unit('TestRegistry::runAll, %s' % name)(expects('finished', 'nothing', 'shuffled', 'in order', 'passed', 'failed', *ERRORS)(runner(g)))


@R.unit('TestRegistry::add')
@expects('refused', 'registered', 'the other kind')
def add(c):
    I = c.I
    cases = []

    def run(group):
        def case():
            I.skolems = [(k_,)]
            this = c.obj('this', 'TestRegistry')
            before = {f: c.field(this, f) for f in LISTS + NAMES + ('tasksPassed', 'tasksFailed')}
            for l in LISTS:
                c.assume(before[l].size < 1 << 40)
            c.assume(k_ >= 0)
            name, tags = c.obj('name', 'std::string'), c.obj('tags', 'std::string')
            kind, func = c.val('hart::TaskCategory', 'kind'), c.val('void (*)()', 'func')
            tests = kind == I.u.enum_value('TaskCategory', 'test')
            c.assume(z3.Or(tests, kind == I.u.enum_value('TaskCategory', 'generate')))
            nv = c.get(name)
            nt = I.str_term(nv)
            known = before[NAMES[group]].fields['has'].read(nt)
            # the names of the tasks and nothing else are known
            mine = tests if group == 0 else z3.Not(tests)
            t = None
            try:
                c.call(this, 'TestRegistry', 'add', [name, tags, kind, func])
            except Throw as e:
                t = e
            after = {f: c.field(this, f) for f in before}
            a, b = before[LISTS[group]], after[LISTS[group]]
            c.prove('registered tasks are kept', z3.Implies(k_ < a.size, equal(I, a.arr.read(k_), b.arr.read(k_))))
            other = z3.Const('anotherName', nt.sort())
            had, has = before[NAMES[group]].fields['has'], after[NAMES[group]].fields['has']
            c.prove('names of other tasks are kept', z3.Implies(other != nt, had.read(other) == has.read(other)))
            if t is not None:
                c.prove('a task is refused only for a name in use (%s)' % t.ty, z3.And(z3.Implies(mine, known), z3.BoolVal(t.ty == 'ValueError')))
                c.prove('a refused task changes nothing', z3.And(a.size == b.size, had.read(nt) == has.read(nt)))
                c.cover('refused')
                return
            if not I.choose(mine):
                c.prove('tasks of the other kind are left alone', z3.And(a.size == b.size, had.read(nt) == has.read(nt)))
                c.cover('the other kind')
                return
            c.prove('a name in use is refused', z3.Not(known))
            c.prove('one task is added', b.size == a.size + 1)
            e = b.arr.read(a.size)
            c.prove('the task is registered as given', z3.And(equal(I, e.fields['name'], nv), e.fields['func'] == func))
            c.prove('the name is in use from now on', has.read(nt))
            c.cover('registered')
        return case
    return [run(0), run(1)]


# ------------------------------------------------------------------ macros
def recorded(c):
    """the recorded failures, in any state"""
    I = c.I
    msgs = c.callref(None, 'ExpectationFailureMessages', 'get')
    v = I.fresh_at('vector<std::string>', 'messages')
    I.put(msgs, Vec(I.get(msgs).elem, v.size, v.arr))
    c.assume(z3.And(v.size < 1 << 40, k_ >= 0))
    I.skolems = [(k_,)]
    return msgs, I.get(msgs)


def text_of(I, v):
    return ''.join(x for x in flatten(I, (I.rv(v) if isinstance(v, LV) else v).parts) if isinstance(x, str))


@R.unit('HART_EXPECT_TRUE, HART_ASSERT_TRUE')
@expects('satisfied', 'expectation failed', 'assertion failed')
def conditions(c):
    I = c.I

    def run(name, asserted):
        def case():
            msgs, m0 = recorded(c)
            x = c.val('bool', 'condition')
            x = I.tobool(x)
            t = None
            try:
                c.func(name, [x])
            except Throw as e:
                t = e
            m = I.get(msgs)
            c.prove('failures recorded earlier are kept', z3.Implies(k_ < m0.size, equal(I, m0.arr.read(k_), m.arr.read(k_))))
            if asserted:
                c.prove('an assertion ends the task exactly when its condition is false', x == z3.BoolVal(t is None))
                c.prove('an assertion records no failed expectation', m.size == m0.size)
                if t is not None:
                    c.prove('a failed assertion is reported as such', z3.BoolVal(t.ty == 'TestAssertException' and 'HART_ASSERT_TRUE' in text_of(I, t.val) and 'observed' in text_of(I, t.val)))
                    c.cover('assertion failed')
                    return
            else:
                c.prove('an expectation never ends the task', z3.BoolVal(t is None))
                c.prove('a failure is recorded exactly when an expectation is false', m.size == m0.size + z3.If(x, z3.IntVal(0), z3.IntVal(1)))
                if not I.choose(x):
                    w = text_of(I, m.arr.read(m0.size))
                    c.prove('the failure names the condition', z3.BoolVal('HART_EXPECT_TRUE' in w and 'observed' in w))
                    c.cover('expectation failed')
                    return
            c.cover('satisfied')
        return case
    return [run('verif_expect', False), run('verif_assert', True)]


@R.unit('HART_FAIL_TEST, HART_FAIL_TEST_MSG, HART_REQUIRES_DATA_PATH_ARG')
@expects('failed', 'failed with a message', 'refused', 'accepted')
def failures(c):
    I = c.I

    def attempt(name, args):
        try:
            c.func(name, args)
        except Throw as e:
            return e

    def plain():
        msgs, m0 = recorded(c)
        t = attempt('verif_fail', [])
        c.prove('the task ends as failed', z3.BoolVal(t is not None and t.ty == 'TestAssertException'))
        c.cover('failed')

    def message():
        msgs, m0 = recorded(c)
        why = c.obj('why', 'std::string')
        t = attempt('verif_fail_msg', [why])
        c.prove('the task ends as failed', z3.BoolVal(t is not None and t.ty == 'TestAssertException'))
        w = I.str_term(c.get(why))
        found = {}

        def walk(e):
            found[e.get_id()] = e
            for k in e.children():
                walk(k)
        for p in (I.rv(t.val) if isinstance(t.val, LV) else t.val).parts:
            if z3.is_expr(p):
                walk(p)
        c.prove('the message is reported', z3.BoolVal(w.get_id() in found))
        c.cover('failed with a message')

    def data():
        msgs, m0 = recorded(c)
        cfg = c.callref(None, 'CLIConfig', 'getInstance')
        root = I.rv(c.call(cfg, 'CLIConfig', 'getDataRootPath', []))
        t = attempt('verif_needs_data', [])
        empty = I.str_len(root) == 0
        c.prove('a task that needs a data folder is failed exactly without one', empty == z3.BoolVal(t is not None))
        if t is not None:
            c.prove('for a reason the runner reports', z3.BoolVal(t.ty == 'ConfigurationError'))
        c.cover('accepted' if t is None else 'refused')
    return [plain, message, data]


@R.unit('HART_TEST, HART_TEST_WITH_TAGS, HART_GENERATE, HART_GENERATE_WITH_TAGS')
@expects('test', 'generator')
def declarations(c):
    I = c.I
    types = sorted((k for k in I.u.cls if k.startswith('HART_RegistrarType')), key=lambda k: int(k[len('HART_RegistrarType'):]))
    WANT = (('first name', 'test', ''), ('second name', 'test', 'second tags'), ('third name', 'generate', ''), ('fourth name', 'generate', 'fourth tags'))

    def run(i):
        name, kind, tags = WANT[i]

        def case():
            calls = []
            I.contracts[('TestRegistry', 'add')] = lambda I_, o, a, node: calls.append((o, [I.rv(x) for x in a]))
            c.ctor('declared', types[i], [])
            c.prove('declaring a task registers one task', z3.BoolVal(len(calls) == 1))
            n, g, k, f = calls[0][1]
            c.prove('with the name given', z3.BoolVal(text_of(I, n) == name and len(flatten(I, n.parts)) == 1))
            c.prove('with the tags given', z3.BoolVal(text_of(I, g) == tags))
            c.prove('of the kind declared', k == I.u.enum_value('TaskCategory', kind))
            msgs, m0 = recorded(c)
            I.call_decl(I.u.definition(f.decl['id']), None, [])
            c.prove('with the body given', I.get(msgs).size == m0.size + 1)
            c.cover('test' if kind == 'test' else 'generator')
        return case
    c.prove('one type per declaration', z3.BoolVal(len(types) == 4))
    return [run(i) for i in range(4)]


for u in (conditions, failures, declarations):
    u.tu = 'macros'
