"""Systematic small changes to the code, to look for blind spots: python3 tools/mutate.py OUT.jsonl [file regex] [--every N] [--jobs N]
Each change is made in a scratch copy; the proofs of the properties of that file are run until one is refuted.
Changes no proof refutes are then given to the drivers (--drivers).  Not part of any check."""
import sys, re, os, json, subprocess, shutil, random, concurrent.futures as cf, threading

ROOT = '/tmp/mu'
BASE = os.environ.get('MUTATE_BASE', '/repo')
PROPS = {
    'hart_audio_buffer.hpp': 'P01', 'matchers/hart_equalsto.hpp': 'P02 P18 P23', 'matchers/hart_peaksat.hpp': 'P03 P18 P23', 'matchers/hart_peaksbelow.hpp': 'P03 P18 P23',
    'matchers/hart_matcher.hpp': 'P04 P18', 'hart_process_audio.hpp': 'P06 P05 P04 P19 P18', 'dsp/hart_gaindb.hpp': 'P07 P23', 'dsp/hart_gainlinear.hpp': 'P07 P23',
    'dsp/hart_hardclip.hpp': 'P08 P23', 'dsp/hart_dsp.hpp': 'P09 P15 P07', 'envelopes/hart_segmentedenvelope.hpp': 'P10', 'signals/hart_silence.hpp': 'P11 P23',
    'signals/hart_sinewave.hpp': 'P11 P23', 'signals/hart_whitenoise.hpp': 'P11 P23', 'signals/hart_sine_sweep.hpp': 'P12 P23', 'signals/hart_wavfile.hpp': 'P13 P23',
    'hart_wavwriter.hpp': 'P14 P21', 'signals/hart_signal.hpp': 'P15 P23', 'hart_utils.hpp': 'P16 P12 P11 P03 P19', 'hart_units.hpp': 'P16', 'hart_test_registry.hpp': 'P17',
    'hart_expectation_failure_messages.hpp': 'P17 P04', 'hart_plot.hpp': 'P20', 'hart_exceptions.hpp': 'P06', 'hart_precision.hpp': 'P22 P18', 'hart.hpp': 'P22 P17',
    'hart_cliconfig.hpp': 'P22 P17 P19 P11'}
OPS = [(' < ', ' <= '), (' <= ', ' < '), (' > ', ' >= '), (' >= ', ' > '), (' == ', ' != '), (' != ', ' == '), (' + ', ' - '), (' - ', ' + '), (' * ', ' / '), (' / ', ' * '),
       (' && ', ' || '), (' || ', ' && '), ('++', '--'), ('true', 'false'), ('false', 'true'), (' += ', ' = '), (' += ', ' -= '), (' -= ', ' = '), (' *= ', ' = '), (' |= ', ' = '), (' |= ', ' &= '),
       ('std::min', 'std::max'), ('std::max ', 'std::min '), ('std::floor', 'std::ceil'), ('std::round', 'std::floor'), ('std::sin', 'std::cos'), ('std::abs (', '('), ('! ', ''),
       ('continue;', 'break;'), ('break;', 'continue;'), (' % ', ' / '), ('.begin()', '.end()'), ('channel', 'channel + 1'), ('frame]', 'frame + 1]'), ('std::move (', '('),
       ('numInputChannels', 'numOutputChannels'), ('numOutputChannels', 'numInputChannels'), ('m_numInputChannels', 'm_numOutputChannels'), ('reset()', 'reset(), 0'), ('size_t ', 'int '), ('double ', 'float ')]


def mutants(f, text):
    out = []
    for n, line in enumerate(text.split('\n')):
        code = line.split('//')[0]
        if not code.strip() or code.strip().startswith(('#', '*', '/*', 'template', 'static_assert', 'using', 'namespace')):
            continue
        for a, b in OPS:
            i = code.find(a)
            while i >= 0:
                w = a.strip()
                if not (w[0].isalpha() and i > 0 and (code[i - 1].isalnum() or code[i - 1] in '_')) and not (w[-1].isalpha() and i + len(a) < len(code) and (code[i + len(a)].isalnum() or code[i + len(a)] == '_')):
                    out.append((n, line[:i] + b + line[i + len(a):], '%s -> %s' % (a.strip(), b.strip())))
                i = code.find(a, i + len(a))
        for m in re.finditer(r'(?<![\w.])(\d+)(?![\w.])', code):
            v = int(m.group(1))
            for w in {v + 1, max(v - 1, 0)} - {v}:
                out.append((n, line[:m.start()] + str(w) + line[m.end():], '%d -> %d' % (v, w)))
        m = re.match(r'^(\s*(?:else )?if \()(.*)\)\s*$', code)
        if m:
            out.append((n, m.group(1) + '! (' + m.group(2) + '))', 'if negated'))
        m = re.match(r'^\s+[^{}]*;\s*$', code)
        if m and not re.match(r'^\s+(return|const|auto|size_t|bool|double|int|std::vector<|SampleType |AudioBuffer<|static|public|private|virtual|break|continue)', code):
            out.append((n, '', 'statement removed'))
    return out


def copies(k):
    p = '%s/w%d' % (ROOT, k)
    if not os.path.isdir(p):
        os.makedirs(ROOT, exist_ok=True)
        shutil.copytree(BASE, p, symlinks=True, ignore=shutil.ignore_patterns('.git', 'build*'))
    return p


local = threading.local()
free = []
lock = threading.Lock()


def job(m):
    with lock:
        w = free.pop()
    try:
        return check(m, w)
    except Exception as e:
        return dict(m, result='tool error', detail=repr(e)[:200])
    finally:
        with lock:
            free.append(w)


def check(m, w):
    p = '%s/include/%s' % (w, m['file'])
    src = open(BASE + '/include/' + m['file'], newline='').read()
    lines = src.replace('\r\n', '\n').split('\n')
    lines[m['line'] - 1] = m['new']
    open(p, 'w', newline='').write('\r\n'.join(lines))
    try:
        tu = subprocess.run(['python3-vt', '-c', 'import engine.tu as t; print(t.main_source())'], cwd='/verif', capture_output=True, text=True).stdout
        r = subprocess.run(['clang++', '-std=c++11', '-fsyntax-only', '-w', '-DHART_IMPLEMENTATION', '-I' + w + '/include', '-I' + w + '/dependencies/CLI11', '-I' + w + '/dependencies/dr_libs', '-x', 'c++', '-'], input=tu, capture_output=True, text=True)
        if r.returncode:
            return dict(m, result='does not compile')
        env = dict(os.environ, VERIF_REPO=w)
        notes = []
        for pid in PROPS[m['file']].split():
            if '--drivers' in sys.argv:
                env['HART_VERIF_SCRATCH'] = '%s/s%s' % (ROOT, os.path.basename(w))
                exe = '%s/h_%s' % (ROOT, os.path.basename(w))
                b = subprocess.run(['g++', '-std=c++11', '-O0', '-w', '-fsanitize=address,undefined', '-fno-sanitize-recover=undefined', '-I' + w + '/include', '-I' + w + '/dependencies/CLI11', '-I' + w + '/dependencies/dr_libs', '/verif/harness/%s.cpp' % pid.lower(), '-o', exe], capture_output=True, text=True)
                if b.returncode:
                    return dict(m, result='killed', by=pid, detail='driver does not compile')
                os.makedirs(env['HART_VERIF_SCRATCH'], exist_ok=True)
                try:
                    r = subprocess.run([exe, '--seed', '1'], cwd=env['HART_VERIF_SCRATCH'], env=env, capture_output=True, text=True, timeout=400, errors='replace')
                    rc = r.returncode
                except subprocess.TimeoutExpired:
                    rc = 'timeout'
                if rc != 0:
                    return dict(m, result='killed', by=pid, detail='driver %s %s' % (rc, r.stdout[-200:] if rc != 'timeout' else ''))
                continue
            r = subprocess.run(['timeout', '600', 'python3-vt', '-m', 'engine.run', pid], cwd='/verif', env=env, capture_output=True, text=True)
            f = [l for l in r.stdout.split('\n') if 'FAILED' in l]
            e = [l for l in r.stdout.split('\n') if ' ERROR ' in l or 'NOT REACHED' in l]
            if f and any('counterexample' in l for l in f):
                return dict(m, result='killed', by=pid, detail=f[0].strip()[:160])
            if f:
                notes.append('undecided %s: %s' % (pid, f[0].strip()[:120]))
            if e:
                notes.append('error %s: %s' % (pid, e[0].strip()[-160:]))
            if not r.stdout.strip().split('\n')[-1].startswith('bad'):
                notes.append('no answer ' + pid + ' ' + r.stderr[-160:])
        return dict(m, result='survived', detail='; '.join(notes))
    finally:
        open(p, 'w', newline='').write(src)


def main():
    out = sys.argv[1]
    rx = sys.argv[2] if len(sys.argv) > 2 and not sys.argv[2].startswith('--') else '.'
    opt = lambda n, d: int(sys.argv[sys.argv.index(n) + 1]) if n in sys.argv else d
    jobs = opt('--jobs', 7)
    if '--from' in sys.argv:
        todo = [json.loads(l) for l in open(sys.argv[sys.argv.index('--from') + 1])]
        todo = [{k: m[k] for k in ('file', 'line', 'old', 'new', 'what')} for m in todo if m['result'] == 'survived']
    else:
        todo = []
        for f in PROPS:
            if not re.search(rx, f):
                continue
            text = open(BASE + '/include/' + f, newline='').read().replace('\r\n', '\n')
            for n, new, what in mutants(f, text):
                todo.append(dict(file=f, line=n + 1, old=text.split('\n')[n].strip(), new=new, what=what))
        random.Random(opt('--seed', 1)).shuffle(todo)
        if '--every' in sys.argv:
            todo = todo[::opt('--every', 1)]
    done = set()
    if os.path.exists(out):
        done = {(m['file'], m['line'], m['new']) for m in map(json.loads, open(out))}
    todo = [m for m in todo if (m['file'], m['line'], m['new']) not in done]
    print(len(todo), 'changes')
    if '--list' in sys.argv:
        return
    free.extend(copies(k) for k in range(jobs))
    with open(out, 'a') as fh, cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(job, todo):
            fh.write(json.dumps(r) + '\n')
            fh.flush()


main()
