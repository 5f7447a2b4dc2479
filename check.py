#!/usr/bin/env python3-vt
"""Decides one property on /repo's current tree.

  1. the contracts in specs/<id>.py are proved against the clang AST of /repo's current headers (engine/);
  2. the property's replay driver (harness/<id>.cpp) is compiled against the same headers and executed: it replays refuted
     obligations on the real code, stands in (bounded) for obligations that could not be decided, and cross-checks the proof.
"""
import hashlib
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import threading
import time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
os.chdir(HERE)
INC = ['-I%s/include' % REPO, '-I%s/dependencies/CLI11' % REPO, '-I%s/dependencies/dr_libs' % REPO]
SAN = ['-fsanitize=address,undefined', '-fno-sanitize-recover=undefined']


class Harness(threading.Thread):
    def __init__(self, prop, seed, tier):
        super().__init__()
        self.prop, self.seed, self.tier = prop, seed, tier
        self.src = os.path.join(HERE, 'harness', prop.lower() + '.cpp')
        self.dir = tempfile.mkdtemp(prefix='hart_verif_')
        self.exe = os.path.join(self.dir, 'h')
        self.compiled = False
        self.log = ''

    def run(self):
        cmd = ['g++', '-std=c++11', '-O0', '-w'] + SAN + INC + [self.src, '-o', self.exe]
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
            self.compiled = r.returncode == 0
            self.log = r.stdout.decode(errors='replace')[-4000:]
        except Exception as e:
            self.log = repr(e)

    def execute(self, hints, timeout):
        """(status, line, output): status in fail/ok/none"""
        if not self.compiled:
            return 'none', 'replay driver does not compile', self.log
        scale = '1' if self.tier == 'quick' else '12'
        cmd = [self.exe, '--seed', str(self.seed), '--scale', scale]
        for h in hints[:12]:
            cmd += ['--hint', str(h)]
        work = os.path.join(self.dir, 'work')
        os.makedirs(work, exist_ok=True)
        env = dict(os.environ, HART_VERIF_SCRATCH=work)
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout, cwd=work, env=env)
        except subprocess.TimeoutExpired as e:
            # a case that hangs is reported by the driver itself (40 s per case); this is just a slow machine
            return 'none', 'replay driver out of time after %d s' % timeout, (e.stdout or b'').decode(errors='replace')[-3000:]
        out = r.stdout.decode(errors='replace')
        for line in out.splitlines():
            if line.startswith('FAIL'):
                return 'fail', line, out[-6000:]
        if r.returncode != 0:
            return 'fail', 'FAIL the driver ended with status %d' % r.returncode, out[-6000:]
        return 'ok', out.splitlines()[0] if out else '', out[-6000:]

    def clean(self):
        shutil.rmtree(self.dir, ignore_errors=True)


def known_findings(prop):
    out = []
    p = os.path.join(HERE, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r'KNOWN-FINDING: property=(\S+) (.*)', line)
            if m and m.group(1) == prop:
                out.append(line.strip())
    return out


def source_hash():
    h = hashlib.sha256()
    for d, _, fs in sorted(os.walk(os.path.join(REPO, 'include'))):
        for f in sorted(fs):
            h.update(f.encode())
            h.update(open(os.path.join(d, f), 'rb').read())
    return h.hexdigest()[:16]


def main():
    prop = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv:
        tier = 'thorough'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    sys.setrecursionlimit(20000)
    os.makedirs('evidence', exist_ok=True)
    have_harness = os.path.exists(os.path.join(HERE, 'harness', prop.lower() + '.cpp'))
    h = Harness(prop, seed, tier) if have_harness else None
    try:
        if h:
            h.start()
        units, engine_error = [], None
        if os.path.exists(os.path.join(HERE, 'specs', prop.lower() + '.py')):
            try:
                from engine.run import prove_property
                units = prove_property(prop, budget=480 if tier == 'quick' else 3000)
            except Exception as e:
                import traceback
                engine_error = traceback.format_exc()[-2000:]
        if h:
            h.join()
        code = report(prop, tier, seed, t0, units, engine_error, h)
    finally:
        if h:
            if h.is_alive():
                h.join()
            h.clean()
    sys.stdout.flush()
    os._exit(code)


def report(prop, tier, seed, t0, units, engine_error, h):
    obl = [(u, o) for u in units for o in u['obligations']]
    refuted = [(u, o) for u, o in obl if not o['ok'] and o['why'] in ('sat', 'counterexample')]
    unknown = [(u, o) for u, o in obl if not o['ok'] and o['why'] not in ('sat', 'counterexample')]
    errors = [(u['name'], u['error']) for u in units if u['error']]
    if engine_error:
        errors.append(('engine', engine_error))
    vac = [(u['name'], sorted(set(u['expected']) - set(u['covered']))) for u in units if set(u['expected']) - set(u['covered'])]
    vac += [(u['name'], ['no obligation generated']) for u in units if not u['obligations'] and not u['error']]

    hints = []
    for u, o in refuted:
        for line in o.get('model') or []:
            m = re.search(r'= (-?\d+)$', line)
            if m and 0 <= int(m.group(1)) <= 4096 and int(m.group(1)) not in hints:
                hints.append(int(m.group(1)))
    hs, hline, hout = ('none', 'no replay driver', '')
    if h:
        hs, hline, hout = h.execute(hints, 200 if tier == 'quick' else 1500)
    m = re.search(r'OK cases=(\d+) nontrivial=(\d+)', hline)
    evals, nontriv = (int(m.group(1)), int(m.group(2))) if m else (0, 0)
    samples = [l[7:] for l in hout.splitlines() if l.startswith('SAMPLE ')]

    failed_names = {}
    for u, o in refuted:
        failed_names.setdefault((o['name'], o['fn'], o['line']), (u, o))
    violated = hs == 'fail' or bool(refuted)
    replay = os.path.join(HERE, 'evidence', '%s_replay.txt' % prop)
    if os.path.exists(replay):
        os.remove(replay)

    for k in known_findings(prop):
        print(k)
    if violated:
        with open(replay, 'w') as f:
            f.write('property %s, source %s\n\n' % (prop, source_hash()))
            for (n, fn, line), (u, o) in failed_names.items():
                f.write('FAILED OBLIGATION: %s\n  unit: %s\n  function: %s\n  line: %s\n  back end: %s, answer: %s, %.3f s\n  counterexample:\n' % (n, u['name'], fn, line, o['backend'], o['why'], o['s']))
                for x in o.get('model') or []:
                    f.write('    %s\n' % x)
                f.write('\n')
            if hs == 'fail':
                f.write('FAILING INPUT on the real code (harness/%s.cpp, compiled against the current headers):\n  %s\n\nreproduce: cd /verif && g++ -std=c++11 -O0 -w %s %s harness/%s.cpp -o /tmp/replay && /tmp/replay --seed %d %s\n\n%s\n'
                        % (prop.lower(), hline, ' '.join(SAN), ' '.join(INC), prop.lower(), seed, ' '.join('--hint %d' % x for x in hints[:12]), hout))
            else:
                f.write('The replay driver found no failing input (%s).\n' % hline)
            for n, e in errors:
                f.write('undecided unit %s: %s\n' % (n, e))

    nobl, ndis = len(obl), sum(1 for _, o in obl if o['ok'])
    complete = bool(units) and not errors and not unknown and not refuted and not vac
    assumptions = [
        'contracts of the C++ standard library, libm and dr_wav functions listed in trusted_base (assumed, not verified)',
        'floating point: + - * / conversions and comparisons are the abstract IEEE-754 operations constrained by the laws in engine/fp.py (proved bit-precisely for binary32 and binary64 by engine/fplemmas.py in setup); std::pow/sin/log10/remainder are deterministic functions with the laws stated there',
        'memory allocation succeeds; products of channel and frame counts are representable in size_t',
        'preconditions stated in specs/%s.py (see DESIGN.md) hold at the calls made by users' % prop.lower(),
        'clang 18 AST of the instantiated templates is the program that runs; z3 4.x/cvc5 answers are trusted',
    ]
    if not complete:
        assumptions.append('UNDECIDED here, covered only by the bounded replay driver: %s' % json.dumps([e[0] for e in errors] + [o['name'] for _, o in unknown] + [v[0] for v in vac])[:1500])
    backends = {}
    for _, o in obl:
        if o['ok']:
            backends[o['backend'] or 'z3'] = backends.get(o['backend'] or 'z3', 0) + 1
    trusted = sorted(set(x for u in units for x in u['trusted']))
    cov = {
        'obligations': nobl, 'discharged': ndis, 'refuted': len(refuted), 'undecided': len(unknown),
        'checker_cmd': 'python3-vt check.py %s' % prop,
        'trusted_base': ['clang 18 front end', 'engine/ (verification condition generator)', 'z3', 'cvc5'] + trusted,
        'functions_under_contract': sorted(set(x for u in units for x in u['functions'])),
        'callee_contracts_used': sorted(set(x for u in units for x in u['contracts'])),
        'loops_with_inferred_invariants': sorted(set(x for u in units for x in u['loops'])),
        'loops_with_termination_unproved': sorted(set(str(x) for u in units for x in u['unterminated'])),
        'units': [{'unit': u['name'], 'obligations': len(u['obligations']), 'discharged': sum(1 for o in u['obligations'] if o['ok']), 'paths': u['paths'],
                   'solver_s': u['solver_s'], 'queries': u['queries'], 'error': u['error']} for u in units],
        'backends': backends,
        'solver_s': round(sum(u['solver_s'] for u in units), 1),
        'vacuity': 'every expected case was reached' if not vac else str(vac),
        'evaluations': evals, 'distinct_nontrivial': nontriv,
        'rule': 'bounded cross-check by harness/%s.cpp: random and directed cases against the real code (not counted as proved)' % prop.lower(),
        'samples': samples[:5] or ['none'],
        'replay_driver': hline[:300],
        'source': source_hash(),
    }
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'proof', 'coverage': cov, 'assumptions': assumptions,
          'wall_s': round(time.time() - t0, 1), 'violations': (len(failed_names) + (1 if hs == 'fail' else 0))}
    with open(os.path.join(HERE, 'evidence', '%s.json' % prop), 'w') as f:
        json.dump(ev, f, indent=1)

    print('%s: %d obligations, %d discharged, %d refuted, %d undecided, %d unit errors; driver: %s; %.1f s'
          % (prop, nobl, ndis, len(refuted), len(unknown), len(errors), hline[:200], time.time() - t0))
    for (n, fn, line), (u, o) in list(failed_names.items())[:12]:
        print('  failed obligation: %s [%s] in %s:%s' % (n, u['name'], fn, line))
    for n, e in errors[:8]:
        print('  undecided: %s: %s' % (n, e.strip().splitlines()[-1][:200] if e else ''))
    for v in vac[:5]:
        print('  not reached: %s' % (v,))
    if violated:
        print('VIOLATION property=%s replay=%s%s' % (prop, replay, '' if hs == 'fail' else ' no-failing-input-found'))
        return 1
    return 0


if __name__ == '__main__':
    main()
