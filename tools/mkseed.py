#!/usr/bin/env python3
"""Development tool: creates and validates a planted bug in seeded/<id>/ (never used by a check).

A definition file defines SEEDS = [dict(id, property, needs, breaks, edits=[(file, old, new)], demo=C++ text)].
Validation happens in a scratch copy: patch applies, tests build and pass, demo.sh fails with the patch and passes without."""
import json, os, subprocess, sys, importlib.util, shutil
REPO, OUT, WT = '/repo', '/verif/seeded', '/tmp/hart_seed_wt'
DEMO_SH = '''#!/bin/bash
# run in the repository after its build; exit 0 when the property holds for the demonstrated case
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d)"
trap 'cd /; rm -rf "$tmp"' EXIT
g++ -std=c++11 -O0 -w -I"$PWD/include" -I"$PWD/dependencies/CLI11" -I"$PWD/dependencies/dr_libs" "$here/demo.cpp" -o "$tmp/demo" || exit 2
cd "$tmp" && timeout 60 ./demo
'''
DEMO_HEAD = '''#define HART_IMPLEMENTATION
#include "hart.hpp"
#include <cstdio>
#include <cmath>
#include <string>
#include <vector>
using namespace hart;
#define REQUIRE(c) do { if (! (c)) { std::printf ("FAILED line %d: %s\\n", __LINE__, #c); return 1; } } while (0)
'''

def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **k)

def tests(wt):
    r = sh('cd %s && ([ -f _b/build.ninja ] || cmake -S . -B _b -G Ninja -DCMAKE_BUILD_TYPE=RelWithDebInfo) && ninja -C _b HART_Tests' % wt)
    if r.returncode:
        return False, r.stdout.decode()[-1500:]
    r = sh('cd %s/_b && ./HART_Tests --data-root-path %s/tests/data' % (wt, wt))
    out = r.stdout.decode(errors='replace')
    return r.returncode == 0, out[-800:]

def main():
    spec = importlib.util.spec_from_file_location('s', sys.argv[1]); m = importlib.util.module_from_spec(spec); spec.loader.exec_module(m)
    only = sys.argv[2:]
    shutil.rmtree(WT, ignore_errors=True)
    sh('git -C %s worktree prune; cp -a %s %s; rm -rf %s/_build' % (REPO, REPO, WT, WT))
    for s in m.SEEDS:
        if only and s['id'] not in only:
            continue
        d = os.path.join(OUT, s['id'])
        os.makedirs(d, exist_ok=True)
        sh('git -C %s checkout -q -- .' % WT)
        open(d + '/demo.cpp', 'w').write(DEMO_HEAD + s['demo'])
        open(d + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(d + '/demo.sh', 0o755)
        r0 = sh('cd %s && bash %s/demo.sh' % (WT, d))
        ok = True
        for f, old, new in s['edits']:
            p = os.path.join(WT, f)
            t = open(p, newline='').read()
            crlf = '\r\n' in t
            t = t.replace('\r\n', '\n')
            if t.count(old) != 1:
                print(s['id'], 'edit text found %d times in %s' % (t.count(old), f)); ok = False; break
            t = t.replace(old, new)
            open(p, 'w', newline='').write(t.replace('\n', '\r\n') if crlf else t)
        if not ok:
            shutil.rmtree(d); continue
        diff = subprocess.run('git -C %s diff --no-color' % WT, shell=True, stdout=subprocess.PIPE).stdout
        open(d + '/patch.diff', 'wb').write(diff)
        t_ok, t_out = tests(WT)
        r1 = sh('cd %s && bash %s/demo.sh' % (WT, d))
        ap = sh('git -C %s apply --check %s/patch.diff' % (REPO, d))
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(d + '/meta.json', 'w'), indent=1)
        good = r0.returncode == 0 and r1.returncode not in (0, 2) and t_ok and ap.returncode == 0
        print('%-6s %s demo clean=%d patched=%d tests=%s applies=%d' % (s['id'], 'OK ' if good else 'BAD', r0.returncode, r1.returncode, t_ok, ap.returncode))
        if not good:
            print(r0.stdout.decode()[-800:], r1.stdout.decode()[-800:], t_out if not t_ok else '', ap.stdout.decode())
    sh('git -C %s checkout -q -- .' % WT)
    shutil.rmtree(WT, ignore_errors=True)

main()
