#!/usr/bin/env python3
"""Development tool: runs the registered check of each planted bug's property against a scratch copy with the bug applied.
usage: runseeds.py [id...]"""
import json, os, subprocess, sys, shutil, time
OUT = '/verif/seeded'
ids = sys.argv[1:] or sorted(os.listdir(OUT))
for i in ids:
    d = os.path.join(OUT, i)
    prop = json.load(open(d + '/meta.json'))['property']
    wt = '/tmp/hart_rs_' + i
    shutil.rmtree(wt, ignore_errors=True)
    os.makedirs(wt)
    subprocess.run('cp -a /repo/include /repo/dependencies %s/ && cd %s && patch -s -p1 --binary < %s/patch.diff' % (wt, wt, d), shell=True, check=True)
    t = time.time()
    r = subprocess.run(['python3-vt', '/verif/check.py', prop], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(os.environ, VERIF_REPO=wt))
    o = r.stdout.decode(errors='replace').splitlines()
    v = [l for l in o if l.startswith('VIOLATION')]
    s = [l for l in o if l.startswith(prop + ':')]
    print('%-6s %s exit=%d %5.1fs %s | %s' % (i, prop, r.returncode, time.time() - t, (v or ['NOT CAUGHT'])[0][-60:], (s or o[-3:])[0] if (s or o) else ''), flush=True)
    rp = '/verif/tools/seed_results.json'
    res = json.load(open(rp)) if os.path.exists(rp) else {}
    res[i] = ('not caught' if not v else '%s: proof and replayed input' % prop if any('failed obligation' in l for l in o) and 'no-failing' not in v[0] else '%s: replay driver (unit undecided by the prover)' % prop if 'no-failing' not in v[0] else '%s: proof only (no failing input found)' % prop)
    json.dump(res, open(rp, 'w'), indent=1, sort_keys=True)
    for l in o:
        if 'failed obligation' in l or 'undecided:' in l: print('      ' + l[:200])
    shutil.rmtree(wt, ignore_errors=True)
