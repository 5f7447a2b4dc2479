#!/usr/bin/env python3
"""Development tool: lists planted bugs whose patch removes only lines that are not in the original repository (they would not count)."""
import os, subprocess, sys
base = subprocess.run("git -C /repo rev-list --max-parents=0 HEAD", shell=True, capture_output=True, text=True).stdout.split()[0]
only = sys.argv[1:]
for s in sorted(os.listdir('/verif/seeded')):
    if only and s not in only:
        continue
    f, good, bad = None, 0, []
    cache = {}
    for l in open('/verif/seeded/%s/patch.diff' % s, newline='').read().replace('\r', '').split('\n'):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            cache[f] = set(x.strip() for x in subprocess.run(['git', '-C', '/repo', 'show', base + ':' + f], capture_output=True, text=True).stdout.split('\n'))
        elif l.startswith('-') and l[1:].strip():
            if l[1:].strip() in cache[f]:
                good += 1
            else:
                bad.append(l[1:].strip())
    print('%-6s original lines changed: %d%s' % (s, good, '' if not bad else '  own: ' + bad[0][:80]))
