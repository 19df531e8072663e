#!/usr/bin/env python3
"""Lists planted changes that take out lines, none of which is a line of the original repository. Not a check."""
import os, re, subprocess
BASE = 'cb298f1'
V = '/verif/seeded'
blame = {}
for i in sorted(os.listdir(V)):
    ok = n = 0
    f = None
    for l in open(f'{V}/{i}/patch.diff', errors='replace'):
        if l.startswith('--- a/'):
            f = l[6:].strip()
            if f not in blame:
                blame[f] = subprocess.run(['git', '-C', '/repo', 'blame', '-s', f], capture_output=True, text=True).stdout.splitlines()
        elif l.startswith('@@'):
            at = int(re.match(r'@@ -(\d+)', l).group(1)) - 1
        elif l.startswith('-') and not l.startswith('---'):
            n += 1
            ok += BASE in blame[f][at]
            at += 1
        elif l.startswith(' '):
            at += 1
    if n and not ok: print(i, 'takes out', n, 'lines, none original')
