#!/usr/bin/env python3
"""orig.py: lists the seeds whose patch removes no line of the original repository."""
import os, re, subprocess
BASE = 'e333542'
for s in sorted(os.listdir('/verif/seeded')):
    n = adds = 0
    f = None
    for l in open('/verif/seeded/%s/patch.diff' % s):
        if l.startswith('--- '):
            f = l[6:].strip()
        m = re.match(r'@@ -(\d+)', l)
        if m:
            ln = int(m.group(1))
            continue
        if l.startswith('-') and not l.startswith('---'):
            if l[1:].strip():
                b = subprocess.run(['git', '-C', '/repo', 'blame', '-s', '-L', '%d,%d' % (ln, ln), 'HEAD', '--', f], capture_output=True, text=True).stdout
                n += b.startswith('^')
            ln += 1
        elif l.startswith('+') and not l.startswith('+++'):
            adds += 1
        elif l.startswith(' '):
            ln += 1
    if not n:
        print(s, adds)
