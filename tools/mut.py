#!/usr/bin/env python3
"""mut.py IDS FILE OLD NEW [n]: tries one textual change of /repo against checks, then undoes it"""
import subprocess, sys, os
ids, f, old, new = sys.argv[1:5]
n = int(sys.argv[5]) if len(sys.argv) > 5 else 0
p = os.path.join('/repo', f)
s = open(p, encoding='latin1').read()
parts = s.split(old)
if len(parts) < 2 or (len(parts) > 2 and len(sys.argv) <= 5):
    print('MATCHES', len(parts) - 1); sys.exit(2)
t = old.join(parts[:n + 1]) + new + old.join(parts[n + 1:])
open(p, 'w', encoding='latin1').write(t)
try:
    for i in ids.split(','):
        r = subprocess.run(['python3', 'check.py', i], cwd=os.path.dirname(os.path.dirname(os.path.abspath(__file__))), capture_output=True, text=True)
        out = [l for l in (r.stdout + r.stderr).splitlines() if not l.startswith('VIOLATION')]
        print(i, {0: 'quiet', 1: 'CAUGHT', 2: 'BROKEN'}.get(r.returncode, r.returncode), '|', (out[0] if r.returncode != 0 else out[-1])[:200] if out else '')
        if r.returncode not in (0, 1): print(out[-1][:300])
finally:
    open(p, 'w', encoding='latin1').write(s)
