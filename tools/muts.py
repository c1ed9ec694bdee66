#!/usr/bin/env python3
"""muts.py IDS FILE < lines 'old => new' (or 'old #2 => new' for the 2nd occurrence; \\n escapes): tries each textual change of
FILE in /repo against the checks and undoes it."""
import subprocess, sys
ids, path = sys.argv[1].split(','), '/repo/' + sys.argv[2]
orig = open(path, encoding='latin-1').read()
for line in sys.stdin:
    line = line.rstrip('\n')
    if ' => ' not in line and not line.endswith(' =>'):
        continue
    old, _, new = line.partition(' =>')
    new = new[1:] if new.startswith(' ') else new
    n = 1
    if ' #' in old and old.rsplit(' #', 1)[1].isdigit():
        old, n = old.rsplit(' #', 1)
        n = int(n)
    old, new = old.replace('\\n', '\n').replace('\\t', '\t'), new.replace('\\n', '\n').replace('\\t', '\t')
    at, k = -1, 0
    while k < n:
        at = orig.find(old, at + 1)
        if at < 0:
            break
        k += 1
    if at < 0:
        print('NOT-FOUND', line[:100])
        continue
    open(path, 'w', encoding='latin-1').write(orig[:at] + new + orig[at + len(old):])
    try:
        for i in ids:
            r = subprocess.run([sys.executable, '/verif/check.py', i], capture_output=True, text=True)
            out = [l for l in r.stdout.splitlines() if not l.startswith('KNOWN')]
            print({0: 'missed', 1: 'CAUGHT', 2: 'BROKEN'}.get(r.returncode, r.returncode), i, line[:70], '|', (out[0] if out else r.stderr[-200:])[:130])
    finally:
        open(path, 'w', encoding='latin-1').write(orig)
