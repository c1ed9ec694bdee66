#!/usr/bin/env python3
"""mkref.py GROUP...: freezes the reference graphs of a group from the current tree."""
import os, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from rules import ref
for g in sys.argv[1:]:
    cand, spec, bad = ref.freeze(g)
    print(g, 'candidates', len(cand), 'judged', len(spec), 'outside', len(bad), 'bytes', os.path.getsize(ref.path(g)))
    for k, why in bad:
        print('  -', k[:100], ':', why)
