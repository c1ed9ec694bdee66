#!/usr/bin/env python3
"""check.py <property id>: decides one property on /repo's current tree."""
import importlib, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
from engine import facts, report
from rules import ref

if __name__ == '__main__':
    pid = sys.argv[1]
    if pid == 'setup':
        from engine import facts
        lk = facts._lock()
        facts.ensure_tool()
        lk.close()
        facts.load(['^libs/', '^tools/'])
        print('setup done')
        sys.exit(0)
    mod = importlib.import_module('rules.' + pid.lower())
    from rules.refgroups import ALSO

    def run(ck):
        for a in ALSO.get(pid, ()):
            ref.also(ck, *a)
        n = sum(ck.obl.values())
        try:
            return mod.run(ck)
        except facts.Broken as e:
            if not n:
                raise
            # the functions themselves were judged; only the shape the rule reads is gone
            ck.undecided('rule of ' + pid, str(e))
            return ck.finish('The functions this property rests on were compared with their reference graphs; the property\'s own rule found too few of its anchors.')
    report.main(pid, run)
