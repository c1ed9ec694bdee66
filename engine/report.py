"""Verdicts, evidence and known findings."""
import json, os, sys, time, traceback
from .facts import VERIF, Broken

KNOWN = os.path.join(VERIF, 'known_findings.txt')


def known_keys(pid):
    out = {}
    try:
        for line in open(KNOWN):
            line = line.rstrip('\n')
            if line.startswith('known: property=%s ' % pid):
                rest = line[len('known: property=%s ' % pid):]
                key, _, txt = rest.partition(' :: ')
                out[key.strip()] = txt
    except OSError:
        pass
    return out


class Check:
    def __init__(self, pid):
        self.pid = pid
        self.t0 = time.time()
        self.rc = 2
        self.viol = []
        self.obl = {}          # rule -> number of obligations
        self.functions = set()
        self.sites = set()
        self.samples = []
        self.notes = []
        self.units = 0
        self.extra = {}

    def ob(self, rule, n=1, sample=None):
        self.obl[rule] = self.obl.get(rule, 0) + n
        if sample is not None and sum(1 for s in self.samples if s.startswith(rule)) < 2 and len(self.samples) < 40:
            self.samples.append('%s: %s' % (rule, sample))

    def fn(self, f):
        self.functions.add(f['id'] if isinstance(f, dict) else f)

    def site(self, s):
        self.sites.add(s)

    def violation(self, key, where, msg):
        """key identifies the construct without line numbers"""
        if all(v[0] != key for v in self.viol):
            self.viol.append((key, where, msg))

    def undecided(self, where, msg):
        """a construct of a shape the rule cannot judge: counted, never an alarm"""
        if len(self.notes) < 100 and (where, msg) not in self.notes:
            self.notes.append((where, msg))

    def need(self, rule, minimum):
        """a rule must have had at least this many instances"""
        if self.obl.get(rule, 0) < minimum:
            raise Broken('rule %s: only %d instances found, %d were confirmed by reading' % (rule, self.obl.get(rule, 0), minimum))

    def finish(self, explanation, assumptions=()):
        known = known_keys(self.pid)
        new = [v for v in self.viol if v[0] not in known]
        old = [v for v in self.viol if v[0] in known]
        for k, w, m in old:
            print('KNOWN-FINDING: property=%s %s (%s) %s' % (self.pid, k, w, known[k]))
        tier = os.environ.get('VERIF_TIER', 'quick')
        if tier not in ('quick', 'thorough'):
            tier = 'quick'
        ev = {
            'property': self.pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': 'other',
            'coverage': {
                'explanation': explanation,
                'obligations': sum(self.obl.values()),
                'discharged': sum(self.obl.values()) - len(self.viol) if sum(self.obl.values()) >= len(self.viol) else 0,
                'rules': self.obl,
                'translation_units': self.units,
                'functions_analysed': len(self.functions),
                'call_sites': len(self.sites),
                'samples': self.samples[:40],
                'undecided': ['%s: %s' % n for n in self.notes],
                'known_findings_seen': [v[0] for v in old],
            },
            'assumptions': list(assumptions),
            'wall_s': round(time.time() - self.t0, 2),
            'violations': len(new),
        }
        ev['coverage'].update(self.extra)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        json.dump(ev, open(os.path.join(VERIF, 'evidence', self.pid + '.json'), 'w'), indent=1)
        for w, m in self.notes[:10]:
            print('undecided: %s: %s' % (w, m))
        if new:
            rp = os.path.join(VERIF, 'evidence', self.pid + '.violations.txt')
            with open(rp, 'w') as f:
                for k, w, m in new:
                    f.write('%s\n  at %s\n  %s\n' % (k, w, m))
            for k, w, m in new[:20]:
                print('%s: %s: %s' % (w, k, m))
            print('VIOLATION property=%s replay=%s' % (self.pid, rp))
            self.rc = 1
            return 1
        self.rc = 0
        print('OK property=%s obligations=%d functions=%d units=%d %.1fs' % (
            self.pid, sum(self.obl.values()), len(self.functions), self.units, time.time() - self.t0))
        return 0


def main(pid, run):
    ck = Check(pid)
    try:
        rc = run(ck)
        sys.exit(ck.rc if rc is None else rc)
    except Broken as e:
        print('ANALYSIS-BROKEN property=%s %s' % (pid, e))
        sys.exit(2)
    except Exception as e:
        # a shape the rule was not written for: what was decided so far stands
        tb = traceback.extract_tb(e.__traceback__)
        own = [f for f in tb if '/rules/' in f.filename] or tb
        ck.undecided('%s:%d' % (os.path.basename(own[-1].filename), own[-1].lineno), 'analysis stopped: %s %s' % (type(e).__name__, e))
        if os.environ.get('VERIF_DEBUG'):
            traceback.print_exc()
        if not ck.obl:
            print('ANALYSIS-BROKEN property=%s %s' % (pid, ck.notes[-1][1]))
            sys.exit(2)
        sys.exit(ck.finish('The analysis stopped before its end; what it had decided is reported.'))
