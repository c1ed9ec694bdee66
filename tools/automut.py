#!/usr/bin/env python3
"""automut.py GROUP FILE N [SEED] [TU]: how many small source changes of FILE does the
reference of GROUP tell apart?  The changed text is laid over the file for the parser only."""
import gzip, json, multiprocessing as mp, os, random, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
sys.dont_write_bytecode = True
from engine import facts, vgraph as G
from rules import ref
from rules.refgroups import GROUPS

group, fn, N = sys.argv[1:4]
N = int(N)
rng = random.Random(int(sys.argv[4]) if len(sys.argv) > 4 else 1)
tu = sys.argv[5] if len(sys.argv) > 5 else fn
cfg = dict(GROUPS[group]); cfg['n'] = 4000; cfg['cmp'] = 30
base = facts.load(cfg['units'])
src = open(os.path.join(facts.REPO, fn)).read()
lines = src.split('\n')
OPS = [(r'<=', '<'), (r'>=', '>'), (r'(?<![<\->])<(?![<=])', '<='), (r'(?<![>\-])>(?![>=])', '>='), (r'==', '!='), (r'!=', '=='),
       (r'&&', '||'), (r'\|\|', '&&'), (r'(?<![+eE(,=])\+(?![+=])', '-'), (r'(?<=[\w)\]] )-(?![-=>])', '+'), (r'\*(?=[\s\w(])', '/'), (r'(?<=\w) \* (?=\w)', ' + '),
       (r'\+=', '-='), (r'-=', '+='), (r'\+\+', '--'), (r'\b0\b(?!\.)', '1'), (r'\b1\b(?!\.)', '2'), (r'\b1\b(?!\.)', '0'), (r'\b2\b(?!\.)', '3'),
       (r'\b0\.5f?\b', '0.25'), (r'\b1\.0f?\b', '2.0'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r'\.x\(\)', '.y()'), (r'\.y\(\)', '.x()'), (r'\.z\(\)', '.x()'),
       (r'\bmin\(', 'max('), (r'\bmax\(', 'min('), (r'!(?=\w)', ''), (r'\[0\]', '[1]'), (r'\[1\]', '[0]'), (r'\bbreak;', ';'), (r'\bsin\(', 'cos('), (r'\bfloor\(', 'ceil('),
       (r'\bceil\(', 'floor('), (r'(?<=return )', '0*'), (r'%', '/'), (r'u(?=Size|Segments|Degree|Order)', 'v'), (r'\b[iu]\b(?=[\])+])', 'v')]
if os.environ.get('REFAC'):      # changes that keep the behaviour: none may be told apart
    OPS = [(r'\+\+(\w+)(?=\s*\)\s*$)', r'\1 += 1'), (r'\b(\w+)\+\+(?=\s*\)\s*$)', r'\1 = \1 + 1'),
           (r'^(\s*)([\w.]+) \+= ([^;]*);', r'\1\2 = \2 + (\3);'), (r'^(\s*)([\w.]+) -= ([^;]*);', r'\1\2 = \2 - (\3);'), (r'^(\s*)([\w.]+) \*= ([^;]*);', r'\1\2 = \2 * (\3);'),
           (r'^(\s*)if *\((.*)\)\s*$', r'\1if (!(!(\2)))'), (r'^(\s*)if *\((.*)\)\s*$', r'\1if (!(\2)) {} else'), (r'^(\s*)if *\((.*)\)\s*$', r'\1switch (int(bool(\2))) case 1:') ,
           (r'\b(\w+) < (\w+)\b(?![(.\[-])', r'\2 > \1'), (r'\b(\w+) == (\w+)\b(?![(.\[-])', r'\2 == \1'), (r'^(\s*)while *\((.*)\)\s*$', r'\1for (;\2;)'),
           (r'\b0\.5f?\b', '(1.0f / 2.0f)'), (r'\b2\.0f?\b', '(1.0f + 1.0f)'), (r'^(\s*)return ([^;]+);', r'\1if (true) return \2; else return \2;'), (r';\s*$', '; do {} while (false);'),
           (r'^(\s*)for *\(([^;()]*\(?\)?[^;()]*);([^;]*);([^;]*)\)\s*$', r'\1for (\2; (\3) ? true : false; \4, (void)0)'), (r'NULL != ([\w.]+)\b(?![(.\[-])', r'\1 != 0'), (r'^(\s*)(float|TqFloat|TqInt|int|CqVector3D|CqColor) (\w+) = ([^;]*);\s*$', r'\1\2 \3; \3 = \4;'),
           (r'\b(\w+) \* (\w+)\b(?![(.\[-])(?=\s*[;)])', r'(\2) * (\1)'), (r'\b(\w+) \+ (\w+)\b(?![(.\[-])(?=\s*[;)])', r'(\2) + (\1)')]
judged = [(f['line'], f['end']) for f in base.funcs.values() if f['file'] == fn and f.get('body')]


def inside(l):
    return any(a <= l <= b for a, b in judged)


cands = []
depth = 0
for i, l in enumerate(lines):
    code = re.sub(r'//.*', '', l)
    if re.match(r'\s*(/?\*|#|assert|Aqsis::log|TIMER|STATS)', code) or '/*' in code or '"' in code or not inside(i + 1) or 'log()' in code or 'assert' in code:
        continue
    for rx, to in OPS:
        for m in re.finditer(rx, code):
            new = code[:m.start()] + m.expand(to) + code[m.end():]
            if new != code:
                cands.append((i, new))
    if os.environ.get('REFAC'):
        continue
    m = re.match(r'^(\s*)([A-Za-z_][\w.\->\[\]() ]*\s*(=|\+=|-=|\*=)?[^={}]*;)\s*$', code)
    if m and not re.match(r'\s*(return|break|case|const|Tq\w+ |Cq\w+ |int |float |std::|boost::|using|typedef|else)', code):
        cands.append((i, m.group(1) + ';'))
rng.shuffle(cands)
work = '/tmp/automut.%d' % os.getpid()
os.makedirs(work)
db = json.load(open(os.path.join(facts.CMAKE, 'compile_commands.json')))


def one(k):
    i, new = cands[k]
    d = '%s/%d' % (work, k)
    os.makedirs(d)
    mf = d + '/' + os.path.basename(fn)
    open(mf, 'w').write('\n'.join(lines[:i] + [new] + lines[i + 1:]))
    out = d + '/f.json'
    r = subprocess.run([facts.BIN, '-p', facts.CMAKE, '-o', out, '--root=' + facts.REPO, '--root=' + facts.CMAKE, '--extra-arg=-Wno-everything', '--extra-arg=-D__DATE__="date"', '--extra-arg=-D__TIME__="time"',
                        '--extra-arg=-Wno-c++11-narrowing', '--map=%s=%s' % (os.path.join(facts.REPO, fn), mf), os.path.join(facts.REPO, tu)], capture_output=True, text=True)
    if r.returncode:
        return k, 'nocompile', ''
    p = facts.Program()
    p.types, p._tidx = list(base.types), dict(base._tidx)
    p.units = list(base.units)
    p.add(json.load(open(out)))
    mine = set(p.funcs)
    for a in ('funcs', 'classes', 'enums', 'globals'):
        x = dict(getattr(base, a))
        x.update(getattr(p, a))
        setattr(p, a, x)
    p.byq = {}
    for f in p.funcs.values():
        p.byq.setdefault(f['f'], []).append(f)
    p.finish()
    ref.P, ref.CFG = p, cfg
    ref.VOCAB, ref.ENTRIES = VOCAB, set(d0['entries'])
    ref.CANDS = set(d0.get('cands', ()))
    ref.CAND = ref.candidates(p, cfg)
    SPEC = ref.SPEC = dict(SPEC0, **ref.steady(d0))
    line = i + 1
    res = {}
    ks = [q for q in SPEC if q in ref.CAND and ref.CAND[q]['file'] == fn]
    near = [q for q in ks if ref.CAND[q]['line'] <= line <= ref.CAND[q]['end']]
    if near:
        order = near if any(q in SPEC0 for q in near) else near + [q for q in ks if q not in near]
    else:
        order = ks
    for q in order:
        r = ref._judge(q)
        res.setdefault(r[1], []).append((q, r[3]))
        if r[1] == 'differs':
            break
    subprocess.run(['rm', '-rf', d])
    for s in ('differs', 'unknown', 'equal', 'identical'):
        if s in res:
            return k, s if s != 'identical' else ('identical' if near else 'identical-helper'), res[s][0][0][:70] + ' ' + res[s][0][1][:90]
    return k, 'unjudged', ''


d0 = d = json.loads(gzip.open(ref.path(group)).read())
SPEC0, VOCAB = d['spec'], set(d['vocab'])
tally = {}
with mp.Pool(8) as pool:
    for k, s, t in pool.imap_unordered(one, range(min(N, len(cands)))):
        tally[s] = tally.get(s, 0) + 1
        if (s == 'differs' if os.environ.get('REFAC') else s not in ('differs', 'nocompile')) or os.environ.get('ALL'):
            print('%-10s %d: %s => %s   [%s]' % (s, cands[k][0] + 1, lines[cands[k][0]].strip()[:80], cands[k][1].strip()[:80], t), flush=True)
print(tally, 'of', len(cands))
subprocess.run(['rm', '-rf', work])
