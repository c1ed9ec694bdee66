"""C16: the element-wise built-ins compute the function they are named for."""
import json, os
from engine import facts, formula
from engine.facts import Broken
from engine.paths import Overflow, Unsupported, show, terms, INT
from . import shadeops, c15, vm
from .shadeops import writes, settle

SPECFILE = os.path.join(os.path.dirname(__file__), 'spec_formulas.json')
LIMIT = 80


def rename(t, table, memo=None):
    """locals and loop variables are numbered by first appearance"""
    memo = {} if memo is None else memo
    if not isinstance(t, tuple):
        return t
    if id(t) in memo:
        return memo[id(t)][1]
    if t and t[0] in ('L', 'iv', 'lv'):
        table.setdefault(t, len(table))
        r = (t[0], table[t])
    elif t and t[0] == 'val' and isinstance(t[1], str):
        r = ('val', t[1], t[2])
    else:
        r = tuple(rename(x, table, memo) for x in t)
    memo[id(t)] = (t, r)
    return r


def summary(prog, f, varying=None):
    """{operand: [(conds, value)]} at a point that runs, and the kinds of the operands"""
    ps = c15.paths(prog, f, varying or {'*': True}, (1, 0))
    if ps is None or len(ps) > LIMIT:
        return None
    kinds = {}
    out = {}
    for q in ps:
        for e in q.events:
            if e[0] == 'get':
                kinds[str(e[1])] = e[4] if len(e) > 4 else 'GetValue'
        if c15.norender(q):
            continue
        last = {}
        for k, v, i, l in writes(q):
            if isinstance(k, int) and i in (0, 'all'):
                last[k] = (v, l)
        conds = [(e[1], e[2]) for e in q.events if e[0] == 'cond']
        for k, (v, l) in last.items():
            table = {}
            val = rename(v, table)
            out.setdefault(k, []).append(([(rename(c, table), p) for c, p in conds], val))
    names = [p['n'] for p in f['p']]
    if f['n'].startswith('Op') and len(f['p']) == 7:
        for a, b in ((3, 0), (4, 1), (5, 2)):
            kinds[str(a)] = prog.type(f['p'][b]['t'])
    return dict(kinds=kinds, out=out, names=names)


def kind_of(g):
    g = g.replace('const ', '').rstrip('&* ').split('::')[-1]
    if g.startswith('CqBasicColor') or 'CqBasicColor' in g:
        return 'c'
    return {'GetFloat': 'f', 'GetPoint': 'v', 'GetVector': 'v', 'GetNormal': 'v', 'GetColor': 'c', 'GetString': 's', 'GetBool': 'b', 'GetMatrix': 'm',
            'float': 'f', 'CqVector3D': 'v', 'CqColor': 'c', 'CqString': 's', 'bool': 'b', 'CqMatrix': 'm', 'int': 'f'}.get(g) or ('v' if 'CqBasicVec3' in g else None)


class Atoms:
    def __init__(self, rng, k, kinds, strings):
        self.rng, self.k, self.kinds, self.strings = rng, k, kinds, strings
        self.got = {}

    def scalar(self):
        r = self.rng
        fs = [v for v in self.got.values() if isinstance(v, float)]
        x = r.random()
        if x < 0.12 and fs:
            return r.choice(fs)
        if x < 0.5:
            return r.choice(formula.GRID)
        return r.uniform(-3, 3)

    def vec(self, k):
        r = self.rng
        x = r.random()
        vs = [v for v in self.got.values() if isinstance(v, formula.V)]
        if x < 0.08 and vs:
            return formula.V(k, r.choice(vs).x)
        if x < 0.3:
            return formula.V(k, [r.choice(formula.GRID) for _ in range(3)])
        return formula.V(k, [r.uniform(-2, 2) for _ in range(3)])

    def __call__(self, interp, t):
        if t[0] == 'val' and len(t) == 3:
            key = (str(t[1]), t[2])
            if key not in self.got:
                kd = kind_of(self.kinds.get(str(t[1]), ''))
                if kd is None and str(t[1]) not in self.kinds:
                    return None
                if kd == 'f':
                    v = self.scalar()
                elif kd in ('v', 'c'):
                    v = self.vec(kd)
                elif kd == 's':
                    v = self.rng.choice(self.strings + ['other'])
                elif kd == 'b':
                    v = self.rng.randrange(2)
                else:
                    v = formula.O(formula.digest(self.k, key))
                self.got[key] = v
            return self.got[key]
        if t[0] == 'P':
            key = ('P', t[1])
            if key not in self.got:
                self.got[key] = self.rng.choice([0, 1, 2, 3, 4, 5])
            return self.got[key]
        return None

    def text(self):
        return ', '.join('%s=%s' % (k[0] if k[0] != 'P' else 'arg%s' % k[1], ('%.4g' % v) if isinstance(v, float) else v) for k, v in list(self.got.items())[:5])


def strings_of(paths):
    return sorted({t[1] for t in formula.collect(paths) if t and t[0] == 'str' and isinstance(t[1], str)})


def named(text, names):
    import re
    return re.sub(r'\b(\d+)=', lambda m: (names[int(m.group(1))] if int(m.group(1)) < len(names) else m.group(1)) + '=', text)


def decide(old, new, kinds, n=250):
    ss = sorted(set(strings_of(old)) | set(strings_of(new)))
    return formula.compare(old, new, lambda rng, k: Atoms(rng, k, kinds, ss), n)


def at(fn, l=None):
    return '%s:%s %s' % (fn['file'], l or fn.get('line', 0), fn['f'])


def run(ck):
    prog = facts.load([r'libs/shadervm/'])
    spec = json.load(open(SPECFILE))
    fs = c15.functions(prog)
    seen = [s for s in spec if s in fs]
    if len(seen) < 0.8 * len(spec):
        raise Broken('only %d of %d built-ins found' % (len(seen), len(spec)))
    ck.units = len(prog.units)
    n = 1500 if os.environ.get('VERIF_TIER') == 'thorough' else 250
    for s in seen:
        f = fs[s]
        ck.fn(f['f'])
        for varying, label in scenarios(f):
            one(ck, prog, s, f, spec[s], varying, label, n)
    return ck.finish('The value each element-wise built-in writes is extracted as guarded terms and compared with the reference formulas by value numbering (random interpretation).',
                     ['real arithmetic: rounding is not considered', 'uninterpreted: noise, texture and light lookups, matrices'])


def scenarios(f):
    if f['n'].startswith('Op') and len(f['p']) == 7:
        return [({'*': True}, 'both varying'), ({3: False, '*': True}, 'left uniform'), ({4: False, '*': True}, 'right uniform'), ({'*': False}, 'both uniform')]
    if f['n'].startswith('Op'):
        return [({'*': True}, 'varying'), ({'*': False}, 'uniform')]
    return [({'*': True}, '')]


def one(ck, prog, s, f, sp, varying, label, n):
        sm = summary(prog, f, varying)
        if sm is None:
            ck.undecided(at(f), 'too many paths')
            return
        for k, packed in sp['out'].items():
            old = formula.unpack(packed)
            new = sm['out'].get(int(k))
            if not new:
                ck.undecided(at(f), 'no value for operand %s' % k)      # C15 tells missing results
                continue
            kinds = dict(sp['kinds'])
            kinds.update({a: b for a, b in sm['kinds'].items() if a not in kinds})
            r, why = decide(old, new, kinds, n)
            ck.ob('formula', sample='%s: %d paths, %s' % (c15.short(s), len(new), why))
            if r == 'differs':
                ck.violation('%s computes another value' % c15.short(s), at(f), '%s: %s' % (c15.short(s) + (' (%s)' % label if label else ''), named(why, sm['names'])))
            elif r == 'unknown':
                ck.undecided(at(f), '%s: %s' % (c15.short(s), why))
