"""C15: shading operations work point by point, on exactly the running points."""
import json, os
from engine import facts
from engine.facts import Broken
from engine.paths import Overflow, Unsupported, show, terms, Policy, Walker, STAR_THIS, INT
from engine.views import base
from . import shadeops, vm
from .shadeops import ENV, writes, used, data_params

SPECFILE = os.path.join(os.path.dirname(__file__), 'spec_so.json')
VARYING = ((1, 1), (1, 0), (0, 1))


def sig(prog, f):
    return '%s(%s)' % (f['f'].replace('Aqsis::', ''), ','.join(prog.type(p['t']).replace('Aqsis::', '').replace(' ', '') for p in f['p']))


def functions(prog):
    out = {}
    for f in prog.funcs.values():
        if f.get('body') and (f['f'].startswith(ENV + '::SO_') or (f['n'].startswith('Op') and f['file'].endswith('shaderstack.h'))):
            out[sig(prog, f)] = f
    return dict(sorted(out.items()))


def norender(q):
    """the path is that of an environment without a renderer"""
    return any(e[0] == 'cond' and not e[2] and show(e[1]) == 'm_pRenderContext' for e in q.events)


def paths(prog, fn, varying, running):
    try:
        return shadeops.run(prog, fn, varying, running)
    except (Overflow, Unsupported):
        return None


def must_of(ps, running):
    """operands written at every running point on every path"""
    must = None
    for q in ps:
        if norender(q):
            continue
        w = writes(q)
        full = {k for k, v, i, l in w if isinstance(k, int)
                if all(not r or any(k2 == k and (i2 == n or i2 == 'all') for k2, v2, i2, l2 in w) for n, r in enumerate(running))}
        must = full if must is None else must & full
    return must or set()


def observe(prog, f):
    must, strict, mix, uni = None, True, set(), set()
    for r in VARYING + ((0, 0),):
        ps = paths(prog, f, {'*': True}, r)
        if ps is None:
            return None
        if r != (0, 0):
            m = must_of(ps, r)
            must = m if must is None else must & m
        for q in ps:
            for k, v, i, l in writes(q):
                if i in (0, 1) and not r[i] or i in ('all', '?') and not all(r):
                    strict = False
                mix |= set() if linked_at(q) else {str(u[0]) for u in used(v) if u[1] != i and i in (0, 1)}
    for r in VARYING + ((0, 0),):
        ps = paths(prog, f, {'*': False}, r)
        if ps is None:
            return None
        for q in ps:
            if norender(q):
                continue
            uni |= {str(i) for k, v, i, l in writes(q) if isinstance(k, int)} or {'none'}
    return dict(must=sorted(must), strict=strict, mix=sorted(mix), uni=sorted(uni))


# ------------------------------------------------------------------ the check
def short(s):
    return s.split('(')[0].split('::')[-1]


def at(fn, l=None):
    return '%s:%s %s' % (fn['file'], l or fn.get('line', 0), fn['f'])


def raw_uniform(q, varying):
    """element accesses beyond the first element of a uniform operand through a pointer"""
    for e in q.events:
        ts = []
        if e[0] == 'set':
            ts = [e[2]]
        elif e[0] == 'store':
            ts = [e[1], e[2]]
        elif e[0] == 'cond':
            ts = [e[1]]
        for t in ts:
            for x in terms(t):
                p = shadeops.point_of(x) if isinstance(x, tuple) and x else None
                if p and isinstance(p[0], int) and not varying.get(p[0], varying.get('*', True)) and p[1] != 0:
                    return p[0], e[-1] if isinstance(e[-1], int) else None
    return None


def elementwise(ck, prog, s, f, sp):
    names = [p['n'] for p in f['p']]

    def nm(k):
        return names[k] if isinstance(k, int) and k < len(names) and names[k] else str(k)[:40]

    def scen(label, varying, running):
        ps = paths(prog, f, varying, running)
        if ps is None:
            ck.undecided(at(f), 'too many paths (%s)' % label)
            return
        ck.ob('scenario', sample='%s, %s, running %s: %d paths' % (short(s), label, running, len(ps)))
        for q in ps:
            w = writes(q)
            for k, v, i, l in w:
                ck.ob('write at a running point')
                if sp['strict'] and (isinstance(i, int) and not (0 <= i < len(running))):
                    ck.violation('%s writes point %s' % (short(s), i), at(f, l), '%s writes %s at point %s of a grid of %d points' % (short(s), nm(k), i, len(running)))
                elif sp['strict'] and isinstance(i, int) and not running[i]:
                    ck.violation('%s writes %s at a point that is not running' % (short(s), nm(k)), at(f, l),
                                 '%s: %s is written at a point that is not running (point %d, running %s, %s)' % (short(s), nm(k), i, running, label))
                elif sp['strict'] and i == 'all' and not all(running) and isinstance(k, int):
                    ck.violation('%s writes all of %s' % (short(s), nm(k)), at(f, l),
                                 '%s: %s is written at all points although only some are running (%s)' % (short(s), nm(k), label))
                elif i == '?' and sp['strict']:
                    ck.undecided(at(f, l), 'a write at a point the analysis cannot tell')
            if not norender(q) and any(running):
                for k in sp['must']:
                    for n, r in enumerate(running):
                        if not r:
                            continue
                        ck.ob('every running point gets the result')
                        if any(k2 == k and i in (n, 'all') for k2, v, i, l in w):
                            continue
                        if any(k2 == k and i == '?' for k2, v, i, l in w) or any(not isinstance(k2, int) for k2, v, i, l in w) and q.end[0] != 'return':
                            ck.undecided(at(f), 'result written at a point the analysis cannot tell')
                        else:
                            ck.violation('%s leaves %s unset' % (short(s), nm(k)), at(f),
                                         '%s: point %d is running but %s is not written there (running %s, %s)' % (short(s), n, nm(k), running, label))
            if not linked_at(q):
                for k, v, i, l in w:
                    if not isinstance(i, int) or i >= len(running):
                        continue
                    ck.ob('value from the same point')
                    x = {u for u in used(v) if isinstance(u[1], int) and u[1] != i and str(u[0]) not in sp['mix'] and isinstance(u[0], int)
                         and varying.get(u[0], varying.get('*', True))}
                    if x and isinstance(k, int) and not sp.get('memo'):
                        u = sorted(x)[0]
                        ck.violation('%s mixes points' % short(s), at(f, l), '%s: the value written at point %d comes from %s at point %d (%s)' % (short(s), i, nm(u[0]), u[1], label))
            r = raw_uniform(q, varying)
            if r:
                ck.violation('%s reads past uniform %s' % (short(s), nm(r[0])), at(f, r[1]), '%s: %s is uniform but a later element of it is used (%s)' % (short(s), nm(r[0]), label))

    runs = VARYING + ((0, 0),)
    for r in runs:
        scen('all varying', {'*': True}, r)
    ops = [k for k in data_params(prog, f) if k not in sp['must']]
    for k in ops:
        if len(ops) > 1 and sp['must']:
            v = {k: True, '*': False}
            v.update({m: True for m in sp['must']})
            for r in ((1, 1), (0, 1)):
                scen('only %s varying' % nm(k), v, r)
    if sp['uni'] in (['0'], ['all'], ['0', 'all']):
        for r in runs:
            ps = paths(prog, f, {'*': False}, r)
            if ps is None:
                continue
            for q in ps:
                if norender(q):
                    continue
                ck.ob('uniform operation done once')
                w = [x for x in writes(q) if isinstance(x[0], int)]
                bad = [x for x in w if isinstance(x[2], int) and x[2] != 0]
                if bad:
                    ck.violation('%s uniform writes %s' % (short(s), bad[0][2]), at(f, bad[0][3]), '%s: all operands are uniform but %s is written at point %s' % (short(s), nm(bad[0][0]), bad[0][2]))
                for k in sp['must']:
                    if not any(x[0] == k for x in w):
                        ck.violation('%s uniform unset' % short(s), at(f), '%s: all operands are uniform and %s is not written (running %s)' % (short(s), nm(k), r))
                x = raw_uniform(q, {'*': False})
                if x:
                    ck.violation('%s reads past uniform %s' % (short(s), nm(x[0])), at(f, x[1]), '%s: %s is uniform but a later element of it is used' % (short(s), nm(x[0])))


def linked_at(q):
    """values of one point are remembered and compared with those of another one"""
    for e in q.events:
        if e[0] != 'cond':
            continue
        t = shadeops.norm(e[1])
        us = used(t)
        if len({u[1] for u in us}) > 1:
            return True
        if us and any(isinstance(x, tuple) and x and x[0] == 'L' for x in terms(t)):
            return True
    return False


# ------------------------------------------------------------- control opcodes
class Ctl(shadeops.Scenario):
    """opcodes of the machine itself over a grid of two points"""
    correlate = True

    def __init__(self, varying, running):
        shadeops.Scenario.__init__(self, {}, running)
        self.vary = varying

    def inline(self, w, fn, call):
        return fn['file'].startswith('libs/shadervm/shadervm') and fn['n'] not in vm.STACK and not fn['n'].startswith('SO_') and fn.get('kind') not in ('ctor', 'dtor')

    def name(self, o, st):
        o = vm.resolve(o, st.env)
        for x in terms(o):
            if x and x[0] in ('entry',):
                return x
        for x in terms(o):
            if x and x[0] in ('A', 'var', 'tmp'):
                return x[:2]
        return ('?', show(o))

    def call_hook(self, w, call, obj, args, st):
        f, b = call['f'], base(call['f'])
        if b == 'Pop':
            n = st.env.get(('pops',), 0)
            st.env[('pops',)] = n + 1
            if args and isinstance(args[0], tuple):
                old = st.env.get(args[0])
                st.env[args[0]] = INT(1 if old == INT(1) or self.vary else 0)
            return ('pop', n)
        if b == 'GetNextTemp':
            n = st.env.get(('tmps',), 0)
            st.env[('tmps',)] = n + 1
            return ('tmp', n)
        if b == 'ReadNext':
            n = st.env.get(('reads',), 0)
            st.env[('reads',)] = n + 1
            return ('read', n)
        if b == 'GetVar':
            return ('var', 0)
        if b == 'IsRunning':
            return INT(1 if any(self.running) else 0)
        if b == 'ArrayEntry':
            return ('entry', self.name(obj, st), args[0] if args else None)
        if b == 'ArrayLength':
            return ('len',)
        if f.startswith(shadeops.DATA):
            k = self.name(obj, st)
            isv = self.vary or k[0] in ('tmp',)
            if b == 'Class':
                return INT(shadeops.VAR if isv else shadeops.UNI)
            if b == 'Size':
                return INT(self.points if isv else 1)
            if b in shadeops.GET and args:
                i = args[1] if len(args) > 1 else INT(0)
                st.env[args[0]] = ('val', k, i)
                return ('void',)
            if b in shadeops.SET and args:
                w.emit(st, ('set', k, vm.resolve(args[0], st.env), args[1] if len(args) > 1 else None, call.get('l')))
                return ('void',)
        if b == 'SetValue' and 'CqBitVector' in f:
            w.emit(st, ('bit', show(obj), args[0], args[1], call.get('l')))
            return ('void',)
        return shadeops.Scenario.call_hook(self, w, call, obj, args, st)


def ctl_paths(ck, prog, name, varying, running):
    fn = next((f for f in prog.find(vm.VM + '::' + name) if f.get('body')), None)
    if fn is None:
        raise Broken('%s::%s is gone' % (vm.VM, name))
    ck.fn(fn['f'])
    try:
        return fn, Walker(prog, Ctl(varying, running)).run(fn)
    except (Overflow, Unsupported) as e:
        ck.undecided(at(fn), 'cannot be read: %s' % e)
        return fn, []


def jump_of(ck, fn, q):
    """None: no jump, True: jump to the label that follows"""
    j = [e for e in q.events if e[0] == 'store' and e[1] in (('fld', STAR_THIS, 'm_PC'), ('fld', STAR_THIS, 'm_PO'))]
    if not j:
        return None
    for fld, src in (('m_PO', 'm_Offset'), ('m_PC', 'm_pAddress')):
        v = [e for e in j if e[1][2] == fld]
        ck.ob('jump goes to its label')
        if not v:
            ck.violation('%s %s' % (fn['n'], fld), at(fn), '%s jumps without setting %s' % (fn['n'], fld))
            continue
        t = vm.resolve(v[-1][2], q.env)
        x = show(t)
        if not (isinstance(t, tuple) and t[0] == 'fld' and t[2] == src) or 'read' not in str(t):
            if isinstance(t, tuple) and t[0] == 'fld' and t[2] in ('m_Offset', 'm_pAddress'):
                ck.violation('%s %s %s' % (fn['n'], fld, x), at(fn, v[-1][3]), '%s sets %s from %s' % (fn['n'], fld, x))
            else:
                ck.undecided(at(fn, v[-1][3]), '%s set from %s' % (fld, x))
    return True


def control(ck, prog):
    R4 = ((1, 1), (1, 0), (0, 1), (0, 0))
    # pop: assignment to a variable
    for varying in (True, False):
        for r in R4:
            fn, ps = ctl_paths(ck, prog, 'SO_pop', varying, r)
            for q in ps:
                w = [e for e in q.events if e[0] == 'set']
                assign(ck, fn, q, w, r, varying, 'assignment', lambda e: e[1] == ('var', 0), lambda e, i: e[2] == ('A', 0))
    for r in R4:
        fn, ps = ctl_paths(ck, prog, 'SO_ipop', True, r)
        for q in ps:
            if any(e[0] == 'cond' and in_bounds(e) is False for e in q.events):
                continue
            w = [e for e in q.events if e[0] == 'set']
            assign(ck, fn, q, w, r, True, 'assignment to an array element', lambda e: e[1][0] == 'entry' and e[1][1] == ('var', 0) and point_index(e[1][2], ('A', 0)) in (True, pt(e[3])),
                   lambda e, i: e[2] == ('A', 1))
        fn, ps = ctl_paths(ck, prog, 'SO_ipushv', True, r)
        for q in ps:
            if any(e[0] == 'cond' and in_bounds(e) is False for e in q.events):
                continue
            w = [e for e in q.events if e[0] == 'set']
            assign(ck, fn, q, w, r, True, 'array element', lambda e: e[1] == ('tmp', 0),
                   lambda e, i: e[2][0] == 'entry' and e[2][1] == ('var', 0) and point_index(e[2][2], ('A', 0)) in (True, i))
    # bounds of array accesses
    for name in ('SO_ipop', 'SO_ipushv'):
        fn, ps = ctl_paths(ck, prog, name, True, (0, 1))
        for q in ps:
            n = 0
            w = [e for e in q.events if e[0] == 'set']
            if not w:
                continue
            conds = [(e[1], e[2]) for e in q.events if e[0] == 'cond']
            lo = any(is_lo(t, pol) for t, pol in conds)
            hi = any(is_hi(t, pol) for t, pol in conds)
            for what, ok in (('negative', lo), ('too large', hi)):
                ck.ob('array index checked', sample='%s: %s index' % (name, what))
                if not ok:
                    seen = [(show(t), pol) for t, pol in conds]
                    if any('floor' in a or 'round' in a or 'len' in a or 'int' in a for a, _ in seen) or not seen:
                        ck.violation('%s %s index' % (name, what), at(fn), '%s accesses an array element although the index may be %s (conditions: %s)' % (name, what, seen))
                    else:
                        ck.undecided(at(fn), 'bounds test not recognised: %s' % seen)
    # conditional expression
    for name, fn in sorted(merges(prog).items()):
        for r in R4:
            fn, ps = ctl_paths(ck, prog, name, True, r)
            for q in ps:
                w = [e for e in q.events if e[0] == 'set']
                choice = {}
                for e in q.events:
                    if e[0] == 'cond' and e[1][0] == 'val' and e[1][1] == ('A', 2) and e[1][2][0] == 'int':
                        choice[e[1][2][1]] = e[2]
                for i in (0, 1):
                    if not r[i]:
                        continue
                    ck.ob('conditional expression takes its branch', sample='%s point %d' % (name, i))
                    ws = [e for e in w if e[1] == ('tmp', 0) and pt(e[3]) == i]
                    if not ws:
                        ck.violation('%s unset' % name, at(fn), '%s: running point %d gets no value' % (name, i)) if not any(pt(e[3]) is None for e in w) else ck.undecided(at(fn), 'point not known')
                        continue
                    v = ws[-1][2]
                    if i not in choice:
                        ck.undecided(at(fn), 'choice of the branch not readable')
                        continue
                    want = ('val', ('A', 1 if choice[i] else 0), INT(i))
                    if v != want:
                        if v[0] == 'val':
                            ck.violation('%s branch' % name, at(fn, ws[-1][4]), '%s: when the condition is %s point %d gets %s' % (name, choice[i], i, show(v)))
                        else:
                            ck.undecided(at(fn), 'value %s' % show(v))
    # S_GET
    for r in R4:
        fn, ps = ctl_paths(ck, prog, 'SO_S_GET', True, r)
        for q in ps:
            bits = [e for e in q.events if e[0] == 'bit']
            for e in bits:
                i = e[2][1] if e[2][0] == 'int' else None
                ck.ob('condition state set at running points', sample='point %s running %s' % (i, r))
                if i is None:
                    ck.undecided(at(fn, e[4]), 'point not known')
                elif not r[i]:
                    ck.violation('S_GET sets a stopped point', at(fn, e[4]), 'S_GET changes the state of a point that is not running')
                elif e[3] != ('val', ('A', 0), INT(i)):
                    if isinstance(e[3], tuple) and e[3][0] in ('val', 'un', 'int'):
                        ck.violation('S_GET value', at(fn, e[4]), 'S_GET sets point %d to %s' % (i, show(e[3])))
                    else:
                        ck.undecided(at(fn, e[4]), 'value %s' % show(e[3]))
            for i in (0, 1):
                if r[i] and not any(e[2] == INT(i) for e in bits):
                    ck.violation('S_GET misses a point', at(fn), 'S_GET: the state of running point %d is not taken from the operand' % i)
    # jumps
    for name, want in (('SO_jz', False), ('SO_jnz', True)):
        for varying in (True, False):
            for r in R4[:3]:
                fn, ps = ctl_paths(ck, prog, name, varying, r)
                for q in ps:
                    j = jump_of(ck, fn, q)
                    known = {}
                    for e in q.events:
                        if e[0] == 'cond' and e[1][0] == 'val' and e[1][1] == ('A', 0) and e[1][2][0] == 'int':
                            known[e[1][2][1]] = e[2]
                    ck.ob('jump decided by the running points', sample='%s running %s: %s jump=%s' % (name, r, known, j))
                    run_ = [i for i in (0, 1) if r[i]] if varying else sorted(known)
                    if j and (any(i not in known for i in run_) or any(known[i] != want for i in run_)):
                        ck.violation('%s jumps' % name, at(fn), '%s jumps although a running point has not the value %s (running %s, tested %s)' % (name, want, r, known))
                    if not j and not any(known.get(i) == (not want) for i in run_):
                        ck.violation('%s stays' % name, at(fn), '%s does not jump although all running points are %s (running %s, tested %s)' % (name, want, r, known))
    for r in R4:
        fn, ps = ctl_paths(ck, prog, 'SO_RS_JZ', True, r)
        for q in ps:
            ck.ob('jump if no point runs')
            if bool(jump_of(ck, fn, q)) != (not any(r)):
                ck.violation('RS_JZ %s' % any(r), at(fn), 'RS_JZ %s although %s' % ('stays' if not any(r) else 'jumps', 'points are running' if any(r) else 'no point is running'))
        fn, ps = ctl_paths(ck, prog, 'SO_jmp', True, r)
        for q in ps:
            ck.ob('unconditional jump')
            if not jump_of(ck, fn, q):
                ck.violation('jmp', at(fn), 'jmp does not jump')
    fn, ps = ctl_paths(ck, prog, 'SO_S_JZ', True, (1, 1))
    for q in ps:
        j = jump_of(ck, fn, q)
        c = [e for e in q.events if e[0] == 'cond' and 'Count' in show(e[1]) and 'CurrentState' in show(e[1])]
        ck.ob('jump if the condition holds nowhere')
        if not c:
            o = [e for e in q.events if e[0] == 'cond']
            if not o or 'RunningState' in show(o[0][1]) or 'm_isRunning' in show(o[0][1]):
                ck.violation('S_JZ condition', at(fn), 'S_JZ does not test the condition state')
            else:
                ck.undecided(at(fn), 'condition not readable')
            continue
        z = zero_test(c[0][1], c[0][2])
        if z is None:
            ck.undecided(at(fn), 'condition %s' % show(c[0][1]))
        elif z != bool(j):
            ck.violation('S_JZ', at(fn), 'S_JZ %s when the condition holds %s' % ('jumps' if j else 'stays', 'nowhere' if z else 'somewhere'))


def zero_test(t, pol):
    """True if the branch means count == 0, False if count > 0"""
    if t[0] == 'bin' and t[3] == INT(0) and t[1] in ('==', '!=', '>', '<='):
        return (t[1] in ('==', '<=')) == pol
    if t[0] == 'r':
        return not pol
    if t[0] == 'bin' and t[3][0] == 'int' and t[1] in OPS and t[2][0] == 'r':
        sat = [OPS[t[1]](n, t[3][1]) == pol for n in (0, 1, 2, 3)]
        return True if sat == [True, False, False, False] else False if sat == [False, True, True, True] else 'wrong'
    return None


OPS = {'<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b, '==': lambda a, b: a == b, '!=': lambda a, b: a != b}


def pt(i):
    return i[1] if isinstance(i, tuple) and i[0] == 'int' else None


def point_index(t, op):
    """the point at which an index expression reads its operand (True: a constant shape we accept)"""
    vs = [x for x in terms(t) if isinstance(x, tuple) and x and x[0] == 'val']
    if len(vs) == 1 and vs[0][1] == op:
        return pt(vs[0][2])
    return 'bad' if vs else True


def is_lo(t, pol):
    if t[0] != 'bin':
        return False
    o = t[1] if pol else {'<': '>=', '>=': '<', '>': '<=', '<=': '>'}.get(t[1])
    return o == '>=' and t[3] == INT(0) or o == '>' and t[3] == INT(-1) or o == '<=' and t[2] == INT(0) or o == '<' and t[2] == INT(-1)


def is_hi(t, pol):
    if t[0] != 'bin':
        return False
    o = t[1] if pol else {'<': '>=', '>=': '<', '>': '<=', '<=': '>'}.get(t[1])
    return o == '<' and 'len' in str(t[3]) and t[3] == ('len',) or o == '>' and t[2] == ('len',)


def in_bounds(e):
    """False on the branch of an index out of bounds"""
    t, pol = e[1], e[2]
    if t[0] != 'bin' or (INT(0) not in t[2:] and ('len',) not in t[2:] and INT(-1) not in t[2:]):
        return None
    return is_lo(t, pol) or is_hi(t, pol)


def assign(ck, fn, q, w, r, varying, what, target, source):
    for e in w:
        i = pt(e[3])
        ck.ob(what + ' at running points')
        if e[3] is None:
            if not all(r):
                ck.violation('%s all points' % fn['n'], at(fn, e[4]), '%s: the value is given to all points, running or not' % fn['n'])
            i = None
        elif i is None:
            ck.undecided(at(fn, e[4]), 'point not known')
            continue
        elif varying and not (0 <= i < len(r)):
            ck.violation('%s point %d' % (fn['n'], i), at(fn, e[4]), '%s: point %d of %d' % (fn['n'], i, len(r)))
            continue
        elif varying and not r[i]:
            ck.violation('%s stopped point' % fn['n'], at(fn, e[4]), '%s: a point that is not running is changed' % fn['n'])
            continue
        if not target(e):
            ck.violation('%s target' % fn['n'], at(fn, e[4]), '%s: the value goes to %s' % (fn['n'], show(e[1]))) if e[1][0] in ('A', 'var', 'tmp', 'entry') else ck.undecided(at(fn, e[4]), 'target')
        elif not source(e, i):
            if e[2] and e[2][0] in ('A', 'var', 'tmp', 'entry'):
                ck.violation('%s source' % fn['n'], at(fn, e[4]), '%s: the value is taken from %s' % (fn['n'], show(e[2])))
            else:
                ck.undecided(at(fn, e[4]), 'value %s' % show(e[2]))
    if any(r):
        for i in range(len(r)):
            if r[i] and varying and not any(pt(e[3]) == i or e[3] is None for e in w):
                if any(e[3] is not None and pt(e[3]) is None for e in w):
                    continue
                ck.violation('%s misses a point' % fn['n'], at(fn), '%s: running point %d gets no value (running %s)' % (fn['n'], i, r))
        if not varying and not w and all(r):
            ck.violation('%s does nothing' % fn['n'], at(fn), '%s: a uniform value is not assigned' % fn['n'])


def merges(prog):
    return {f['n']: f for f in prog.funcs.values() if f.get('body') and f['f'].startswith(vm.VM + '::SO_merge')}


# ---------------------------------------------------------- set of running points
class Bits(Policy):
    """one point of the sets: boolean terms r (running), c (condition), s0, s1 .. (stack from the top)"""
    correlate = True

    def inline(self, w, fn, call):
        return fn['f'].startswith(ENV + '::') and fn.get('kind') not in ('ctor', 'dtor')

    def call_hook(self, w, call, obj, args, st):
        f, b = call['f'], base(call['f'])
        if 'CqBitVector' in f:
            if b == 'Complement':
                put(w, st, obj, ('not', get(st, obj)), call)
                return ('void',)
            if b in ('Intersect', 'operator&='):
                put(w, st, obj, ('and', get(st, obj), get(st, args[0])), call)
                return ('void',)
            if b in ('Union', 'operator|='):
                put(w, st, obj, ('or', get(st, obj), get(st, args[0])), call)
                return ('void',)
            if b in ('Difference', 'operator^='):
                put(w, st, obj, ('xor', get(st, obj), get(st, args[0])), call)
                return ('void',)
            if b == 'SetAll':
                put(w, st, obj, ('const', args[0]), call)
                return ('void',)
            if b == 'operator=':
                put(w, st, obj, get(st, args[0]), call)
                return ('void',)
            if b == 'Count':
                return ('count', get(st, obj))
        if 'reverse_iterator' in f or 'operator' in b and any(isinstance(val(st, a), tuple) and val(st, a)[:1] == ('it',) for a in [obj] + list(args) if a is not None):
            xs = [val(st, a) for a in ([obj] if obj is not None else []) + list(args)]
            its = [x for x in xs if isinstance(x, tuple) and x and x[0] == 'it']
            if its:
                if f.endswith('operator->'):
                    return ('addr', ('top', its[0][1]))
                if b == 'operator++':
                    loc = obj if obj is not None else args[0]
                    st.env[loc] = ('it', its[0][1] + 1)
                    return its[0] if len(args) > (0 if obj is not None else 1) else st.env[loc]
                if b in ('operator!=', 'operator==') and len(its) == 2:
                    return INT(int((its[0] == its[1]) == (b == 'operator==')))
                if b in ('operator+', 'operator-') and len(its) == 1:
                    n = next((x for x in xs if x and x[0] == 'int'), None)
                    if n:
                        return ('it', its[0][1] + (n[1] if b == 'operator+' else -n[1]))
                if b == 'operator*':
                    return ('top', its[0][1])
        if obj == ('fld', STAR_THIS, 'm_stkState') and b in ('rbegin', 'rend'):
            return ('it', 0 if b == 'rbegin' else 3)
        if obj == ('fld', STAR_THIS, 'm_stkState') and b == 'size':
            return INT(3)
        if obj == ('fld', STAR_THIS, 'm_stkState') and b in ('operator[]', 'at') and args and args[0][0] == 'int':
            return ('top', 2 - args[0][1])
        if b == 'back' and obj == ('fld', STAR_THIS, 'm_stkState'):
            return ('top', st.env.get(('popped',), 0))
        if obj == ('fld', STAR_THIS, 'm_stkState'):
            if b == 'pop_back':
                st.env[('popped',)] = st.env.get(('popped',), 0) + 1
                return ('void',)
            if b in ('push_back', 'emplace_back') and args:
                w.emit(st, ('push', get(st, args[0]), call.get('l')))
                return ('void',)
            if b == 'empty':
                return None
        return None


def val(st, o):
    k = 0
    while isinstance(o, tuple) and o in st.env and k < 5:
        o = st.env[o]
        k += 1
    return o


def get(st, o):
    if isinstance(o, tuple) and o and o[0] == 'deref' and isinstance(o[1], tuple) and o[1] and o[1][0] == 'addr':
        o = o[1][1]
    if o == ('fld', STAR_THIS, 'm_RunningState'):
        return st.env.get(('set', 'r'), 'r')
    if o == ('fld', STAR_THIS, 'm_CurrentState'):
        return st.env.get(('set', 'c'), 'c')
    if isinstance(o, tuple) and o and o[0] == 'top':
        return st.env.get(('set', o), 's%d' % o[1])
    return st.env.get(('set', o), ('x', show(o) if isinstance(o, tuple) else str(o)))


def put(w, st, o, v, call):
    if isinstance(o, tuple) and o and o[0] == 'deref' and isinstance(o[1], tuple) and o[1] and o[1][0] == 'addr':
        o = o[1][1]
    k = {'m_RunningState': 'r', 'm_CurrentState': 'c'}.get(o[2]) if isinstance(o, tuple) and o[0] == 'fld' and o[1] == STAR_THIS else None
    w.emit(st, ('upd', k or show(o), v, call.get('l')))
    st.env[('set', k or o)] = v


def ev(t, a):
    """value of a boolean term, None if it has unknown parts"""
    if isinstance(t, str):
        return a.get(t)
    if t[0] == 'not':
        x = ev(t[1], a)
        return None if x is None else not x
    if t[0] == 'const':
        return bool(t[1][1]) if t[1][0] == 'int' else None
    if t[0] in ('and', 'or', 'xor'):
        x, y = ev(t[1], a), ev(t[2], a)
        if x is None or y is None:
            return None
        return (x and y) if t[0] == 'and' else (x or y) if t[0] == 'or' else x != y
    return None


def states(ck, prog):
    import itertools
    want = {'GetCurrentState': lambda a, d: (a['c'], a['c']), 'ClearCurrentState': lambda a, d: (a['r'], False), 'PushState': lambda a, d: (a['r'], a['c']),
            'PopState': lambda a, d: (a['s0'], a['c']), 'InvertRunningState': lambda a, d: ((not a['r']) and (a['s0'] or not d), a['c']),
            'RunningStatesBreak': lambda a, d: (False, a['c'])}
    for m, spec in want.items():
        fs = [f for f in prog.find(ENV + '::' + m) if f.get('body')]
        if not fs:
            raise Broken('%s::%s is gone' % (ENV, m))
        fn = fs[0]
        ck.fn(fn['f'])
        try:
            ps = Walker(prog, Bits()).run(fn)
        except (Overflow, Unsupported) as e:
            ck.undecided(at(fn), str(e))
            continue
        for q in ps:
            depth = True
            for e in q.events:
                if e[0] == 'cond' and 'm_stkState' in show(e[1]) and 'empty' in show(e[1]):
                    depth = not e[2] if e[1][0] != 'un' else e[2]
            r, c = q.env.get(('set', 'r'), 'r'), q.env.get(('set', 'c'), 'c')
            ck.ob('set of running points after %s' % m, sample='%s -> running %s' % (m, r))
            for bits in itertools.product((False, True), repeat=3):
                a = dict(zip(('r', 'c', 's0'), bits))
                if a['r'] and not a['s0'] and depth:
                    continue                       # what runs is a subset of what ran outside
                have = (ev(r, a), ev(c, a))
                w_ = spec(a, depth)
                if None in have:
                    ck.undecided(at(fn), 'set %s / %s' % (r, c))
                    break
                if have != w_:
                    ck.violation('%s running set' % m, at(fn), '%s: a point with %s %s, should be %s (running, condition)' % (m, a, have, w_))
                    break
            if m == 'PushState':
                ps_ = [e for e in q.events if e[0] == 'push']
                ck.ob('saved state')
                if [e[1] for e in ps_] != ['r']:
                    ck.violation('PushState', at(fn), 'PushState saves %s' % [e[1] for e in ps_])
            elif any(e[0] == 'push' for e in q.events):
                ck.violation('%s pushes' % m, at(fn), '%s saves a state' % m)
            if (q.env.get(('popped',), 0)) != (1 if m == 'PopState' else 0):
                ck.violation('%s pops' % m, at(fn), '%s takes %d saved states' % (m, q.env.get(('popped',), 0)))
            # the flag follows the set
            upd = [k for k, e in enumerate(q.events) if e[0] == 'upd' and e[1] == 'r']
            if upd:
                fl = [(k, e) for k, e in enumerate(q.events) if e[0] == 'store' and e[1] == ('fld', STAR_THIS, 'm_isRunning')]
                ck.ob('running flag follows the set')
                if not fl or fl[-1][0] < upd[-1]:
                    ck.violation('%s flag stale' % m, at(fn), '%s changes the set of running points and leaves m_isRunning as it was' % m)
                else:
                    v = fl[-1][1][2]
                    z = None
                    if v[0] == 'bin' and v[3] == INT(0) and isinstance(v[2], tuple) and v[2][0] == 'count':
                        z = (v[1] in ('!=', '>')) and v[2][1] == r
                    elif v[0] == 'count' and v[1] == r:
                        z = True
                    elif v[0] == 'int':
                        z = r[0] == 'const' and ev(r, {}) == bool(v[1])
                    elif v[0] == 'bin' and isinstance(v[2], tuple) and v[2][0] == 'count':
                        z = False
                    if z is None:
                        ck.undecided(at(fn), 'm_isRunning = %s' % show(v))
                    elif not z:
                        ck.violation('%s flag' % m, at(fn), '%s sets m_isRunning to %s' % (m, show(v)))
    breaks(ck, prog)


def breaks(ck, prog):
    """break(n) stops the running points in the n enclosing states and in no other"""
    fn = next(f for f in prog.find(ENV + '::RunningStatesBreak') if f.get('body'))
    for n in (1, 2, 0):
        try:
            ps = Walker(prog, Bits()).run(fn, args=[INT(n)])
        except (Overflow, Unsupported) as e:
            ck.undecided(at(fn), str(e))
            return
        for q in ps:
            if any(e[0] == 'upd' and not (e[1] in ('r', 'c') or 'top' in e[1]) for e in q.events) or any(e[0] == 'cond' for e in q.events):
                ck.undecided(at(fn), 'enclosing states not readable')
                return
            for k in range(3):
                ck.ob('break stops the points in the enclosing states', sample='break %d, state %d' % (n, k))
                v = q.env.get(('set', ('top', k)), 's%d' % k)
                for r in (False, True):
                    for s_ in (False, True):
                        if r and not s_:
                            continue
                        h = ev(v, {'r': r, 's%d' % k: s_, 'c': None})
                        if h is None:
                            ck.undecided(at(fn), 'state %d becomes %s' % (k, v))
                        elif h != (s_ and not (r and k < n)):
                            ck.violation('break %d state %d' % (n, k), at(fn), 'RunningStatesBreak(%d): a point that %s and %s in the saved state %d becomes %s there'
                                         % (n, 'runs' if r else 'does not run', 'runs' if s_ else 'does not run', k, 'running' if h else 'stopped'))
                            return


def run(ck):
    prog = facts.load([r'libs/shadervm/'])
    spec = json.load(open(SPECFILE))
    fs = functions(prog)
    seen = [s for s in spec if s in fs]
    if len(seen) < 0.8 * len(spec):
        raise Broken('only %d of %d shading operations found' % (len(seen), len(spec)))
    ck.units = len(prog.units) if hasattr(prog, 'units') else 0
    for s in seen:
        ck.fn(fs[s]['f'])
        if 'skip' in spec[s]:
            continue
        elementwise(ck, prog, s, fs[s], spec[s])
    control(ck, prog)
    states(ck, prog)
    return ck.finish('Every shading operation is interpreted over a grid of two points; which points run and which operands vary is enumerated, values are opaque. '
                     'Jumps, assignments and the sets of running points are decided the same way.',
                     ['two points stand for all points: the loops treat them uniformly', 'operations of CqBitVector do what they are named'])
