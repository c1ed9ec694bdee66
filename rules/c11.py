"""C11: conditional RIB: exactly the requests of the first true clause take effect."""
import itertools
from engine.absval import evalt
from .ricommon import *
from .c06 import Roles, paths_of, effects, CLS, CACHE
from .c06 import find_off

REQ = ('IfBegin', 'ElseIf', 'Else', 'IfEnd')
DEPTH = 3
STACKS = ('std::stack<', 'std::vector<', 'std::deque<', 'std::list<')


class Unknown(Exception):
    pass


class Model:
    """the transitions of the four requests, as guarded updates over the members"""

    def __init__(self, ck, prog, ri, R):
        self.ck, self.R = ck, R
        self.types = {f: t for f, t in R.types.items()}
        self.stacks = [f for f, t in self.types.items() if t.startswith(STACKS) and 'bool' in t]
        self.flags = [f for f, t in self.types.items() if t in ('bool', 'int', 'unsigned int', 'long', 'size_t')]
        self.test = [f for f, t in self.types.items() if 'function' in t]
        self.paths, self.fn = {}, {}
        for r in REQ:
            fn = ri.impl(CLS, r)
            if fn is None:
                raise Broken('%s is not handled by the filter' % r)
            ck.fn(fn)
            self.fn[r] = fn
            self.paths[r] = paths_of(ck, prog, ri, CLS, fn, [fn['file']])
            if not self.paths[r]:
                raise Unknown(r)
        self.init = {}
        for c in prog.funcs.values():
            if c.get('kind') == 'ctor' and c['f'].rsplit('::', 1)[0] == CLS and c.get('inits'):
                for i in c['inits']:
                    n, x = i.get('m') or i.get('n'), i.get('x')
                    while x and x.get('k') in ('cast',):
                        x = x['x']
                    if n in self.flags and x and x.get('k') in ('int', 'zero'):
                        self.init[n] = x.get('v', 0)
        for f in self.flags:
            if f not in self.init:
                raise Unknown('initial value of %s' % f)

    def step(self, req, state, test, null=False, recording=False):
        """(new state, requests forwarded, records pushed, condition tested) or None"""
        hits = []
        for p in self.paths[req]:
            st = {k: v for k, v in state.items()}
            memo, fwd, rec, asked = {}, [], [], 0
            first = dict(state)
            ok = True

            def atom(t):
                if t in memo:
                    return memo[t]
                if t[0] == 'fld' and t[1] == STAR_THIS:
                    if t == self.R.cur:
                        return int(recording)
                    if t[2] in self.test:
                        return int(not null)
                    if t[2] in self.flags:
                        return first[t[2]]
                return None
            for e in p.events:
                if e[0] == 'cond':
                    v = evalt(e[1], atom)
                    if v is None:
                        raise Unknown('condition %s of %s' % (show(e[1]), req))
                    if bool(v) != bool(e[2]):
                        ok = False
                        break
                elif e[0] == 'store' and e[1][0] == 'fld' and e[1][1] == STAR_THIS:
                    f = e[1][2]
                    v = evalt(e[2], atom)
                    if f in self.flags:
                        if v is None:
                            raise Unknown('value of %s in %s' % (f, req))
                        st[f] = int(bool(v)) if self.types[f] == 'bool' else v
                    elif f in self.stacks:
                        raise Unknown('assignment of %s' % f)
                elif e[0] == 'call':
                    b = e[1].rsplit('::', 1)[-1]
                    o = e[2]
                    term = ('r', e[1], o, e[3])
                    if o is not None and o[0] == 'fld' and o[1] == STAR_THIS and o[2] in self.stacks:
                        s = st[o[2]]
                        if b == 'empty':
                            memo[term] = int(not s)
                        elif b == 'size':
                            memo[term] = len(s)
                        elif b in ('top', 'back'):
                            if not s:
                                return ('crash', e[4], b, o[2])
                            memo[term] = s[-1]
                        elif b in ('pop', 'pop_back'):
                            if not s:
                                return ('crash', e[4], b, o[2])
                            st[o[2]] = s[:-1]
                        elif b in ('push', 'push_back'):
                            v = evalt(e[3][0], atom)
                            if v is None:
                                raise Unknown('value pushed in %s' % req)
                            st[o[2]] = s + (int(bool(v)),)
                        elif b in ('begin', 'end', 'front'):
                            raise Unknown('use of %s' % o[2])
                        else:
                            raise Unknown('%s of %s' % (b, o[2]))
                    elif o is not None and o[0] == 'fld' and o[1] == STAR_THIS and o[2] in self.test:
                        if b == 'operator!' or b == 'empty':
                            memo[term] = int(null)
                        elif b == 'operator()':
                            memo[term] = test
                            asked += 1
                            if null:
                                return ('nulltest', e[4], b, o[2])
                            if e[3] != (('P', 0),):
                                return ('wrongtest', e[4], b, show(e[3][0]) if e[3] else '')
                        elif 'bool' in b:
                            memo[term] = int(not null)
                elif e[0] == 'icall':
                    memo[('ir', e[1], e[2])] = test
                    asked += 1
                    if e[2] != (('P', 0),):
                        return ('wrongtest', e[3], 'call', show(e[2][0]) if e[2] else '')
            if not ok:
                continue
            for x in effects(self.ri, p):
                if x[0] == 'req':
                    fwd.append((x[1], x[2], x[3], x[4]))
                elif x[0] == 'push':
                    rec.append((x[2], x[3]))
                else:
                    fwd.append(('replay',) + x[1:])
            hits.append((st, tuple(fwd), tuple(rec), asked))
        uniq = {(tuple(sorted(h[0].items())), h[1], h[2], h[3]): h for h in hits}
        if len(uniq) != 1:
            raise Unknown('%d outcomes of %s' % (len(uniq), req))
        return list(uniq.values())[0]


def ref_step(ref, req, test):
    """reference: a stack of (outer active, clause taken, active, else seen)"""
    if req == 'IfBegin':
        outer = ref[-1][2] if ref else True
        act = outer and bool(test)
        return ref + ((outer, act, act, False),)
    if not ref:
        return ref
    if req == 'IfEnd':
        return ref[:-1]
    outer, taken, act, els = ref[-1]
    if req == 'ElseIf':
        act = outer and not taken and bool(test)
        return ref[:-1] + ((outer, taken or act, act, False),)
    act = outer and not taken
    return ref[:-1] + ((outer, True, act, True),)


def active(ref):
    return ref[-1][2] if ref else True


def run(ck):
    prog = facts.load([r'libs/riutil/renderutil_filter\.cpp'])
    ck.units = 1
    ri = Ri(prog)
    R = Roles(ck, prog, ri)
    R.off = find_off(ck, prog, ri, R)
    try:
        explore(ck, prog, ri, R)
    except Unknown as e:
        ck.undecided(CLS, 'the conditionals cannot be read as guarded updates of flags and stacks: %s' % e)
        ck.ob('readable')
    return ck.finish(
        'The four conditional requests are reduced to guarded updates of the filter\'s flags and stacks (one per path). The '
        'product of this transition system with the reference semantics (a clause is active iff the enclosing clause is '
        'active, no earlier clause of the same conditional was, and its condition is true) is explored for every well-formed '
        'history of conditionals nested up to %d deep and every outcome of the condition, plus unmatched ElseIf, Else and '
        'IfEnd; in each state the flag that suppresses requests is compared. Without a condition test the requests are '
        'passed on; while recording they are recorded.' % DEPTH,
        ['the reference is symmetric in the nesting depth, so depth %d covers deeper nesting as long as the filter treats its stacks uniformly' % DEPTH])


def explore(ck, prog, ri, R):
    m = Model(ck, prog, ri, R)
    m.ri = ri
    off = R.off[2]
    s0 = dict(m.init)
    for s in m.stacks:
        s0[s] = ()
    if s0.get(off):
        ck.violation('initial', CLS, 'requests are suppressed from the start')
    key = lambda s: tuple(sorted(s.items()))
    seen, todo = {(key(s0), ())}, [(s0, (), ())]
    while todo:
        s, ref, hist = todo.pop(0)
        for req in REQ:
            if ref and ref[-1][3] and req in ('ElseIf', 'Else'):
                continue
            if req == 'IfBegin' and len(ref) >= DEPTH:
                continue
            for t in (0, 1) if req in ('IfBegin', 'ElseIf') else (0,):
                out = m.step(req, s, t)
                h2 = hist + ('%s%s' % (req, '(%s)' % ('true' if t else 'false') if req in ('IfBegin', 'ElseIf') else ''),)
                hs = ' '.join(h2)
                ck.ob('transition', sample=hs)
                fn = m.fn[req]
                if out[0] == 'crash':
                    ck.violation('%s reads an empty stack' % req, at(fn, out[1]), '%s: %s of the empty %s' % (hs, out[2], out[3]))
                    continue
                if out[0] == 'wrongtest':
                    ck.violation('%s tests another condition' % req, at(fn, out[1]), 'the condition tested is %s' % out[3])
                    continue
                st, fwd, rec, asked = out
                if fwd or rec:
                    ck.violation('%s passed on' % req, at(fn), '%s: the conditional is handled and %s' % (hs, 'passed on' if fwd else 'recorded'))
                ref2 = ref_step(ref, req, t)
                if bool(st[off]) == active(ref2):
                    ck.violation('after %s' % req, at(fn), 'after %s requests %s' % (hs, 'have no effect' if st[off] else 'take effect'))
                    continue
                k = (key(st), ref2)
                if k not in seen:
                    seen.add(k)
                    todo.append((st, ref2, h2))
                if len(seen) > 20000:
                    raise Unknown('too many states')
    ck.extra['product_states'] = len(seen)
    for req in REQ:
        fn = m.fn[req]
        n = len(fn['p'])
        ident = tuple(('P', i) for i in range(n))
        # without a test: passed on
        out = m.step(req, s0, 0, null=True)
        ck.ob('passed on', sample=req)
        if out[0] in ('crash', 'wrongtest', 'nulltest'):
            ck.violation('%s without a test' % req, at(fn, out[1]), 'the missing condition test is called')
        else:
            st, fwd, rec, asked = out
            if [f[0] for f in fwd] != [req] or fwd[0][2] != ident:
                ck.violation('%s without a test' % req, at(fn), 'is not passed on once with its arguments')
            if rec or key(st) != key(s0):
                ck.violation('%s without a test changes state' % req, at(fn), 'changes the state of the filter although it is passed on')
        # recording: recorded
        for null in (False, True):
            out = m.step(req, s0, 1, recording=True, null=null)
            ck.ob('recorded', sample=req)
            if out[0] in ('crash', 'wrongtest', 'nulltest'):
                ck.violation('%s while recording' % req, at(fn, out[1]), 'is evaluated while it is being recorded')
                continue
            st, fwd, rec, asked = out
            if fwd or asked or key(st) != key(s0):
                ck.violation('%s while recording' % req, at(fn), 'has an effect while it is being recorded')
            if len(rec) != 1:
                ck.violation('%s record' % req, at(fn), 'is recorded %d times' % len(rec))
                continue
            ok = [x for x in terms(rec[0][0]) if x[0] == 'ctor']
            if not ok or ok[0][1] != CACHE + req or tuple(ok[0][2]) != ident:
                ck.violation('%s record' % req, at(fn), 'is recorded as %s' % (show(rec[0][0])))
    ck.need('transition', 100)
