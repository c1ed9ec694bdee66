"""Path-sensitive effect summaries.

For one function the walker enumerates the acyclic paths of its body (a loop
whose condition folds to a constant is unrolled, any other loop contributes
"zero iterations" and "one generic iteration"), propagates copies and constants
along each path, and records the path's effects in order:

  ('call', qname, obj, args, line, id)   call that is not looked through
  ('store', lv, value, line)             write to non-local storage
  ('cond', term, polarity, line)         branch decision
  ('loop', term) / ('endloop',)          around one generic iteration
  ('ret', value) / ('throw', type, args) how the path ends

Calls for which the policy says so are looked through (inlined), so that a
helper function is the same as its body in place.  Values are terms (tuples)
over the entry function's parameters ('P', i), its object ('*this',), literals
and results of calls ('r', qname, obj, args).  No constraint solving happens.
"""
import sys
sys.setrecursionlimit(20000)


class Overflow(Exception):
    pass


class Unsupported(Exception):
    pass


INT = lambda v: ('int', v)
THIS = ('this',)
STAR_THIS = ('*this',)

SMART = ('boost::shared_ptr', 'boost::scoped_ptr', 'boost::intrusive_ptr', 'std::shared_ptr', 'std::unique_ptr',
         'boost::scoped_array', 'boost::shared_array', 'std::auto_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access')


def is_smart(cls):
    return cls is not None and cls.split('<')[0] in SMART


# accessors that are not declared const but change nothing
PURE_NONCONST = {'top', 'back', 'front', 'begin', 'end', 'rbegin', 'rend', 'find', 'at', 'data', 'lower_bound', 'upper_bound', 'get'}


class State:
    __slots__ = ('env', 'ev', 'n')

    def __init__(self, env, ev):
        self.env = env
        self.ev = ev

    def fork(self):
        return State(dict(self.env), self.ev)

    def add(self, e):
        self.ev = (self.ev, e)

    def events(self):
        out, x = [], self.ev
        while x is not None:
            out.append(x[1])
            x = x[0]
        out.reverse()
        return out


class Path:
    def __init__(self, events, end, env):
        self.events, self.end, self.env = events, end, env

    def calls(self, q=None):
        return [e for e in self.events if e[0] == 'call' and (q is None or e[1] == q)]


class Policy:
    max_depth = 8
    max_paths = 4000
    unroll = 64
    sym_unroll = 0         # k > 0: loops are walked 0..k times instead of generically
    dyn_class = None       # dynamic class of *this (devirtualises calls on this)
    implicit_throw = False
    merge = False          # join states with equal effects after a branch
    keep_conds = True

    def inline(self, walker, fn, call):
        return False

    snap = None            # snap(state, event) -> event as recorded

    def event(self, e):
        """False drops the event"""
        return True

    def ctor_hook(self, walker, ctor, args, st):
        """may return a term for a constructed object (no event)"""
        return None

    def call_hook(self, walker, call, obj, args, st):
        """may return a term for the result of the call (no event)"""
        return None


def fold_bin(op, a, b):
    if a[0] == 'int' and b[0] == 'int':
        x, y = a[1], b[1]
        try:
            if op == '+': return INT(x + y)
            if op == '-': return INT(x - y)
            if op == '*': return INT(x * y)
            if op == '/' and y: return INT(int(x / y))
            if op == '%' and y: return INT(x - y * int(x / y))
            if op == '<': return INT(int(x < y))
            if op == '>': return INT(int(x > y))
            if op == '<=': return INT(int(x <= y))
            if op == '>=': return INT(int(x >= y))
            if op == '==': return INT(int(x == y))
            if op == '!=': return INT(int(x != y))
            if op == '&': return INT(x & y)
            if op == '|': return INT(x | y)
            if op == '^': return INT(x ^ y)
            if op == '<<': return INT(x << y)
            if op == '>>': return INT(x >> y)
        except Exception:
            pass
    if op == '+' and b == INT(0): return a
    if op == '-' and b == INT(0): return a
    if op == '+' and a == INT(0): return b
    if op == '*' and b == INT(1): return a
    if op == '*' and a == INT(1): return b
    if op in ('+', '-') and b[0] == 'int' and a[0] == 'bin' and a[1] in ('+', '-') and a[3][0] == 'int':
        s = (a[3][1] if a[1] == '+' else -a[3][1]) + (b[1] if op == '+' else -b[1])
        if s == 0: return a[2]
        return ('bin', '+', a[2], INT(s)) if s > 0 else ('bin', '-', a[2], INT(-s))
    if op in ('&&', '||'):
        if a[0] == 'int':
            t = bool(a[1])
            return (b if t else INT(0)) if op == '&&' else (INT(1) if t else b)
    if op in ('+', '*', '==', '!=', '&', '|') and a[0] == 'int' and b[0] != 'int':
        a, b = b, a
    if op in ('<', '>', '<=', '>=') and a[0] in ('int', 'float') and b[0] not in ('int', 'float'):
        a, b = b, a
        op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}[op]
    return ('bin', op, a, b)


NEG = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}


def cond_norm(t, pol):
    """(term, polarity) -> canonical (term, True)-like pair"""
    while True:
        if t[0] == 'un' and t[1] == '!':
            t, pol = t[2], not pol
            continue
        if t[0] == 'cast' and t[2][0] in ('bin', 'un', 'r', 'P', 'fld') and t[1] == 'bool':
            t = t[2]
            continue
        if t[0] == 'bin' and t[1] == '!=' and t[3] in (INT(0), ('null',)):
            t = t[2]
            continue
        if t[0] == 'bin' and t[1] == '==' and t[3] in (INT(0), ('null',)):
            t, pol = t[2], not pol
            continue
        break
    if not pol and t[0] == 'bin' and t[1] in NEG:
        return ('bin', NEG[t[1]], t[2], t[3]), True
    return t, pol


class Walker:
    def __init__(self, prog, policy=None):
        self.p = prog
        self.pol = policy or Policy()
        self.frame = 0
        self.count = 0
        self.fresh = 0
        self.stack = []
        self.inlined = set()
        self.loop_counter = 0

    # ------------------------------------------------------------------ API
    def run(self, fn, this=THIS, args=None):
        self.count = 0
        st = State({}, None)
        self.frame = 0
        self.stack = [fn['id']]
        for k, p in enumerate(fn['p']):
            lv = ('L', 0, p['i'])
            term = args[k] if args else ('P', k)
            if self.p.type(p['t']).endswith('&'):
                st.env[lv] = ('ref', term)
            else:
                st.env[lv] = term
        st.env[('this', 0)] = this
        res = []
        for s, o in self.ctor_inits(fn, st, 0):
            if o == 'next':
                res += self.stmt(fn['body'], s, 0)
            else:
                res.append((s, o))
        out = []
        for s, o in res:
            if o == 'next':
                o = ('ret', None)
            out.append(Path(s.events(), o, s.env))
        return out

    def ctor_inits(self, fn, st, fr):
        states = [(st, 'next')]
        for ini in fn.get('inits', ()):
            nxt = []
            for s, o in states:
                if o != 'next':
                    nxt.append((s, o))
                    continue
                for s2, v in self.ev(ini['x'], s, fr):
                    if isinstance(v, tuple) and v and v[0] == '!throw':
                        nxt.append((s2, ('throw',) + v[1:]))
                        continue
                    if 'm' in ini:
                        lv = ('fld', self.deref(s2.env[('this', fr)]), ini['m'])
                        s2.env[lv] = v
                        self.emit(s2, ('store', lv, v, ini['l'], 'init'))
                    elif 'base' in ini:
                        self.emit(s2, ('baseinit', ini['base'], v, ini['l']))
                    nxt.append((s2, 'next'))
            states = nxt
        return states

    # -------------------------------------------------------------- helpers
    def emit(self, st, e):
        if self.pol.event(e):
            if self.pol.snap is not None:
                e = self.pol.snap(st, e)
            st.add(e)

    def tick(self, n=1):
        self.count += n
        if self.count > self.pol.max_paths * 200:
            raise Overflow()

    def deref(self, t):
        if t == THIS:
            return STAR_THIS
        if t[0] == 'addr':
            return t[1]
        return ('deref', t)

    def addr(self, lv):
        if lv == STAR_THIS:
            return THIS
        if lv[0] == 'deref':
            return lv[1]
        if lv[0] == 'idx' and lv[2] == INT(0) and lv[1][0] != 'L':
            return ('addr', lv)
        return ('addr', lv)

    def read(self, st, lv):
        v = st.env.get(lv)
        if v is not None:
            if v[0] == 'ref':
                return self.read(st, v[1])
            if lv[0] == 'L' and v[0] in ('ctor', 'r', 'agg', 'P'):
                # an aggregate with members assigned since
                up = tuple(sorted((k[2], x) for k, x in st.env.items() if k[0] == 'fld' and k[1] == lv))
                if up:
                    return ('agg', v, up)
            return v
        return lv

    def is_ref_var(self, n):
        return self.p.type(n.get('t')).endswith('&')

    # ------------------------------------------------------------- lvalues
    def lv(self, n, st, fr):
        """[(state, lvalue term)]"""
        k = n['k']
        if k == 'ref':
            dk = n['dk']
            if dk in ('param', 'local') or (dk == 'other' and 'i' in n):
                l = ('L', fr, n['i'])
                v = st.env.get(l)
                if v is not None and v[0] == 'ref':
                    return [(st, v[1])]
                if v is None:
                    # captured by a lambda or declared elsewhere: look in outer frames
                    f2 = fr
                    while f2 > 0 and ('L', f2, n['i']) not in st.env:
                        f2 = st.env.get(('outer', f2), -1)
                        if f2 < 0:
                            break
                    if f2 >= 0 and ('L', f2, n['i']) in st.env:
                        l = ('L', f2, n['i'])
                        v = st.env[l]
                        if v[0] == 'ref':
                            return [(st, v[1])]
                return [(st, l)]
            if dk in ('global', 'static'):
                return [(st, ('G', n['q']))]
            if dk == 'enum':
                return [(st, INT(n['cv']))]
            if dk == 'func':
                return [(st, ('func', n['q'], n.get('id')))]
            return [(st, ('G', n.get('q', n['n'])))]
        if k == 'mem':
            if n.get('m'):
                return [(s, ('method', n['id'], b)) for s, b in (self.ev(n['x'], st, fr) if n.get('ar') else self.lv(n['x'], st, fr))]
            if n.get('ar'):
                return [(s, ('fld', self.deref(b), n['n'])) for s, b in self.ev(n['x'], st, fr)]
            return [(s, ('fld', b, n['n'])) for s, b in self.lv(n['x'], st, fr)]
        if k == 'un' and n['op'] == '*':
            return [(s, self.deref(v)) for s, v in self.ev(n['x'], st, fr)]
        if k == 'un' and n['op'] in ('++', '--'):
            out = []
            for s, v in self.ev(n, st, fr):
                out += self.lv(n['x'], s, fr)
            return out
        if k == 'idx':
            out = []
            for s, a in self.ev(n['a'], st, fr):
                for s2, b in self.ev(n['b'], s, fr):
                    if a[0] == 'addr' and a[1][0] == 'idx' and a[1][2][0] == 'int' and b[0] == 'int':
                        out.append((s2, ('idx', a[1][1], INT(a[1][2][1] + b[1]))))
                    elif a[0] == 'bin' and a[1] == '+' and a[2][0] != 'int':
                        out.append((s2, ('idx', a[2], fold_bin('+', a[3], b))))
                    else:
                        out.append((s2, ('idx', a, b)))
            return out
        if k == 'asg':
            out = []
            for s, v in self.ev(n, st, fr):
                out += self.lv(n['a'], s, fr) if n['a']['k'] in ('ref', 'mem') else [(s, v)]
            return out
        if k == 'cast':
            if n['ck'] in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast', 'Dynamic'):
                return self.lv(n['x'], st, fr)
            return self.ev(n, st, fr)
        if k == '?:':
            out = []
            for s, pol in self.branch(n['c'], st, fr):
                out += self.lv(n['a'] if pol else n['b'], s, fr)
            return out
        if k == 'call' and n.get('op') == '*' and is_smart(n.get('c')):
            return [(s, self.deref(v)) for s, v in self.ev(n['o'], st, fr)]
        return self.ev(n, st, fr)

    # -------------------------------------------------------------- rvalues
    def ev(self, n, st, fr):
        """[(state, value)]; a value ('!throw', ...) means the evaluation threw"""
        self.tick()
        if n is None:
            return [(st, ('none',))]
        if 'cv' in n:
            return [(st, INT(n['cv']))]
        k = n['k']
        m = getattr(self, 'e_' + {'?:': 'cond'}.get(k, k), None)
        if m is None:
            if k in ('block', 'if', 'for', 'while', 'decl'):
                raise Unsupported(k)
            return [(st, (k,))]
        return m(n, st, fr)

    def e_int(self, n, st, fr): return [(st, INT(n['v']))]

    def e_float(self, n, st, fr):
        v = n['v']
        return [(st, ('float', float(v) if v != 'inf' else float('inf')))]

    def e_str(self, n, st, fr): return [(st, ('str', n['v']))]

    def e_null(self, n, st, fr): return [(st, ('null',))]

    def e_zero(self, n, st, fr):
        t = self.p.type(n.get('t'))
        return [(st, INT(0) if not t.endswith('*') else ('null',))]

    def e_this(self, n, st, fr): return [(st, st.env.get(('this', fr), THIS))]

    def e_ref(self, n, st, fr):
        return [(s, self.read(s, l)) for s, l in self.lv(n, st, fr)]

    e_mem = e_ref
    e_idx = e_ref

    def seq(self, nodes, st, fr, lvs=0, rr=0):
        """evaluate a list of expressions in order: [(state, (v...))]"""
        out = [(st, ())]
        for i, n in enumerate(nodes):
            nxt = []
            for s, vs in out:
                if vs and vs[-1] and vs[-1][0] == '!throw':
                    nxt.append((s, vs))
                    continue
                f = self.lv if (lvs >> i) & 1 and n and n['k'] in ('ref', 'mem', 'idx') and ((rr >> i) & 1 or self._byref(n)) else self.ev
                for s2, v in f(n, s, fr):
                    nxt.append((s2, vs + (v,)))
            out = nxt
        return out

    def _byref(self, n):
        t = self.p.type(n.get('t'))
        return not (t.endswith('*') or t.endswith(']'))

    def e_un(self, n, st, fr):
        op = n['op']
        if op == '&':
            return [(s, self.addr(l)) for s, l in self.lv(n['x'], st, fr)]
        if op == '*':
            return [(s, self.read(s, l)) for s, l in self.lv(n, st, fr)]
        if op in ('++', '--', 'post++', 'post--'):
            out = []
            for s, l in self.lv(n['x'], st, fr):
                old = self.read(s, l)
                new = fold_bin('+' if '+' in op else '-', old, INT(1))
                self.assign(s, l, new, n['l'])
                out.append((s, old if op.startswith('post') else new))
            return out
        out = []
        for s, v in self.ev(n['x'], st, fr):
            if op == '!':
                if v[0] == 'int':
                    v = INT(int(not v[1]))
                elif v[0] == 'un' and v[1] == '!':
                    v = v[2]
                elif v[0] == 'null':
                    v = INT(1)
                else:
                    v = ('un', '!', v)
            elif op == '-':
                v = INT(-v[1]) if v[0] == 'int' else ('float', -v[1]) if v[0] == 'float' else ('un', '-', v)
            elif op == '~' and v[0] == 'int':
                v = INT(~v[1])
            else:
                v = ('un', op, v)
            out.append((s, v))
        return out

    def has_effect(self, n):
        """may evaluating n write or call something non-const?"""
        stack = [n]
        while stack:
            n = stack.pop()
            if isinstance(n, dict):
                if n.get('k') in ('asg', 'call', 'icall', 'ctor', 'new', 'throw', 'delete', 'vaarg'):
                    return True
                if n.get('k') == 'un' and n['op'] in ('++', '--', 'post++', 'post--'):
                    return True
                stack += [v for v in n.values() if isinstance(v, (dict, list))]
            elif isinstance(n, list):
                stack += n
        return False

    def e_bin(self, n, st, fr):
        op = n['op']
        if op == ',':
            out = []
            for s, a in self.ev(n['a'], st, fr):
                out += self.ev(n['b'], s, fr)
            return out
        if op in ('&&', '||') and self.has_effect(n['b']):
            out = []
            for s, pol in self.branch(n, st, fr):
                if isinstance(pol, tuple):
                    out.append((s, pol))
                else:
                    out.append((s, INT(int(pol))))
            return out
        out = []
        for s, a in self.ev(n['a'], st, fr):
            for s2, b in self.ev(n['b'], s, fr):
                if a[0] == '!throw':
                    out.append((s2, a))
                elif b[0] == '!throw':
                    out.append((s2, b))
                else:
                    out.append((s2, fold_bin(op, a, b)))
        return out

    def e_asg(self, n, st, fr):
        out = []
        for s, v in self.ev(n['b'], st, fr):
            if v[0] == '!throw':
                out.append((s, v))
                continue
            for s2, l in self.lv(n['a'], s, fr):
                nv = v
                if n['op'] != '=':
                    nv = fold_bin(n['op'][:-1], self.read(s2, l), v)
                self.assign(s2, l, nv, n['l'])
                out.append((s2, nv))
        return out

    def assign(self, st, lv, v, line):
        # forget fields of an overwritten aggregate
        if lv[0] in ('L', 'fld'):
            for key in [x for x in st.env if x[0] in ('fld', 'idx') and x[1] == lv]:
                del st.env[key]
        st.env[lv] = v
        if self.root(lv)[0] != 'L':
            self.emit(st, ('store', lv, v, line))

    def root(self, lv):
        while lv[0] in ('fld', 'idx') and len(lv) == 3:
            lv = lv[1]
        return lv

    def e_cond(self, n, st, fr):
        if not self.has_effect(n['a']) and not self.has_effect(n['b']):
            out = []
            for s, c in self.ev(n['c'], st, fr):
                if c[0] == 'int':
                    out += self.ev(n['a'] if c[1] else n['b'], s, fr)
                    continue
                for s2, a in self.ev(n['a'], s, fr):
                    for s3, b in self.ev(n['b'], s2, fr):
                        out.append((s3, a if a == b else ('?', c, a, b)))
            return out
        out = []
        for s, pol in self.branch(n['c'], st, fr):
            if isinstance(pol, tuple):
                out.append((s, pol))
                continue
            out += self.ev(n['a'] if pol else n['b'], s, fr)
        return out

    NUMCAST = ('IntegralCast', 'IntegralToFloating', 'FloatingToIntegral', 'FloatingCast', 'IntegralToBoolean',
               'FloatingToBoolean', 'PointerToBoolean', 'BooleanToSignedIntegral')

    def e_cast(self, n, st, fr):
        out = []
        for s, v in self.ev(n['x'], st, fr):
            ck = n['ck']
            if v[0] == '!throw':
                out.append((s, v))
                continue
            t = self.p.type(n['t'])
            if ck in self.NUMCAST:
                if v[0] == 'int' and ck in ('IntegralCast', 'BooleanToSignedIntegral'):
                    pass
                elif v[0] == 'int' and ck == 'IntegralToBoolean':
                    v = INT(int(bool(v[1])))
                elif v[0] == 'int' and ck == 'IntegralToFloating':
                    v = ('float', float(v[1]))
                elif v[0] == 'float' and ck == 'FloatingCast':
                    pass
                elif v[0] == 'null' and ck == 'PointerToBoolean':
                    v = INT(0)
                elif t == 'bool' and v[0] in ('bin', 'un') and (v[1] in NEG or v[1] in ('&&', '||', '!')):
                    pass
                else:
                    v = ('cast', t, v)
            elif n.get('dyn'):
                v = ('dyncast', t, v)
            elif ck in ('BitCast', 'IntegralToPointer', 'PointerToIntegral', 'LValueBitCast') and not n.get('im'):
                v = ('cast', t, v) if getattr(self.pol, 'keep_bitcast', False) else v
            out.append((s, v))
        return out

    def e_init(self, n, st, fr):
        return [(s, ('init',) + vs) for s, vs in self.seq(n['a'], st, fr)]

    def e_sizeof(self, n, st, fr): return [(st, ('sizeof', n.get('of')))]

    def e_throw(self, n, st, fr):
        if 'x' not in n:
            return [(st, ('!throw', None, None, n['l']))]
        return [(s, ('!throw', self.p.type(n['tt']), v, n['l'])) for s, v in self.ev(n['x'], st, fr)]

    def e_lambda(self, n, st, fr):
        key = ('lambda', fr, n['l'], id(n))
        self.lambdas = getattr(self, 'lambdas', {})
        self.lambdas[key] = n
        return [(st, key)]

    def e_vaarg(self, n, st, fr):
        self.fresh += 1
        return [(s, ('vaarg', self.fresh, self.p.type(n['t']))) for s, v in self.ev(n['x'], st, fr)]

    def e_new(self, n, st, fr):
        out = []
        parts = [x for x in (n.get('n'), n.get('x')) if x is not None]
        for s, vs in self.seq(parts, st, fr):
            t = self.p.type(n['t'])
            if 'n' in n:
                v = ('newarr', t, vs[0])
            else:
                v = ('new', t, vs[-1] if vs else None)
            if vs and vs[-1][0] == '!throw':
                v = vs[-1]
            else:
                self.emit(s, ('new', v, n['l']))
            out.append((s, v))
        return out

    def e_delete(self, n, st, fr):
        out = []
        for s, v in self.ev(n['x'], st, fr):
            self.emit(s, ('delete', v, n['l'], bool(n.get('arr'))))
            out.append((s, ('none',)))
        return out

    def e_ctor(self, n, st, fr):
        out = []
        for s, vs in self.seq(n['a'], st, fr, n.get('ra', 0)):
            h = self.pol.ctor_hook(self, n, vs, s) if not (vs and vs[-1][0] == '!throw') else None
            if vs and vs[-1][0] == '!throw':
                out.append((s, vs[-1]))
            elif h is not None:
                out.append((s, h))
            elif n.get('cp') and vs:
                out.append((s, vs[0]))
            elif is_smart(n['c']) and len(vs) >= 1:
                out.append((s, vs[0]))
            elif is_smart(n['c']):
                out.append((s, ('null',)))
            else:
                v = ('ctor', n['c'].split('<')[0] if n['c'].startswith('std::') else n['c'], vs)
                self.emit(s, ('ctor', n['c'], vs, n.get('l'), n.get('id')))
                self.havoc_args(s, n, n['c'], vs)
                out.append((s, v))
        return out

    def havoc_args(self, st, n, f, vs):
        ra = n.get('ra', 0)
        for i, v in enumerate(vs):
            if (ra >> i) & 1:
                tgt = None
                if v[0] in ('L',):
                    tgt = v
                elif v[0] in ('fld', 'idx') and self.root(v)[0] == 'L':
                    tgt = v
                elif v[0] == 'addr' and self.root(v[1])[0] == 'L':
                    tgt = v[1]
                if tgt is not None:
                    st.env[tgt] = ('out', f, i, tuple(x for j, x in enumerate(vs) if j != i))

    def e_call(self, n, st, fr):
        out = []
        hasobj = 'o' in n
        starts = [(st, None)]
        if hasobj:
            starts = self.lv(n['o'], st, fr) if not self._is_ptr_obj(n['o']) else \
                [(s, self.deref(v)) for s, v in self.ev(n['o'], st, fr)]
        for s, o in starts:
            if o is not None and o[0] == '!throw':
                out.append((s, o))
                continue
            for s2, vs in self.seq(n['a'], s, fr, n.get('ra', 0), n.get('rr', 0)):
                if vs and vs[-1][0] == '!throw':
                    out.append((s2, vs[-1]))
                    continue
                out += self.do_call(n, o, vs, s2, fr)
        return out

    def _is_ptr_obj(self, o):
        """is the object expression of a member call a pointer (-> call)?"""
        k = o['k']
        if k == 'this':
            return True
        t = self.p.type(o.get('t'))
        if k in ('ref', 'mem', 'idx', 'cast', 'new', 'un', 'bin', 'icall', 'asg'):
            if t.endswith('&'):
                t = t[:-1].rstrip()
            return t.endswith('*') or t.endswith('*const')
        if k == 'call':
            if n_op_arrow(o):
                return True
            return t.endswith('*')
        if k == '?:':
            return self._is_ptr_obj(o['a'])
        return False

    def do_call(self, n, o, vs, st, fr):
        f = n['f']
        h = self.pol.call_hook(self, n, o, vs, st)
        if h is not None:
            return [(st, h)] if not isinstance(h, list) else h
        op = n.get('op')
        cls = n.get('c')
        # smart pointers are transparent
        if is_smart(cls):
            ov = self.read(st, o) if o is not None else None
            if op == '->' or f.endswith('::get'):
                return [(st, ov)]
            if op == '*':
                return [(st, self.read(st, self.deref(ov)))]
            if op == '=' or f.endswith('::reset'):
                self.assign(st, o, vs[0] if vs else ('null',), n['l'])
                return [(st, o)]
            if 'operator bool' in f or 'operator!' in f:
                return [(st, ov if 'bool' in f else ('un', '!', ov))]
        if f in ('std::move', 'std::forward') and len(vs) == 1:
            return [(st, vs[0])]
        if o is not None and o[0] == 'L' and (n.get('cm') or op == '[]'):
            # a const method of a local is a function of the local's value
            v = st.env.get(o)
            if v is not None and v[0] in ('lex', 'tok', 'r', 'P', 'fld', 'idx', 'deref'):
                o = v
        fid = n['id']
        if n.get('v') and self.pol.dyn_class and o == STAR_THIS:
            fid = self.p.resolve_virtual(fid, self.pol.dyn_class)
        fn = self.p.funcs.get(fid)
        if fn is not None and fn['id'] not in self.stack and len(self.stack) < self.pol.max_depth and \
                not (n.get('v') and fid == n['id'] and o != STAR_THIS and not self.pol.inline_virtual(n)) and \
                self.pol.inline(self, fn, n):
            return self.inline(fn, n, o, vs, st, fr)
        self.emit(st, ('call', f, o, vs, n['l'], n['id'], cls))
        self.havoc_args(st, n, f, vs)
        if o is not None and not n.get('cm') and not n.get('sm') and op not in ('[]', '->', '*') and \
                f.rsplit('::', 1)[-1] not in PURE_NONCONST:
            self.forget(st, o)
        if op == '=' and o is not None and len(vs) == 1:
            # class assignment: the object takes the value
            self.assign(st, o, vs[0], n['l'])
            return [(st, o)]
        res = ('r', f, o, vs)
        if o is not None and self.root(o)[0] == 'L' and not n.get('cm') and not n.get('sm') and op not in ('[]', '->', '*'):
            st.env[o] = ('upd', self.read(st, o), f, vs)
        return [(st, res)]

    def forget(self, st, o):
        """decisions about an object no longer hold once it may have changed"""
        for key in [x for x in st.env if x[0] == 'known']:
            if any(t == o for t in terms(key[1])):
                del st.env[key]

    def inline(self, fn, n, o, vs, st, fr):
        self.inlined.add(fn['id'])
        self.fresh += 1
        nf = self.fresh
        st.env[('this', nf)] = self.addr(o) if o is not None else THIS
        for k, p in enumerate(fn['p']):
            v = vs[k] if k < len(vs) else ('none',)
            lv = ('L', nf, p['i'])
            if self.p.type(p['t']).endswith('&'):
                if v[0] in ('L', 'fld', 'idx', 'deref', 'G', 'P', '*this'):
                    st.env[lv] = ('ref', v)
                else:
                    st.env[lv] = v
            else:
                st.env[lv] = v
        self.stack.append(fn['id'])
        self.emit(st, ('enter', fn['id'], n['l']))
        try:
            res = []
            for s, oc in self.stmt(fn['body'], st, nf):
                self.emit(s, ('leave', fn['id']))
                if oc == 'next':
                    res.append((s, ('none',)))
                elif oc[0] == 'ret':
                    res.append((s, oc[1] if oc[1] is not None else ('none',)))
                elif oc[0] == 'throw':
                    res.append((s, ('!throw',) + oc[1:]))
                else:
                    raise Unsupported('outcome %r' % (oc,))
        finally:
            self.stack.pop()
        return res

    def e_icall(self, n, st, fr):
        out = []
        for s, c in self.ev(n['x'], st, fr):
            for s2, vs in self.seq(n['a'], s, fr):
                if c[0] == 'lambda':
                    lam = self.lambdas[c]
                    for k, p in enumerate(lam['p']):
                        s2.env[('L', c[1], p['i'])] = vs[k] if k < len(vs) else ('none',)
                    for s3, oc in self.stmt(lam['body'], s2, c[1]):
                        if oc == 'next':
                            out.append((s3, ('none',)))
                        elif oc[0] == 'ret':
                            out.append((s3, oc[1] or ('none',)))
                        elif oc[0] == 'throw':
                            out.append((s3, ('!throw',) + oc[1:]))
                    continue
                if c[0] == 'func' and c[2] in self.p.funcs:
                    fn = self.p.funcs[c[2]]
                    if fn['id'] not in self.stack and len(self.stack) < self.pol.max_depth and self.pol.inline(self, fn, n):
                        out += self.inline(fn, n, None, vs, s2, fr)
                        continue
                self.emit(s2, ('icall', c, vs, n['l']))
                out.append((s2, ('ir', c, vs)))
        return out

    def e_stmtexpr(self, n, st, fr):
        out = []
        for s, oc in self.stmt(n['body'], st, fr):
            out.append((s, ('none',)))
        return out

    def e_other(self, n, st, fr):
        return [(s, ('other', n.get('cls')) + vs) for s, vs in self.seq(n.get('a', []), st, fr)]

    def e_arrcopy(self, n, st, fr):
        return self.ev(n['x'], st, fr)

    # ------------------------------------------------------------- branches
    def branch(self, n, st, fr):
        """[(state, True/False/throw-term)]"""
        if n['k'] == 'un' and n['op'] == '!' and 'cv' not in n:
            return [(s, (not b) if isinstance(b, bool) else b) for s, b in self.branch(n['x'], st, fr)]
        if n['k'] == 'cast' and n.get('ck') == 'IntegralToBoolean' and n['x']['k'] == 'bin' and 'cv' not in n:
            n = n['x']
        if n['k'] == 'bin' and n['op'] in ('&&', '||') and 'cv' not in n:
            out = []
            stop = (n['op'] == '||')
            for s, b in self.branch(n['a'], st, fr):
                if isinstance(b, tuple) or b == stop:
                    out.append((s, b))
                else:
                    out += self.branch(n['b'], s, fr)
            return out
        out = []
        for s, c in self.ev(n, st, fr):
            if c[0] == '!throw':
                out.append((s, c))
                continue
            out += self.decide(c, s, n.get('l', 0))
        return out

    def decide(self, c, s, line):
        if c[0] == 'int':
            return [(s, bool(c[1]))]
        if c[0] == 'null':
            return [(s, False)]
        if c[0] in ('new', 'newarr', 'addr', 'str', 'this') or c[0] == 'cast' and c[1] == 'bool' and c[2][0] in ('str', 'addr', 'new'):
            return [(s, True)]
        if c[0] == 'bin' and c[1] in ('&&', '||'):
            out = []
            stop = c[1] == '||'
            for s2, b in self.decide(c[2], s, line):
                if b == stop:
                    out.append((s2, b))
                else:
                    out += self.decide(c[3], s2, line)
            return out
        t, pol = cond_norm(c, True)
        # decided already on this path?  (same condition, no effects in between)
        known = s.env.get(('known', t))
        if known is not None and getattr(self.pol, 'correlate', True):
            return [(s, known == pol)]
        s2 = s.fork()
        tt, pp = cond_norm(c, True)
        self.emit(s, ('cond', tt, pp, line))
        s.env[('known', t)] = pol
        tt, pp = cond_norm(c, False)
        self.emit(s2, ('cond', tt, pp, line))
        s2.env[('known', t)] = not pol
        nt, np_ = cond_norm(c, False)
        if nt != t:
            s2.env[('known', nt)] = np_
            s.env[('known', nt)] = not np_
        return [(s, True), (s2, False)]

    # ----------------------------------------------------------- statements
    def stmt(self, n, st, fr):
        self.tick()
        if n is None:
            return [(st, 'next')]
        k = n['k']
        m = getattr(self, 's_' + k, None)
        if m is not None:
            return m(n, st, fr)
        # expression statement
        out = []
        for s, v in self.ev(n, st, fr):
            out.append((s, ('throw',) + v[1:] if v and v[0] == '!throw' else 'next'))
        return out

    def s_nop(self, n, st, fr): return [(st, 'next')]

    def s_block(self, n, st, fr):
        return self.run_list(n['s'], st, fr)

    def run_list(self, lst, st, fr):
        cur, done = [st], []
        for x in lst:
            nxt = []
            for s in cur:
                for s2, o in self.stmt(x, s, fr):
                    if o == 'next':
                        nxt.append(s2)
                    else:
                        done.append((s2, o))
            cur = nxt
            if len(cur) + len(done) > self.pol.max_paths:
                raise Overflow()
            if self.pol.merge and len(cur) > 1:
                cur = self.join(cur)
            if not cur:
                break
        return [(s, 'next') for s in cur] + done

    def join(self, states):
        groups = {}
        for s in states:
            key = tuple(e for e in s.events() if e[0] != 'cond')
            groups.setdefault(key, []).append(s)
        out = []
        for key, g in groups.items():
            if len(g) == 1:
                out.append(g[0])
                continue
            env = {}
            keys = set()
            for s in g:
                keys |= set(s.env)
            for x in keys:
                vals = {s.env.get(x) for s in g}
                if len(vals) == 1:
                    env[x] = vals.pop()
                elif x[0] == 'known':
                    continue
                elif x[0] in ('this', 'outer'):
                    env[x] = next(v for v in vals if v is not None)
                elif None in vals and x[0] == 'L':
                    continue
                else:
                    flat = set()
                    for v in vals:
                        v = v if v is not None else x
                        if v[0] == 'phi':
                            flat |= set(v[1])
                        else:
                            flat.add(v)
                    if len(flat) > 12:
                        env[x] = ('top',)
                    elif any(v[0] == 'ref' for v in flat):
                        env[x] = sorted(flat, key=repr)[0]
                    else:
                        env[x] = ('phi', tuple(sorted(flat, key=repr)))
            # the common prefix of decisions is kept, the rest joined away
            ev = None
            lists = [s.events() for s in g]
            i = 0
            pre = []
            while all(i < len(l) for l in lists) and len({l[i] for l in lists}) == 1:
                pre.append(lists[0][i])
                i += 1
            rest = [e for e in lists[0][i:] if e[0] != 'cond']
            for e in pre + rest:
                ev = (ev, e)
            out.append(State(env, ev))
        return out

    def s_decl(self, n, st, fr):
        cur = [(st, 'next')]
        for d in n['d']:
            nxt = []
            for s, o in cur:
                if o != 'next':
                    nxt.append((s, o))
                    continue
                lv = ('L', fr, d['i'])
                isref = self.p.type(d['t']).endswith('&')
                if d.get('st'):
                    nxt.append((s, 'next'))
                    continue
                if 'x' not in d:
                    s.env[lv] = ('uninit', d['n'])
                    nxt.append((s, 'next'))
                    continue
                for s2, v in (self.lv(d['x'], s, fr) if isref else self.ev(d['x'], s, fr)):
                    if v[0] == '!throw':
                        nxt.append((s2, ('throw',) + v[1:]))
                        continue
                    if isref and v[0] in ('L', 'fld', 'idx', 'deref', 'G', 'P', '*this', 'r', 'ir'):
                        s2.env[lv] = ('ref', v)
                    else:
                        s2.env[lv] = v
                    self.emit(s2, ('bind', d['n'], v, d['l'], self.p.type(d['t'])))
                    nxt.append((s2, 'next'))
            cur = nxt
        return cur

    def s_if(self, n, st, fr):
        out = []
        pre = [(st, 'next')]
        for part in ('init', 'var'):
            if part in n:
                nx = []
                for s, o in pre:
                    nx += self.stmt(n[part], s, fr) if o == 'next' else [(s, o)]
                pre = nx
        for s0, o0 in pre:
            if o0 != 'next':
                out.append((s0, o0))
                continue
            for s, b in self.branch(n['c'], s0, fr):
                if isinstance(b, tuple):
                    out.append((s, ('throw',) + b[1:]))
                elif b:
                    out += self.stmt(n['t'], s, fr)
                else:
                    out += self.stmt(n.get('e'), s, fr)
        if self.pol.merge:
            nx = self.join([s for s, o in out if o == 'next']) if sum(o == 'next' for s, o in out) > 1 else None
            if nx is not None:
                out = [(s, 'next') for s in nx] + [(s, o) for s, o in out if o != 'next']
        return out

    def s_ret(self, n, st, fr):
        if 'x' not in n:
            return [(st, ('ret', None))]
        out = []
        for s, v in self.ev(n['x'], st, fr):
            out.append((s, ('throw',) + v[1:] if v[0] == '!throw' else ('ret', v)))
        return out

    def s_break(self, n, st, fr): return [(st, 'break')]

    def s_continue(self, n, st, fr): return [(st, 'continue')]

    def s_case(self, n, st, fr): return self.stmt(n.get('s'), st, fr)

    s_default = s_case

    def s_label(self, n, st, fr): return self.stmt(n.get('s'), st, fr)

    def s_goto(self, n, st, fr): raise Unsupported('goto')

    def s_unkstmt(self, n, st, fr): raise Unsupported(n.get('cls'))

    # loops
    def assigned(self, nodes):
        """ids of locals (and field names of this) written in the given nodes"""
        loc, fld = set(), set()
        incs = {}

        def tgt(x, w):
            while x['k'] in ('idx',) or (x['k'] == 'mem' and not x.get('ar')) or x['k'] == 'cast':
                if x['k'] == 'mem' and x['x']['k'] == 'this':
                    break
                x = x['a'] if x['k'] == 'idx' else x['x']
            if x['k'] == 'ref' and x['dk'] in ('param', 'local'):
                loc.add(x['i'])
                incs.setdefault(x['i'], []).append(w)
            elif x['k'] == 'mem':
                fld.add(x['n'])
        stack = list(nodes)
        while stack:
            n = stack.pop()
            if isinstance(n, list):
                stack += n
                continue
            if not isinstance(n, dict):
                continue
            k = n.get('k')
            if k == 'asg':
                step = None
                if n['op'] in ('+=', '-=') and 'v' in n['b'] and n['b']['k'] == 'int':
                    step = n['b']['v'] * (1 if n['op'] == '+=' else -1)
                elif n['op'] == '=' and n['b']['k'] == 'bin' and n['b']['op'] in '+-' and n['b']['a'].get('i') == n['a'].get('i') \
                        and n['b']['b'].get('k') == 'int':
                    step = n['b']['b']['v'] * (1 if n['b']['op'] == '+' else -1)
                tgt(n['a'], step)
            elif k == 'un' and n['op'] in ('++', '--', 'post++', 'post--'):
                tgt(n['x'], 1 if '+' in n['op'] else -1)
            elif k in ('call', 'ctor'):
                ra = n.get('ra', 0)
                for i, a in enumerate(n.get('a', [])):
                    if (ra >> i) & 1 and a:
                        if a['k'] == 'un' and a['op'] == '&':
                            tgt(a['x'], None)
                        elif a['k'] in ('ref', 'mem', 'idx'):
                            tgt(a, None)
                if k == 'call' and 'o' in n and n['o'] and not n.get('cm') and n['o']['k'] in ('ref',) and n.get('op') not in ('[]', '->', '*'):
                    w = None
                    if n.get('op') in ('++', '--'):
                        w = 1 if n['op'] == '++' else -1
                    tgt(n['o'], w)
            for v in n.values():
                if isinstance(v, (dict, list)):
                    stack.append(v)
        return loc, fld, incs

    def loop(self, st, fr, cond, body, inc, post_test=False):
        """generic loop"""
        done, exits = [], []
        # concrete unrolling while the condition is a constant
        cur = [st]
        flag = cond is not None and self.flag_loop(cond, body, inc)
        for it in range(self.pol.unroll + 1):
            if cond is None or flag or (self.pol.sym_unroll and self.literal(cond)):
                break
            nxt = []
            sym = []
            for s in cur:
                s0 = s.fork()
                if it == 0 and post_test:
                    r = [(s, INT(1))]
                else:
                    r = self.ev(cond, s, fr)
                if all(c[0] in ('int', 'null') for _, c in r) and r:
                    for s1, c in r:
                        if c[0] == 'null' or not c[1]:
                            exits.append(s1)
                            continue
                        for s2, o in self.stmt(body, s1, fr):
                            if o in ('next', 'continue'):
                                if inc is not None:
                                    for s3, v in self.ev(inc, s2, fr):
                                        nxt.append(s3)
                                else:
                                    nxt.append(s2)
                            elif o == 'break':
                                exits.append(s2)
                            else:
                                done.append((s2, o))
                else:
                    sym.append(s0)
            if sym:
                cur = sym + nxt
                break
            cur = nxt
            post_test = False       # the body has run once: from here on the test comes first
            if not cur:
                return [(s, 'next') for s in exits] + done
            if it == self.pol.unroll:
                break
        if self.pol.sym_unroll:
            for it in range(self.pol.sym_unroll + 1):
                nxt = []
                for s in cur:
                    if cond is None or (post_test and it == 0):
                        starts = [(s, True)]
                    else:
                        starts = self.branch(cond, s, fr)
                    for s1, b in starts:
                        if isinstance(b, tuple):
                            done.append((s1, ('throw',) + b[1:]))
                            continue
                        if not b:
                            exits.append(s1)
                            continue
                        if it == self.pol.sym_unroll:
                            continue
                        for s2, o in self.stmt(body, s1, fr):
                            if o in ('next', 'continue'):
                                nxt += [x for x, v in self.ev(inc, s2, fr)] if inc is not None else [s2]
                            elif o == 'break':
                                exits.append(s2)
                            else:
                                done.append((s2, o))
                cur = nxt
                if len(exits) + len(done) + len(cur) > self.pol.max_paths:
                    raise Overflow()
            return [(s, 'next') for s in exits] + done
        # symbolic part
        loc, fld, incs = self.assigned([x for x in (cond, body, inc) if x is not None])
        for s in cur:
            # zero iterations
            if cond is not None and not post_test:
                z = s.fork()
                for s1, b in self.branch(cond, z, fr):
                    if isinstance(b, tuple):
                        done.append((s1, ('throw',) + b[1:]))
                    elif not b:
                        exits.append(s1)
            # one generic iteration
            g = s
            self.loop_counter += 1
            inits = {}
            for i in sorted(loc):
                lv = ('L', fr, i)
                if lv not in g.env:
                    continue
                old = g.env[lv]
                if old[0] == 'ref':
                    tgt_ = old[1]
                    g.env[tgt_] = ('lv', 'ref', len(inits))
                    continue
                w = incs.get(i, [])
                if len(w) == 1 and w[0] is not None:
                    g.env[lv] = ('iv', old, w[0])
                else:
                    g.env[lv] = ('lv', self.loop_counter, i)
                inits[i] = old
            for key in [x for x in g.env if x[0] == 'fld' and x[2] in fld]:
                del g.env[key]
            for key in [x for x in g.env if x[0] == 'known']:
                del g.env[key]
            for key in [x for x in g.env if x[0] in ('fld', 'idx') and self.root(x) in {('L', fr, i) for i in loc}]:
                del g.env[key]
            starts = [(g, True)]
            mark = ('loop', self.loop_counter)
            self.emit(g, ('loop', None))
            if cond is not None and not post_test:
                starts = self.branch(cond, g, fr)
            for s1, b in starts:
                if isinstance(b, tuple):
                    done.append((s1, ('throw',) + b[1:]))
                    continue
                if not b:
                    continue
                for s2, o in self.stmt(body, s1, fr):
                    if o in ('next', 'continue'):
                        ends = [s2]
                        if inc is not None:
                            ends = [x for x, v in self.ev(inc, s2, fr)]
                        for e in ends:
                            self.emit(e, ('endloop',))
                            for i in loc:
                                lv = ('L', fr, i)
                                if lv in e.env and e.env[lv][0] != 'ref':
                                    e.env[lv] = ('lx', e.env[lv]) if e.env[lv][0] not in ('lx',) else e.env[lv]
                            for key in [x for x in e.env if x[0] == 'known']:
                                del e.env[key]
                            if cond is not None:
                                exits.append(e)
                            elif cond is None:
                                pass  # for(;;) only leaves by break/return
                    elif o == 'break':
                        self.emit(s2, ('endloop',))
                        exits.append(s2)
                    else:
                        done.append((s2, o))
        if self.pol.merge and len(exits) > 1:
            exits = self.join(exits)
        if len(exits) + len(done) > self.pol.max_paths:
            raise Overflow()
        return [(s, 'next') for s in exits] + done

    def literal(self, n):
        while n and n.get('k') == 'cast':
            n = n['x']
        return bool(n) and n.get('k') == 'int'

    def flag_loop(self, cond, body, inc):
        """is the loop governed by a local that the body sets (not steps)?"""
        if body is None:
            return False
        loc, fld, incs = self.assigned([body])
        vs, st = set(), [cond]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                if x.get('k') == 'ref' and x.get('dk') == 'local':
                    vs.add(x['i'])
                st.extend(x.values())
            elif isinstance(x, list):
                st.extend(x)
        return any(i in loc and not (len(incs.get(i, [])) == 1 and incs[i][0] is not None) for i in vs)

    def const_like(self, cond):
        """calls in a loop condition that are const methods of non-locals are
        evaluated symbolically without trouble"""
        return False

    def s_for(self, n, st, fr):
        out = []
        pre = self.stmt(n.get('i'), st, fr) if n.get('i') else [(st, 'next')]
        for s, o in pre:
            if o != 'next':
                out.append((s, o))
                continue
            out += self.loop(s, fr, n.get('c'), n.get('b'), n.get('n'))
        return out

    def s_while(self, n, st, fr):
        return self.loop(st, fr, n['c'], n.get('b'), None)

    def s_do(self, n, st, fr):
        c = n['c']
        if c.get('cv') == 0 or (c['k'] == 'int' and not c['v']) or c['k'] == 'null':
            out = []
            for s, o in self.stmt(n['b'], st, fr):
                out.append((s, 'next' if o in ('next', 'break', 'continue') else o))
            return out
        return self.loop(st, fr, n['c'], n.get('b'), None, post_test=True)

    def s_rfor(self, n, st, fr):
        out = []
        for s, r in self.lv(n['r'], st, fr):
            z = s.fork()
            out.append((z, 'next'))
            loc, fld, incs = self.assigned([n['b']])
            for i in loc:
                lv = ('L', fr, i)
                if lv in s.env:
                    self.loop_counter += 1
                    s.env[lv] = ('lv', self.loop_counter, i)
            lv = ('L', fr, n['v']['i'])
            elem = ('elem', r)
            s.env[lv] = ('ref', elem) if self.p.type(n['v']['t']).endswith('&') else elem
            self.emit(s, ('loop', r))
            for s2, o in self.stmt(n['b'], s, fr):
                if o in ('next', 'continue', 'break'):
                    self.emit(s2, ('endloop',))
                    out.append((s2, 'next'))
                else:
                    out.append((s2, o))
        return out

    def s_switch(self, n, st, fr):
        out = []
        body = n.get('b')
        items = body['s'] if body and body['k'] == 'block' else ([body] if body else [])
        # flatten nested case labels
        flat = []
        for x in items:
            while x is not None and x['k'] in ('case', 'default'):
                flat.append(('label', x))
                x = x.get('s')
            if x is not None:
                flat.append(('stmt', x))
        pre = self.stmt(n['var'], st, fr) if 'var' in n else [(st, 'next')]
        starts = []
        for s, _ in pre:
            starts += self.ev(n['c'], s, fr)
        for s, c in starts:
            if c[0] == '!throw':
                out.append((s, ('throw',) + c[1:]))
                continue
            vals = []
            has_default = False
            for i, (kind, x) in enumerate(flat):
                if kind == 'label':
                    if x['k'] == 'default':
                        has_default = True
                    else:
                        v = x['v'].get('cv', x['v'].get('v'))
                        vals.append(v)
            entries = []  # (index, value or None)
            for i, (kind, x) in enumerate(flat):
                if kind == 'label':
                    entries.append((i, None if x['k'] == 'default' else x['v'].get('cv', x['v'].get('v'))))
            if c[0] == 'int':
                hit = [e for e in entries if e[1] == c[1]] or [e for e in entries if e[1] is None]
                todo = hit[:1]
                if not hit:
                    out.append((s, 'next'))
                    continue
            else:
                todo = entries
                if not has_default:
                    z = s.fork()
                    self.emit(z, ('switch', c, ('not', tuple(sorted(x for x in vals if x is not None))), n['l']))
                    out.append((z, 'next'))
            for i, v in todo:
                s1 = s.fork()
                if c[0] != 'int':
                    self.emit(s1, ('switch', c, v if v is not None else ('not', tuple(sorted(x for x in vals if x is not None))), n['l']))
                    if v is not None and c[0] in ('L',):
                        pass
                lst = [x for kind, x in flat[i + 1:] if kind == 'stmt']
                for s2, o in self.run_list(lst, s1, fr):
                    out.append((s2, 'next' if o == 'break' else o))
        return out

    def s_try(self, n, st, fr):
        out = []
        entry = st.fork()
        for s, o in self.stmt(n['b'], st, fr):
            if o[0] == 'throw' and o != 'next':
                h = self.match_handler(n['h'], o[1])
                if h is None:
                    out.append((s, o))
                else:
                    self.emit(s, ('catch', self.p.type(h['t']) if 't' in h else None, h['l']))
                    if 'v' in h:
                        s.env[('L', fr, h['v']['i'])] = o[2] or ('exc',)
                    for s2, o2 in self.stmt(h['b'], s, fr):
                        if o2[0] == 'throw' and o2 != 'next' and o2[1] is None:
                            o2 = o  # rethrow
                        out.append((s2, o2))
            else:
                out.append((s, o))
        if self.pol.implicit_throw:
            for h in n['h']:
                s = entry.fork()
                ty = self.p.type(h['t']) if 't' in h else None
                self.emit(s, ('catch-any', ty, h['l']))
                if 'v' in h:
                    s.env[('L', fr, h['v']['i'])] = ('exc', ty)
                for s2, o2 in self.stmt(h['b'], s, fr):
                    if o2[0] == 'throw' and o2 != 'next' and o2[1] is None:
                        o2 = ('throw', ty, None, h['l'])
                    out.append((s2, o2))
        return out

    def match_handler(self, hs, ty):
        for h in hs:
            if 't' not in h:
                return h
            if ty is None:
                return h
            ht = self.p.type(h['t']).replace('const ', '').rstrip('& ').strip()
            t = ty.replace('const ', '').rstrip('& ').strip()
            if t == ht or ht in self.p.bases(t):
                return h
            if ht == 'std::exception' and (t.startswith('std::') or 'std::exception' in self.p.bases(t) or
                                           any(b.startswith('std::') for b in self.p.bases(t))):
                return h
        return None


def n_op_arrow(o):
    return o.get('op') == '->' or (o.get('f', '').endswith('::get') and is_smart(o.get('c')))


def _inline_virtual(self, n):
    return False


Policy.inline_virtual = _inline_virtual


def subst_name(t, f):
    """rebuild a term with f applied bottom-up"""
    if isinstance(t, tuple):
        return f(tuple(subst_name(x, f) for x in t))
    return t


def terms(t):
    """all sub-terms"""
    stack = [t]
    while stack:
        x = stack.pop()
        if isinstance(x, tuple):
            if x and isinstance(x[0], str):
                yield x
            stack.extend(x)


def show(t, names=None, depth=0):
    """readable form of a term"""
    if not isinstance(t, tuple) or not t:
        return str(t)
    k = t[0]
    S = lambda x: show(x, names, depth + 1)
    if depth > 8:
        return '...'
    if k == 'P':
        return names[t[1]] if names and t[1] < len(names) else 'arg%d' % t[1]
    if k == 'int' or k == 'float':
        return str(t[1])
    if k == 'str':
        return '"%s"' % t[1]
    if k == '*this':
        return '*this'
    if k == 'fld':
        return ('' if t[1] == STAR_THIS else S(t[1]) + '.') + t[2]
    if k == 'idx':
        return '%s[%s]' % (S(t[1]), S(t[2]))
    if k == 'deref':
        return '*' + S(t[1])
    if k == 'addr':
        return '&' + S(t[1])
    if k == 'bin':
        return '(%s %s %s)' % (S(t[2]), t[1], S(t[3]))
    if k == 'un':
        return t[1] + S(t[2])
    if k == 'r':
        return '%s%s(%s)' % ('' if t[2] in (None, STAR_THIS) else S(t[2]) + '.', t[1].split('::')[-1], ', '.join(S(x) for x in t[3]))
    if k == 'ctor':
        return '%s(%s)' % (t[1], ', '.join(S(x) for x in t[2]))
    if k == 'cast':
        return '(%s)%s' % (t[1], S(t[2]))
    if k == 'G':
        return t[1]
    return '<' + ' '.join(S(x) for x in t) + '>'
