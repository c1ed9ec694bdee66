"""What the rules about the shader virtual machine share: summaries of opcodes."""
import re
from engine import facts
from engine.facts import Broken
from engine.paths import Policy, Walker, STAR_THIS, show
from engine.views import base

VM = 'Aqsis::CqShaderVM'
STACK = {'Pop', 'Push', 'PushV', 'Release', 'GetNextTemp', 'Dup', 'Drop', 'ReadNext', 'GetVar', 'push', 'pop', 'top'}


class OpPolicy(Policy):
    correlate = True
    max_paths = 3000

    def __init__(self, unroll=2):
        self.sym_unroll = unroll

    def inline(self, w, fn, call):
        return fn['file'].startswith('libs/shadervm/shadervm') and fn['n'] not in STACK and not fn['n'].startswith('SO_') and not fn['n'].startswith('Op') \
            and fn.get('kind') not in ('ctor', 'dtor')

    def call_hook(self, w, call, obj, args, st):
        b = base(call['f'])
        if b == 'Pop':
            n = st.env.get(('pops',), 0)
            st.env[('pops',)] = n + 1
            w.emit(st, ('pop', n, call.get('l')))
            if args and isinstance(args[0], tuple):
                old = st.env.get(args[0])
                if old == ('int', 1) or old == ('V', 'always'):
                    st.env[args[0]] = ('V', 'always')
                elif isinstance(old, tuple) and old and old[0] == 'V':
                    st.env[args[0]] = ('V', old[1] + (n,))
                else:
                    st.env[args[0]] = ('V', (n,))
            return ('pop', n)
        if b == 'GetNextTemp':
            n = st.env.get(('tmps',), 0)
            st.env[('tmps',)] = n + 1
            w.emit(st, ('tmp', n, call.get('l')))
            return ('tmp', n) + tuple(args[:2])
        if b == 'ReadNext':
            n = st.env.get(('reads',), 0)
            st.env[('reads',)] = n + 1
            w.emit(st, ('read', n, call.get('l')))
            return ('read', n)
        return None


def resolve(t, env, depth=0):
    """replace locals by what they hold"""
    if not isinstance(t, tuple) or depth > 20:
        return t
    if len(t) == 3 and t[0] == 'fld' and t[2] == 'm_Data':
        o = t[1]
        seen = 0
        while isinstance(o, tuple) and o and o[0] in ('L', 'idx') and o in env and seen < 10:
            o = env[o]
            seen += 1
        if isinstance(o, tuple) and o and o[0] == 'pop':
            return ('A', o[1])
        return ('fld', resolve(o, env, depth + 1), 'm_Data')
    if t and t[0] == 'L' and t in env and env[t] != t:
        return resolve(env[t], env, depth + 1)
    if t and t[0] == 'cast':
        return resolve(t[2], env, depth + 1)
    return tuple(resolve(x, env, depth + 1) if isinstance(x, tuple) else x for x in t)


class Op:
    """one path of an opcode"""

    def __init__(self, path):
        self.path = path
        env = path.env
        self.pops = [e for e in path.events if e[0] == 'pop']
        self.tmps = [e for e in path.events if e[0] == 'tmp']
        self.reads = [e for e in path.events if e[0] == 'read']
        self.calls = []
        self.released, self.pushed, self.order = [], [], []
        self.running = None
        self.jumps = [e for e in path.events if e[0] == 'store' and e[1] in (('fld', STAR_THIS, 'm_PC'), ('fld', STAR_THIS, 'm_PO'))]
        for e in path.events:
            if e[0] == 'cond':
                r = e[1]
                if isinstance(r, tuple) and r and r[0] == 'r' and base(r[1]) == 'IsRunning':
                    self.running = e[2]
            if e[0] != 'call':
                continue
            b = base(e[1])
            a = tuple(resolve(x, env) for x in e[3])
            if b == 'Release':
                x = e[3][0]
                k = 0
                while isinstance(x, tuple) and x and x[0] in ('L', 'idx') and x in env and k < 10:
                    x = env[x]
                    k += 1
                self.released.append(x)
            elif b in ('Push', 'PushV'):
                self.pushed.append((b, a[0] if a else None))
            elif b in ('Dup', 'Drop'):
                self.calls.append((b, None, (), e[4]))
            else:
                o = resolve(e[2], env) if e[2] is not None else None
                self.calls.append((e[1], o, a, e[4]))


ENV = ('deref', ('fld', STAR_THIS, 'm_pEnv'))


def env_calls(op):
    """operations of the execution environment and operator templates"""
    out = []
    for f, o, a, l in op.calls:
        b = base(f)
        if re.search(r'::SO_\w+$', f) and not f.startswith(VM):
            out.append((b, a, l))
        elif re.match(r'Op[A-Z]+', b):
            out.append((b, a, l))
    return out


def leaf(n):
    while n and n.get('k') in ('cast', 'paren'):
        if 'cv' in n:
            return n
        n = n['x']
    return n


def const(n):
    n = leaf(n)
    return n.get('cv', n.get('v')) if n else None


def table(prog):
    """[(opcode, method id or None, number of program operands, [type codes])]"""
    g = [x for x in prog.globals.get(VM + '::m_TransTable', []) if x.get('x')]
    if not g:
        raise Broken('the opcode table was not found')
    out = []
    for r in g[0]['x']['a']:
        a = r.get('a') or []
        name = leaf(a[0]).get('v')
        fn = [x for x in walk(a[2]) if x.get('k') == 'ref' and x.get('dk') == 'func']
        ts = [const(x) for x in (a[4].get('a') or [])] if len(a) > 4 else []
        out.append((name, fn[0].get('id') or fn[0].get('q') if fn else None, const(a[3]) if len(a) > 3 else 0, ts))
    return out


def walk(n):
    from engine.throws import children
    yield n
    for c in children(n):
        yield from walk(c)


def funcdefs(prog):
    """[(shading language name, opcode, parameter string, result type code)]"""
    g = [x for x in prog.globals.get('Aqsis::gStandardFuncs', []) if x.get('x')]
    if not g:
        raise Broken('the table of built-in functions was not found')
    out = []
    for r in g[0]['x']['a']:
        n = leaf(r)
        strs = [x['v'] for x in walk(n) if x.get('k') == 'str']
        a = n.get('a') or []
        out.append((strs[0], strs[1], strs[2] if len(strs) > 2 else '', const(a[0]) if a else None))
    return out


def method(prog, ref):
    if ref in prog.funcs:
        return prog.funcs[ref]
    fs = prog.find(ref) if ref else []
    return fs[0] if fs else None


def opcode_paths(prog, fn, unroll=2):
    return [Op(p) for p in Walker(prog, OpPolicy(unroll)).run(fn)]


def pushes_type(a):
    """(type code, 'varying'/'operands'/'uniform'/'?') of a pushed temporary"""
    if not (isinstance(a, tuple) and a and a[0] == 'tmp' and len(a) >= 4):
        return None
    t = a[2][1] if a[2] and a[2][0] == 'int' else None
    c = a[3]
    if c == ('int', 3):
        return t, 'varying', None
    if c == ('int', 2):
        return t, 'uniform', None
    if c and c[0] == '?' and c[2:] == (('int', 3), ('int', 2)) and c[1] and c[1][0] == 'V':
        if c[1][1] == 'always':
            return t, 'varying', None
        return t, 'operands', c[1][1]
    if c and c[0] == '?' and c[2:] == (('int', 3), ('int', 2)) and c[1] in (('int', 1), ('int', 0)):
        return t, 'varying' if c[1] == ('int', 1) else 'uniform', None
    return t, '?', None


def canon(t):
    """a comparable name for an argument, or '*' if it is of a kind not compared"""
    if t is None:
        return '*'
    if t[0] == 'A':
        return 'A%d' % t[1]
    if t[0] == 'tmp':
        return 'R'
    if t[0] == 'this':
        return 'this'
    s = show(t)
    m = re.match(r'^Aqsis::(temp_\w+)$', s)
    if m:
        return m.group(1)
    if s == '*m_pEnv.RunningState()' or s.endswith('RunningState()'):
        return 'RS'
    m = re.match(r'.*\bread\b', s)
    return '*'


def summary(ops):
    """the frozen form of an opcode"""
    var = len({len(o.pops) for o in ops}) > 1
    fixed = min((len(o.pops) for o in ops), default=0)
    calls = set()
    for o in ops:
        if o.running is False:
            continue
        calls.add(tuple((b, tuple(canon(x) for x in a)) for b, a, l in env_calls(o)))
    res = set()
    for o in ops:
        res.add(tuple((b,) + ((pushes_type(a) or (None,))[:2] if pushes_type(a) else (None, None)) for b, a in o.pushed))
    return {'fixed': fixed, 'var': var, 'calls': sorted([[b, list(a)] for b, a in c] for c in calls), 'result': sorted([list(x) for x in r] for r in res)}
