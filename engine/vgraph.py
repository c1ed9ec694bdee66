"""Value graphs: what a function returns, stores and calls, as a graph of its
inputs (gated single assignment form).

Branches become selection nodes, loops of constant length are unrolled, other
loops become recurrence nodes, calls of functions inside the analysed code are
expanded, everything else is an uninterpreted node.  Objects are records of
scalars, so that the graph does not depend on how the code is cut into helpers
and statements.  Assumption: different pointers the function is given point to
different objects.
"""
import re, sys, time

sys.setrecursionlimit(20000)


class Unsupported(Exception):
    pass


# ------------------------------------------------------------------- nodes
class N:
    __slots__ = ('k', 'a', 'i', 'fv')

    def __repr__(self):
        return text(self)


_tab = {}
NONE = frozenset()
_budget = [0]


def mk(k, *a):
    key = (k,) + tuple([('n', x.i) if x.__class__ is N else (x.__class__.__name__, x) for x in a])
    n = _tab.get(key)
    if n is None:
        _budget[0] -= 1
        if _budget[0] == 0:
            raise Unsupported('too large')
        n = N()
        n.k, n.a, n.i = k, a, len(_tab)
        fv = NONE
        for x in a:
            if x.__class__ is N and x.fv:
                fv = fv | x.fv
        if k == 'mu':
            fv = fv | {a[0]}
        elif k == 'loopdef':
            fv = fv - {a[0]}
        n.fv = fv
        _tab[key] = n
    return n


def reset():
    _tab.clear()


def C(v):
    if v is True or v is False:
        v = int(v)
    return mk('c', v)


def isc(n):
    return n.__class__ is N and n.k == 'c'


def text(n, d=0):
    if not isinstance(n, N):
        return str(n)
    if d > 6:
        return '..'
    T = lambda x: text(x, d + 1)
    if n.k == 'c':
        return repr(n.a[0])
    if n.k == 'root':
        return str(n.a[0])
    if n.k == 'sel':
        return T(n.a[0]) + ('.%s' % n.a[1] if isinstance(n.a[1], str) else '[%s]' % T(n.a[1]))
    if n.k == 'at':
        return T(n.a[0])
    if n.k == 'bin':
        return '(%s %s %s)' % (T(n.a[1]), n.a[0], T(n.a[2]))
    if n.k == '?':
        return '{%s ? %s : %s}' % tuple(T(x) for x in n.a)
    if n.k == 'f':
        return '%s(%s)' % (n.a[0], ', '.join(T(x) for x in n.a[1:]))
    if n.k == 'pointee':
        return '*' + T(n.a[0])
    return '%s<%s>' % (n.k, ' '.join(T(x) for x in n.a))


ZERO = lambda: C(0)
CMP = {'==', '!=', '<', '>', '<=', '>='}


def truthy(n):
    """python bool of a constant node, else None"""
    if n.k == 'c':
        return bool(n.a[0]) if not isinstance(n.a[0], str) else True
    if n.k == 'addr':
        return True
    return None


def nnot(n):
    t = truthy(n)
    if t is not None:
        return C(int(not t))
    if n.k == 'un' and n.a[0] == '!':
        return tobool(n.a[1])
    return mk('un', '!', n)


def tobool(n):
    if n.k == 'c':
        return C(int(bool(n.a[0])))
    if n.k == 'addr':
        return C(1)
    if n.k == 'bin' and (n.a[0] in CMP or n.a[0] in ('&&', '||')) or n.k == 'un' and n.a[0] == '!':
        return n
    return mk('cast', 'b', n)


def nand(a, b):
    ta, tb = truthy(a), truthy(b)
    if ta is False or tb is False:
        return C(0)
    if ta:
        return tobool(b)
    if tb:
        return tobool(a)
    return mk('bin', '&&', a, b)


def nor(a, b):
    ta, tb = truthy(a), truthy(b)
    if ta or tb:
        return C(1)
    if ta is False:
        return tobool(b)
    if tb is False:
        return tobool(a)
    return mk('bin', '||', a, b)


def cond(c, a, b):
    t = truthy(c)
    if t is not None:
        return a if t else b
    if a is b:
        return a
    if c.k == 'un' and c.a[0] == '!':
        return cond(c.a[1], b, a)
    return mk('?', c, a, b)


def nbin(op, a, b):
    if op == '&&':
        return nand(a, b)
    if op == '||':
        return nor(a, b)
    if a.k == '?' and (a.a[1].k in ('addr', 'ptr+') or a.a[2].k in ('addr', 'ptr+')) and op in CMP:
        return cond(a.a[0], nbin(op, a.a[1], b), nbin(op, a.a[2], b))
    if a.k == 'c' and b.k == 'c':
        x, y = a.a[0], b.a[0]
        if not isinstance(x, str) and not isinstance(y, str):
            r = None
            if op in CMP:
                r = int({'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op])
            elif op == '+':
                r = x + y
            elif op == '-':
                r = x - y
            elif op == '*':
                r = x * y
            elif op == '/' and y != 0:
                if isinstance(x, int) and isinstance(y, int):
                    r = abs(x) // abs(y) * (1 if (x >= 0) == (y >= 0) else -1)
                else:
                    r = x / y
            elif isinstance(x, int) and isinstance(y, int):
                if op == '%' and y:
                    r = abs(x) % abs(y) * (1 if x >= 0 else -1)
                elif op == '&':
                    r = x & y
                elif op == '|':
                    r = x | y
                elif op == '^':
                    r = x ^ y
                elif op == '<<' and 0 <= y < 64:
                    r = x << y
                elif op == '>>' and 0 <= y < 64:
                    r = x >> y
            if r is not None:
                return C(r)
    ints = lambda n: n.k == 'c' and isinstance(n.a[0], int)
    if op == '+':
        if ints(a) and not ints(b):
            a, b = b, a
        if ints(b):
            if b.a[0] == 0:
                return a
            if a.k == 'bin' and a.a[0] == '+' and ints(a.a[2]):
                return nbin('+', a.a[1], C(a.a[2].a[0] + b.a[0]))
    if op == '-' and ints(b):
        return nbin('+', a, C(-b.a[0]))
    if op in ('==', '!=', '<', '>', '<=', '>=', '-'):
        pa, pb = ptrparts(a), ptrparts(b)
        if pa and pb and pa[0] == pb[0]:
            return nbin(op, pa[1], pb[1])
        if op in ('==', '!=') and a is b and a.k in ('addr', 'at') and not (a.k == 'at' and a.a[1] == 'f'):
            return C(int(op == '=='))
        if op in ('==', '!='):
            for x, y in ((a, b), (b, a)):
                if x.k == 'addr' and y.k == 'c' and y.a[0] == 0:
                    return C(int(op == '!='))
                if x.k == 'addr' and y.k == 'addr' and x.a[0].k == 'root' and y.a[0].k == 'root' and x.a[0] is not y.a[0]:
                    return C(int(op == '!='))
    if op == '!=' and b.k == 'c' and b.a[0] == 0 and b.a[0].__class__ is int and a.k == 'at' and a.a[1] in 'pb':
        return mk('cast', 'b', a)
    if op == '==' and b.k == 'c' and b.a[0] == 0 and b.a[0].__class__ is int and a.k == 'at' and a.a[1] in 'pb':
        return mk('un', '!', a)
    return mk('bin', op, a, b)


def ptrparts(n):
    """(object, index) of a pointer into an array"""
    if n.k == 'addr' and len(n.a) > 1 and isinstance(n.a[-1], N):
        return ('addr',) + tuple(x.i if isinstance(x, N) else x for x in n.a[:-1]), n.a[-1]
    if n.k == 'ptr+':
        return ('p', n.a[0].i), n.a[1]
    if n.k == 'at' and n.a[1] == 'p':
        return ('p', n.i), C(0)
    if n.k in ('mu',):
        return None
    return None


def split(n):
    """a pointer as (object, index), both fixed forms; None if it is not one"""
    if n.k == 'addr' and len(n.a) > 1 and isinstance(n.a[-1], N):
        return ('addr',) + n.a[:-1], n.a[-1]
    if n.k == 'ptr+':
        return ('ptr', n.a[0]), n.a[1]
    if n.k == 'at' and n.a[1] == 'p':
        return ('ptr', n), C(0)
    if n.k == '?':
        x, y = split(n.a[1]), split(n.a[2])
        if x and y and x[0] == y[0]:
            return x[0], cond(n.a[0], x[1], y[1])
    return None


def unsplit(b, i):
    return mk('addr', *(b[1:] + (i,))) if b[0] == 'addr' else padd(b[1], i)


def ncast(kind, n):
    if n.k == 'c' and not isinstance(n.a[0], str):
        v = n.a[0]
        if kind == 'f':
            return C(float(v))
        if kind == 'i':
            return C(int(v)) if v == v and abs(v) < 1e18 else n
        if kind == 'b':
            return C(int(v != 0))
    if kind == 'f':
        return n if n.k != '?' else n       # numbers are reals: widening changes nothing
    if kind == 'b':
        return tobool(n)
    if kind == 'i':
        return mk('cast', 'i', n)
    return n


def padd(p, i):
    if i.k == 'c' and i.a[0] == 0:
        return p
    if p.k == '?':
        return cond(p.a[0], padd(p.a[1], i), padd(p.a[2], i))
    if p.k == 'addr' and len(p.a) > 1 and isinstance(p.a[-1], N):
        return mk('addr', *(p.a[:-1] + (nbin('+', p.a[-1], i),)))
    if p.k == 'ptr+':
        return padd(p.a[0], nbin('+', p.a[1], i))
    return mk('ptr+', p, i)


# ------------------------------------------------------------------ values
class Lazy:
    """what is initially at a place"""
    __slots__ = ('p',)

    def __init__(self, p):
        self.p = p


class Rec:
    __slots__ = ('base', 'f', 'cls')

    def __init__(self, base, f, cls=None):
        self.base, self.f, self.cls = base, f, cls


class Arr:
    __slots__ = ('base', 'w')

    def __init__(self, base, w=()):
        self.base, self.w = base, w


UNDEF = lambda: Lazy(mk('undef'))


def same(a, b):
    if a is b:
        return True
    if a.__class__ is not b.__class__:
        return False
    if a.__class__ is Lazy:
        return a.p is b.p
    if a.__class__ is Rec:
        return a.base is b.base and a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if a.__class__ is Arr:
        return a.base is b.base and len(a.w) == len(b.w) and all(x[0] is y[0] and same(x[1], y[1]) for x, y in zip(a.w, b.w))
    return False


def reify(v):
    if v is None:
        return mk('undef')
    if v.__class__ is N:
        return v
    if v.__class__ is Lazy:
        return v.p
    if v.__class__ is Rec:
        if not v.f and v.base is not None:
            return v.base
        ks = sorted(v.f)
        return mk('rec', v.base if v.base is not None else mk('undef'), ','.join(ks), *[reify(v.f[k]) for k in ks])
    if not v.w and v.base is not None:
        return v.base
    xs = []
    for i, x in v.w:
        xs += [i, reify(x)]
    return mk('arr', v.base if v.base is not None else mk('undef'), *xs)


def baseof(v):
    return v.base if v.base is not None else mk('undef')


def child(v, s):
    """Val of a member (s: name) or element (s: index node)"""
    if v is None:
        return UNDEF()
    if v.__class__ is Lazy:
        return Lazy(mk('sel', v.p, s))
    if v.__class__ is N:
        if v.k == '?':
            return phi(v.a[0], child(v.a[1], s), child(v.a[2], s))
        return Lazy(mk('sel', v, s))
    if v.__class__ is Rec:
        if s in v.f:
            return v.f[s]
        return Lazy(mk('sel', baseof(v), s))
    # array
    return elem(v, s, len(v.w))


def elem(v, s, n):
    for j in range(n - 1, -1, -1):
        i, x = v.w[j]
        if i is s:
            return x
        if isinstance(s, str):
            return Lazy(mk('sel', reify(v), s))
        if i.k == 'c' and s.k == 'c':
            continue
        if i.k == 'bin' and i.a[0] == '+' and i.a[2].k == 'c' and i.a[1] is s and i.a[2].a[0] != 0:
            continue
        if s.k == 'bin' and s.a[0] == '+' and s.a[2].k == 'c' and s.a[1] is i and s.a[2].a[0] != 0:
            continue
        if n > 40:
            return Lazy(mk('sel', reify(v), s))
        return phi(nbin('==', i, s), x, elem(v, s, j))
    return Lazy(mk('sel', baseof(v), s))


def with_child(v, s, x):
    if isinstance(s, str):
        if v.__class__ is Rec:
            f = dict(v.f)
            f[s] = x
            return Rec(v.base, f, v.cls)
        return Rec(reify(v) if v is not None else None, {s: x})
    if v.__class__ is Arr:
        if s.k == 'c':
            w = [y for y in v.w if y[0] is not s] if all(y[0].k == 'c' for y in v.w) else list(v.w)
        else:
            w = [y for y in v.w if y[0] is not s] if v.w and v.w[-1][0] is s else list(v.w)
        w.append((s, x))
        if all(y[0].k == 'c' for y in w):
            w.sort(key=lambda y: y[0].a[0])
        return Arr(v.base, tuple(w))
    return Arr(reify(v) if v is not None else None, ((s, x),))


def phi(c, a, b):
    t = truthy(c)
    if t is not None:
        return a if t else b
    if a is b or same(a, b):
        return a
    if a.__class__ is N and b.__class__ is N:
        return cond(c, a, b)
    if a.__class__ is Lazy and a.p.k == 'undef':
        return b
    if b.__class__ is Lazy and b.p.k == 'undef':
        return a
    if a.__class__ is Rec or b.__class__ is Rec:
        ba = a.base if a.__class__ is Rec else reify(a)
        bb = b.base if b.__class__ is Rec else reify(b)
        ks = set(a.f if a.__class__ is Rec else ()) | set(b.f if b.__class__ is Rec else ())
        if ba is None:
            base = bb
        elif bb is None:
            base = ba
        else:
            base = cond(c, ba, bb)
        cls = (a.cls if a.__class__ is Rec else None) or (b.cls if b.__class__ is Rec else None)
        return Rec(base, {k: phi(c, child(a, k), child(b, k)) for k in ks}, cls)
    if a.__class__ is Arr and b.__class__ is Arr and a.base is b.base and all(i.k == 'c' for i, _ in a.w + b.w):
        ks = {i.i: i for i, _ in a.w + b.w}
        return Arr(a.base, tuple(sorted(((i, phi(c, child(a, i), child(b, i))) for i in ks.values()), key=lambda y: y[0].a[0])))
    if a.__class__ is Arr or b.__class__ is Arr:
        wa = a.w if a.__class__ is Arr else ()
        wb = b.w if b.__class__ is Arr else ()
        ba = a.base if a.__class__ is Arr else reify(a)
        bb = b.base if b.__class__ is Arr else reify(b)
        if all(i.k == 'c' for i, _ in wa + wb):
            base = bb if ba is None else ba if bb is None else cond(c, ba, bb)
            ks = {i.i: i for i, _ in wa + wb}
            return Arr(base, tuple(sorted(((i, phi(c, child(a, i), child(b, i))) for i in ks.values()), key=lambda y: y[0].a[0])))
        return Arr(cond(c, reify(a), reify(b)))
    return Lazy(cond(c, reify(a), reify(b)))


# -------------------------------------------------------------------- types
SMART = ('boost::shared_ptr', 'boost::scoped_ptr', 'boost::intrusive_ptr', 'std::shared_ptr', 'std::unique_ptr', 'boost::scoped_array',
         'boost::shared_array', 'std::auto_ptr', 'std::__shared_ptr', 'std::__shared_ptr_access', 'boost::weak_ptr')
STRINGS = ('std::basic_string', 'std::string', 'std::__cxx11::basic_string', 'Aqsis::CqString', 'CqString')
VECS = ('std::vector', 'boost::array', 'std::array')
SEQS = ('std::list', 'std::deque', 'std::set', 'std::map', 'std::multimap', 'std::multiset', 'std::unordered_map', 'std::__cxx11::list')
MAPS = ('std::set', 'std::map', 'std::multimap', 'std::unordered_map', 'std::multiset')
_kinds = {}


def strip(ty):
    ty = ty.strip()
    while True:
        t = ty
        if t.startswith('const '):
            t = t[6:]
        if t.startswith('volatile '):
            t = t[9:]
        if t.endswith('&'):
            t = t[:-1].rstrip()
        if t.endswith(' const'):
            t = t[:-6]
        if t == ty:
            return t
        ty = t


def shape(ty):
    """'f' 'i' 'b' 'p' 's' scalar kinds; 'a' array; 'v' vector; 'r' record; 'o' other"""
    r = _kinds.get(ty)
    if r is None:
        r = _kinds[ty] = _shape(strip(ty))
    return r


def _shape(t):
    if t in ('float', 'double', 'long double', 'half'):
        return 'f'
    if t == 'bool':
        return 'b'
    if t in ('int', 'unsigned int', 'short', 'unsigned short', 'long', 'unsigned long', 'char', 'signed char', 'unsigned char', 'long long', 'unsigned long long', 'wchar_t'):
        return 'i'
    if t.endswith('*') or t.endswith('*const') or '(*)' in t:
        return 'p'
    if t.endswith(']'):
        return 'a'
    g = t.split('<')[0]
    if g in SMART or g.endswith('__normal_iterator') or g.endswith('::iterator') or g.endswith('::const_iterator'):
        return 'p'
    if g in STRINGS:
        return 's'
    if g in VECS:
        return 'v'
    if t in ('void', ''):
        return 'o'
    return 'r'


class Loc:
    __slots__ = ('r', 'p')

    def __init__(self, r, p=()):
        self.r, self.p = r, p


class PhiLoc:
    __slots__ = ('c', 'a', 'b')

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class State:
    __slots__ = ('mem', 'log', 'exc')

    def __init__(self, mem, log, exc):
        self.mem, self.log, self.exc = mem, log, exc

    def fork(self):
        return State(dict(self.mem), dict(self.log), self.exc)


def merge(c, a, b):
    """a if c else b"""
    t = truthy(c)
    if t is not None:
        return a if t else b
    mem = {}
    for r in list(a.mem) + [r for r in b.mem if r not in a.mem]:
        x, y = a.mem.get(r), b.mem.get(r)
        if x is y:
            mem[r] = x
        elif x is None or y is None:
            z = Lazy(r)
            if r.k == 'root' and r.a[0][0] in 'LTn':
                mem[r] = x if y is None else y
            else:
                mem[r] = phi(c, x if x is not None else z, y if y is not None else z)
        else:
            mem[r] = phi(c, x, y)
    log = {}
    for k in set(a.log) | set(b.log):
        log[k] = cond(c, a.log.get(k) or mk('nolog'), b.log.get(k) or mk('nolog'))
    return State(mem, log, cond(c, a.exc, b.exc))


PUREF = {'sin', 'cos', 'tan', 'asin', 'acos', 'exp', 'sqrt', 'log', 'log10', 'fabs', 'abs', 'floor', 'ceil', 'pow', 'atan2', 'atan', 'fmod', 'hypot', 'sinh', 'cosh', 'tanh',
         'round', 'lround', 'min', 'max', 'fmin', 'fmax', 'trunc', 'cbrt', 'rint', 'lrint', 'exp2', 'log2', 'copysign', 'isnan', 'isinf', 'strlen', 'strcmp', 'isdigit', 'isspace', 'isalpha', 'isalnum', 'isupper', 'islower', 'tolower', 'toupper'}
PUREF |= {x + 'f' for x in PUREF}
WRITES = re.compile(r'TIFF(Set|Write)')
FILLS = {'TIFFGetField', 'TIFFGetFieldDefaulted', 'sscanf', 'fscanf'}
TALK = {'printf', 'fprintf', 'puts', 'fputs', 'perror', 'fflush', 'vfprintf', 'setlocale', 'signal', 'srand', 'usleep', 'sleep', '__builtin_va_start', '__builtin_va_end'}
# objects whose get methods move on
READERS = re.compile(r'(Lexer|Tokenizer|InputBuffer|istream\w*|BufferPool)\w*(<.*>)?::(get|read|next|peek)')
QUIET = re.compile(r'operator<<|\blog\(\)|CqStats|CqTimer|CqLog|ostream|Stats|Timer|Xassert|__assert_fail|gettext')


def base(n):
    d = 0
    if 'operator' in n:
        return n[n.rindex('operator'):]
    if n.endswith('>'):
        for i in range(len(n) - 1, -1, -1):
            d += (n[i] == '>') - (n[i] == '<')
            if d == 0:
                n = n[:i]
                break
    d = 0
    for i in range(len(n) - 1, 0, -1):
        d += (n[i] == '>') - (n[i] == '<')
        if d == 0 and n[i - 1:i + 1] == '::':
            return n[i + 1:]
    return n


def parts(v):
    return [y for x in v.a[1:] for y in parts(x)] if v.k == 'f' and v.a[0] == 'concat' else [v.a[1]] if v.k == 'f' and v.a[0] == 'c_str' and len(v.a) == 2 else [v]


class Builder:
    streams = False
    unroll = 70
    max_depth = 14

    def __init__(self, prog, inline, stop=(), budget=300000, seconds=25, dyn=None, pure=()):
        """inline(fn) -> expand calls of this function?"""
        self.p, self.inl, self.stop = prog, inline, set(stop)
        self.budget, self.seconds, self.dyn = budget, seconds, dyn
        self.pure = set(pure)

    # ------------------------------------------------------------ entry
    def run(self, fn):
        _budget[0] = self.budget
        self.t0 = time.time()
        self.nf = 0
        self.nt = 0
        self.nnew = 0
        self.depth = 0
        self.stack = [fn['id']]
        self.expanded = set()
        self.newcls = {}
        self.consts = {}
        self.discard = None
        st = State({}, {}, C(0))
        fr = 0
        for k, p in enumerate(fn['p']):
            l = self.local(fr, p['i'])
            ty = self.p.type(p['t'])
            if ty.endswith('&'):
                st.mem[l] = mk('addr', mk('root', 'arg%d' % k))
            else:
                st.mem[l] = self.load(Lazy(mk('root', 'arg%d' % k)), ty)
        self.frames = {0: (mk('addr', mk('root', 'this')), fn.get('c'))}
        out = self.body(fn, st, 0)
        return self.finish(fn, out)

    def finish(self, fn, out):
        """outputs: name -> node"""
        res = {}
        zero = C(0)
        normal = None
        if 'next' in out:
            normal = out['next']
        if 'ret' in out:
            normal = out['ret'] if normal is None else (nor(normal[0], out['ret'][0]), merge(out['ret'][0], out['ret'][1], normal[1]), out['ret'][2])
        thr = out['thr'][0] if 'thr' in out else zero
        if not (thr.k == 'c' and thr.a[0] == 0):
            res['!throw'] = thr
        objs = {}
        heap = []
        if normal is not None:
            st = normal[1]
            for r, v in st.mem.items():
                if r.k == 'root' and r.a[0][0] in 'LT':
                    continue
                if r.k == 'root' and r.a[0].startswith('new'):
                    objs[r.a[0]] = reify(v)
                    continue
                n = reify(v)
                if n is r:
                    continue
                if r.k == 'root':
                    res[r.a[0]] = mk('out', r, n)
                else:
                    heap += [r, n]
            if heap:
                res['objects'] = mk('heap', *heap)
            for k, n in st.log.items():
                if n.k != 'nolog':
                    res['calls:' + k] = n
            if normal[2] is not None:
                v = normal[2]
                if not (v.__class__ is N and v.k == 'addr' and v.a[0] is mk('root', 'this')):
                    res['return'] = self.solid(reify(v), st)
        return dict(out=res, objs=objs, cls=dict(self.newcls))

    def solid(self, n, st):
        if n.k == 'addr' and n.a[0].k == 'root' and n.a[0].a[0][0] in 'LT':
            return mk('ref', reify(self.loadloc(Loc(n.a[0], n.a[1:]), '', st)))
        return n

    # ---------------------------------------------------------- memory
    def local(self, fr, i):
        return mk('root', 'L%d.%d' % (fr, i))

    def temp(self, st, v):
        self.nt += 1
        r = mk('root', 'T%d' % self.nt)
        st.mem[r] = v
        return Loc(r)

    def load(self, v, ty):
        if v.__class__ is Lazy:
            s = shape(ty) if ty else None
            if v.p.k == 'undef':
                if s in ('r', 'v'):
                    return Rec(None, {}, strip(ty))
                if s == 'a':
                    return Arr(None)
                return v.p
            if s in ('r', 'v'):
                t = strip(ty)
                if t in self.p.enums:
                    return mk('at', v.p, 'i')
                return Rec(v.p, {}, t)
            if s == 'a':
                return Arr(v.p)
            if s in ('f', 'i', 'b', 'p', 's', 'o'):
                return mk('at', v.p, s)
        return v

    def loadloc(self, l, ty, st):
        if l.__class__ is PhiLoc:
            return phi(l.c, self.loadloc(l.a, ty, st), self.loadloc(l.b, ty, st))
        v = st.mem.get(l.r)
        if v is None:
            v = self.consts.get(l.r)
        if v is None:
            v = Lazy(l.r)
        for s in l.p:
            v = child(v, s)
        return self.load(v, ty)

    def store(self, l, x, st):
        if l.__class__ is PhiLoc:
            a, b = self.loadloc(l.a, '', st), self.loadloc(l.b, '', st)
            self.store(l.a, phi(l.c, x, a), st)
            self.store(l.b, phi(l.c, b, x), st)
            return
        if x.__class__ is Lazy:
            pass
        v = st.mem.get(l.r)
        if v is None:
            v = self.consts.get(l.r)
        if v is None:
            v = Lazy(l.r)
        st.mem[l.r] = self.put(v, l.p, x)

    def put(self, v, path, x):
        if not path:
            return x
        return with_child(v, path[0], self.put(child(v, path[0]), path[1:], x))

    def deref(self, n):
        if n.__class__ is not N:
            n = reify(n)
        if n.k == 'addr':
            return Loc(n.a[0], n.a[1:])
        if n.k == '?':
            return PhiLoc(n.a[0], self.deref(n.a[1]), self.deref(n.a[2]))
        if n.k == 'ptr+':
            return Loc(mk('pointee', n.a[0]), (n.a[1],))
        return Loc(mk('pointee', n), (C(0),))

    def addr(self, l):
        if l.__class__ is PhiLoc:
            return cond(l.c, self.addr(l.a), self.addr(l.b))
        if l.r.k == 'pointee' and len(l.p) == 1 and isinstance(l.p[0], N):
            return padd(l.r.a[0], l.p[0])
        return mk('addr', l.r, *l.p)

    def sub(self, l, s):
        if l.__class__ is PhiLoc:
            return PhiLoc(l.c, self.sub(l.a, s), self.sub(l.b, s))
        return Loc(l.r, l.p + (s,))

    # ------------------------------------------------------ expressions
    def T(self, n):
        return self.p.type(n.get('t')) if 't' in n else ''

    def lv(self, n, st, fr):
        k = n['k']
        if k == 'ref':
            dk = n['dk']
            if dk in ('param', 'local') or dk == 'other' and 'i' in n:
                l = self.local(fr, n['i'])
                if self.T(n).endswith('&'):
                    v = st.mem.get(l)
                    if v is not None:
                        return self.deref(v) if not (v.__class__ in (Rec, Arr)) else Loc(l)
                return Loc(l)
            if dk in ('global', 'static'):
                r = mk('root', 'G:' + n['q'])
                if r not in st.mem and r not in self.consts:
                    self.consts[r] = self.const_global(n['q'], st, self.T(n), fr)
                return Loc(r)
            if dk == 'func':
                return self.temp(st, mk('fn', n['q']))
            if dk == 'enum':
                return self.temp(st, C(n['cv']))
            return Loc(mk('root', 'G:' + n.get('q', n['n'])))
        if k == 'mem':
            if n.get('m'):
                return self.temp(st, mk('fn', n['n']))
            if n.get('ar'):
                return self.sub(self.deref(self.ev(n['x'], st, fr)), n['n'])
            return self.sub(self.lv(n['x'], st, fr), n['n'])
        if k == 'un' and n['op'] == '*':
            return self.deref(self.ev(n['x'], st, fr))
        if k == 'un' and n['op'] in ('++', '--'):
            self.ev(n, st, fr)
            return self.lv(n['x'], st, fr)
        if k == 'idx':
            a = self.ev(n['a'], st, fr)
            b = reify(self.ev(n['b'], st, fr))
            if a.__class__ is N and a.k == 'c':
                a, b = reify(self.ev(n['b'], st, fr)), a
            return self.deref(padd(reify(a), b))
        if k == 'asg':
            self.ev(n, st, fr)
            return self.lv(n['a'], st, fr)
        if k == 'cast':
            if n['ck'] in ('NoOp', 'DerivedToBase', 'UncheckedDerivedToBase', 'BaseToDerived', 'LValueBitCast', 'Dynamic'):
                return self.lv(n['x'], st, fr)
            return self.temp(st, self.ev(n, st, fr))
        if k == '?:':
            c = self.cnd(n['c'], st, fr)
            t = truthy(c)
            if t is not None:
                return self.lv(n['a'] if t else n['b'], st, fr)
            s1, s2 = st.fork(), st.fork()
            a, b = self.lv(n['a'], s1, fr), self.lv(n['b'], s2, fr)
            self.become(st, merge(c, s1, s2))
            return PhiLoc(c, a, b)
        if k == 'bin' and n['op'] == ',':
            self.ev(n['a'], st, fr)
            return self.lv(n['b'], st, fr)
        if k in ('call', 'icall'):
            v = self.ev(n, st, fr, True)
            if isinstance(v, (Loc, PhiLoc)):
                return v
            return self.temp(st, v)
        if k == 'this':
            return self.temp(st, self.ev(n, st, fr))
        if k == 'str':
            return self.temp(st, C(n['v']))
        return self.temp(st, self.ev(n, st, fr))

    def const_global(self, q, st, ty, fr):
        g = self.p.globals.get(q)
        if not g or 'x' not in g[0]:
            return None
        t = self.p.type(g[0]['t'])
        if 'const' not in t.split('[')[0]:
            return None
        if getattr(self, 'inglobal', 0) > 3:
            return None
        self.inglobal = getattr(self, 'inglobal', 0) + 1
        try:
            s = State({}, {}, C(0))
            v = self.ev(g[0]['x'], s, -1)
            return v
        except Unsupported:
            return None
        finally:
            self.inglobal -= 1

    def become(self, st, s):
        st.mem, st.log, st.exc = s.mem, s.log, s.exc

    def cnd(self, n, st, fr):
        return tobool(reify(self.ev(n, st, fr)))

    def ev(self, n, st, fr, want_lv=False):
        k = n['k']
        if time.time() - self.t0 > self.seconds:
            raise Unsupported('too slow')
        if k == 'int':
            return C(n['v'])
        if k == 'float':
            v = n['v']
            return C(float('inf')) if v == 'inf' else C(float(v))
        if k == 'str':
            return C(n['v'])
        if k == 'null':
            return C(0)
        if k == 'zero':
            s = shape(self.T(n))
            if s in ('r', 'v', 'a'):
                return Rec(mk('fill', C(0)), {}) if s != 'a' else Arr(mk('fill', C(0)))
            return C(0.0) if s == 'f' else C('') if s == 's' else C(0)
        if k == 'this':
            return self.frames[fr][0]
        if k in ('ref', 'mem', 'idx') or k == 'un' and n['op'] == '*':
            if k == 'ref' and 'cv' in n:
                return C(n['cv'])
            if k == 'ref' and n['dk'] == 'func':
                return mk('fn', n['q'])
            l = self.lv(n, st, fr)
            ty = self.T(n)
            if shape(ty) == 'a':
                return self.addr(self.sub(l, C(0)))
            return self.loadloc(l, ty, st)
        if k == 'cast':
            return self.cast(n, st, fr)
        if k == 'un':
            return self.unary(n, st, fr)
        if k == 'bin':
            return self.binary(n, st, fr)
        if k == 'asg':
            return self.assign(n, st, fr)
        if k == '?:':
            c = self.cnd(n['c'], st, fr)
            t = truthy(c)
            if t is not None:
                return self.ev(n['a'] if t else n['b'], st, fr)
            s1, s2 = st.fork(), st.fork()
            a, b = self.ev(n['a'], s1, fr), self.ev(n['b'], s2, fr)
            self.become(st, merge(c, s1, s2))
            return phi(c, a, b)
        if k == 'call':
            return self.call(n, st, fr, want_lv)
        if k == 'ctor':
            return self.construct(n, st, fr)
        if k == 'new':
            return self.new(n, st, fr)
        if k == 'delete':
            v = reify(self.ev(n['x'], st, fr))
            return C(0)
        if k == 'init':
            return self.initlist(n, st, fr)
        if k == 'throw':
            if 'x' in n:
                s = st.fork()
                try:
                    self.ev(n['x'], s, fr)
                except Unsupported:
                    pass
            st.exc = C(1)
            self.exct = self.p.type(n.get('tt')) if 'tt' in n else None
            return C(0)
        if k == 'sizeof':
            return C(n['cv']) if 'cv' in n else mk('sizeof', str(self.p.type(n.get('of'))))
        if 'cv' in n:
            return C(n['cv'])
        if k == 'icall':
            return self.icall(n, st, fr)
        if k == 'arrcopy':
            l = self.lv(n['x'], st, fr)
            return self.loadloc(l, 'x[]', st)
        if k == 'typeid':
            x = n.get('x')
            return mk('f', 'typeid', reify(self.ev(x, st, fr)) if isinstance(x, dict) else C(self.p.type(n.get('of', n.get('t', -1)))))
        raise Unsupported('expression ' + k)

    def cast(self, n, st, fr):
        ck = n['ck']
        v = self.ev(n['x'], st, fr)
        if ck in ('IntegralCast', 'BooleanToSignedIntegral') and v.__class__ is N:
            t = strip(self.T(n))
            if v.k == 'c' and isinstance(v.a[0], int):
                if t in ('unsigned char',):
                    return C(v.a[0] & 0xff)
                if t == 'unsigned short':
                    return C(v.a[0] & 0xffff)
                if t == 'unsigned int' and v.a[0] < 0:
                    return C(v.a[0] & 0xffffffff)
                return v
            if t in ('unsigned char', 'char', 'signed char', 'unsigned short', 'short') and strip(self.p.type(n.get('ft'))) != t:
                return mk('cast', t, v)
            return v
        if ck == 'IntegralToFloating':
            return ncast('f', reify(v))
        if ck == 'FloatingToIntegral':
            t = strip(self.T(n))
            r = ncast('i', reify(v))
            if t in ('unsigned char', 'char', 'signed char', 'unsigned short', 'short') and r.k != 'c':
                return mk('cast', t, r)
            return r
        if ck in ('IntegralToBoolean', 'FloatingToBoolean', 'PointerToBoolean', 'MemberPointerToBoolean'):
            return tobool(reify(v))
        if n.get('dyn'):
            return mk('dyncast', strip(self.T(n)), reify(v))
        return v

    def unary(self, n, st, fr):
        op = n['op']
        if op == '&':
            if n['x']['k'] in ('ref',) and n['x'].get('dk') == 'func':
                return mk('fn', n['x']['q'])
            return self.addr(self.lv(n['x'], st, fr))
        if op in ('++', '--', 'post++', 'post--'):
            l = self.lv(n['x'], st, fr)
            old = reify(self.loadloc(l, self.T(n['x']) or self.T(n), st))
            one = C(1 if '+' in op else -1)
            new = padd(old, one) if shape(self.T(n)) == 'p' else nbin('+', old, one)
            self.store(l, new, st)
            return old if op.startswith('post') else new
        v = reify(self.ev(n['x'], st, fr))
        if op == '!':
            return nnot(v)
        if v.k == 'c' and not isinstance(v.a[0], str):
            if op == '-':
                return C(-v.a[0])
            if op == '~' and isinstance(v.a[0], int):
                return C(~v.a[0])
        if op == '+':
            return v
        return mk('un', op, v)

    def binary(self, n, st, fr):
        op = n['op']
        if op == ',':
            self.ev(n['a'], st, fr)
            return self.ev(n['b'], st, fr)
        if op in ('&&', '||'):
            a = self.cnd(n['a'], st, fr)
            t = truthy(a)
            if t is not None:
                if t == (op == '||'):
                    return C(int(t))
                return self.cnd(n['b'], st, fr)
            s1 = st.fork()
            b = self.cnd(n['b'], s1, fr)
            self.become(st, merge(a, s1, st.fork()) if op == '&&' else merge(a, st.fork(), s1))
            return nand(a, b) if op == '&&' else nor(a, b)
        a = reify(self.ev(n['a'], st, fr))
        b = reify(self.ev(n['b'], st, fr))
        if shape(self.T(n)) == 'p':
            if op == '+':
                return padd(a, b) if not self.isint(n['a'], a) else padd(b, a)
            if op == '-':
                return padd(a, mk('un', '-', b) if b.k != 'c' else C(-b.a[0]))
        return self.typed(n, op, a, b)

    def typed(self, n, op, a, b):
        if op == '/' and shape(self.T(n)) in ('i',):
            if not (a.k == 'c' and b.k == 'c'):
                return mk('bin', 'idiv', a, b)
        return nbin(op, a, b)

    def isint(self, n, v):
        return v.k == 'c' or shape(self.T(n)) == 'i'

    def assign(self, n, st, fr):
        v = self.ev(n['b'], st, fr)
        l = self.lv(n['a'], st, fr)
        if n['op'] != '=':
            op = n['op'][:-1]
            ty = self.T(n['a']) or self.T(n)
            old = reify(self.loadloc(l, ty, st))
            if shape(ty) == 'p':
                v = padd(old, reify(v) if op == '+' else nbin('-', C(0), reify(v)))
            else:
                v = reify(v)
                isint = shape(ty) in ('i', 'b')
                fl = self.isfloat(n['b'])
                if op == '/' and isint and not fl and not (old.k == 'c' and v.k == 'c'):
                    v = mk('bin', 'idiv', old, v)
                else:
                    v = nbin(op, old, v)
                if isint and fl:
                    v = ncast('i', v)
        self.store(l, v, st)
        return v

    def isfloat(self, n):
        if n['k'] == 'float':
            return True
        if 't' in n:
            return shape(self.T(n)) == 'f'
        if n['k'] == '?:':
            return self.isfloat(n['a'])
        return False

    def initlist(self, n, st, fr):
        ty = self.T(n)
        s = shape(ty)
        vs = [self.ev(x, st, fr) for x in n['a']]
        if s == 'a':
            v = Arr(mk('fill', C(0)))
            for i, x in enumerate(vs):
                v = with_child(v, C(i), x)
            return v
        if s == 'r':
            c = self.p.classes.get(strip(ty))
            if c:
                v = Rec(mk('fill', C(0)), {}, strip(ty))
                for fld, x in zip(c['fields'], vs):
                    v.f[fld['n']] = x
                return v
        if s == 'v':
            if len(vs) == 1:
                vs0 = vs[0]
                if vs0.__class__ is Arr:
                    return Rec(mk('fill', C(0)), {'#d': vs0, '#n': C(len(vs0.w))})
        if len(vs) == 1:
            return vs[0]
        return Rec(mk('fill', C(0)), {str(i): x for i, x in enumerate(vs)})

    def new(self, n, st, fr):
        self.nnew += 1
        r = mk('root', 'new%d' % self.nnew)
        if 'n' in n:
            self.ev(n['n'], st, fr)
            st.mem[r] = Arr(None)
            self.newcls[r.a[0]] = self.T(n) + '[]'
            return mk('addr', r, C(0))
        self.newcls[r.a[0]] = self.T(n)
        x = n.get('x')
        if x is not None and x['k'] == 'ctor':
            v = self.construct(x, st, fr, Loc(r))
            if v is not None:
                st.mem[r] = v
        elif x is not None:
            st.mem[r] = self.ev(x, st, fr)
        else:
            st.mem[r] = Rec(None, {}, self.T(n))
        return mk('addr', r)

    # ------------------------------------------------------ construction
    def construct(self, n, st, fr, at=None):
        cls = n['c']
        g = cls.split('<')[0]
        if g in SMART or g.endswith('__normal_iterator'):
            return reify(self.ev(n['a'][0], st, fr)) if n['a'] else C(0)
        if g in STRINGS:
            if not n['a']:
                return C('')
            vs = [self.ev(x, st, fr) for x in n['a'] if not x.get('da')]
            if len(vs) == 1 or n.get('cp'):
                return self.content(vs[0], st)
            return mk('f', 'string', *[self.content(x, st) for x in vs])
        if g in VECS:
            if n.get('cp'):
                return self.ev(n['a'][0], st, fr)
            vs = [self.ev(x, st, fr) for x in n['a'] if not x.get('da') and 'allocator' not in self.T(x)]
            if not vs:
                return Rec(mk('fill', C(0)) if g == 'std::vector' else None, {'#n': C(0)} if g == 'std::vector' else {}, cls)
            if len(vs) == 1:
                return Rec(mk('undef'), {'#n': reify(vs[0]), '#d': Arr(mk('fill', C(0)))}, cls)
            if len(vs) == 2:
                if vs[1].__class__ is N and vs[1].k in ('addr', 'ptr+'):
                    return Rec(mk('f', 'range', reify(vs[0]), reify(vs[1])), {}, cls)
                return Rec(mk('undef'), {'#n': reify(vs[0]), '#d': Arr(mk('fill', reify(vs[1])))}, cls)
            raise Unsupported('vector constructor')
        if g == 'std::pair':
            if n.get('cp') or len(n['a']) == 1:
                return self.ev(n['a'][0], st, fr)
            vs = [self.ev(x, st, fr) for x in n['a']]
            if len(vs) == 2:
                return Rec(None, {'first': vs[0], 'second': vs[1]}, cls)
            return Rec(mk('fill', C(0)), {}, cls)
        fn = self.p.funcs.get(n['id'])
        rec = self.p.classes.get(cls)
        if fn is not None and fn.get('body') and self.may(fn, n):
            vs = [self.arg(x, p, st, fr) for x, p in zip(n['a'], fn['p'])]
            tgt = at or self.temp(st, Rec(None, {}, cls))
            if at is not None:
                self.store(at, Rec(None, {}, cls), st)
            self.expand(fn, self.addr(tgt), vs, st, cls)
            if at is not None:
                return None
            v = self.loadloc(tgt, cls, st)
            return v
        if n.get('cp'):
            return self.ev(n['a'][0], st, fr)
        if not n['a'] and rec is not None and (fn is None or not fn.get('body')):
            # implicit default constructor
            v = Rec(None, {}, cls)
            return v
        vs = [self.ev(x, st, fr) for x in n['a']]
        v = mk('f', 'new:' + cls, *[self.content(x, st) for x in vs])
        return Rec(v, {}, cls)

    def may(self, fn, n):
        return fn['id'] not in self.stack and len(self.stack) < self.max_depth and fn['n'] not in self.stop and self.inl(fn)

    def content(self, v, st, whole=False):
        """a value handed to something unknown"""
        n = reify(v)
        if n.k == 'addr' and n.a[0].k == 'root' and n.a[0].a[0][0] in 'LT':
            path = n.a[1:]
            if whole and path and path[-1] in (0, C(0)):       # the start of an array: all of it
                path = path[:-1]
            return mk('ref', reify(self.loadloc(Loc(n.a[0], path), '', st)))
        return n

    def arg(self, x, p, st, fr):
        ty = self.p.type(p['t'])
        if ty.endswith('&'):
            return self.addr(self.lv(x, st, fr))
        return self.ev(x, st, fr)

    # ------------------------------------------------------------- calls
    def expand(self, fn, this, vs, st, dyncls=None):
        self.nf += 1
        fr = self.nf
        if self.nf > 20000:
            raise Unsupported('too many calls')
        for p, v in zip(fn['p'], vs):
            st.mem[self.local(fr, p['i'])] = v
        self.frames[fr] = (this, dyncls or fn.get('c'))
        self.stack.append(fn['id'])
        self.expanded.add(fn['id'])
        try:
            exc0 = st.exc
            st.exc = C(0)
            out = self.body(fn, st, fr)
        finally:
            self.stack.pop()
        normal = out.get('next')
        if 'ret' in out:
            r = out['ret']
            normal = r if normal is None else (nor(normal[0], r[0]), merge(r[0], r[1], normal[1]), r[2])
        thr = out.get('thr')
        if normal is None:
            if thr is None:
                raise Unsupported('does not end')
            self.become(st, thr[1])
            st.exc = C(1)
            return C(0)
        self.become(st, normal[1])
        e = thr[0] if thr else C(0)
        st.exc = nor(exc0, e)
        pre = 'L%d.' % fr
        v = normal[2] if normal[2] is not None else C(0)
        keep = set()
        if v.__class__ is N and v.k == 'addr':
            keep.add(v.a[0])
        for r in [r for r in st.mem if r.k == 'root' and r.a[0].startswith(pre) and r not in keep]:
            del st.mem[r]
        return v

    def body(self, fn, st, fr):
        for ini in fn.get('inits', ()):
            this = self.deref(self.frames[fr][0])
            if 'm' in ini:
                l = self.sub(this, ini['m'])
                x = ini['x']
                if x['k'] == 'ctor':
                    v = self.construct(x, st, fr, None)
                elif x['k'] == 'init' or True:
                    f = self.fieldtype(fn.get('c'), ini['m'])
                    if f and f.endswith('&'):
                        v = self.addr(self.lv(x, st, fr))
                    else:
                        v = self.ev(x, st, fr)
                if v is not None:
                    self.store(l, v, st)
            elif 'base' in ini:
                x = ini['x']
                if x['k'] == 'ctor':
                    b = self.p.funcs.get(x['id'])
                    if b is not None and b.get('body') and self.may(b, x):
                        vs = [self.arg(y, p, st, fr) for y, p in zip(x['a'], b['p'])]
                        self.expand(b, self.frames[fr][0], vs, st)
                    else:
                        vs = [self.content(self.ev(y, st, fr), st) for y in x['a']]
                        self.effect(st, 'base ' + x['c'].split('<')[0], mk('f', 'base:' + x['c'], *vs))
        return self.stmt(fn['body'], st, fr, self.p.type(fn.get('ret')) if fn.get('kind') != 'ctor' else 'void')

    def fieldtype(self, cls, m):
        for c in [cls] + (self.p.bases(cls) if cls else []):
            r = self.p.classes.get(c)
            for f in (r or {}).get('fields', []):
                if f['n'] == m:
                    return self.p.type(f['t'])

    def onlylocal(self, muts):
        return bool(muts) and all(l.__class__ is Loc and l.r.k == 'root' and l.r.a[0][0] in 'LT' for i, l in muts)

    def effect(self, st, chan, n):
        st.log[chan] = mk('log', st.log.get(chan) or mk('nolog'), n)

    def icall(self, n, st, fr):
        x = self.ev(n['x'], st, fr)
        vs = [self.content(self.ev(a, st, fr), st) for a in n['a']]
        v = mk('f', 'call', reify(x), *vs)
        if self.discard is n or strip(self.T(n)) in ('void', 'PtDspyError'):
            self.effect(st, 'through a pointer', v)
        return self.load(Lazy(v), self.T(n)) if shape(self.T(n)) in ('r', 'v') else v

    def written(self, n, st, fr):
        """output to a file (or a stream handed in): what is written, piece by piece"""
        pieces, x = [], n
        while True:
            while x['k'] == 'cast':
                x = x['x']
            if x['k'] != 'call':
                break
            w = base(x['f'])
            if x.get('op') == '<<' and 'basic_ostream' in self.T(x):
                if 'o' in x:
                    pieces.insert(0, (None, x['a']))
                    x = x['o']
                else:
                    pieces.insert(0, (None, x['a'][1:]))
                    x = x['a'][0]
            elif w in ('write', 'put') and 'o' in x and 'ostream' in (x.get('c') or ''):
                pieces.insert(0, (w, x['a']))
                x = x['o']
            else:
                return None
        if not pieces or x['k'] not in ('mem', 'ref'):
            return None
        ty = self.T(x)
        if 'ofstream' not in ty and not ('basic_ostream' in ty and (x['k'] == 'mem' or x.get('dk') in ('param', 'local'))) or self.ptrobj(x):
            return None
        l = self.lv(x, st, fr)
        if l.__class__ is not Loc or l.r.k != 'root' or 'ofstream' not in ty and l.r.a[0][0] in 'LT' or re.search(r'\b(cout|cerr|clog)\b', text(l.r)):
            return None
        ch = 'stream ' + self.chan(l)
        for w, xs in pieces:
            y = xs[0]
            while y['k'] == 'cast':
                y = y['x']
            if y['k'] == 'ref' and y.get('dk') == 'func':
                if y['n'] == 'flush':
                    continue
                v = C('\n' if y['n'] == 'endl' else y['n'])
            else:
                v = self.content(self.ev(xs[0], st, fr), st)
                if w == 'write':
                    v = mk('f', 'bytes', v, reify(self.ev(xs[1], st, fr)))
                elif v.k == 'f' and v.a[0] == 'c_str' and len(v.a) == 2:
                    v = v.a[1]
                elif v.k == 'c' and isinstance(v.a[0], int) and (y.get('ch') or strip(self.T(xs[0])) == 'char'):
                    v = C(chr(v.a[0] & 255))
            if v.k == 'f' and v.a[0] == 'str':
                raise Unsupported('text put together in a stream')
            for v in (parts(v) if w is None else [v]):
                self.putout(st, ch, v)
        return l

    def putout(self, st, ch, v):
        old = st.log.get(ch)
        if v.k == 'c' and isinstance(v.a[0], str) and old is not None and old.k == 'log' and old.a[1].k == 'f' and old.a[1].a[0] == 'written':
            u = old.a[1].a[1]
            if u.k == 'c' and isinstance(u.a[0], str):
                st.log[ch] = mk('log', old.a[0], mk('f', 'written', C(u.a[0] + v.a[0])))
                return
        self.effect(st, ch, mk('f', 'written', v))

    def call(self, n, st, fr, want_lv):
        f = n['f']
        op = n.get('op')
        cls = n.get('c')
        b = base(f)
        if self.streams and (op == '<<' or b in ('write', 'put')):
            r = self.written(n, st, fr)
            if r is not None:
                return r if want_lv else self.loadloc(r, self.T(n), st)
        g = (cls or '').split('<')[0]
        ptr = False
        o = None
        if 'o' in n:
            if self.ptrobj(n['o']):
                o = self.deref(self.ev(n['o'], st, fr))
                ptr = True
            else:
                o = self.lv(n['o'], st, fr)
        # pointers in disguise
        if o is not None and (g in SMART or 'iterator' in g):
            r = self.smart(n, o, b, op, st, fr, want_lv)
            if r is not None:
                return r
        if g in VECS and o is not None:
            r = self.vector(n, o, b, op, st, fr, want_lv)
            if r is not None:
                return r
        if g in SEQS and o is not None:
            r = self.sequence(n, o, b, op, st, fr, want_lv)
            if r is not None:
                return r
        if g in STRINGS and o is not None:
            r = self.string(n, o, b, op, st, fr)
            if r is not None:
                return r
        if f in ('std::move', 'std::forward', 'boost::ref', 'boost::cref') and len(n['a']) == 1:
            return self.lv(n['a'][0], st, fr) if want_lv else self.ev(n['a'][0], st, fr)
        if o is None and (f.startswith('std::') or '::' not in f or f.startswith('__gnu') or f.startswith('boost::')):
            r = self.library(n, f, b, op, st, fr, want_lv)
            if r is not None:
                return r
        fid = n['id']
        fn = self.p.funcs.get(fid)
        if n.get('v') and o is not None:
            d = self.dynclass(n, o, fr)
            if d:
                fid = self.p.resolve_virtual(fid, d)
                fn = self.p.funcs.get(fid)
            else:
                fn = None
        if fn is not None and fn.get('body') and self.may(fn, n):
            vs = [self.arg(x, p, st, fr) for x, p in zip(n['a'], fn['p'])]
            v = self.expand(fn, self.addr(o) if o is not None else C(0), vs, st, None)
            rt = self.p.type(fn.get('ret'))
            if rt.endswith('&'):
                if v.__class__ is N:
                    l = self.deref(v)
                    return l if want_lv else self.loadloc(l, self.T(n), st)
            return v
        if op == '=' and o is not None and len(n['a']) == 1:
            v = self.ev(n['a'][0], st, fr)
            self.store(o, v, st)
            return o if want_lv else v
        # unknown
        ra = n.get('ra', 0)
        if o is None and b in FILLS:       # fills in what its variable arguments point to
            for i, x in enumerate(n['a']):
                if i > 1 and shape(self.T(x)) == 'p':
                    ra |= 1 << i
        vals, muts = [], []
        for i, x in enumerate(n['a']):
            if (ra >> i) & 1:
                if shape(self.T(x)) == 'p' or x['k'] in ('un', 'call', 'null', 'int', 'this', 'str') or shape(self.T(x)) == 'a':
                    v = self.ev(x, st, fr)
                    vals.append(self.content(v, st))
                    nn = reify(v)
                    if nn.k == 'addr':
                        muts.append((i, self.deref(nn)))
                else:
                    l = self.lv(x, st, fr)
                    muts.append((i, l))
                    vals.append(reify(self.loadloc(l, self.T(x), st)))
            else:
                vals.append(self.content(self.ev(x, st, fr), st, o is None and b.startswith('TIFF')))
        quiet = QUIET.search(f) is not None
        name = b if not n.get('v') else b
        const = n.get('cm') or n.get('sm') or o is None or not READERS.search(f) and (self.accessor(n, b, o) or op in ('[]', '->', '*') or b in ('begin', 'end', 'size', 'front', 'back', 'find', 'top', 'c_str', 'get'))
        recv = []
        if o is not None:
            recv = [self.content(self.loadloc(o, strip(self.p.type(n.get('ot', -1))) if 'ot' in n else cls or '', st), st)]
        if b in PUREF and o is None:
            name = b
        v = mk('f', name, *(recv + vals))
        if quiet:
            return self.result(v, n, want_lv, st)
        void = strip(self.T(n)) == 'void'
        if o is not None and not const:
            ch = self.chan(o)
            self.effect(st, ch, v)
            if self.streams and b == 'Accept' and 'CodeGenOutput' in (self.dyn or ''):
                self.effect(st, 'stream this.m_slxFile', mk('f', 'visited', v))
            if not self.isthis(o, fr):
                self.store(o, Lazy(mk('mut', v)) if not isinstance(self.loadloc(o, '', st), Rec) else Rec(mk('mut', v), {}, cls), st)
        elif (void or o is None and (self.discard is n or WRITES.match(b)) and b not in PUREF and b not in TALK and not self.onlylocal(muts)) and not (muts and o is None and b in self.pure):
            self.effect(st, 'function ' + name + (' %s' % text(vals[1]) if name == 'TIFFSetField' and len(vals) > 1 else '') if o is None else self.chan(o), v)
        for i, l in muts:
            if not self.isthis(l, fr):
                self.store(l, Lazy(mk('outarg', v, i)), st)
        return self.result(v, n, want_lv, st)

    def result(self, v, n, want_lv, st):
        ty = self.T(n)
        if shape(ty) in ('r', 'v'):
            if strip(ty) in self.p.enums:
                return mk('at', v, 'i')
            if want_lv:
                return Loc(v)       # the object the call refers to
            return self.loadloc(Loc(v), ty, st)
        if want_lv:
            return Loc(v) if not n.get('pv') else self.temp(st, self.result(v, n, False, st))
        if v in st.mem:
            return self.loadloc(Loc(v), ty, st)
        if v.__class__ is N and v.k == 'f' and shape(ty) in ('f', 'i', 'b', 's'):
            return mk('at', v, shape(ty))
        return v

    def accessor(self, n, b, o):
        """a method that only hands out a part of its object"""
        if not n['a'] and shape(self.T(n)) in ('p', 'r', 'v') and not re.match(r'(pop|next|Next|read|Read|create|Create|clone|Clone|push|new|take|release|[Rr]and|Split|Begin|End|Convert)', b):
            return True
        return b in self.pure or bool(re.match(r'(p[A-Z]|vec[A-Z]|get[A-Z]|Get[A-Z]|find[A-Z]|Find[A-Z]|is[A-Z]|has[A-Z]|bHas|Is[A-Z])', b)) and strip(self.T(n)) != 'void' and not n.get('ra')

    def isthis(self, l, fr):
        return l.__class__ is Loc and l.r.k == 'root' and l.r.a[0] == 'this' and not l.p

    def chan(self, l):
        if l.__class__ is PhiLoc:
            return 'one of several'
        parts = [text(l.r)]
        if l.r.k == 'root' and l.r.a[0][0] in 'LT':
            parts = ['a local']
        elif l.r.k == 'root' and l.r.a[0].startswith('new'):
            parts = ['new ' + str(self.newcls.get(l.r.a[0]))]
        elif l.r.k != 'root':
            parts = ['objects']
        for s in l.p:
            if isinstance(s, str):
                parts.append(s)
        r = '.'.join(parts)
        return r if len(r) < 120 else r[:120]

    def dynclass(self, n, o, fr):
        if o.__class__ is Loc and not o.p and o.r.k == 'root':
            if o.r.a[0].startswith('new'):
                return self.newcls.get(o.r.a[0])
            if o.r.a[0] == 'this':
                return self.dyn
            if o.r.a[0][0] in 'LT':
                t = strip(self.p.type(n.get('ot', -1)))
                return t if n['o']['k'] == 'ref' and not self.T(n['o']).endswith('&') else None
        return None

    def ptrobj(self, o):
        k = o['k']
        if k == 'this':
            return True
        if k in ('ref', 'mem', 'idx', 'cast', 'new', 'un', 'bin', 'icall', 'asg'):
            t = strip(self.T(o))
            return t.endswith('*') or t.endswith('*const')
        if k == 'call':
            if o.get('op') == '->':
                return True
            return strip(self.T(o)).endswith('*')
        if k == '?:':
            return self.ptrobj(o['a'])
        return False

    def smart(self, n, o, b, op, st, fr, want_lv):
        v = reify(self.loadloc(o, 'x*', st))
        ty = self.T(n)
        if b in ('get', 'operator->', 'base') or op == '->' or b == 'lock':
            return v
        if op == '*':
            l = self.deref(v)
            return l if want_lv else self.loadloc(l, ty, st)
        if op == '[]':
            l = self.deref(padd(v, reify(self.ev(n['a'][0], st, fr))))
            return l if want_lv else self.loadloc(l, ty, st)
        if op == '=' or b == 'reset':
            x = reify(self.ev(n['a'][0], st, fr)) if n['a'] else C(0)
            self.store(o, x, st)
            return o if want_lv else x
        if 'operator bool' in b or b.startswith('operator bool'):
            return tobool(v)
        if op == '!':
            return nnot(v)
        if op in ('++', '--'):
            new = padd(v, C(1 if op == '++' else -1))
            self.store(o, new, st)
            post = bool(n['a'])
            if want_lv:
                return self.temp(st, v) if post else o
            return v if post else new
        if op in ('+', '-') and len(n['a']) == 1:
            x = reify(self.ev(n['a'][0], st, fr))
            if shape(self.T(n['a'][0])) == 'p':
                return nbin('-', v, x)
            return padd(v, x if op == '+' else nbin('-', C(0), x))
        if op in ('+=', '-='):
            x = reify(self.ev(n['a'][0], st, fr))
            new = padd(v, x if op == '+=' else nbin('-', C(0), x))
            self.store(o, new, st)
            return o if want_lv else new
        if op in CMP:
            return nbin(op, v, reify(self.ev(n['a'][0], st, fr)))
        return None

    def vector(self, n, o, b, op, st, fr, want_lv):
        ty = self.T(n)
        cls = n.get('c')
        size = lambda: self.vsize(o, cls, st)
        args = [x for x in n['a'] if not x.get('da')]
        if op == '[]' or b == 'at':
            l = self.sub(self.sub(o, '#d'), reify(self.ev(args[0], st, fr)))
            return l if want_lv else self.loadloc(l, ty, st)
        if b == 'size':
            return size()
        if b == 'empty':
            return nbin('==', size(), C(0))
        if b in ('begin', 'end', 'data', 'c_array', 'cbegin', 'cend'):
            return self.addr(self.sub(self.sub(o, '#d'), C(0) if b not in ('end', 'cend') else size()))
        if b in ('front', 'back'):
            l = self.sub(self.sub(o, '#d'), C(0) if b == 'front' else nbin('-', size(), C(1)))
            return l if want_lv else self.loadloc(l, ty, st)
        if b == 'push_back':
            x = self.ev(args[0], st, fr)
            s = size()
            self.store(self.sub(self.sub(o, '#d'), s), x, st)
            self.store(self.sub(o, '#n'), nbin('+', s, C(1)), st)
            return C(0)
        if b == 'pop_back':
            self.store(self.sub(o, '#n'), nbin('-', size(), C(1)), st)
            return C(0)
        if b == 'clear':
            self.store(o, Rec(mk('fill', C(0)), {'#n': C(0)}, cls), st)
            return C(0)
        if b in ('reserve', 'shrink_to_fit'):
            self.ev(args[0], st, fr)
            return C(0)
        if b == 'capacity':
            return mk('f', 'capacity', size())
        if b == 'resize':
            x = reify(self.ev(args[0], st, fr))
            s = size()
            fill = self.ev(args[1], st, fr) if len(args) > 1 else None
            if s.k == 'c' and s.a[0] == 0:
                self.store(o, Rec(mk('undef'), {'#n': x, '#d': Arr(mk('fill', reify(fill) if fill is not None else C(0)))}, cls), st)
            else:
                if fill is not None:
                    d = reify(self.loadloc(self.sub(o, '#d'), 'x[]', st))
                    self.store(self.sub(o, '#d'), Arr(mk('padded', d, s, reify(fill))), st)
                self.store(self.sub(o, '#n'), x, st)
            return C(0)
        if b in ('assign', 'fill') and len(args) in (1, 2) and (len(args) == 1 or shape(self.T(args[0])) == 'i' or args[0]['k'] in ('int', 'call', 'cast', 'bin')) and not (len(args) == 2 and shape(self.T(args[1])) == 'p'):
            x = [self.ev(a, st, fr) for a in args]
            if len(x) == 2:
                if x[1].__class__ is N and x[1].k == 'addr':
                    return None
                self.store(o, Rec(mk('undef'), {'#n': reify(x[0]), '#d': Arr(mk('fill', reify(x[1])))}, cls), st)
            else:
                self.store(self.sub(o, '#d'), Arr(mk('fill', reify(x[0]))), st)
            return C(0)
        if b == 'swap' and len(args) == 1:
            l2 = self.lv(args[0], st, fr)
            x, y = self.loadloc(o, cls, st), self.loadloc(l2, cls, st)
            self.store(o, y, st)
            self.store(l2, x, st)
            return C(0)
        if op == '=':
            v = self.ev(args[0], st, fr)
            self.store(o, v, st)
            return o if want_lv else v
        return None

    def sequence(self, n, o, b, op, st, fr, want_lv):
        ty = self.T(n)
        cls = n.get('c')
        g = cls.split('<')[0]
        args = [x for x in n['a'] if not x.get('da')]
        if b in ('size', 'empty', 'begin', 'end', 'front', 'back', 'clear', 'cbegin', 'cend', 'swap') or op == '=' or g not in MAPS and b in ('push_back', 'pop_back') or g == 'std::deque' and (op == '[]' or b == 'at'):
            return self.vector(n, o, b, op, st, fr, want_lv)
        if g in MAPS and len(args) == 1 and b in ('find', 'count') or g in MAPS and op == '[]':
            key = self.content(self.ev(args[0], st, fr), st)
            # the state of the map as a whole decides what is in it
            m = reify(self.loadloc(o, cls, st))
            slot = self.sub(self.sub(o, '#m'), key)
            if op == '[]':
                l = self.sub(slot, 'second')
                return l if want_lv else self.loadloc(l, ty, st)
            has = mk('f', 'contains', m, key)
            if b == 'count':
                return has
            return cond(has, self.addr(slot), self.addr(self.sub(self.sub(o, '#d'), self.vsize(o, cls, st))))
        return None

    def vsize(self, o, cls, st):
        g = cls.split('<')[0]
        if g in ('boost::array', 'std::array'):
            m = re.search(r',\s*(\d+)[UuLl]*\s*>$', cls)
            if m:
                return C(int(m.group(1)))
        return reify(self.loadloc(self.sub(o, '#n'), 'int', st))

    def string(self, n, o, b, op, st, fr):
        v = reify(self.loadloc(o, 'CqString', st))
        if b in ('c_str', 'str', 'data'):
            return v
        if op == '=' or b == 'assign' and len(n['a']) == 1:
            x = self.content(self.ev(n['a'][0], st, fr), st)
            self.store(o, x, st)
            return x
        if b == 'assign':
            x = mk('f', 'string', *[self.content(self.ev(x, st, fr), st) for x in n['a'] if not x.get('da')])
            self.store(o, x, st)
            return x
        if b == 'append' and len(n['a']) > 1:
            x = mk('f', 'concat', v, mk('f', 'string', *[self.content(self.ev(x, st, fr), st) for x in n['a'] if not x.get('da')]))
            self.store(o, x, st)
            return x
        if b in ('size', 'length'):
            return mk('at', mk('f', 'size', v), 'i')
        if op in ('+=',) or b in ('append', 'push_back') and len(n['a']) == 1:
            x = mk('f', 'concat', v, self.content(self.ev(n['a'][0], st, fr), st))
            self.store(o, x, st)
            return x
        if b == 'clear':
            self.store(o, C(''), st)
            return C(0)
        if b == 'empty':
            return nbin('==', v, C(''))
        if b == 'compare' and len(n['a']) == 1:
            x = self.content(self.ev(n['a'][0], st, fr), st)
            return mk('f', 'strcmp', v, x)
        return None

    def library(self, n, f, b, op, st, fr, want_lv):
        a = n['a']
        if op in CMP and len(a) == 2:
            ts = [shape(self.T(x)) if 't' in x else shape('char*') for x in a]
            if all(t in ('p', 's', 'f', 'i', 'b') or x['k'] in ('str', 'null') for t, x in zip(ts, a)):
                return nbin(op, self.content(self.ev(a[0], st, fr), st) if 's' in ts else reify(self.ev(a[0], st, fr)),
                            self.content(self.ev(a[1], st, fr), st) if 's' in ts else reify(self.ev(a[1], st, fr)))
        if op in ('+', '-') and len(a) == 2 and shape(self.T(a[0])) == 'p' and 'iterator' in f + self.T(a[0]):
            x, y = reify(self.ev(a[0], st, fr)), reify(self.ev(a[1], st, fr))
            return nbin('-', x, y) if op == '-' else padd(x, y)
        if op == '+' and len(a) == 2 and shape(self.T(n)) == 's':
            return mk('f', 'concat', self.content(self.ev(a[0], st, fr), st), self.content(self.ev(a[1], st, fr), st))
        if b in PUREF and f in (b, 'std::' + b):
            if b in ('min', 'max') and len(a) == 2 and n.get('t') is not None and shape(self.T(n)) in ('f', 'i'):
                x, y = reify(self.ev(a[0], st, fr)), reify(self.ev(a[1], st, fr))
                if x.k == 'c' and y.k == 'c':
                    return C(min(x.a[0], y.a[0]) if b == 'min' else max(x.a[0], y.a[0]))
                return mk('f', b, x, y)
            if b not in ('min', 'max'):
                vs = [reify(self.ev(x, st, fr)) for x in a]
                nm = b[:-1] if b.endswith('f') and b[:-1] in PUREF and b != 'f' else b
                if nm == 'fabs':
                    nm = 'abs'
                if nm in ('fmin', 'fmax'):
                    nm = nm[1:]
                return mk('f', nm, *vs)
        if f == 'std::swap' and len(a) == 2:
            l1, l2 = self.lv(a[0], st, fr), self.lv(a[1], st, fr)
            x, y = self.loadloc(l1, self.T(a[0]), st), self.loadloc(l2, self.T(a[1]), st)
            self.store(l1, y, st)
            self.store(l2, x, st)
            return C(0)
        if f == 'std::make_pair':
            return Rec(None, {'first': self.ev(a[0], st, fr), 'second': self.ev(a[1], st, fr)})
        if f.startswith('std::numeric_limits'):
            return mk('f', f)
        if b in ('dynamic_pointer_cast', 'static_pointer_cast', 'const_pointer_cast') and len(a) == 1:
            v = reify(self.ev(a[0], st, fr))
            return v if b != 'dynamic_pointer_cast' else mk('dyncast', strip(self.T(n)), v)
        if f == 'std::fill' and len(a) == 3:
            x, y = reify(self.ev(a[0], st, fr)), reify(self.ev(a[1], st, fr))
            v = self.ev(a[2], st, fr)
            px, py = ptrparts(x), ptrparts(y)
            if px and py and px[0] == py[0] and px[1].k == 'c':
                l = self.deref(x)
                if py[1].k == 'c':
                    if py[1].a[0] - px[1].a[0] < 100:
                        for i in range(px[1].a[0], py[1].a[0]):
                            self.store(Loc(l.r, l.p[:-1] + (C(i),)), v, st)
                        return C(0)
                elif px[1].a[0] == 0 and l.__class__ is Loc:
                    self.store(Loc(l.r, l.p[:-1]), Arr(mk('fill', reify(v))), st)
                    return C(0)
            return None
        return None

    # ------------------------------------------------------- statements
    def stmt(self, n, st, fr, rt):
        """{kind: (condition, state, value)}"""
        one = C(1)
        if n is None or n['k'] == 'nop':
            return {'next': (one, st, None)}
        k = n['k']
        if k == 'block':
            return self.seq(n['s'], st, fr, rt)
        if k == 'decl':
            for d in n['d']:
                self.decl(d, st, fr)
            return self.after(st)
        if k == 'if':
            if n.get('init'):
                self.stmt(n['init'], st, fr, rt)
            if n.get('var'):
                self.stmt(n['var'], st, fr, rt)
            c = self.cnd(n['c'], st, fr)
            e = self.after(st)
            if 'next' not in e:
                return e
            t = truthy(c)
            if t is not None:
                r = self.stmt(n.get('t') if t else n.get('e'), e['next'][1], fr, rt)
            else:
                r = self.join(c, self.stmt(n.get('t'), e['next'][1].fork(), fr, rt), self.stmt(n.get('e'), e['next'][1].fork(), fr, rt))
            return self.then(e, r)
        if k == 'ret':
            v = None
            if 'x' in n and n['x'] is not None:
                if rt.endswith('&'):
                    v = self.addr(self.lv(n['x'], st, fr))
                else:
                    v = self.ev(n['x'], st, fr)
                    if v is not None and shape(rt) == 'i' and v.__class__ is N and v.k == 'c' and isinstance(v.a[0], float):
                        v = C(int(v.a[0]))
            if strip(rt) == 'void':
                v = None
            r = self.after(st)
            if 'next' in r:
                x = r.pop('next')
                r['ret'] = (x[0], x[1], v)
            return r
        if k == 'break':
            return {'brk': (one, st, None)}
        if k == 'continue':
            return {'cont': (one, st, None)}
        if k in ('for', 'while', 'do', 'rfor'):
            return self.loop(n, st, fr, rt)
        if k == 'switch':
            return self.switch(n, st, fr, rt)
        if k in ('case', 'default', 'label'):
            return self.stmt(n.get('s'), st, fr, rt)
        if k == 'try':
            st0 = st.fork()
            r = self.stmt(n['b'], st, fr, rt)
            if 'thr' in r and n['h']:
                t = r.pop('thr')
                h = self.stmt(n['h'][-1]['b'], t[1], fr, rt)
                r = self.join(t[0], h, r) if r else h
            # what is called may raise: the handlers, from the state at the start
            for h in n['h']:
                s1 = st0.fork()
                ty = strip(self.p.type(h['t'])) if h.get('t', -1) is not None and isinstance(h.get('t'), int) and h.get('t') >= 0 else '...'
                c = tobool(mk('at', mk('f', 'raises:' + ty), 'b'))
                r = self.join(c, self.stmt(h['b'], s1, fr, rt), r)
            return r
        if k in ('goto', 'unkstmt'):
            raise Unsupported('statement ' + k)
        x = n
        while x['k'] == 'cast':
            x = x['x']
        self.discard = x       # a call made for what it does
        self.ev(n, st, fr)
        return self.after(st)

    def after(self, st):
        e = st.exc
        t = truthy(e)
        if t is False:
            return {'next': (C(1), st, None)}
        s2 = st.fork()
        s2.exc = C(0)
        st.exc = C(0)
        if t:
            return {'thr': (C(1), s2, None)}
        return {'next': (nnot(e), st, None), 'thr': (tobool(e), s2, None)}

    def join(self, c, a, b):
        out = {}
        for k in list(a) + [k for k in b if k not in a]:
            if k in a and k in b:
                x, y = a[k], b[k]
                v = None
                if x[2] is not None and y[2] is not None:
                    v = phi(c, x[2], y[2])
                elif x[2] is not None or y[2] is not None:
                    v = x[2] if x[2] is not None else y[2]
                out[k] = (cond(c, x[0], y[0]), merge(c, x[1], y[1]), v)
            elif k in a:
                out[k] = (nand(c, a[k][0]), a[k][1], a[k][2])
            else:
                out[k] = (nand(nnot(c), b[k][0]), b[k][1], b[k][2])
        return out

    def then(self, a, b):
        """outcomes of a, continued by b (which starts from a's normal end)"""
        p = a['next'][0]
        rest = {k: v for k, v in a.items() if k != 'next'}
        if not rest:
            return b
        out = {}
        for k in list(b) + [k for k in rest if k not in b]:
            if k in b and k in rest:
                x, y = b[k], rest[k]
                v = None
                if x[2] is not None and y[2] is not None:
                    v = phi(p, x[2], y[2])
                elif x[2] is not None or y[2] is not None:
                    v = x[2] if x[2] is not None else y[2]
                out[k] = (cond(p, x[0], y[0]), merge(p, x[1], y[1]), v)
            elif k in b:
                out[k] = (nand(p, b[k][0]), b[k][1], b[k][2])
            else:
                out[k] = rest[k]
        return out

    def seq(self, lst, st, fr, rt):
        cur = {'next': (C(1), st, None)}
        for s in lst:
            if 'next' not in cur:
                break
            r = self.stmt(s, cur['next'][1], fr, rt)
            cur = self.then(cur, r)
        return cur

    def decl(self, d, st, fr):
        l = self.local(fr, d['i'])
        ty = self.p.type(d['t'])
        if d.get('st'):
            # a static local; constants are evaluated, others live on
            g = mk('root', 'G:' + d['n'])
            if 'const' in ty.split('[')[0] and 'x' in d:
                v = self.ev(d['x'], st, fr)
                st.mem[l] = v
                self.consts[mk('root', 'G:' + d.get('q', d['n']))] = v
            return
        if 'x' not in d or d['x'] is None:
            s = shape(ty)
            st.mem[l] = Rec(None, {}, strip(ty)) if s in ('r', 'v') and strip(ty) not in self.p.enums else Arr(None) if s == 'a' else mk('undef')
            return
        x = d['x']
        if ty.endswith('&'):
            st.mem[l] = self.addr(self.lv(x, st, fr))
        elif x['k'] == 'ctor':
            v = self.construct(x, st, fr, Loc(l))
            if v is not None:
                st.mem[l] = v
        else:
            st.mem[l] = self.ev(x, st, fr)

    def switch(self, n, st, fr, rt):
        if n.get('var'):
            self.stmt(n['var'], st, fr, rt)
        c = reify(self.ev(n['c'], st, fr))
        b = n.get('b')
        items = b['s'] if b and b['k'] == 'block' else [b] if b else []
        flat, labels = [], []
        for x in items:
            while x is not None and x['k'] in ('case', 'default'):
                labels.append((len(flat), None if x['k'] == 'default' else x['v'].get('cv', x['v'].get('v'))))
                x = x.get('s')
            if x is not None:
                flat.append(x)

        def go(i):
            r = self.seq(flat[i:], st.fork(), fr, rt)
            if 'brk' in r:
                x = r.pop('brk')
                if 'next' in r:
                    y = r['next']
                    r['next'] = (nor(x[0], y[0]), merge(x[0], x[1], y[1]), None)
                else:
                    r['next'] = x
            return r
        dflt = [i for i, v in labels if v is None]
        if c.k == 'c':
            hit = [i for i, v in labels if v == c.a[0]] or dflt
            return go(hit[0]) if hit else {'next': (C(1), st, None)}
        out = go(dflt[0]) if dflt else {'next': (C(1), st.fork(), None)}
        bypos = {}
        for i, v in labels:
            if v is not None:
                bypos.setdefault(i, []).append(v)
        for i in sorted(bypos, reverse=True):
            t = C(0)
            for v in bypos[i]:
                t = nor(t, nbin('==', c, C(v)))
            out = self.join(t, go(i), out)
        return out

    # -------------------------------------------------------------- loops
    def loop(self, n, st, fr, rt):
        k = n['k']
        if k == 'for':
            pre = self.stmt(n.get('i'), st, fr, rt) if n.get('i') else {'next': (C(1), st, None)}
            if 'next' not in pre:
                return pre
            return self.then(pre, self.iterate(n.get('c'), n.get('b'), n.get('n'), pre['next'][1], fr, rt, False))
        if k == 'while':
            if n.get('var'):
                raise Unsupported('declaration in a loop condition')
            return self.iterate(n['c'], n.get('b'), None, st, fr, rt, False)
        if k == 'do':
            return self.iterate(n['c'], n.get('b'), None, st, fr, rt, True)
        return self.rangefor(n, st, fr, rt)

    def rangefor(self, n, st, fr, rt):
        l = self.lv(n['r'], st, fr)
        ty = self.T(n['r'])
        s = shape(ty)
        if s == 'v':
            cnt, arr = self.vsize(l, strip(ty), st), self.sub(l, '#d')
        elif s == 'a':
            m = re.search(r'\[(\d+)\]', ty)
            cnt, arr = C(int(m.group(1))), l
        else:
            raise Unsupported('range for')
        self.nt += 1
        ctr = mk('root', 'T%d' % self.nt)
        st.mem[ctr] = C(0)
        var = n['v']
        vl = self.local(fr, var['i'])
        vt = self.p.type(var['t'])

        def test(s):
            return nbin('<', reify(s.mem[ctr]), cnt)

        def bind(s):
            e = self.sub(arr, reify(s.mem[ctr]))
            s.mem[vl] = self.addr(e) if vt.endswith('&') else self.loadloc(e, vt, s)

        def step(s):
            s.mem[ctr] = nbin('+', reify(s.mem[ctr]), C(1))
        return self.iterate(test, n.get('b'), step, st, fr, rt, False, bind)

    def once(self, body, inc, st, fr, rt, bind=None):
        """one pass of body and increment: outcomes, with 'continue' folded in"""
        if bind:
            bind(st)
        r = self.stmt(body, st, fr, rt)
        if 'cont' in r:
            x = r.pop('cont')
            if 'next' in r:
                y = r['next']
                r['next'] = (nor(x[0], y[0]), merge(x[0], x[1], y[1]), None)
            else:
                r['next'] = x
        if 'next' in r and inc is not None:
            s = r['next'][1]
            if callable(inc):
                inc(s)
            else:
                self.ev(inc, s, fr)
        return r

    def test(self, c, st, fr):
        if c is None:
            return C(1)
        if callable(c):
            return c(st)
        return self.cnd(c, st, fr)

    def iterate(self, c, body, inc, st, fr, rt, post, bind=None):
        start = st.fork()
        cur = {'next': (C(1), st, None)}
        outs = []
        first = True
        for it in range(self.unroll):
            s = cur['next'][1]
            if not (post and first):
                t = self.test(c, s, fr)
                v = truthy(t)
                if v is None:
                    if it == 0 or it == 1 and post:
                        break
                    # the trip count depends on the data after all
                    break
                if not v:
                    return self.loopexit(cur)
            first = False
            cur = self.then(cur, self.once(body, inc, s, fr, rt, bind))
            if 'next' not in cur:
                return self.loopexit(cur)
        return self.recurrence(c, body, inc, start, fr, rt, post, bind)

    def loopexit(self, r):
        r = dict(r)
        if 'brk' in r:
            x = r.pop('brk')
            if 'next' in r:
                y = r['next']
                r['next'] = (nor(x[0], y[0]), merge(x[0], x[1], y[1]), None)
            else:
                r['next'] = x
        return r

    def recurrence(self, c, body, inc, st, fr, rt, post, bind):
        self.depth += 1
        if self.depth > 8:
            raise Unsupported('deep loops')
        d = self.depth
        try:
            locs = []          # (root, path, kind)
            logs = []
            bases = {}         # (root, path) -> object a pointer steps through
            loose = set()
            for attempt in range(8):
                s = st.fork()
                inits = []
                for j, (r, p, kd) in enumerate(locs):
                    v = self.loadloc(Loc(r, p), '', s)
                    n = reify(v)
                    m = mk('mu', d, j)
                    if kd == 'n' and (r, p) not in loose:
                        sp = split(n)
                        if sp:
                            bases[(r, p)] = sp[0]
                            inits.append(sp[1])
                            self.store(Loc(r, p), unsplit(sp[0], m), s)
                            continue
                    inits.append(n)
                    self.store(Loc(r, p), m if kd == 'n' else Arr(m) if kd == 'a' else Lazy(m), s)
                for j, ch in enumerate(logs):
                    inits.append(s.log.get(ch) or mk('nolog'))
                    s.log[ch] = mk('mu', d, len(locs) + j)
                before = s.fork()
                t = C(1) if post else self.test(c, s, fr)
                top = s.fork()
                r = self.once(body, inc, s, fr, rt, bind)
                tail = None
                if post and 'next' in r:
                    tail = self.test(c, r['next'][1], fr)
                ends = [x[1] for x in r.values()] + [top]
                for e in ends:
                    # what one turn of the loop makes, and writes to objects it chose, in no order
                    pairs = []
                    for root in [x for x in e.mem if x.k == 'root' and x.a[0].startswith('new') and x not in before.mem]:
                        pairs += [C('new ' + str(self.newcls.get(root.a[0]))), reify(e.mem.pop(root))]
                    if pairs:
                        self.effect(e, 'made', mk('bag', *pairs))
                    pairs = []
                    for root in [x for x in e.mem if x.fv and max(x.fv) >= d and x not in before.mem]:
                        v = reify(e.mem.pop(root))
                        if v is not root:
                            pairs += [root, v]
                    if pairs:
                        self.effect(e, 'objects', mk('bag', *pairs))
                new = []
                for e in ends:
                    for root, v in e.mem.items():
                        o = before.mem.get(root)
                        if o is None:
                            if root.k == 'root' and (root.a[0][0] in 'LT' and (root not in st.mem)):
                                continue
                            if root.k == 'root' and root.a[0].startswith('new'):
                                continue
                            o = Lazy(root)
                        if v is o:
                            continue
                        self.diff(o, v, root, (), new)
                fresh = []
                have = [(a, b) for a, b, _ in locs]
                for root, p, kd in new:
                    if (root, p) in have or any(a is root and p[:len(b)] == b for a, b in have):
                        continue
                    if any(root is x[0] and p == x[1] for x in fresh):
                        continue
                    if any(isinstance(q, N) and q.fv and max(q.fv) >= d for q in p):
                        # an element chosen inside the loop: the whole array changes
                        p = p[:[isinstance(q, N) and bool(q.fv) and max(q.fv) >= d for q in p].index(True)]
                        kd = 'a'
                        if any(root is x[0] and p == x[1] for x in fresh):
                            continue
                    fresh.append((root, p, kd))
                flogs = [ch for e in ends for ch in e.log if e.log[ch] is not (before.log.get(ch) or None) and ch not in logs]
                flogs = sorted(set(flogs))
                if root_bad(fresh, d):
                    raise Unsupported('object chosen inside a loop')
                if not fresh and not flogs:
                    bad = [k for k, b in bases.items() if k not in loose and any(
                        (split(reify(self.loadloc(Loc(*k), '', e))) or (None,))[0] != b for e in ends)]
                    if not bad:
                        break
                    loose |= set(bad)
                    continue
                # an array swallows its parts
                for root, p, kd in fresh:
                    locs = [x for x in locs if not (x[0] is root and len(x[1]) > len(p) and x[1][:len(p)] == p)]
                fresh = [x for x in fresh if not any(y is not x and y[0] is x[0] and len(y[1]) < len(x[1]) and x[1][:len(y[1])] == y[1] for y in fresh)]
                locs += fresh
                logs += flogs
            else:
                raise Unsupported('loop does not settle')
            def one(a, b, state):
                n = reify(self.loadloc(Loc(a, b), '', state))
                return split(n)[1] if (a, b) in bases and (a, b) not in loose else n

            def vals(state):
                return [one(a, b, state) for a, b, _ in locs] + [state.log.get(ch) or mk('nolog') for ch in logs]
            kinds = sorted(k for k in r if k != 'next')
            parts = [t, tail if tail is not None else C(1)]
            nexts = vals(r['next'][1]) if 'next' in r else inits
            nc = r['next'][0] if 'next' in r else C(0)
            exits = []
            for k in kinds:
                x = r[k]
                exits += [x[0]] + vals(x[1]) + [reify(x[2]) if x[2] is not None else mk('undef')]
            m = len(inits)
            ld = mk('loopdef', d, int(post), m, ','.join(kinds), t, tail if tail is not None else C(1), nc, *(inits + nexts + vals(top) + exits))
            fin = st.fork()
            for j, (a, b, kd) in enumerate(locs):
                x = mk('loop', ld, j)
                if (a, b) in bases and (a, b) not in loose:
                    x = unsplit(bases[(a, b)], x)
                self.store(Loc(a, b), Arr(x) if kd == 'a' else x if kd == 'n' else Lazy(x), fin)
            for j, ch in enumerate(logs):
                fin.log[ch] = mk('loop', ld, len(locs) + j)
            out = {}
            how = mk('loop', ld, -1)          # 'next' 'brk' 'ret' 'thr'
            nonlocalk = [k for k in kinds if k in ('ret', 'thr')]
            left = C(1)
            for k in nonlocalk:
                q = nbin('==', how, C(k))
                left = nand(left, nnot(q))
                v = None
                if k == 'ret' and r[k][2] is not None:
                    v = mk('loop', ld, -2)
                    if r[k][2].__class__ is Rec:
                        v = Rec(v, {}, r[k][2].cls)
                out[k] = (q, fin.fork(), v)
            out['next'] = (left, fin, None)
            return out
        finally:
            self.depth -= 1

    def diff(self, o, v, root, p, out):
        if same(o, v):
            return
        if v.__class__ is Rec:
            if o.__class__ is Lazy and v.base is o.p or o.__class__ is Rec and o.base is v.base or o.__class__ is Rec and o.base is None:
                ks = set(v.f) | (set(o.f) if o.__class__ is Rec else set())
                for k in sorted(ks):
                    self.diff(child(o, k), child(v, k), root, p + (k,), out)
                return
            out.append((root, p, 'l'))
            return
        if v.__class__ is Arr:
            if all(i.k == 'c' for i, _ in v.w) and (o.__class__ is Lazy and v.base is o.p or o.__class__ is Arr and o.base is v.base and all(i.k == 'c' for i, _ in o.w)):
                for i, x in v.w:
                    self.diff(child(o, i), x, root, p + (i,), out)
                return
            out.append((root, p, 'a'))
            return
        if v.__class__ is Lazy:
            out.append((root, p, 'l'))
            return
        out.append((root, p, 'n'))


def root_bad(fresh, d):
    return any(x[0].fv and max(x[0].fv) >= d for x in fresh)


# ---------------------------------------------------------------- storage
def dump(outs):
    """{name: node} -> json-able"""
    nodes, index = [], {}

    def put(root):
        stack = [root]
        while stack:
            n = stack[-1]
            if n.i in index:
                stack.pop()
                continue
            todo = [x for x in n.a if x.__class__ is N and x.i not in index]
            if todo:
                stack += todo
                continue
            index[n.i] = len(nodes)
            nodes.append([n.k] + [[index[x.i]] if x.__class__ is N else (x if x.__class__ is not float or abs(x) < 1e300 else 'inf') for x in n.a])
            stack.pop()
        return index[root.i]
    o = {k: put(v) for k, v in sorted(outs['out'].items())}
    b = {k: put(v) for k, v in sorted(outs['objs'].items())}
    return dict(nodes=nodes, out=o, objs=b, cls=outs['cls'])


def undump(d):
    memo = []
    for n in d['nodes']:
        memo.append(mk(n[0], *[memo[x[0]] if isinstance(x, list) else (float('inf') if x == 'inf' and n[0] == 'c' else x) for x in n[1:]]))
    return dict(out={k: memo[v] for k, v in d['out'].items()}, objs={k: memo[v] for k, v in d['objs'].items()}, cls=d['cls'])
