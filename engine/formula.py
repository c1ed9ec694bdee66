"""Value numbering of guarded formulas by random interpretation.

A function without effects is summarised as a set of paths, each a list of
(condition, polarity) and a value, all of them terms extracted by engine.paths.
Two summaries are compared by interpreting the terms over assignments of their
atoms (Gulwani/Necula, "Global value numbering using random interpretation"):
arithmetic, vectors and the usual mathematical functions are interpreted,
everything else is an uninterpreted function of its interpreted arguments.  No
code is run: only terms are evaluated.  Equal terms in whatever form are equal;
a difference at one assignment is a difference of the functions.
"""
import hashlib, math, random


# ------------------------------------------------------------------ storage
def pack(paths):
    """[(conds, value)] -> json-able node table"""
    nodes, index = [], {}

    def put(t):
        if isinstance(t, (tuple, list)):
            n = ['t'] + [put(x) for x in t]
        else:
            n = ['a', t]
        k = repr(n)
        if k not in index:
            index[k] = len(nodes)
            nodes.append(n)
        return index[k]
    ps = [[[[put(c), bool(pol)] for c, pol in conds], put(v)] for conds, v in paths]
    return dict(nodes=nodes, paths=ps)


def unpack(d):
    memo = []
    for n in d['nodes']:
        memo.append(n[1] if n[0] == 'a' else tuple(memo[i] for i in n[1:]))
    return [([(memo[c], pol) for c, pol in conds], memo[v]) for conds, v in d['paths']]


# ------------------------------------------------------------------ values
class V:
    """three components; kind 'v' (vector: * is the dot product) or 'c' (colour: * is by component)"""
    __slots__ = ('k', 'x')

    def __init__(self, k, x):
        self.k, self.x = k, tuple(x)

    def __repr__(self):
        return '%s(%s)' % (self.k, ', '.join('%.4g' % a if isinstance(a, (int, float)) else str(a) for a in self.x))


class O:
    """an uninterpreted value"""
    __slots__ = ('h',)

    def __init__(self, h):
        self.h = h

    def num(self):
        return (self.h % 100003) / 50001.5 - 1.0 + 1e-3

    def __repr__(self):
        return 'opaque#%x' % (self.h & 0xffff)


class Unknown(Exception):
    pass


def digest(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), 'big')


def token(x):
    """what a value contributes to the identity of an uninterpreted application"""
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, float)):
        if x != x:
            return 'nan'
        if x in (float('inf'), float('-inf')):
            return str(x)
        return float('%.6g' % x) + 0.0
    if isinstance(x, V):
        return (x.k,) + tuple(token(a) for a in x.x)
    if isinstance(x, O):
        return x.h
    return x


def num(x):
    if isinstance(x, O):
        return x.num()
    if isinstance(x, V):
        return O(digest('num', token(x))).num()
    if isinstance(x, str):
        return O(digest('str', x)).num()
    return x


def close(a, b):
    if isinstance(a, V) or isinstance(b, V):
        if not (isinstance(a, V) and isinstance(b, V)):
            return None
        r = [close(x, y) for x, y in zip(a.x, b.x)]
        return None if None in r else all(r)
    if isinstance(a, str) or isinstance(b, str):
        return a == b if isinstance(a, str) and isinstance(b, str) else None
    if isinstance(a, O) and isinstance(b, O):
        return a.h == b.h
    a, b = num(a), num(b)
    if a != a or b != b or abs(a) == float('inf') or abs(b) == float('inf'):
        return None
    return abs(a - b) <= 1e-5 * max(1.0, abs(a), abs(b))


NAN = float('nan')


def safe(f):
    def g(*a):
        try:
            r = f(*a)
            return NAN if isinstance(r, complex) else r
        except (ValueError, ZeroDivisionError, OverflowError):
            return NAN
    return g


def trunc(x):
    return NAN if x != x or abs(x) == float('inf') else math.trunc(x)


def fl(x):
    return NAN if x != x or abs(x) == float('inf') else math.floor(x)


def rnd(x):
    return NAN if x != x or abs(x) == float('inf') else math.floor(x + 0.5)


MATH = {'sin': math.sin, 'cos': math.cos, 'tan': math.tan, 'asin': math.asin, 'acos': math.acos, 'exp': math.exp, 'sqrt': math.sqrt,
        'log': math.log, 'log10': math.log10, 'fabs': abs, 'abs': abs, 'floor': fl, 'ceil': lambda x: NAN if x != x or abs(x) == float('inf') else math.ceil(x), 'lfloor': fl,
        'round': rnd, 'lround': rnd, 'pow': math.pow, 'atan2': math.atan2, 'atan': math.atan, 'fmod': math.fmod, 'degToRad': math.radians, 'radToDeg': math.degrees,
        'lceil': lambda x: NAN if x != x else math.ceil(x), 'hypot': math.hypot, 'sinh': math.sinh, 'cosh': math.cosh, 'tanh': math.tanh, 'cbrt': lambda x: math.copysign(abs(x) ** (1 / 3.), x)}
MATH = {k: safe(f) for k, f in MATH.items()}
MATH.update({k + 'f': f for k, f in list(MATH.items())})


def lift(f, a, b):
    """componentwise for vectors and colours"""
    if isinstance(a, V) or isinstance(b, V):
        k = a.k if isinstance(a, V) else b.k
        xa = a.x if isinstance(a, V) else (num(a),) * 3
        xb = b.x if isinstance(b, V) else (num(b),) * 3
        return V(k, [f(x, y) for x, y in zip(xa, xb)])
    return f(num(a), num(b))


def div(a, b):
    return NAN if b == 0 else a / b


def base(n):
    """unqualified name of a function"""
    n = n.strip()
    if n.endswith(('operator->', 'operator>', 'operator>=', 'operator>>', 'operator<', 'operator<=', 'operator<<')):
        return n[n.rindex('operator'):]
    if 'operator' in n:
        return n[n.rindex('operator'):]
    if n.endswith('>'):
        d = 0
        for i in range(len(n) - 1, -1, -1):
            d += (n[i] == '>') - (n[i] == '<')
            if d == 0:
                n = n[:i]
                break
    d = 0
    for i in range(len(n) - 1, 0, -1):
        d += (n[i] == '>') - (n[i] == '<')
        if d == 0 and n[i - 1:i + 1] == '::':
            return n[i + 1:]
    return n


VEC = ('CqBasicVec3', 'CqVector3D', 'CqVec3Data')
COL = ('CqBasicColor', 'CqColor')


def kind(cls):
    c = cls.split('<')[0].split('::')[-1]
    return 'c' if c in COL else 'v' if c in VEC else None


class Interp:
    """one assignment of the atoms"""

    def __init__(self, atoms, seed):
        self.atoms, self.seed = atoms, seed      # atoms: term -> value, drawn on demand
        self.memo = {}
        self.names = set()

    def draw(self, t):
        return O(digest(self.seed, t))

    def ev(self, t):
        k = id(t)
        if k in self.memo and self.memo[k][0] is t:
            return self.memo[k][1]
        r = self._ev(t)
        self.memo[k] = (t, r)
        return r

    def _ev(self, t):
        if not isinstance(t, tuple) or not t:
            return t
        a = self.atoms(self, t)
        if a is not None:
            return a
        k = t[0]
        if k in ('int', 'float'):
            try:
                return float(str(t[1]).rstrip('fFlLuU')) if k == 'float' else t[1]
            except ValueError:
                return self.opaque(t)
        if k == 'str':
            return t[1]
        if k == 'null':
            return 0
        if k == 'cast':
            x = self.ev(t[2])
            n = t[1].split('::')[-1]
            if n in ('int', 'unsigned int', 'long', 'unsigned long', 'TqInt', 'TqUint', 'short', 'unsigned short', 'unsigned char', 'char') and isinstance(x, (int, float, O)):
                return trunc(num(x))
            if n == 'bool' and isinstance(x, (int, float)):
                return int(x != 0)
            return x
        if k == 'un':
            x = self.ev(t[2])
            if t[1] == '-':
                return V(x.k, [-num(c) for c in x.x]) if isinstance(x, V) else -num(x)
            if t[1] == '!':
                return int(not self.truth(x))
            if t[1] == '+':
                return x
            return self.app(('un', t[1]), [x])
        if k == 'bin':
            return self.bin(t[1], t[2], t[3])
        if k == '?':
            return self.ev(t[2] if self.truth(self.ev(t[1])) else t[3])
        if k == 'r':
            return self.call(t)
        if k == 'ctor':
            kd = kind(t[1])
            xs = [self.ev(x) for x in t[2]]
            if kd:
                if len(xs) == 3:
                    return V(kd, [num(x) for x in xs])
                if len(xs) == 0:
                    return V(kd, [0.0, 0.0, 0.0])
                if len(xs) == 1:
                    if isinstance(xs[0], V):
                        return V(kd, xs[0].x)
                    if isinstance(xs[0], (int, float)):
                        return V(kd, [xs[0]] * 3)
            if len(xs) == 1 and t[1].split('<')[0].split('::')[-1] in ('CqString', 'basic_string'):
                return xs[0]
            return self.app(('ctor', t[1].split('<')[0].split('::')[-1]), xs)
        if k == 'upd':
            return self.upd(t)
        if k == 'idx':
            o, i = self.ev(t[1]), self.ev(t[2])
            if isinstance(o, V) and i in (0, 1, 2):
                return o.x[int(i)]
            if isinstance(o, tuple) and o and o[0] == 'list' and isinstance(i, (int, float)) and 0 <= i < len(o) - 1:
                return o[1 + int(i)]
            return self.app(('idx',), [o, i])
        if k == 'init':
            return ('list',) + tuple(self.ev(x) for x in t[1:]) if not (len(t) == 2 and isinstance(t[1], tuple) and t[1] and isinstance(t[1][0], tuple)) else ('list',) + tuple(self.ev(x) for x in t[1])
        if k in ('deref', 'addr'):
            return self.app((k,), [self.ev(t[1])])
        return self.opaque(t)

    def opaque(self, t):
        return self.app(('o',) + tuple(x for x in t if not isinstance(x, tuple)), [self.ev(x) for x in t if isinstance(x, tuple)])

    def app(self, head, xs):
        self.names.add(head)
        return O(digest(self.seed, head, tuple(self.tok(x) for x in xs)))

    def tok(self, x):
        if isinstance(x, tuple):
            return tuple(self.tok(y) for y in x)
        return token(x)

    def truth(self, x):
        if isinstance(x, O):
            return bool(digest(self.seed, 'truth', x.h) & 1)
        if isinstance(x, str):
            return True
        if isinstance(x, V) or isinstance(x, tuple):
            return True
        return bool(x)

    def bin(self, op, a, b):
        if op == '&&':
            return int(self.truth(self.ev(a)) and self.truth(self.ev(b)))
        if op == '||':
            return int(self.truth(self.ev(a)) or self.truth(self.ev(b)))
        x, y = self.ev(a), self.ev(b)
        return self.arith(op, x, y)

    def arith(self, op, x, y):
        if op in ('==', '!='):
            r = None
            if isinstance(x, (O, str)) and isinstance(y, (O, str)) and not (isinstance(x, O) and isinstance(y, O)):
                r = bool(digest(self.seed, 'eq', tuple(sorted([str(token(x)), str(token(y))]))) & 1)
            else:
                r = close(x, y)
                if r is None:
                    r = token(x) == token(y) if not (isinstance(x, float) and x != x) else False
            return int(r == (op == '=='))
        if op == '*' and isinstance(x, V) and isinstance(y, V):
            if x.k == 'v' and y.k == 'v':
                return sum(num(p) * num(q) for p, q in zip(x.x, y.x))
            return V('c', [num(p) * num(q) for p, q in zip(x.x, y.x)])
        if op == '%' and isinstance(x, V) and isinstance(y, V):
            (a, b, c), (d, e, f) = [num(q) for q in x.x], [num(q) for q in y.x]
            return V('v', [b * f - c * e, c * d - a * f, a * e - b * d])
        if op in ('+', '-', '*'):
            if any(isinstance(z, (str, tuple)) for z in (x, y)):
                return self.app(('bin', op), [x, y])
            return lift({'+': lambda p, q: p + q, '-': lambda p, q: p - q, '*': lambda p, q: p * q}[op], x, y)
        if op == '/':
            if any(isinstance(z, (str, tuple)) for z in (x, y)):
                return self.app(('bin', op), [x, y])
            if isinstance(x, int) and isinstance(y, int) and not isinstance(x, bool):
                return NAN if y == 0 else int(math.trunc(x / y))
            return lift(div, x, y)
        if op in ('<', '>', '<=', '>='):
            p, q = num(x), num(y)
            if isinstance(p, tuple) or isinstance(q, tuple):
                return self.app(('bin', op), [x, y])
            return int({'<': p < q, '>': p > q, '<=': p <= q, '>=': p >= q}[op])
        if op in ('%', '&', '|', '^', '<<', '>>') and isinstance(x, int) and isinstance(y, int):
            try:
                return {'%': lambda: int(math.fmod(x, y)), '&': lambda: x & y, '|': lambda: x | y, '^': lambda: x ^ y, '<<': lambda: x << y, '>>': lambda: x >> y}[op]()
            except (ValueError, ZeroDivisionError):
                return NAN
        return self.app(('bin', op), [x, y])

    def call(self, t):
        b = base(t[1])
        obj = self.ev(t[2]) if t[2] is not None and t[2] != ('*this',) else None
        xs = [self.ev(x) for x in t[3]]
        if b.startswith('operator') and not b[8:9].isalpha():
            op = b[8:]
            ys = ([obj] if obj is not None else []) + xs
            if len(ys) == 2 and op in ('+', '-', '*', '/', '%', '<', '>', '<=', '>=', '==', '!='):
                if not (op == '*' and isinstance(ys[0], O) and isinstance(ys[1], V)):     # a matrix applied to a vector
                    return self.arith(op, ys[0], ys[1])
            if len(ys) == 1 and op == '-':
                return V(ys[0].k, [-num(c) for c in ys[0].x]) if isinstance(ys[0], V) else -num(ys[0])
            if op == '[]' and len(ys) == 2 and isinstance(ys[0], V) and ys[1] in (0, 1, 2):
                return ys[0].x[int(ys[1])]
            if op == '[]' and len(ys) == 2:
                return self.app(('idx',), ys)
            return self.app(('op', op), ys)
        if b in MATH and obj is None and xs and all(isinstance(x, (int, float, O)) for x in xs):
            if b in ('log', 'logf') and len(xs) == 2:
                pass
            else:
                try:
                    return MATH[b](*[num(x) for x in xs])
                except TypeError:
                    pass
        if b in ('min', 'max', 'fmin', 'fmax') and len(xs) == 2 and obj is None:
            f = (lambda p, q: p if p < q else q) if 'min' in b else (lambda p, q: p if p > q else q)
            if not any(isinstance(x, (str, tuple)) for x in xs):
                return lift(f, *xs)
        if b == 'clamp' and len(xs) == 3 and obj is None and not any(isinstance(x, (str, tuple)) for x in xs):
            lo = lift(lambda p, q: p if p > q else q, xs[0], xs[1])
            return lift(lambda p, q: p if p < q else q, lo, xs[2])
        if b == 'lerp' and len(xs) == 3 and obj is None:
            try:
                return self.arith('+', self.arith('*', self.arith('-', 1.0, xs[0]), xs[1]), self.arith('*', xs[0], xs[2]))
            except TypeError:
                pass
        if isinstance(obj, V) and not xs:
            p = [num(c) for c in obj.x]
            if b in ('x', 'r', 'fRed'):
                return p[0]
            if b in ('y', 'g', 'fGreen'):
                return p[1]
            if b in ('z', 'b', 'fBlue'):
                return p[2]
            if b == 'Magnitude':
                return math.sqrt(sum(c * c for c in p))
            if b == 'Magnitude2':
                return sum(c * c for c in p)
            if b in ('unit', 'Unit'):
                return unit(obj)
        if b == 'vectorCast' and len(xs) == 1 and isinstance(xs[0], V):
            return xs[0]
        return self.app(('f', b), ([obj] if obj is not None else []) + xs)

    def upd(self, t):
        # ('upd', old value, method, args)
        o = self.ev(t[1])
        b = base(t[2]) if isinstance(t[2], str) else None
        args = t[3] if len(t) > 3 and isinstance(t[3], tuple) else ()
        xs = [self.ev(x) for x in args]
        if b in ('x', 'y', 'z', 'h', 'r', 'g', 'b', 'fRed', 'fGreen', 'fBlue', 'operator[]') and (not xs or b == 'operator[]'):
            return o                    # an accessor that is not declared const
        if b == 'Unit' and isinstance(o, V):
            return unit(o)
        if b in ('x', 'y', 'z', 'r', 'g', 'b', 'SetfRed', 'SetfGreen', 'SetfBlue') and isinstance(o, V) and len(xs) == 1:
            i = {'x': 0, 'y': 1, 'z': 2, 'r': 0, 'g': 1, 'b': 2, 'SetfRed': 0, 'SetfGreen': 1, 'SetfBlue': 2}[b]
            p = list(o.x)
            p[i] = num(xs[0])
            return V(o.k, p)
        if b in ('operator+=', 'operator-=', 'operator*=', 'operator/=', 'operator%=') and len(xs) == 1 and isinstance(o, (int, float, V)):
            return self.arith(b[8], o, xs[0])
        return self.app(('upd', b or str(t[2])), [o] + xs)


def unit(o):
    p = [num(c) for c in o.x]
    m = math.sqrt(sum(c * c for c in p))
    return V(o.k, [div(c, m) for c in p])


# -------------------------------------------------------------- comparison
GRID = [-2.0, -1.0, -0.5, 0.0, 0.25, 0.5, 1.0, 2.0, 3.5]


def collect(paths):
    """all subterms"""
    seen, out, todo = set(), [], [x for c, v in paths for x in [v] + [a for a, _ in c]]
    while todo:
        t = todo.pop()
        if not isinstance(t, tuple) or id(t) in seen:
            continue
        seen.add(id(t))
        out.append(t)
        todo.extend(t)
    return out


def vocabulary(paths):
    """names of everything uninterpreted"""
    return {tag(t) for t in collect(paths)} - {None}


def tag(t):
    if not t or not isinstance(t[0], str):
        return None
    if t[0] == 'r':
        return 'f:' + base(t[1])
    if t[0] == 'upd':
        return 'f:' + base(str(t[2]))
    if t[0] == 'ctor':
        return 'c:' + t[1].split('<')[0].split('::')[-1]
    if t[0] == 'fld':
        return 'm:' + str(t[2])
    if t[0] == 'G':
        return 'g:' + str(t[1])
    if t[0] == 'str':
        return 's:' + str(t[1])
    if t[0] in ('int', 'float', 'bin', 'un', 'cast', '?', 'val', 'P', 'idx', 'deref', 'addr', 'init', 'null', '*this', 'this', 'ptr'):
        return None
    return 'k:' + str(t[0])


INTERPRETED = {'f:' + x for x in list(MATH) + ['min', 'max', 'clamp', 'lerp', 'Magnitude', 'Magnitude2', 'x', 'y', 'z', 'r', 'g', 'b', 'fRed', 'fGreen', 'fBlue', 'Unit', 'unit', 'vectorCast', 'fmin', 'fmax']
               + ['operator' + o for o in ('+', '-', '*', '/', '%', '<', '>', '<=', '>=', '==', '!=', '[]', '+=', '-=', '*=', '/=')]} | {'c:CqBasicVec3', 'c:CqBasicColor', 'c:CqVector3D', 'c:CqColor', 'c:CqString', 'c:basic_string'}


def value(paths, interp):
    """value of the path whose conditions hold; Unknown if there is not exactly one value"""
    hits = []
    for conds, v in paths:
        if all(interp.truth(interp.ev(c)) == pol for c, pol in conds):
            hits.append(interp.ev(v))
    if not hits:
        raise Unknown('no path')
    for h in hits[1:]:
        if not close(hits[0], h):
            raise Unknown('several paths')
    return hits[0]


def compare(old, new, atoms, n=300, seed=1, extra=()):
    """('same', samples used) | ('differs', text) | ('unknown', reason)
    atoms(rng) -> function (interp, term) -> value or None"""
    alien = vocabulary(new) - vocabulary(old) - INTERPRETED - set(extra)
    if alien:
        return 'unknown', 'uses %s' % ', '.join(sorted(alien)[:3])
    used = 0
    for k in range(n):
        a = atoms(random.Random(seed * 1000003 + k), k)
        i1, i2 = Interp(a, k), Interp(a, k)
        try:
            x, y = value(old, i1), value(new, i2)
        except Unknown:
            continue
        if x is None or y is None:
            continue
        c = close(x, y)
        if c is None and not (isinstance(x, (int, float)) and x != x):
            fx = isinstance(x, (int, float)) and abs(x) != float('inf')
            if fx and isinstance(y, (int, float)) and y != y:
                return 'differs', 'undefined where it was %s (%s)' % (x, getattr(a, 'text', lambda: '')())
            continue
        if c is None:
            continue
        used += 1
        if not c:
            return 'differs', '%s instead of %s (%s)' % (y, x, getattr(a, 'text', lambda: '')())
    if not used:
        return 'unknown', 'no assignment reaches a value'
    return 'same', used
