"""Comparison of value graphs by random interpretation (global value numbering
after Gulwani and Necula): the nodes of two graphs are given values under the
same assignment of their inputs; known operators and mathematical functions are
interpreted, everything else is an uninterpreted function of its arguments.
Equal graphs, in whatever form, are equal under every assignment; one
difference shows that the functions differ.  No code is run."""
import hashlib, math, random, re, time
from .vgraph import N, mk, text
from .formula import MATH, NAN

LOOPCAP = 60           # iterations of one loop ...
WORK = 120000          # node evaluations per assignment
LONG = 2500            # ... or of all loops together, while they last


class Fragile(Exception):
    """the value hangs on rounding"""


class TooLong(Exception):
    pass


def digest(*xs):
    return int.from_bytes(hashlib.blake2b(repr(xs).encode(), digest_size=8).digest(), 'big')


class O:
    __slots__ = ('h',)

    def __init__(self, h):
        self.h = h

    def __repr__(self):
        return 'value#%04x' % (self.h & 0xffff)


class Cat(O):
    """a string made of parts"""
    __slots__ = ('parts',)


NPOS = (1 << 64) - 1


def _ct(t):
    return lambda c: int(0 <= c < 128 and t(chr(c)))


CTYPE = {'isdigit': _ct(lambda c: '0' <= c <= '9'), 'isspace': _ct(lambda c: c in ' \t\n\v\f\r'), 'isalpha': _ct(lambda c: c.isalpha()), 'isalnum': _ct(lambda c: c.isalnum()),
         'isupper': _ct(lambda c: c.isupper()), 'islower': _ct(lambda c: c.islower()),
         'tolower': lambda c: c + 32 if 65 <= c <= 90 else c, 'toupper': lambda c: c - 32 if 97 <= c <= 122 else c}


class P(O):
    """a pointer that is not null"""
    __slots__ = ()


class Tok:
    """a place whose contents are not known"""
    __slots__ = ('h', 'up', 's')

    def __init__(self, h, up=None, s=None):
        self.h, self.up, self.s = h, up, s

    def name(self):
        if self.up is None:
            return str(self.s)
        return self.up.name() + ('.%s' % self.s if isinstance(self.s, str) else '[%s]' % (int(self.s) if isinstance(self.s, (int, float)) and self.s == self.s else self.s))

    def __repr__(self):
        return self.name()


class RecV:
    __slots__ = ('b', 'f')

    def __init__(self, b, f):
        self.b, self.f = b, f

    def __repr__(self):
        return '{%s}' % ', '.join('%s=%s' % (k, self.f[k]) for k in sorted(self.f, key=str)[:4])


class Fill:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v


class Padded:
    __slots__ = ('b', 'n', 'v')

    def __init__(self, b, n, v):
        self.b, self.n, self.v = b, n, v


class HeapV:
    """objects reached through pointers: place -> contents"""
    def __init__(self):
        self.d = {}


UNDEF = O(digest('undef'))


def idx(i):
    if isinstance(i, float) and i == i and i == math.floor(i):
        return int(i)
    return i


def hof(x):
    return x.h if isinstance(x, (O, Tok)) else digest(token(x))


def select(v, s):
    s = idx(s) if not isinstance(s, str) else s
    if isinstance(v, RecV):
        if s in v.f:
            return v.f[s]
        if not isinstance(s, (int, float, str)):
            k = ('o', hof(s))
            if k in v.f:
                return v.f[k]
        return select(v.b, s)
    if isinstance(v, Fill):
        return v.v if not isinstance(s, str) else (v if s == '#d' else 0 if s == '#n' else v.v)
    if isinstance(v, Padded):
        return select(v.b, s) if not isinstance(s, (int, float)) or s < v.n else v.v
    if v is UNDEF:
        return UNDEF
    if isinstance(v, (int, float)) and not isinstance(s, str):
        return v
    t = token(s)
    return Tok(digest(v.h if isinstance(v, (Tok, O)) else token(v), t), v if isinstance(v, Tok) else Tok(0, None, str(v)[:30]), s)


def token(x, memo=None, depth=0):
    if isinstance(x, bool):
        x = int(x)
    if isinstance(x, (int, float)):
        if x != x:
            return 'nan'
        if abs(x) == float('inf'):
            return str(x)
        r = float('%.6g' % x) + 0.0
        return r
    if isinstance(x, (O, Tok)):
        return x.h
    if isinstance(x, Fill):
        return ('fill', token(x.v))
    if isinstance(x, Padded):
        return ('padded', token(x.b), token(x.n), token(x.v))
    if isinstance(x, RecV):
        if depth > 12:
            return 'deep'
        fs = tuple((str(k), token(x.f[k], None, depth + 1)) for k in sorted(x.f, key=str) if not untouched(x.b, k, x.f[k]))
        b = token(x.b, None, depth + 1)
        return ('rec', b) + fs if fs else b
    if isinstance(x, tuple):
        return tuple(token(y) for y in x)
    return x


def untouched(b, k, v):
    """is v what the place held anyway?"""
    if not isinstance(b, Tok) or isinstance(k, tuple):
        return False
    if isinstance(v, RecV):
        t = token(v)
        return isinstance(t, int) and t == getattr(select(b, k), 'h', None)
    return isinstance(v, Tok) and getattr(select(b, k), 'h', None) == v.h


class Interp:
    def __init__(self, seed, draws, objs=None, cls=None, invariant=None, hints=None):
        self.seed, self.draws, self.objs, self.cls = seed, draws, objs or {}, cls or {}
        self.inv, self.hints = invariant, hints or {}
        self.memo = {}
        self.mode = digest(seed, 'mode') % 4 if seed > 60 else 0     # how inputs are drawn: see fresh()
        if self.hints.get('by') and seed % 5:
            self.mode = 0
        self.mu = {}            # depth -> list of values
        self.lmemo = {}         # depth -> memo of nodes that depend on that loop
        self.busy = set()
        self.places = draws.setdefault('places', {})
        self.steps = 0
        self.work = 0

    # ---------------------------------------------------------- inputs
    def draw(self, tok, kind):
        key = (tok.h, kind)
        d = self.draws
        if key not in d:
            v = NPOS if isinstance(tok.s, str) and tok.s.endswith('::npos') and kind == 'i' else None
            if self.inv:
                v = self.inv(self, tok, kind)
            if v is None:
                rng = random.Random(digest(self.seed, tok.h, kind))
                v = self.fresh(rng, kind, tok)
                if self.mode == 1 and kind != 'p' and digest(self.seed, 'own', tok.h) % 100 >= 4:
                    # twins: the same part of different objects has the same value
                    nm = tok.name()
                    i = min([x for x in (nm.find('.'), nm.find('[')) if x > 0] or [0])
                    v = self.fresh(random.Random(digest(self.seed, nm[i:] if i else kind, kind)), kind, tok)
                elif self.mode >= 2 and kind != 'p' and digest(self.seed, 'own', tok.h) % 100 >= 12:
                    # most inputs are the same
                    v = self.fresh(random.Random(digest(self.seed, 'all', kind)), kind, tok)
            d[key] = v
            d.setdefault('names', []).append((tok.name(), v))
        return d[key]

    def fresh(self, r, kind, tok):
        by = self.hints.get('by')
        if by:
            t = tok.s
            if not isinstance(t, str):
                t = '[]'
            elif tok.up is None and '(' in t:
                t = t[:t.index('(')]
            v = by.get((t, kind))
            if v and r.random() < self.hints['p']:
                v = r.choice(v)
                if kind == 'p':
                    return P(digest(self.seed, 'ptr', tok.h)) if v else 0
                return float(v) if kind == 'f' and isinstance(v, (int, float)) else v
        if kind == 'f':
            x = r.random()
            pool = self.hints.get('f') or ()
            if x < 0.15 and pool:
                return float(r.choice(pool))
            if x < 0.4:
                return r.choice([-2.0, -1.0, -0.5, 0.0, 0.25, 0.5, 1.0, 2.0, 3.5])
            if x < 0.7:
                return r.uniform(0, 1)
            return r.uniform(-3, 3)
        if kind == 'i':
            if tok.s == '#n':
                return r.choice([0, 1, 2, 3, 4, 5, 6])
            x = r.random()
            pool = self.hints.get('i') or ()
            amount = isinstance(tok.s, str) and AMOUNT.search(tok.s)
            if x < self.hints.get('p', 0.55) and pool:
                v = r.choice(pool)
                return abs(v) if amount else v
            if amount:
                return r.randrange(8)
            return r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 6, 7, 8, -1])
        if kind == 'b':
            return r.randrange(2)
        if kind == 's':
            pool = self.hints.get('s') or ()
            if r.random() < 0.15:
                return O(digest(self.seed, 'text', r.randrange(1 << 60)))
            return r.choice(list(pool) + ['other']) if r.random() < 0.8 or not pool else 'other%d' % r.randrange(3)
        if kind == 'p':
            if r.random() < 0.15:
                return 0
            if self.mode and r.random() < 0.25 and self.draws.setdefault('self', tok.h) == tok.h:
                return self.thisptr()
            return P(digest(self.seed, 'ptr', tok.h))
        return O(digest(self.seed, 'any', tok.h))

    def thisptr(self):
        t = Tok(digest('root', 'this'), None, 'this')
        p = P(digest(self.seed, 'addr', token(t), ()))
        self.places[p.h] = t
        return p

    # -------------------------------------------------------- evaluation
    def ev(self, n):
        if n.fv:
            d = max(n.fv)
            m = self.lmemo.setdefault(d, {})
        else:
            m = self.memo
        i = n.i
        if i in m:
            return m[i]
        self.work += 1
        if self.work > WORK:
            raise TooLong()
        r = self._ev(n)
        m[i] = r
        return r

    def num(self, x):
        if isinstance(x, Tok):
            return (digest(self.seed, x.h) % 100003) / 50001.5 - 0.999
        if isinstance(x, O):
            return (x.h % 100003) / 50001.5 - 0.999
        if isinstance(x, (int, float)):
            return x
        return (digest(self.seed, 'num', token(x)) % 100003) / 50001.5 - 0.999

    def truth(self, x):
        if isinstance(x, P):
            return True
        if isinstance(x, (O, Tok)):
            return digest(self.seed, 'truth', x.h) % 100 >= (25, 25, 2, 60)[self.mode]
        if isinstance(x, (int, float)):
            if x != x:
                raise Fragile()
            return x != 0
        return True

    def app(self, *xs):
        return O(digest(self.seed, tuple(token(x) for x in xs)))

    def _ev(self, n):
        k, a = n.k, n.a
        if k == 'c':
            return a[0]
        if k == 'at':
            v = self.ev(a[0])
            if isinstance(v, O) and a[1] == 'i' and a[0].k == 'f' and ('find' in a[0].a[0]):
                x = digest(self.seed, v.h)
                return NPOS if x % 10 < 3 else x // 16 % 6
            if isinstance(v, O) and a[1] in ('f', 'i', 'b', 's'):
                v = Tok(v.h, None, text(a[0])[:40])
            return self.draw(v, a[1]) if isinstance(v, Tok) else v
        if k == 'root':
            if a[0][0] in 'LT' and a[0][1:2].isdigit():
                return Tok(digest('a local'), None, 'local')
            if a[0].startswith('new') and a[0][3:].isdigit():
                return Tok(digest('new', self.cls.get(a[0])), None, 'new %s' % self.cls.get(a[0]))
            return Tok(digest('root', a[0]), None, a[0])
        if k == 'sel':
            b = self.ev(a[0])
            return select(b, a[1] if isinstance(a[1], str) else self.ev(a[1]))
        if k == '?':
            return self.ev(a[1] if self.truth(self.ev(a[0])) else a[2])
        if k == 'bin':
            return self.bin(a[0], a[1], a[2])
        if k == 'un':
            x = self.ev(a[1])
            if a[0] == '!':
                return int(not self.truth(x))
            if a[0] == '-':
                return -self.num(x)
            if a[0] == '~' and isinstance(x, int):
                return ~x
            return self.app('un', a[0], x)
        if k == 'cast':
            x = self.ev(a[1])
            t = a[0]
            if t == 'b':
                return int(self.truth(x))
            if isinstance(x, (O, Tok)) or not isinstance(x, (int, float)):
                return x
            if x != x or abs(x) == float('inf'):
                return NAN
            if t == 'i' or t in ('short', 'char', 'signed char'):
                if isinstance(x, float) and abs(x - round(x)) < 1e-9 and x != round(x):
                    raise Fragile()
                return math.trunc(x)
            if t == 'unsigned char':
                return math.trunc(x) & 0xff
            if t == 'unsigned short':
                return math.trunc(x) & 0xffff
            return x
        if k == 'f':
            return self.fun(a[0], [self.ev(x) for x in a[1:]])
        if k == 'rec':
            f = {}
            names = a[1].split(',') if a[1] else []
            if n.fv:
                return RecV(self.ev(a[0]), {k: self.ev(x) for k, x in zip(names, a[2:])})
            return RecV(self.ev(a[0]), Lz(self, dict(zip(names, a[2:]))))
        if k == 'arr':
            f = {}
            for i in range(1, len(a), 2):
                s = idx(self.ev(a[i]))
                f[s if isinstance(s, (int, float, str)) else ('o', hof(s))] = self.ev(a[i + 1])
            return RecV(self.ev(a[0]), f)
        if k == 'undef':
            return UNDEF
        if k == 'fill':
            return Fill(self.ev(a[0]))
        if k == 'padded':
            return Padded(self.ev(a[0]), self.ev(a[1]), self.ev(a[2]))
        if k == 'pointee':
            x = self.ev(a[0])
            if isinstance(x, P) and x.h in self.places:
                return self.places[x.h]
            return Tok(digest('pointee', token(x)), None, '*' + text(a[0])[:40])
        if k == 'addr':
            if a[0].k == 'root' and a[0].a[0] in self.objs:
                nm = a[0].a[0]
                if nm in self.busy:
                    return O(digest('cycle'))
                self.busy.add(nm)
                try:
                    return P(digest(self.seed, 'new', self.cls.get(nm), token(self.ev(self.objs[nm])), tuple(x if isinstance(x, str) else token(self.ev(x)) for x in a[1:])))
                finally:
                    self.busy.discard(nm)
            r = self.ev(a[0])
            return P(digest(self.seed, 'addr', token(r), tuple(x if isinstance(x, str) else token(self.ev(x)) for x in a[1:])))
        if k == 'ptr+':
            x, i = self.ev(a[0]), self.ev(a[1])
            if i == 0:
                return x
            return P(digest(self.seed, 'ptr+', token(x), token(i)))
        if k == 'mu':
            return self.mu[a[0]][a[1]]
        if k == 'loop':
            r = self.loop(a[0])
            if a[1] == -1:
                return r[0]
            if a[1] == -2:
                return r[2]
            return r[1][a[1]]
        if k == 'out':
            return self.ev(a[1])
        if k == 'heap':
            h = HeapV()
            for i in range(0, len(a), 2):
                try:
                    p, v = self.ev(a[i]), self.ev(a[i + 1])
                except Fragile:
                    raise
                if isinstance(p, (Tok, O)):
                    h.d[p.h] = (p, v)
            return h
        if k == 'bag':
            r = []
            for i in range(0, len(a), 2):
                p, x = self.ev(a[i]), self.ev(a[i + 1])
                tp, tx = token(p), token(x)
                if tp != tx:
                    r.append(repr((tp, tx)))
            return O(digest(self.seed, 'bag', tuple(sorted(r)))) if r else EMPTY
        if k == 'nolog':
            return 'no call'
        if k == 'log':
            if a[1].k == 'f' and a[1].a[0] == 'written':
                x = self.ev(a[1].a[1])
                if isinstance(x, str):      # text runs together, however it is split
                    p = self.ev(a[0])
                    if not x:
                        return p
                    if isinstance(p, tuple) and p[0] == 'then' and isinstance(p[2], tuple) and p[2][0] == 'text':
                        return ('then', p[1], ('text', p[2][1] + x))
                    return ('then', p, ('text', x))
            x = self.ev(a[1])
            return ('then', self.ev(a[0]), x) if x is not EMPTY else self.ev(a[0])
        if k == 'ref':
            return ('ref', self.ev(a[0]))
        return O(digest(self.seed, k, tuple(token(self.ev(x)) if isinstance(x, N) else x for x in a)))

    def loop(self, n):
        m = self.lmemo.setdefault(max(n.fv), {}) if n.fv else self.memo
        if n.i in m:
            return m[n.i]
        a = n.a
        d, post, cnt, kinds, t, tail, nc = a[:7]
        kinds = kinds.split(',') if kinds else []
        rest = a[7:]
        inits, nexts, tops, ex = rest[:cnt], rest[cnt:2 * cnt], rest[2 * cnt:3 * cnt], rest[3 * cnt:]
        cur = [self.ev(x) for x in inits]
        saved = self.mu.get(d), self.lmemo.get(d)
        res = None
        try:
            for it in range(700):
                self.steps += 1
                if it > LOOPCAP and self.steps > LONG:
                    raise TooLong('loop')
                self.mu[d] = cur
                self.lmemo[d] = {}
                for e in list(self.lmemo):
                    if e > d:
                        self.lmemo[e] = {}
                if not post and not self.truth(self.ev(t)):
                    res = ('next', [self.ev(x) for x in tops], None)
                    break
                for j, kd in enumerate(kinds):
                    seg = ex[j * (cnt + 2):(j + 1) * (cnt + 2)]
                    if self.truth(self.ev(seg[0])):
                        res = ('next' if kd == 'brk' else kd, [self.ev(x) for x in seg[1:1 + cnt]], self.ev(seg[1 + cnt]))
                        break
                if res:
                    break
                new = [self.ev(x) for x in nexts]
                if post and not self.truth(self.ev(tail)):
                    res = ('next', new, None)
                    break
                cur = new
            else:
                raise TooLong('loop')
        finally:
            if saved[0] is None:
                self.mu.pop(d, None)
                self.lmemo.pop(d, None)
            else:
                self.mu[d], self.lmemo[d] = saved[0], saved[1] if saved[1] is not None else {}
        m = self.lmemo.setdefault(max(n.fv), {}) if n.fv else self.memo
        m[n.i] = res
        return res

    def bin(self, op, p, q):
        x = self.ev(p)
        if op == '&&':
            return int(self.truth(x) and self.truth(self.ev(q)))
        if op == '||':
            return int(self.truth(x) or self.truth(self.ev(q)))
        y = self.ev(q)
        nx, ny = isinstance(x, (int, float)), isinstance(y, (int, float))
        if nx and isinstance(x, int) and abs(x) >> 64 or ny and isinstance(y, int) and abs(y) >> 64:
            return NAN
        if op in ('==', '!='):
            if nx and ny:
                if x != x or y != y:
                    raise Fragile()
                if x != y and abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y)):
                    raise Fragile()
                return int((x == y) == (op == '=='))
            if (isinstance(x, str) and isinstance(y, O) or isinstance(y, str) and isinstance(x, O)):
                return int(self.same_text(*((x, y) if isinstance(x, O) else (y, x))) == (op == '=='))
            if isinstance(x, (O, Tok)) and ny and y == 0 or isinstance(y, (O, Tok)) and nx and x == 0:
                return int(self.truth(x if ny else y) == (op == '!='))
            return int((token(x) == token(y)) == (op == '=='))
        if isinstance(x, (str, tuple, RecV, Fill)) or isinstance(y, (str, tuple, RecV, Fill)):
            return self.app('bin', op, x, y)
        x, y = self.num(x), self.num(y)
        if x != x or y != y:
            if op in ('<', '>', '<=', '>='):
                raise Fragile()
            return NAN
        if op in ('<', '>', '<=', '>='):
            if x != y and abs(x - y) <= 1e-9 * max(1.0, abs(x), abs(y)):
                raise Fragile()
            return int({'<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[op])
        try:
            if op == '+':
                return x + y
            if op == '-':
                return x - y
            if op == '*':
                return x * y
            if op == '/':
                return NAN if y == 0 else x / y
            if op == 'idiv':
                return NAN if y == 0 else math.trunc(x / y)
            if isinstance(x, float) and x == math.floor(x):
                x = int(x)
            if isinstance(y, float) and y == math.floor(y):
                y = int(y)
            if isinstance(x, int) and isinstance(y, int):
                if op == '%':
                    return NAN if y == 0 else int(math.fmod(x, y))
                if op == '&':
                    return x & y
                if op == '|':
                    return x | y
                if op == '^':
                    return x ^ y
                if op == '<<' and 0 <= y < 64:
                    return x << y
                if op == '>>' and 0 <= y < 64:
                    return x >> y
        except (OverflowError, ValueError):
            return NAN
        return self.app('bin', op, x, y)

    def same_text(self, x, y):
        if isinstance(x, Cat) and any(isinstance(z, str) and z for z in x.parts) and y == '':
            return False
        return bool(digest(self.seed, 'eq', tuple(sorted([str(token(x)), str(token(y))]))) & 1)

    def spelled(self, x):
        """the text an unknown C string points to"""
        if not isinstance(x, P) or not self.hints.get('s'):
            return x
        r = digest(self.seed, 'spelled', x.h)
        pool = self.hints['s']
        return pool[r // 16 % len(pool)] if r % 10 < 7 else x

    def concat(self, xs):
        parts = []
        for x in xs:
            while isinstance(x, tuple) and len(x) == 2 and x[0] == 'ref':
                x = x[1]
            if isinstance(x, Tok):
                x = self.draws.get((x.h, 's'), x)
            if isinstance(x, int) and 0 < x < 256:
                x = chr(x)
            for y in x.parts if isinstance(x, Cat) else [x]:
                if isinstance(y, str) and parts and isinstance(parts[-1], str):
                    parts[-1] += y
                elif y != '':
                    parts.append(y)
        if not parts:
            return ''
        if len(parts) == 1 and isinstance(parts[0], (str, O)):
            return parts[0]
        r = Cat(digest(self.seed, 'cat', tuple(token(x) for x in parts)))
        r.parts = parts
        return r

    def relation(self, f, x, y):
        """comparison operators of classes, by their usual meaning"""
        if f in ('==', '!='):
            t, u = str(token(x)), str(token(y))
            e = 1 if t == u else 0 if isinstance(x, P) and isinstance(y, P) else self.draw(Tok(digest('==', *sorted((t, u))), None, '%s == %s' % (short(x), short(y))), 'b')
            return e if f == '==' else 1 - e
        if f in ('>', '<='):
            x, y = y, x
        t, u = str(token(x)), str(token(y))
        if t == u:
            e = 0
        else:
            # one of the two orders at most
            e = self.draw(Tok(digest('<', *sorted((t, u))), None, '%s < %s' % (short(x), short(y))), 'b') ^ (t > u)
        return e if f in ('<', '>') else 1 - e

    def fun(self, f, xs):
        if f.startswith('operator') and len(xs) == 1:
            # asking an object whether it is there
            if f == 'operator!':
                return int(not self.truth(self.fun('operator bool', xs)))
            if f.startswith('operator ') and ('::*' in f or f == 'operator const void *' or f == 'operator void *'):
                f = 'operator bool'
        if f.startswith('operator') and len(xs) == 2 and f[8:] in ('==', '!=', '<', '>', '<=', '>='):
            if all(isinstance(x, str) for x in xs):
                x, y = xs
                return int({'==': x == y, '!=': x != y, '<': x < y, '>': x > y, '<=': x <= y, '>=': x >= y}[f[8:]])
            return self.relation(f[8:], *xs)
        if f in ('min', 'max') and len(xs) == 2:
            x, y = self.num(xs[0]), self.num(xs[1])
            return (y if y < x else x) if f == 'min' else (y if x < y else x)
        if f in MATH and xs and all(isinstance(x, (int, float, O, Tok)) for x in xs):
            v = [self.num(x) for x in xs]
            if f in ('floor', 'ceil', 'round', 'lround') and isinstance(v[0], float) and v[0] == v[0] and abs(v[0]) < 1e15:
                w = v[0] + (0.5 if 'round' in f else 0)
                if w != round(w) and abs(w - round(w)) < 1e-9:
                    raise Fragile()
            try:
                return MATH[f](*v)
            except TypeError:
                pass
        if f.startswith('std::numeric_limits'):
            flt = 'float' in f or 'double' in f
            if f.endswith('::epsilon'):
                return 1.1920929e-07
            if f.endswith('::max'):
                return 3.4028234663852886e+38 if flt else O(digest(f))
            if f.endswith('::infinity'):
                return float('inf')
            if f.endswith('::min'):
                return 1.17549435e-38 if flt else O(digest(f))
        if f in CTYPE and len(xs) == 1 and isinstance(xs[0], int):
            return CTYPE[f](xs[0])
        if f == 'strcmp' and len(xs) == 2:
            x, y = self.spelled(xs[0]), self.spelled(xs[1])
            return int(token(x) != token(y)) if not (isinstance(x, str) and isinstance(y, str)) else (x > y) - (x < y)
        if f == 'concat':
            return self.concat(xs)
        if f in ('strlen', 'size', 'length', 'empty') and len(xs) == 1:
            x = xs[0]
            while isinstance(x, tuple) and len(x) == 2 and x[0] == 'ref':
                x = x[1]
            if isinstance(x, str):
                n = len(x)
            elif isinstance(x, (Cat, RecV)) or not isinstance(x, O):
                n = 1 + digest(self.seed, 'size', token(x)) % 6
            else:
                n = 0 if self.same_text(x, '') else 1 + digest(self.seed, 'size', token(x)) % 6
            return int(n == 0) if f == 'empty' else n
        return O(digest(self.seed, f, tuple(token(x) for x in xs)))


EMPTY = O(0)
# what is counted is not negative
AMOUNT = re.compile(r'(?i)size|count|width|height|shift|length|samples|order$|^m?_?(n|num)[A-Z_]|^m?_?c[A-Z]\w+s$|res(olution)?$')


class Lz(dict):
    """fields evaluated on demand"""

    def __init__(self, interp, nodes):
        dict.__init__(self, nodes)
        self.i = interp

    def __getitem__(self, k):
        v = dict.__getitem__(self, k)
        if v.__class__ is N:
            v = self.i.ev(v)
            self[k] = v
        return v


def close(a, b):
    if a != a or b != b:
        return None
    if abs(a) == float('inf') or abs(b) == float('inf'):
        return True if a == b else None
    return abs(a - b) <= 1e-5 * max(1.0, abs(a), abs(b))


def eq(ia, a, ib, b, path=''):
    """None: equal; otherwise a text"""
    if isinstance(a, HeapV) or isinstance(b, HeapV):
        da = a.d if isinstance(a, HeapV) else {}
        db = b.d if isinstance(b, HeapV) else {}
        for h in list(da) + [h for h in db if h not in da]:
            p = (da.get(h) or db.get(h))[0]
            r = eq(ia, da[h][1] if h in da else p, ib, db[h][1] if h in db else p, p.name() if isinstance(p, Tok) else 'an object')
            if r:
                return r
        return None
    if isinstance(a, RecV) or isinstance(b, RecV):
        ks = list(a.f if isinstance(a, RecV) else ()) + [k for k in (b.f if isinstance(b, RecV) else ()) if not isinstance(a, RecV) or k not in a.f]
        if a is UNDEF or b is UNDEF:
            return None
        if not isinstance(a, (RecV, Tok, Fill, O, Padded)) or not isinstance(b, (RecV, Tok, Fill, O, Padded)):
            return '%s: %s instead of %s' % (path or 'value', b, a)
        for k in sorted(ks, key=str):
            if isinstance(k, tuple):
                x = a.f.get(k) if isinstance(a, RecV) else None
                y = b.f.get(k) if isinstance(b, RecV) else None
                if x is None or y is None:
                    return '%s: an element is %s' % (path, 'not written' if y is None else 'written in addition')
            else:
                x, y = select(a, k), select(b, k)
            r = eq(ia, x, ib, y, path + ('.' + k if isinstance(k, str) else '[%s]' % (k,)))
            if r:
                return r
        x, y = (a.b if isinstance(a, RecV) else a), (b.b if isinstance(b, RecV) else b)
        while isinstance(x, RecV):
            x = x.b
        while isinstance(y, RecV):
            y = y.b
        if x is UNDEF or y is UNDEF or isinstance(x, (Fill, Padded)) or isinstance(y, (Fill, Padded)):
            return None
        if token(x) != token(y):
            return '%s: the rest comes from %s instead of %s' % (path or 'value', y, x)
        return None
    if a is UNDEF:
        return None
    if b is UNDEF:
        return '%s: no value' % (path or 'value')
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        c = close(a, b)
        if c is None:
            return None if a != a or abs(a) == float('inf') else '%s: undefined instead of %.6g' % (path or 'value', a)
        return None if c else '%s: %.6g instead of %.6g' % (path or 'value', b, a)
    if isinstance(a, Tok) and isinstance(b, Tok):
        return None if a.h == b.h else '%s: %s instead of %s' % (path or 'value', b, a)
    for t, v, o in ((a, b, ia), (b, a, ib)):
        if isinstance(t, Tok):
            if isinstance(v, (int, float, str)):
                for kd in 'fibsp':
                    w = o.draws.get((t.h, kd))
                    if w is not None and (w == v or isinstance(v, (int, float)) and isinstance(w, (int, float)) and close(w, v)):
                        return None
                return '%s: %s instead of %s' % (path or 'value', b, a)
            if isinstance(v, O):
                w = o.draws.get((t.h, 'p'))
                w2 = o.draws.get((t.h, 'o'))
                if isinstance(w, O) and w.h == v.h or isinstance(w2, O) and w2.h == v.h:
                    return None
                return '%s: %s instead of %s' % (path or 'value', b, a)
    if isinstance(a, tuple) and isinstance(b, tuple) and a and b and a[0] == b[0] == 'then':
        la, lb = flat(a), flat(b)
        for i, (x, y) in enumerate(zip(la, lb)):
            if token(x) != token(y):
                return '%s: call %d differs' % (path or 'calls', i + 1)
        if len(la) != len(lb):
            return '%s: %d calls instead of %d' % (path or 'calls', len(lb), len(la))
        return None
    return None if token(a) == token(b) else '%s: %s instead of %s' % (path or 'value', short(b), short(a))


def short(x):
    if isinstance(x, tuple):
        return '%d call(s)' % len(flat(x)) if x and x[0] == 'then' else '(..)'
    return str(x)[:60]


def flat(x):
    out = []
    while isinstance(x, tuple) and x and x[0] == 'then':
        out.append(x[2])
        x = x[1]
    return out[::-1]


# -------------------------------------------------------------- vocabulary
def nodes(outs):
    seen, todo, res = set(), list(outs), []
    while todo:
        n = todo.pop()
        if n.i in seen:
            continue
        seen.add(n.i)
        res.append(n)
        todo += [x for x in n.a if x.__class__ is N]
    return res


def words(outs):
    """uninterpreted symbols"""
    w = set()
    for n in nodes(outs):
        if n.k == 'f' and n.a[0] not in MATH and n.a[0] not in ('min', 'max', 'concat', 'strcmp', 'strlen') and not n.a[0].startswith('std::numeric'):
            w.add('f:' + n.a[0])
        elif n.k == 'root' and not n.a[0][0] in 'LT' and not n.a[0].startswith('new'):
            w.add('place:' + n.a[0])
        elif n.k == 'sel' and isinstance(n.a[1], str) and not n.a[1].startswith('#'):
            w.add('member:' + n.a[1])
        elif n.k in ('dyncast', 'fn', 'sizeof'):
            w.add('%s:%s' % (n.k, n.a[0]))
    return w


def hints(*graphs):
    i, f, s = set(), set(), set()
    for g in graphs:
        for n in nodes(list(g['out'].values()) + list(g['objs'].values())):
            if n.k == 'bin' and n.a[0] in ('==', '!=', '<', '>', '<=', '>='):
                for x in n.a[1:]:
                    if x.k == 'c':
                        v = x.a[0]
                        if isinstance(v, int) and abs(v) < 100000:
                            i |= {v} if n.a[0] in ('==', '!=') else {v - 1, v, v + 1}
                        elif isinstance(v, float) and abs(v) < 1e6:
                            f |= {v, v + 1e-3, v - 1e-3} if abs(v) > 1e-2 else {v}
                        elif isinstance(v, str):
                            s.add(v)
            elif n.k == 'c' and isinstance(n.a[0], str):
                if len(n.a[0]) < 40:
                    s.add(n.a[0])
            elif n.k == 'f' and n.a[0] in CTYPE:
                i |= {48, 53, 57, 65, 97, 32}
    return dict(i=sorted(i), f=sorted(f), s=sorted(s))


def unique(a, b):
    """ids of the nodes of a that b does not have"""
    ib = set(n.i for n in nodes(list(b['out'].values()) + list(b['objs'].values())))
    return set(n.i for n in nodes(list(a['out'].values()) + list(a['objs'].values())) if n.i not in ib)


def wanted(c, i, f, s, cap=80):
    """constants a condition compares with, so that it can be true"""
    seen, todo = set(), [c]
    while todo and len(seen) < cap:
        n = todo.pop(0)
        if n.i in seen:
            continue
        seen.add(n.i)
        if n.k == 'bin' and n.a[0] in ('==', '!=', '<', '>', '<=', '>='):
            for x in n.a[1:]:
                if x.k == 'c':
                    v = x.a[0]
                    if isinstance(v, int) and abs(v) < 100000:
                        i += [v] if n.a[0] in ('==', '!=') else [v - 1, v, v + 1]
                    elif isinstance(v, float) and abs(v) < 1e6:
                        f.append(v)
                    elif isinstance(v, str):
                        s.append(v)
        if n.k == 'f' and n.a[0] in CTYPE:
            i += [49, 50, 65, 98, 32]
        if n.k in ('bin', '?', 'un', 'cast'):
            todo += [x for x in n.a if x.__class__ is N]


def tag(n):
    """the name an input is known by: its last member or the function it comes from"""
    x = n.a[0]
    if x.k == 'sel':
        return x.a[1] if isinstance(x.a[1], str) else tag(x) if x.a[0].k == 'sel' else '[]'
    if x.k == 'f':
        return x.a[0]
    return x.a[0] if x.a and isinstance(x.a[0], str) else x.k


def settle(x, v, by, r, far=True):
    """x is to have the value v"""
    if x.k == 'at':
        by.setdefault((tag(x), x.a[1]), []).append(v)
    elif x.k == 'cast':
        settle(x.a[1], v, by, r)
    elif x.k == 'bin' and x.a[0] in ('+', '-') and not isinstance(v, str):
        _, p, q = x.a
        if q.k == 'c' and isinstance(q.a[0], (int, float)):
            settle(p, v - q.a[0] if x.a[0] == '+' else v + q.a[0], by, r)
        elif p.k == 'c' and isinstance(p.a[0], (int, float)):
            settle(q, v - p.a[0] if x.a[0] == '+' else p.a[0] - v, by, r)
    elif x.k == '?':
        settle(x.a[1 if r.random() < 0.5 else 2], v, by, r, far)
    elif far and x.k != 'c':
        scan(x, by, r)


REV = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
NEG = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}


def scan(c, by, r):
    """a value that hangs on loops or searches: let what it compares with be found"""
    seen, todo = set(), [c]
    while todo and len(seen) < 300:
        n = todo.pop(0)
        if n.i in seen:
            continue
        seen.add(n.i)
        if n.k == 'bin' and n.a[0] in ('==', '!=') and r.random() < 0.8:
            x, y = n.a[1:]
            if x.k == 'c':
                x, y = y, x
            if y.k == 'c':
                settle(x, y.a[0], by, r, False)
        elif n.k == 'f' and n.a[0] == 'operator==' and len(n.a) == 3 and r.random() < 0.8:
            x, y = n.a[1:]
            if x.k == 'c':
                x, y = y, x
            if y.k == 'c':
                settle(x, y.a[0], by, r, False)
        todo += [x for x in n.a if x.__class__ is N]


def want(c, val, by, r, depth=0):
    """c is to be true (or false)"""
    if depth > 12:
        return
    k, a = c.k, c.a
    if k == 'un' and a[0] == '!':
        want(a[1], not val, by, r, depth + 1)
    elif k == 'cast' and a[0] == 'b':
        want(a[1], val, by, r, depth + 1)
    elif k == 'at':
        by.setdefault((tag(c), a[1]), []).append(bool(val) if a[1] == 'p' else int(val))
    elif k == 'f' and a[0] in CTYPE and len(a) == 2:
        settle(a[1], r.choice([49, 53, 97, 65]) if val else r.choice([32, 46, 101, 91]), by, r)
    elif k == 'bin' and a[0] in REV:
        op, x, y = a
        if x.k == 'c':
            op, x, y = REV[op], y, x
        if y.k != 'c' or isinstance(y.a[0], bool):
            return
        v = y.a[0]
        if not val:
            op = NEG[op]
        if isinstance(v, str):
            if op == '==':
                settle(x, v, by, r)
        elif op == '==':
            settle(x, v, by, r)
        elif op != '!=':
            d = 1 if isinstance(v, int) else 0.5
            settle(x, {'<': v - d, '>': v + d, '<=': r.choice([v, v - d]), '>=': r.choice([v, v + d])}[op], by, r)
    elif k == '?' or k == 'bin' and a[0] in ('&&', '||'):
        if k == 'bin':
            p, q, t, e = a[1], a[2], a[0] == '&&', None
        else:
            p, q, t = a[0], None, None
            if a[2].k == 'c' and a[2].a[0] == 0:
                q, t = a[1], True
            elif a[1].k == 'c' and a[1].a[0] == 1:
                q, t = a[2], False
        if q is None:
            s = r.random() < 0.5
            want(a[0], s, by, r, depth + 1)
            want(a[1 if s else 2], val, by, r, depth + 1)
        elif t == bool(val):
            want(p, val, by, r, depth + 1)
            want(q, val, by, r, depth + 1)
        else:
            want(p if r.random() < 0.5 else q, val, by, r, depth + 1)


def walk(g, uni, r, full):
    """inputs that lead from a changed output down to a place where the graphs part"""
    roots = [n for n in list(g['out'].values()) + list(g['objs'].values()) if n.i in uni]
    if not roots:
        return full
    i, f, s = [], [], []
    by = {}
    n = r.choice(roots)
    for _ in range(3000):
        kids = [(k, x) for k, x in enumerate(n.a) if x.__class__ is N and x.i in uni]
        if n.k == 'bin':
            for x in n.a[1:]:
                if x.k == 'c' and isinstance(x.a[0], int) and abs(x.a[0]) < 100000:
                    i += [x.a[0]] if n.a[0] in ('==', '!=') else [x.a[0] - 1, x.a[0], x.a[0] + 1]
                elif x.k == 'c' and isinstance(x.a[0], str):
                    s.append(x.a[0])
        if not kids:
            break
        k, x = r.choice(kids)
        if n.k == '?' and k:
            want(n.a[0], k == 1, by, r)
            if k == 1:
                wanted(n.a[0], i, f, s)
        n = x
    if n.k in ('?', 'bin'):
        wanted(n, i, f, s)
    h = dict(full, by=by, p=0.95 if r.random() < 0.6 else 0.7)
    for k, v in (('i', i), ('f', f), ('s', s)):
        if v:
            v = list(dict.fromkeys(v[::-1]))[:24]
            v = v + v[:6] * r.randrange(3)
            h[k] = v + list(r.sample(full[k], min(3, len(full[k]))))
    return h


# ways to move memory that say the same as a loop
RAW = set('f:' + x for x in ('memcpy', 'memmove', 'memset', 'strcpy', 'strncpy', 'strcat', 'sprintf', 'snprintf', 'copy', 'fill', 'swap'))
stats = {}
DIRECTED = 150


def compare(old, new, n=160, invariant=None, skip=(), known_members=None, seconds=None):
    """old, new: graphs.  ('same', samples) | ('differs', output, text) | ('unknown', why)"""
    wo = words(list(old['out'].values()) + list(old['objs'].values()))
    wn = words(list(new['out'].values()) + list(new['objs'].values()))
    alien = wn - wo - (known_members or set()) | (wn ^ wo) & RAW
    h = hints(old, new)
    names = [k for k in old['out'] if k not in skip] + [k for k in new['out'] if k not in old['out'] and k not in skip]
    used = {k: 0 for k in names}
    diffs = {}
    tried = 0
    endless = []
    bad = set()
    uni = None
    t0 = time.time()
    for seed in range(n):
        if seconds and seed > 20 and time.time() - t0 > seconds:
            break
        if len(bad) >= 2 and seed > 40:
            break
        draws = {}
        hh = h
        if seed >= DIRECTED and seed % 4:
            if uni is None:
                uni = unique(old, new), unique(new, old)
            r = random.Random(seed)
            hh = walk(old, uni[0], r, h) if seed % 2 and uni[0] or not uni[1] else walk(new, uni[1], r, h)
        io = Interp(seed, draws, old['objs'], old['cls'], invariant, hh)
        im = Interp(seed, draws, new['objs'], new['cls'], invariant, hh)
        tried += 1
        to = None
        try:
            to = io.truth(io.ev(old['out']['!throw'])) if '!throw' in old['out'] else False
            tn = im.truth(im.ev(new['out']['!throw'])) if '!throw' in new['out'] else False
        except TooLong as e:
            if e.args and to is not None and io.steps < 200:
                endless.append(where(draws))
            continue
        except (Fragile, RecursionError, KeyError):
            continue
        if to != tn:
            bad.add(seed)
            diffs.setdefault('!throw', []).append(('%s where it %s' % ('raises an error' if tn else 'raises no error', 'did not' if tn else 'must'), where(draws)))
            continue
        if to:
            used['!throw'] = used.get('!throw', 0) + 1
            continue
        for k in names:
            if k == '!throw':
                used[k] += 1
                continue
            if len(diffs.get(k, ())) >= 2:
                continue
            a, b = old['out'].get(k), new['out'].get(k)
            x = None
            try:
                x = io.ev(a) if a is not None else missing(io, b, k)
                y = im.ev(b) if b is not None else missing(im, a, k)
                if k == 'return' and (a is None or b is None):
                    continue
                r = eq(io, x, im, y)
            except TooLong as e:
                if e.args and x is not None and io.steps < 200:
                    endless.append(where(draws))
                    break
                continue
            except (Fragile, RecursionError):
                continue
            used[k] += 1
            if r:
                bad.add(seed)
                diffs.setdefault(k, []).append((r, where(draws)))
    if len(endless) >= 12 and not diffs:
        diffs['end'] = [('does not come to an end', endless[0])]
    # a single odd assignment among thousands proves little: inputs no caller makes
    real = diffs if len(bad) > 1 or tried < 1000 or 'end' in diffs else {}
    if real:
        k = sorted(real)[0]
        r, w = real[k][0]
        if alien:
            return 'unknown', 'uses %s' % ', '.join(sorted(alien)[:3])
        return 'differs', k, '%s (%s)' % (r, w)
    stats.clear()
    stats.update(used)
    dead = [k for k in names if not used.get(k)]
    if names and len(dead) == len(names):
        return 'unknown', 'no assignment reaches a value'
    return 'same', tried


def missing(i, other, k):
    if other.k == 'out':
        return i.ev(other.a[0])
    if other.k == 'heap':
        return HeapV()
    return 'no call'


def where(draws):
    return ', '.join('%s=%s' % (n, ('%.4g' % v) if isinstance(v, float) else v) for n, v in draws.get('names', [])[:6])
