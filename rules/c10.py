"""C10: the binary RIB encoding is the documented one, for reader and writer."""
from .ricommon import *
from .c09 import one, TKZ, TOK
from engine.throws import children

FMT = 'Aqsis::(anonymous namespace)::BinaryFormatter'
GET = 'Aqsis::RibInputBuffer::get'


NARROW = ('char', 'signed char', 'unsigned char', 'short', 'unsigned short')


# ---------------------------------------------------------------- arithmetic of bytes
def lin(t):
    """linear form {atom: coefficient} of an integer/real term over ('byte', n) and opaque atoms, or None"""
    k = t[0]
    if k == 'byte':
        return {t: 1}
    if k in ('int', 'float'):
        return {(): t[1]} if t[1] else {}
    if k == 'cast':
        if t[1] in ('char', 'signed char') and strip_casts(t[2])[0] == 'byte':
            return {('signed', strip_casts(t[2])): 1}
        l = lin(t[2])
        if t[1] in NARROW and l and set(l) - {()} and (len(l) > 1 or list(l.values()) != [1]):
            return {('narrow', t[1]): 1}
        return l
    if k == 'bin':
        op = t[1]
        if op == '&' and t[3] == ('int', 255) and strip_casts(t[2])[0] == 'byte':
            return lin(t[2])
        a, b = lin(t[2]), lin(t[3])
        if a is None or b is None:
            return None
        if op in ('+', '|', '-'):
            if op == '|' and any(x in b for x in a):
                return None
            out = dict(a)
            for x, c in b.items():
                out[x] = out.get(x, 0) + (c if op != '-' else -c)
            return {x: c for x, c in out.items() if c}
        cb = b.get((), 0) if set(b) <= {()} else None
        ca = a.get((), 0) if set(a) <= {()} else None
        if op == '*' and cb is not None:
            return {x: c * cb for x, c in a.items()}
        if op == '*' and ca is not None:
            return {x: c * ca for x, c in b.items()}
        if op == '<<' and cb is not None:
            return {x: c * (1 << int(cb)) for x, c in a.items()}
        if op == '/' and cb:
            return {x: c / cb for x, c in a.items()}
    return None


def msb(first, n, scale=1):
    return {('byte', first + i): scale * 256 ** (n - 1 - i) for i in range(n)}


# ---------------------------------------------------------------- reader
class ScanPolicy(Policy):
    sym_unroll = 2
    unroll = 40
    max_paths = 3000
    ASCII = ('readNumber', 'readString', 'readRequest', 'readComment')

    def __init__(self, code, root):
        self.code, self.root = code, root
        # the read that starts a token: the first one in the loop
        todo = [root['body']]
        self.first = None
        while todo and self.first is None:
            n = todo.pop(0)
            if n.get('k') == 'call' and n['f'] == GET:
                self.first = id(n)
            todo = list(children(n)) + todo

    def inline(self, w, fn, call):
        if fn['f'] == self.root['f'] or fn['n'] in self.ASCII:
            return False
        return fn['file'].startswith('libs/riutil/ribtokenizer') or fn['n'] in ('min', 'max', 'clamp')

    def call_hook(self, w, call, o, vs, st):
        if call['f'] == GET:
            n = st.env.get(('nb',), ('int', 0))[1]
            if n and id(call) == self.first:
                return [(st, ('!throw', 'again', None, call['l']))]
            st.env[('nb',)] = ('int', n + 1)
            if id(call) == self.first:
                st.env[('start',)] = ('int', 1)
                return ('int', self.code)
            return ('byte', n if ('start',) in st.env else n + 1)
        return None


def kind_of_assign(e):
    """token assignment event -> 'int' | 'float' | 'type'"""
    if e[5].endswith('aSEi'):
        return 'int'
    if e[5].endswith('aSEf') or e[5].endswith('aSEd'):
        return 'float'
    if 'TypeE' in e[5]:
        return 'type'
    return None


def union_value(p, t):
    """value of a term read from a local union: what was last stored into a sibling member"""
    t = strip_casts(t)
    if t[0] == 'fld' and t[1][0] == 'L':
        for k, v in p.env.items():
            if k[0] == 'fld' and k[1] == t[1] and k[2] != t[2]:
                return v
    return None


def outcome(p, tv):
    """what a path of scanNext delivers"""
    typ = val = None
    calls, stores, strs, app = [], [], [], []
    for e in p.events:
        if e[0] == 'call':
            b = e[1].rsplit('::', 1)[-1]
            if e[1] == TOK + '::operator=' and e[2] == ('P', 0):
                k = kind_of_assign(e)
                if k == 'type':
                    typ, val = tv.get(strip_casts(e[3][0])[1] if strip_casts(e[3][0])[0] == 'int' else None), None
                elif k:
                    typ, val = k, e[3][0]
            elif e[1] == TOK + '::error':
                typ, val = 'ERROR', None
            elif b in ScanPolicy.ASCII or b == 'unget' or b == 'scanNext':
                calls.append((b, e[3]))
                if b == 'scanNext':
                    typ, val = 'scanned', None
            elif b == 'operator+=' and e[2] is not None and e[2][0] == 'fld' and e[2][1] == ('P', 0):
                app.append(e[3][0])
            elif b in ('push_back', 'append') and e[2] is not None and e[2][0] == 'fld' and e[2][1] == ('P', 0):
                app.append(e[3][0])
        elif e[0] == 'store':
            stores.append((e[1], e[2]))
    return typ, val, calls, stores, app


def state_of(p, rem):
    """(buffer present, inside an array, end of the array) as decided on the path"""
    buf = arr = None
    for e in p.events:
        if e[0] != 'cond':
            continue
        t, pol = strip_casts(e[1]), e[2]
        s = str(t)
        if 'm_inBuf' in s and buf is None and 'Remaining' not in s:
            buf = pol
        if t[0] == 'bin' and t[2] == rem:
            # normalised comparison with a constant
            op, c = t[1], t[3]
            if c[0] == 'int' and arr is None:
                f = {'>=': lambda x: x >= c[1], '<': lambda x: x < c[1], '>': lambda x: x > c[1], '<=': lambda x: x <= c[1],
                     '==': lambda x: x == c[1], '!=': lambda x: x != c[1]}.get(op)
                if f:
                    arr = {x for x in (-1, 0, 1, 2) if f(x) == pol}
    return buf, arr


def reader(ck, prog):
    fn = one(prog, TKZ + '::scanNext')
    ck.fn(fn)
    te = prog.enums.get(TOK + '::Type')
    if not te:
        raise Broken('token types not found')
    tv = {v: n.rsplit('::', 1)[1] for n, v in te['c']}
    ints = [f['n'] for f in prog.classes[TKZ]['fields'] if prog.type(f['t']) == 'int']
    if len(ints) != 1:
        ck.undecided(at(fn), 'array counter not recognised')
        return
    rem = ('fld', STAR_THIS, ints[0])
    flds = {f['n']: prog.type(f['t']) for f in prog.classes[TKZ]['fields']}
    reqtab = [n for n, t in flds.items() if t.startswith('std::vector<std::') and 'string' in t]
    for code in range(256):
        pol = ScanPolicy(code, fn)
        try:
            ps = Walker(prog, pol).run(fn)
        except (paths.Overflow, paths.Unsupported) as e:
            ck.undecided(at(fn), 'byte %03o: %s' % (code, type(e).__name__))
            continue
        norm = [p for p in ps if ('start',) in p.env]
        if code == 0:
            array_mode(ck, fn, [p for p in ps if ('start',) not in p.env], rem, tv)
        if not norm:
            ck.violation('byte %03o unread' % code, at(fn), 'no path reads a byte %03o' % code)
            continue
        ck.ob('byte', sample='%03o: %d paths' % (code, len(norm)))
        one_byte(ck, fn, code, norm, tv, rem, reqtab)


def array_mode(ck, fn, ps, rem, tv):
    """inside an encoded float array: n elements, then the end"""
    seen = set()
    for p in ps:
        typ, val, calls, stores, app = outcome(p, tv)
        buf = None
        for e in p.events:
            if e[0] == 'cond' and 'm_inBuf' in str(e[1]):
                buf = e[2]
                break
        if p.end[0] == 'throw':
            continue
        if typ == 'ENDOFFILE':
            seen.add('nobuf')
            continue
        ck.ob('array element', sample=str(typ))
        # which remaining counts take this path?
        ok = set()
        for x in (0, 1, 2, 5):
            if all(holds(e, rem, x) for e in p.events if e[0] == 'cond'):
                ok.add(x)
        left = [v for lv, v in stores if lv == rem]
        if typ == 'ARRAY_END':
            seen.add('end')
            if ok - {0}:
                ck.violation('array ends early', at(fn), 'an encoded array of %d more elements is ended' % max(ok))
        elif typ == 'float':
            seen.add('elem')
            if 0 in ok:
                ck.violation('array overrun', at(fn), 'an element is read after the last one of an encoded array')
            v = union_value(p, val)
            l = lin(v) if v is not None else None
            if l is None:
                ck.undecided(at(fn), 'value of an array element')
            elif l != msb(1, 4):
                ck.violation('array element bytes', at(fn), 'an array element is not four bytes, most significant first')
        else:
            ck.violation('array element is %s' % typ, at(fn), 'inside an encoded float array the reader delivers %s' % typ)
        for v in left[-1:]:
            l = lin_rem(v, rem)
            if l is not None and ok and l != -1:
                ck.violation('array count', at(fn), 'the number of elements left changes by %d per token' % l)
        if not left:
            ck.violation('array count', at(fn), 'the number of elements left is not counted down')
    if not {'end', 'elem'} <= seen:
        ck.violation('array mode %s' % sorted(seen), at(fn), 'an encoded array has no %s' % ('end' if 'end' not in seen else 'elements'))


def lin_rem(v, rem):
    v = strip_casts(v)
    if v == rem:
        return 0
    if v[0] == 'bin' and v[1] in '+-' and v[2] == rem and v[3][0] == 'int':
        return v[3][1] if v[1] == '+' else -v[3][1]
    if v[0] == 'int':
        return None
    return None


def holds(e, rem, x):
    from engine.absval import evalt
    try:
        v = ev(e[1], rem, x)
    except Exception:
        return True
    return v is None or bool(v) == bool(e[2])


def ev(t, rem, x):
    if t == rem:
        return x
    if t[0] == 'int':
        return t[1]
    if t[0] == 'cast':
        return ev(t[2], rem, x)
    if t[0] == 'bin':
        a, b = ev(t[2], rem, x), ev(t[3], rem, x)
        if a is None or b is None:
            return None
        return {'+': a + b, '-': a - b, '<': a < b, '>': a > b, '<=': a <= b, '>=': a >= b, '==': a == b, '!=': a != b}.get(t[1])
    if t[0] == 'un' and t[1] == '!':
        a = ev(t[2], rem, x)
        return None if a is None else not a
    return None


DIGITS = set(b'0123456789-+.')


def expected(code):
    c = chr(code)
    if c in ' \t\n\r':
        return ('skip',)
    if c == '#':
        return ('comment',)
    if code in DIGITS:
        return ('number',)
    if c == '"':
        return ('string',)
    if c == '[':
        return ('type', 'ARRAY_BEGIN')
    if c == ']':
        return ('type', 'ARRAY_END')
    if code < 0o200:
        return ('request',)
    if code <= 0o203:
        return ('int', code - 0o200 + 1)
    if code <= 0o217:
        return ('fixed', (code & 3) + 1, (code - 0o200) >> 2)
    if code <= 0o237:
        return ('short', code - 0o220)
    if code <= 0o243:
        return ('long', code - 0o240 + 1)
    if code == 0o244:
        return ('float', 4)
    if code == 0o245:
        return ('float', 8)
    if code == 0o246:
        return ('use-request',)
    if 0o310 <= code <= 0o313:
        return ('array', code - 0o310 + 1)
    if code == 0o314:
        return ('def-request',)
    if code in (0o315, 0o316):
        return ('def-string', code - 0o315 + 1)
    if code in (0o317, 0o320):
        return ('use-string', code - 0o317 + 1)
    if code == 0o377:
        return ('type', 'ENDOFFILE')
    return ('reserved',)


def one_byte(ck, fn, code, ps, tv, rem, reqtab):
    want = expected(code)
    name = '%03o' % code
    ok = True

    def bad(msg):
        ck.violation('byte %s' % name, at(fn), 'byte %s (%s): %s' % (name, ' '.join(map(str, want)), msg))
    delivered = set()
    for p in ps:
        typ, val, calls, stores, app = outcome(p, tv)
        again = p.end[0] == 'throw' and p.end[1] == 'again'
        if p.end[0] == 'throw' and not again:
            bad('the reader raises %s' % p.end[1])
            continue
        nb = p.env[('nb',)][1] - 1
        w = want[0]
        ac = [c for c in calls]
        if w == 'skip':
            if not again or calls or typ:
                bad('is not skipped')
        elif w == 'comment':
            if not again or [c[0] for c in calls] != ['readComment'] or typ:
                bad('does not start a comment')
        elif w in ('number', 'request'):
            if again or [c[0] for c in calls] != ['unget', 'readNumber' if w == 'number' else 'readRequest'] or typ:
                bad('is not read as a %s' % w)
        elif w == 'string':
            if again or [c[0] for c in calls] != ['readString']:
                bad('is not read as a string')
        elif w == 'type':
            if again or calls or typ != want[1]:
                bad('delivers %s' % typ)
        elif w == 'reserved':
            if again or typ != 'ERROR':
                bad('is not rejected')
        elif w == 'int':
            l = lin(val) if val is not None else None
            if again or typ != 'int':
                bad('delivers %s' % typ)
            elif l is None:
                ck.undecided(at(fn), 'value of byte %s' % name)
            elif l != msb(1, want[1]) or nb != want[1]:
                bad('is not the value of the next %d bytes, most significant first' % want[1])
        elif w == 'fixed':
            l = lin(val) if val is not None else None
            if again or typ != 'float':
                bad('delivers %s' % typ)
            elif l is None:
                ck.undecided(at(fn), 'value of byte %s' % name)
            elif l != msb(1, want[1], 1 / 256.0 ** want[2]) or nb != want[1]:
                bad('is not the fixed point number of the next %d bytes with %d of them behind the point' % want[1:])
        elif w == 'float':
            v = union_value(p, val) if val is not None else None
            l = lin(v) if v is not None else None
            if again or typ != 'float':
                bad('delivers %s' % typ)
            elif l is None:
                ck.undecided(at(fn), 'value of byte %s' % name)
            elif l != msb(1, want[1]) or nb != want[1]:
                bad('is not the floating point number of the next %d bytes, most significant first' % want[1])
        elif w == 'short':
            b = [strip_casts(x) for x in app]
            if again or typ != 'STRING':
                bad('delivers %s' % typ)
            elif nb != want[1]:
                bad('reads %d bytes' % nb)
            elif b != [('byte', i + 1) for i in range(want[1])]:
                if any(x[0] != 'byte' for x in b) or not b and want[1]:
                    ck.undecided(at(fn), 'characters of byte %s' % name)
                else:
                    bad('is not the next %d bytes in order' % want[1])
        elif w == 'long':
            if again or typ != 'STRING':
                bad('delivers %s' % typ)
                continue
            n = want[1]
            b = [strip_casts(x) for x in app]
            if b != [('byte', n + 1 + i) for i in range(len(b))]:
                bad('does not take the bytes after the length in order')
            lens = []
            for e in p.events:
                if e[0] == 'cond' and e[1][0] == 'bin' and e[1][1] in ('<', '<=', '>', '>=', '!=', '=='):
                    for side, other in ((2, 3), (3, 2)):
                        l = lin(e[1][side])
                        if l and any(a and a[0] == 'byte' for a in l) and e[1][other][0] == 'int':
                            lens.append((l, e[1][1], e[1][other][1], e[2], side))
            if not lens:
                ck.undecided(at(fn), 'length of byte %s' % name)
            for l, op, c, pol, side in lens:
                if l != msb(1, n):
                    bad('its length is not the next %d bytes, most significant first' % n)
                    break
            else:
                # the path with k characters must be the one for length k
                got = set(range(0, 6))
                for l, op, c, pol, side in lens:
                    f = {'<': lambda x: x < c, '>': lambda x: x > c, '<=': lambda x: x <= c, '>=': lambda x: x >= c, '==': lambda x: x == c, '!=': lambda x: x != c}[op]
                    if side == 3:
                        f = {'<': lambda x: c < x, '>': lambda x: c > x, '<=': lambda x: c <= x, '>=': lambda x: c >= x, '==': lambda x: c == x, '!=': lambda x: c != x}[op]
                    got = {x for x in got if f(x) == pol}
                if lens and got and got != {len(b)}:
                    bad('a string of length %s is read with %d bytes' % (sorted(got), len(b)))
        elif w == 'array':
            if again or typ != 'ARRAY_BEGIN':
                bad('delivers %s' % typ)
            v = [v for lv, v in stores if lv == rem]
            l = lin(v[-1]) if v else None
            if not v:
                bad('the number of elements is not kept')
            elif l is None:
                ck.undecided(at(fn), 'length of byte %s' % name)
            elif l != msb(1, want[1]) or nb != want[1]:
                bad('its length is not the next %d bytes, most significant first' % want[1])
        elif w == 'use-request':
            if again or typ not in ('REQUEST', 'ERROR') or nb != 1:
                bad('delivers %s' % typ)
            elif typ == 'REQUEST':
                delivered.add('REQUEST')
                if not any('string' in str(lv) or True for lv, v in stores if lv[0] == 'fld' and lv[1] == ('P', 0) and uses_index(v, ('byte', 1), reqtab)):
                    bad('the name is not that of the request with the code that follows')
            else:
                delivered.add('ERROR')
        elif w == 'def-request':
            sc = [c for c in calls if c[0] == 'scanNext']
            if len(sc) != 1:
                bad('no string follows')
            if again:
                delivered.add('defined')
                st = [(lv, v) for lv, v in stores if str(lv).find(reqtab[0] if reqtab else '?') >= 0]
                if not st:
                    bad('the request is not kept')
                elif not any(strip_casts(x) == ('byte', 1) for t in terms(st[-1][0]) for x in index_of(t)):
                    bad('the request is not kept under the code given')
                if not checked_string(p, tv):
                    bad('something other than a string is accepted as a request name')
            else:
                delivered.add('ERROR')
                if typ != 'ERROR':
                    bad('delivers %s' % typ)
        elif w == 'def-string':
            sc = [c for c in calls if c[0] == 'scanNext']
            if len(sc) != 1:
                bad('no string follows')
            if again:
                delivered.add('defined')
                hit = False
                for lv, v in stores:
                    for t in terms(lv):
                        if t[0] in ('idx', 'r') and any(lin(x) == msb(1, want[1]) for x in terms(t) if isinstance(x, tuple) and x and x[0] in ('byte', 'bin', 'cast')):
                            hit = True
                if not hit:
                    bad('the string is not kept under the code given by the next %d bytes' % want[1])
                if not checked_string(p, tv):
                    bad('something other than a string is kept')
            else:
                delivered.add('ERROR')
                if typ != 'ERROR':
                    bad('delivers %s' % typ)
        elif w == 'use-string':
            if again or typ not in ('STRING', 'ERROR') or nb != want[1]:
                bad('delivers %s after %d bytes' % (typ, nb))
                continue
            delivered.add(typ)
            arg = [e for e in p.events if e[0] == 'call' and e[1].endswith('::find')]
            if arg and not any(lin(x) == msb(1, want[1]) for x in arg[0][3]):
                bad('the string looked up is not the one with the code that follows')
    need = {'use-request': {'REQUEST', 'ERROR'}, 'use-string': {'STRING', 'ERROR'}, 'def-request': {'defined', 'ERROR'}, 'def-string': {'defined', 'ERROR'}}.get(want[0], set())
    for m in need - delivered:
        bad('never leads to %s' % m)


def index_of(t):
    if t[0] == 'idx':
        return [t[2]]
    if t[0] == 'r' and t[1].endswith(('operator[]', '::at')):
        return list(t[3])
    return []


def uses_index(v, b, tab):
    ts = list(terms(v)) + [v]
    return any(strip_casts(x) == b for t in ts for x in index_of(t)) and (not tab or any(t[0] == 'fld' and t[2] in tab for t in ts if len(t) > 2))


def checked_string(p, tv):
    """the token scanned was found to be a string"""
    S = [v for v, n in tv.items() if n == 'STRING'][0]
    for e in p.events:
        if e[0] == 'cond' and 'm_type' in str(e[1]) or e[0] == 'cond' and 'type' in str(e[1]):
            t = strip_casts(e[1])
            if t[0] == 'bin' and t[1] in ('==', '!=') and ('int', S) in (t[2], t[3]):
                if (t[1] == '==') == e[2]:
                    return True
        if e[0] == 'switch' and e[2] == S:
            return True
    return False


# ---------------------------------------------------------------- writer
class PrintPolicy(Policy):
    sym_unroll = 1
    max_paths = 3000

    def __init__(self, keep=()):
        self.keep = keep

    def inline(self, w, fn, call):
        return fn['f'].startswith(FMT + '::') and fn['id'] not in self.keep or fn['n'] in ('min', 'max')


def written(p):
    """the bytes a path writes: list of ('byte', term) | ('raw', pointer, length) | ('print', ...)"""
    out, mem = [], {}
    for e in p.events:
        if e[0] == 'store' and e[1][0] == 'idx' and e[1][2][0] == 'int':
            mem[(e[1][1], e[1][2][1])] = e[2]
        if e[0] != 'call':
            continue
        b = e[1].rsplit('::', 1)[-1]
        if e[1].startswith('std::basic_ostream') and b == 'put':
            out.append(('byte', e[3][0]))
        elif e[1].startswith('std::basic_ostream') and b == 'write':
            ptr, n = strip_casts(e[3][0]), strip_casts(e[3][1])
            off = 0
            if ptr[0] == 'un' and ptr[1] == '&' and ptr[2][0] == 'idx' and ptr[2][2][0] == 'int':
                off, ptr = ptr[2][2][1], ptr[2][1]
            if ptr[0] == 'bin' and ptr[1] in '+-' and ptr[3][0] == 'int':
                off, ptr = off + (ptr[3][1] if ptr[1] == '+' else -ptr[3][1]), ptr[2]
            if n[0] == 'int' and (ptr, off) in mem:
                for i in range(n[1]):
                    out.append(('byte', mem.get((ptr, off + i), ('none',))))
            elif n[0] == 'int' and any(k[0] == ptr for k in mem):
                for i in range(n[1]):
                    out.append(('byte', mem.get((ptr, off + i), ('none',))))
            else:
                out.append(('raw', ptr if not off else ('bin', '+', ptr, ('int', off)), e[3][1]))
        elif e[1].startswith(FMT + '::print'):
            out.append(('print', e[3][0], e[5]))
        elif e[1].startswith('std::operator<<') or e[1].startswith('std::basic_ostream'):
            out.append(('other', e[1]))
    return out


def byte_of(t):
    """(value, shift) if the term is one byte of a value"""
    sh = 0
    while True:
        if t[0] == 'cast':
            t = t[2]
        elif t[0] == 'bin' and t[1] == '&' and t[3] == ('int', 255):
            t = t[2]
        elif t[0] == 'bin' and t[1] == '>>' and t[3][0] == 'int':
            sh, t = sh + t[3][1], t[2]
        else:
            return t, sh


def bound(p, val):
    """an exclusive upper bound of val from the decisions of the path"""
    zero, ub = set(), 1 << 32
    for e in p.events:
        if e[0] != 'cond':
            continue
        t, pol = e[1], e[2]
        v, sh = byte_of(strip_casts(t))
        if v == val and sh % 8 == 0 and strip_casts(t)[0] != 'bin' or v == val and strip_casts(t)[0] == 'bin' and strip_casts(t)[1] in ('&', '>>'):
            s = strip_casts(t)
            masked = '255' in str(s) or 'char' in str(t)
            if not pol:
                if masked:
                    zero.add(sh // 8)
                else:
                    ub = min(ub, 1 << sh)
            continue
        if t[0] == 'bin' and t[1] in ('<', '<=', '>', '>=', '==', '!=') and t[3][0] == 'int':
            v2, sh2 = byte_of(t[2])
            if v2 != val:
                continue
            c = t[3][1]
            op = t[1] if pol else {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[t[1]]
            hi = {'<': c, '<=': c + 1, '==': c + 1}.get(op)
            if hi is not None:
                if sh2 == 0 and strip_casts(t[2]) == val:
                    ub = min(ub, hi)
                elif hi == 1 and ('255' in str(t[2]) or 'char' in str(t[2])):
                    zero.add(sh2 // 8)
                elif '255' not in str(t[2]):
                    ub = min(ub, hi << sh2)
    j = 3
    while j in zero:
        j -= 1
    return min(ub, 256 ** (j + 1))


def int_code(ck, fn, p, seq, base, val, what):
    """checks that seq starts with an integer val encoded behind base; returns the rest or None"""
    if not seq or seq[0][0] != 'byte' or strip_casts(seq[0][1])[0] != 'int':
        ck.undecided(at(fn), '%s: prefix not read' % what)
        return None
    code = strip_casts(seq[0][1])[1] & 255
    h = code - base
    if not 0 <= h <= 3:
        ck.violation('%s prefix' % what, at(fn), '%s is written behind byte %03o' % (what, code))
        return None
    bs = seq[1:2 + h]
    got = []
    for b in bs:
        if b[0] != 'byte':
            ck.violation('%s bytes of prefix %03o' % (what, code), at(fn), '%s behind prefix %03o is not followed by %d bytes' % (what, code, h + 1))
            return None
        got.append(byte_of(b[1]))
    ck.ob('written integer', sample='%s behind %03o' % (what, code))
    if [g[1] for g in got] != [8 * (h - i) for i in range(h + 1)]:
        ck.violation('%s bytes of prefix %03o' % (what, code), at(fn), '%s behind prefix %03o is not written as its low %d bytes, most significant first' % (what, code, h + 1))
        return None
    vs = {g[0] for g in got}
    if len(vs) != 1 or (val is not None and strip_casts(list(vs)[0]) != strip_casts(val)):
        ck.violation('%s value of prefix %03o' % (what, code), at(fn), 'what is written is not %s' % what)
        return None
    ub = bound(p, list(vs)[0])
    if ub > 256 ** (h + 1):
        ck.violation('%s cut to %d bytes' % (what, h + 1), at(fn), '%s of up to %#x is written in %d bytes' % (what, ub - 1, h + 1))
    return seq[2 + h:]


def word_ok(ck, fn, bs, val, what):
    """four bytes of the float val, most significant first"""
    got = [byte_of(b[1]) for b in bs if b[0] == 'byte']
    if len(got) != 4 or [g[1] for g in got] != [24, 16, 8, 0] or len({g[0] for g in got}) != 1:
        ck.violation('%s bytes' % what, at(fn), '%s is not written as four bytes, most significant first' % what)
        return
    v = got[0][0]
    if not any(t == val for t in list(terms(v)) + [v]):
        if strip_casts(v)[0] == 'fld' or v[0] == 'uninit':
            ck.undecided(at(fn), 'bits of %s' % what)
        else:
            ck.violation('%s value' % what, at(fn), 'the bits written are not those of %s' % what)


def writer(ck, prog):
    fs = [f for f in prog.funcs.values() if f['f'] == FMT + '::print' and f.get('body')]
    by = {}
    for f in fs:
        by[prog.type(f['p'][0]['t'])] = f
    need = {'int', 'float', 'const char *'}
    if not need <= set(by):
        raise Broken('binary formatter has no print for %s' % (need - set(by)))
    P0 = ('P', 0)
    elem_ids = {f['id'] for f in fs}

    def walk(f, keep=()):
        ck.fn(f)
        return [p for p in Walker(prog, PrintPolicy(keep)).run(f) if p.end[0] != 'throw']
    # integers
    f = by['int']
    for p in walk(f):
        rest = int_code(ck, f, p, written(p), 0o200, P0, 'an integer')
        if rest:
            ck.violation('integer trailer', at(f), 'more than the integer is written')
    # floats
    f = by['float']
    for p in walk(f):
        w = written(p)
        ck.ob('written float')
        if not w or w[0][0] != 'byte' or strip_casts(w[0][1])[0] != 'int' or strip_casts(w[0][1])[1] & 255 != 0o244:
            ck.violation('float prefix', at(f), 'a float is not written behind byte 244')
            continue
        word_ok(ck, f, w[1:], P0, 'a float')
    # strings
    f = by['const char *']
    for p in walk(f):
        w = written(p)
        ck.ob('written string')
        if not w:
            ck.violation('string dropped', at(f), 'a string is not written at all')
            continue
        pre = strip_casts(w[0][1]) if w[0][0] == 'byte' else None
        if pre is not None and pre[0] == 'bin' and pre[1] == '+' and pre[3][0] == 'int':
            ln = strip_casts(pre[2])
            if pre[3][1] & 255 != 0o220:
                ck.violation('short string prefix', at(f), 'a short string is written behind %03o + length' % (pre[3][1] & 255))
            if bound(p, ln) > 16:
                ck.violation('short string limit', at(f), 'strings of 16 characters and more get a short prefix, which means something else')
            rest = w[1:]
        elif pre is not None and pre[0] == 'int':
            ln = None
            rest = int_code(ck, f, p, w, 0o240, None, 'a string length')
            if rest is None:
                continue
            ln = strip_casts(byte_of(w[1][1])[0])
        else:
            ck.undecided(at(f), 'string prefix')
            continue
        if any(t[0] == 'cast' and t[1] in NARROW and any(x[0] == 'r' for x in terms(t[2])) for e in p.events if e[0] == 'call' and e[1].endswith('::write') and e[3][0] == P0 for t in terms(e[3])):
            ck.violation('string length narrowed', at(f), 'the length of a long string is cut off')
        if not (ln[0] == 'r' and 'len' in ln[1] and P0 in ln[3]) and not (ln[0] == 'r' and ln[1].endswith('::size') or ln[0] == 'r' and ln[1].endswith('::length')):
            ck.violation('string length', at(f), 'the length written is not that of the string')
        if len(rest) != 1 or rest[0][0] != 'raw' or strip_casts(rest[0][1]) != P0 or strip_casts(rest[0][2]) != ln:
            ck.violation('string body', at(f), 'the characters of the string are not written exactly once behind their number')
    # arrays
    for ty, f in sorted(by.items()):
        if not ty.startswith('const Aqsis::Ri::Array<'):
            continue
        flt = ty.startswith('const Aqsis::Ri::Array<float>')
        for p in walk(f, keep=() if flt else elem_ids - {f['id']}):
            w = written(p)
            sizes = None
            if flt:
                rest = int_code(ck, f, p, w, 0o310, None, 'an array length')
                if rest is None:
                    continue
                ln = byte_of(w[1][1])[0]
                if not (strip_casts(ln)[0] == 'r' and strip_casts(ln)[1].endswith('::size') and strip_casts(ln)[2] == P0):
                    ck.violation('array length', at(f), 'the length written is not that of the array')
                n = count(p)
                if n is None:
                    ck.undecided(at(f), 'loop of %s' % ty)
                    continue
                ck.ob('written array', sample='%d floats' % n)
                if len(rest) != 4 * n:
                    ck.violation('float array body', at(f), 'an array of %d floats is written as %d bytes' % (n, len(rest)))
                for i in range(len(rest) // 4):
                    v = byte_of(rest[4 * i][1])[0] if rest[4 * i][0] == 'byte' else None
                    want = [t for t in terms(v) if t[0] == 'r' and t[1].endswith('operator[]') and t[3] == (('int', i),)] if v is not None else []
                    word_ok(ck, f, rest[4 * i:4 * i + 4], want[0] if want else ('missing', i), 'element %d' % i)
            else:
                n = count(p)
                ck.ob('written array', sample='%s of %s' % (n, ty))
                if n is None:
                    ck.undecided(at(f), 'loop of %s' % ty)
                    continue
                ok = len(w) == n + 2 and w[0] == ('byte', ('int', 91)) and w[-1] == ('byte', ('int', 93))
                for i in range(n):
                    ok = ok and w[1 + i][0] == 'print' and any(t[0] == 'r' and t[1].endswith('operator[]') and t[3] == (('int', i),) for t in [strip_casts(w[1 + i][1])])
                if not ok:
                    ck.violation('array of %s' % ty, at(f), 'an array of %d elements is not written as [ elements ]' % n)
    # requests
    f = one(prog, FMT + '::beginRequest')
    seen = set()
    for p in walk(f, keep=elem_ids):
        w = written(p)
        known = None
        for e in p.events:
            if e[0] == 'cond' and '::end' in str(e[1]):
                t = strip_casts(e[1])
                pol = e[2]
                if t[0] == 'bin' and t[1] in ('==', '!='):
                    known = (t[1] == '!=') == pol
                elif t[0] == 'r' and 'operator==' in t[1]:
                    known = not pol
                elif t[0] == 'r' and 'operator!=' in t[1]:
                    known = pol
        ck.ob('written request', sample='known=%s' % known)
        B = lambda x: ('byte', x)
        pre = [strip_casts(x[1])[1] & 255 if x[0] == 'byte' and strip_casts(x[1])[0] == 'int' else None for x in w]
        if known is None:
            ck.undecided(at(f), 'request lookup')
            continue
        seen.add(known)
        if known:
            if len(w) != 2 or pre[0] != 0o246:
                ck.violation('known request', at(f), 'a request that has a code is not written as 246 code')
            elif strip_casts(w[1][1])[0] == 'int' or strip_casts(w[1][1])[0] == 'fld' and strip_casts(w[1][1])[2] != 'second':
                ck.violation('known request code', at(f), 'the code written is not the one kept for the request')
        else:
            if len(w) != 5 or pre[0] != 0o314 or pre[3] != 0o246 or w[2][0] != 'print' or strip_casts(w[2][1]) != P0:
                ck.violation('new request', at(f), 'a new request is not written as 314 code name 246 code')
                continue
            if w[1] != w[4]:
                ck.violation('new request code', at(f), 'the code defined is not the code used')
            st = [e for e in p.events if e[0] == 'store']
            kept = [e for e in st if e[1][0] in ('idx', 'r') or 'operator[]' in str(e[1])]
            if kept and strip_casts(kept[-1][2]) != strip_casts(w[1][1]):
                ck.violation('new request kept', at(f), 'the code kept for the request is not the one defined')
            if not kept and not any(e[0] == 'call' and e[1].endswith('::insert') for e in p.events):
                ck.violation('new request not kept', at(f), 'the code is not kept, so codes run out')
            cnt = [e for e in st if e[1][0] == 'fld' and e[1][1] == STAR_THIS]
            if not any(strip_casts(e[2])[0] == 'bin' and strip_casts(e[2])[1] == '+' for e in cnt):
                ck.violation('new request counter', at(f), 'two requests get the same code')
    if seen and seen != {True, False}:
        ck.violation('request codes', at(f), 'requests are never %s' % ('reused' if True not in seen else 'defined'))
    # triples
    for f in prog.find(FMT + '::printTriple'):
        for p in walk(f, keep=elem_ids):
            w = written(p)
            ck.ob('written triple')
            got = [strip_casts(x[1]) for x in w if x[0] == 'print']
            if len(w) != 3 or any(g[0] != 'idx' or g[1] not in (P0, ('deref', P0)) or g[2] != ('int', i) for i, g in enumerate(got)):
                ck.violation('printTriple', at(f), 'the three values are not written in order')


def count(p):
    """number of loop iterations of the path, from the last length decision"""
    n = None
    for e in p.events:
        if e[0] == 'cond' and 'size' in str(e[1]) and e[1][0] == 'bin' and e[1][3][0] == 'int':
            t, pol, c = e[1], e[2], e[1][3][1]
            op = t[1] if pol else {'<': '>=', '>=': '<', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}[t[1]]
            if op in ('<=', '=='):
                n = c
            elif op == '<':
                n = c - 1
    return n


def run(ck):
    prog = facts.load([r'libs/riutil/ribtokenizer\.cpp'])
    ck.units = 2
    reader(ck, prog)
    ck.need('byte', 250)
    wprog = facts.load([r'libs/riutil/ribwriter\.cpp'])
    writer(ck, wprog)
    return ck.finish(
        'The reader is evaluated for each of the 256 values of the first byte of a token with the following bytes '
        'symbolic; the token type, the number of bytes taken and the value as a linear form over these bytes are compared '
        'with the encoding table of the interface specification (appendix C.2). Every path of the binary writer is turned '
        'into the byte sequence it writes and compared with the same table, including that a value fits the number of '
        'bytes chosen for it and that request codes are defined before use.',
        ['the conversion between a float and its bits through a union keeps the bits',
         'no more than 255 different requests exist'])
