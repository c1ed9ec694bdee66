"""Path summaries of the request validator, shared by C02 and C03."""
import json, os, ast
from engine.absval import evalt, poly
from engine.paths import Overflow, Unsupported, INT
from .ricommon import *

CLS = 'Aqsis::RiCxxValidate'
SPEC = json.load(open(os.path.join(os.path.dirname(__file__), 'spec', 'ri.json')))
SCOPES = {'BeginEnd': 1, 'Frame': 2, 'World': 4, 'Attribute': 8, 'Transform': 16, 'Solid': 32, 'Object': 64, 'Motion': 128,
          'Resource': 256, 'Archive': 512, 'Any': -1}
STOP = ('checkParamListArraySizes', 'checkPointParamPresent', 'patchMeshIClassCounts', 'curvesIClassCounts',
        'iclassCount', 'sum', 'max', 'size', 'countP', 'scopeString')


class V:
    def __init__(self, ck):
        self.ck = ck
        self.prog = facts.load([r'^libs/riutil/ricxx_validate', r'^libs/riutil/ricxx_filter'])
        ck.units = len(self.prog.units)
        self.ri = Ri(self.prog)
        rec = self.prog.classes.get(CLS)
        if not rec:
            raise Broken('class %s not found' % CLS)
        self.rec = rec
        self.scope_f = self.attr_f = None
        for f in rec['fields']:
            t = self.prog.type(f['t'])
            if 'ApiScope' in t:
                self.scope_f = ('fld', STAR_THIS, f['n'])
            if 'AttrState' in t:
                self.attr_f = ('fld', STAR_THIS, f['n'])
        if not self.scope_f or not self.attr_f:
            raise Broken('the validator has no scope stack / attribute stack')
        self.file = self.prog.byq and self.ri.impl(CLS, 'WorldBegin')['file']
        self.cache = {}

    def paths(self, req, stop=STOP):
        if req not in self.cache:
            fn = self.ri.impl(CLS, req)
            if fn is None:
                raise Broken('validator has no %s' % req)
            self.ck.fn(fn)
            pol = LocalPolicy(self.ri, CLS, {fn['file'], self.file}, stop=stop, also={'nextFilter', 'checkRange'})
            pol.max_paths = 20000
            try:
                self.cache[req] = (fn, Walker(self.prog, pol).run(fn))
            except (Overflow, Unsupported) as e:
                self.cache[req] = (fn, None)
                self.ck.undecided(at(fn), 'cannot be summarised (%s)' % e)
        return self.cache[req]

    # -------------------------------------------------------- scope machine
    def run_scope(self, pth, scope, size1, attr1):
        """follow the path from a scope; returns (feasible, scope ops, attr ops, forwards, decided-by-scope)"""
        stack = [scope] if size1 else [None, scope]
        attrs = 1 if attr1 else 2
        ops, aops, fwd = [], [], 0
        last_scope_cond = False

        def atom(t):
            if t[0] == 'r' and t[2] is not None:
                m = t[1].rsplit('::', 1)[-1]
                if t[2] == self.scope_f:
                    if m == 'top' or m == 'back':
                        return stack[-1] if stack else None
                    if m == 'size':
                        return len(stack)
                    if m == 'empty':
                        return int(not stack)
                if t[2] == self.attr_f:
                    if m == 'size':
                        return attrs
                    if m == 'empty':
                        return int(attrs == 0)
            return None
        for e in pth.events:
            if e[0] == 'cond':
                v = evalt(e[1], atom)
                if v is not None:
                    if bool(v) != e[2]:
                        return None
                    last_scope_cond = True
                else:
                    last_scope_cond = False
            elif e[0] == 'switch':
                v = evalt(e[1], atom)
                if v is not None:
                    sel = e[2]
                    if isinstance(sel, tuple):
                        if v in sel[1]:
                            return None
                    elif v != sel:
                        return None
            elif e[0] == 'call':
                m = e[1].rsplit('::', 1)[-1]
                if e[2] == self.scope_f:
                    if m in ('push', 'push_back', 'emplace'):
                        x = strip_casts(e[3][0])
                        v = evalt(x, atom)
                        stack.append(v)
                        ops.append(('push', v, e[4]))
                    elif m in ('pop', 'pop_back'):
                        if stack:
                            stack.pop()
                        ops.append(('pop', e[4]))
                elif e[2] == self.attr_f:
                    if m in ('push', 'push_back', 'emplace'):
                        x = strip_casts(e[3][0])
                        while x[0] in ('ctor', 'copy') and len(x) == 3 and len(x[2]) == 1:
                            x = strip_casts(x[2][0])
                        same = x[0] == 'r' and x[2] == self.attr_f and x[1].rsplit('::', 1)[-1] in ('top', 'back')
                        aops.append('push' if same else 'push-other')
                        attrs += 1
                    elif m in ('pop', 'pop_back'):
                        aops.append('pop')
                        attrs -= 1
        return ops, aops, last_scope_cond


# ------------------------------------------------------------------ relations
FLIP = {'<': '>', '>': '<', '<=': '>=', '>=': '<=', '==': '==', '!=': '!='}
NEGOP = {'<': '>=', '>': '<=', '<=': '>', '>=': '<', '==': '!=', '!=': '=='}


def leaf(t):
    if t[0] == 'float':
        v = t[1]
        if 0 < v < 1e-5:
            return 'RI_EPSILON'
        return ('float', v)
    if t[0] == 'r':
        m = t[1].rsplit('::', 1)[-1]
        if m == 'size' and t[2] is not None:
            return ('size', t[2])
        if m in ('sum', 'max', 'size', 'countP') and t[2] is None:
            return (m,) + tuple(strip_casts(x) for x in t[3])
    if t[0] == 'cast':
        return leaf(t[2]) if t[2][0] in ('P', 'float', 'r', 'int') else t
    return t


def nt(t):
    """floats with integral value become ints, casts of those vanish"""
    if t[0] == 'float' and t[1] == int(t[1]):
        return INT(int(t[1]))
    if t[0] == 'cast':
        x = nt(t[2])
        if x[0] in ('int', 'P', 'float', 'r'):
            return x
        return ('cast', t[1], x)
    if t[0] == 'un':
        return ('un', t[1], nt(t[2]))
    if t[0] == 'bin':
        return ('bin', t[1], nt(t[2]), nt(t[3]))
    return t


def rel(op, a, b, isint):
    d = dict(poly(('bin', '-', nt(a), nt(b)), leaf))
    c = d.get((), 0)
    ints = all(isint(x) for m in d for x in m)
    if ints and op in ('<', '>'):
        # over the integers d > 0 is d - 1 >= 0
        d = dict(d)
        d[()] = c + (1 if op == '<' else -1)
        op = op + '='
    d = {m: k for m, k in d.items() if k}
    neg = {m: -k for m, k in d.items()}
    x = (op, tuple(sorted(d.items(), key=repr)))
    y = (FLIP[op], tuple(sorted(neg.items(), key=repr)))
    return min(x, y, key=lambda z: repr(z[1]))


def path_relations(pth, isint):
    out = set()
    for e in pth.events:
        if e[0] == 'cond':
            t = e[1]
            if t[0] == 'bin' and t[1] in NEGOP:
                out.add(rel(t[1] if e[2] else NEGOP[t[1]], t[2], t[3], isint))
            else:
                out.add(rel('!=' if e[2] else '==', t, INT(0), isint))
    return out


IMPLIES = {'>=': [{'>='}, {'>'}, {'=='}], '<=': [{'<='}, {'<'}, {'=='}], '>': [{'>'}, {'>=', '!='}], '<': [{'<'}, {'<=', '!='}],
           '!=': [{'!='}, {'>'}, {'<'}], '==': [{'=='}, {'>=', '<='}]}


def implied(r, facts_):
    op, d = r
    have = {o for o, x in facts_ if x == d}
    if any(s <= have for s in IMPLIES[op]):
        return True
    # over the integers a bound with a better constant
    dd = dict(d)
    c = dd.pop((), 0)
    for o, x in facts_:
        xx = dict(x)
        k = xx.pop((), 0)
        if xx == dd and o in ('>=', '<=', '=='):
            # poly + k >= 0  implies  poly + c >= 0 when c >= k
            if op == '>=' and o in ('>=', '==') and c >= k:
                return True
            if op == '<=' and o in ('<=', '==') and c <= k:
                return True
            if op == '!=' and o == '>=' and k < c:
                return True
            if op == '!=' and o == '<=' and k > c:
                return True
    return False


def negate(r, isint):
    op, d = r
    n = NEGOP[op]
    ints = all(isint(x) for m, _ in d for x in m)
    dd = dict(d)
    if ints and n in ('<', '>'):
        dd[()] = dd.get((), 0) + (1 if n == '<' else -1)
        n += '='
        dd = {m: k for m, k in dd.items() if k}
    neg = {m: -k for m, k in dd.items()}
    x = (n, tuple(sorted(dd.items(), key=repr)))
    y = (FLIP[n], tuple(sorted(neg.items(), key=repr)))
    return min(x, y, key=lambda z: repr(z[1]))


# ------------------------------------------------------- spec expressions
def parse(expr, pos):
    """term for an expression of the interface description; pos: name -> index"""
    expr = expr.strip()
    if '?' in expr:
        c, _, rest = expr.partition('?')
        a, _, b = rest.partition(':')
        return ('?', c.strip(), parse(a, pos), parse(b, pos))

    def conv(n):
        if isinstance(n, ast.Constant):
            return INT(n.value) if isinstance(n.value, int) else ('float', float(n.value))
        if isinstance(n, ast.Name):
            if n.id == 'RI_EPSILON':
                return ('float', 1e-10)
            return ('P', pos[n.id])
        if isinstance(n, ast.BinOp):
            op = {ast.Add: '+', ast.Sub: '-', ast.Mult: '*', ast.Div: '/'}[type(n.op)]
            return ('bin', op, conv(n.left), conv(n.right))
        if isinstance(n, ast.Call):
            if n.func.id == 'size':
                return ('r', 'size', conv(n.args[0]), ())
            return ('r', n.func.id, None, tuple(conv(a) for a in n.args))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            return ('un', '-', conv(n.operand))
        raise Broken('cannot read spec expression %r' % expr)
    return conv(ast.parse(expr, mode='eval').body)


def relname(r, fn):
    nm = names(fn)
    parts = []
    for m, k in r[1]:
        s = '*'.join(nm[x[1]] if isinstance(x, tuple) and x[0] == 'P' else
                     ('%s(%s)' % (x[0], ','.join(show(y, nm) if isinstance(y, tuple) else str(y) for y in x[1:])) if isinstance(x, tuple) else str(x)) for x in m)
        parts.append(('%d' % k if not m else (s if k == 1 else '%d*%s' % (k, s))))
    return ' + '.join(parts or ['0']) + ' ' + r[0] + ' 0'
