"""Where the memory behind a pointer comes from (views of strings and arrays)."""
from .throws import children

GIVES = {'c_str', 'data', 'begin', 'end'}
ELEM = {'operator[]', 'front', 'back', 'at'}


def base(f):
    d = 0
    for i in range(len(f) - 1, 0, -1):
        if f[i] == '>' and f[max(0, i - 8):i + 1].find('operator') < 0:
            d += 1
        elif f[i] == '<' and d:
            d -= 1
        elif not d and f[i - 1:i + 1] == '::':
            return f[i + 1:]
    return f


def is_str(c):
    return c.startswith('std::basic_string<') or c in ('std::string', 'Aqsis::CqString')


def is_vec(c):
    return c.startswith('std::vector<')


def is_owner(prog, t):
    t = t.replace('const ', '').strip()
    if t.endswith('*') or t.endswith('&'):
        return False
    return is_str(t) or is_vec(t) or any(is_str(b) for b in prog.bases(t)) or t.startswith('std::basic_stringbuf')


def strip(n):
    while n and n.get('k') in ('cast', 'paren', 'bindtmp'):
        n = n['x']
    return n


class Func:
    """declarations and their scopes of one function"""

    def __init__(self, prog, fn):
        self.p, self.fn = prog, fn
        self.decl, self.order, self.asg = {}, {}, {}
        self.count = 0
        self.uses = {}
        if fn.get('body'):
            self.visit(fn['body'], ())

    def visit(self, n, scope):
        self.count += 1
        pos = self.count
        k = n.get('k')
        if k in ('block', 'for', 'rfor', 'while', 'do', 'if', 'switch'):
            scope = scope + ((id(n), pos, k),)
        if k == 'decl':
            for d in n['d']:
                self.decl[d['i']] = (d, scope, pos)
        if k == 'rfor' and isinstance(n.get('v'), dict) and 'i' in n['v']:
            self.decl[n['v']['i']] = (n['v'], scope, pos)
        if k == 'ref' and n.get('dk') == 'local':
            self.uses.setdefault(n['i'], []).append((pos, scope))
        if k == 'asg' and n.get('op') == '=':
            a = strip(n['a'])
            if a.get('k') == 'ref' and a.get('dk') == 'local':
                self.asg.setdefault(a['i'], []).append((n['b'], pos, scope))
        for c in children(n):
            self.visit(c, scope)

    def type(self, n):
        return self.p.type(n['t']) if n and 't' in n else ''

    def storage(self, n, depth=0):
        """set of what owns the object an lvalue/rvalue names"""
        n = strip(n)
        if not n or depth > 12:
            return {('?',)}
        k = n.get('k')
        if k == 'ref':
            dk = n.get('dk')
            t = self.type(n)
            if dk == 'local':
                d = self.decl.get(n['i'])
                if not d:
                    return {('?',)}
                dt = self.p.type(d[0]['t'])
                if dt.endswith('&'):
                    return self.storage(d[0].get('x'), depth + 1) if d[0].get('x') else {('?',)}
                if dt.endswith('*'):
                    return {('ptr', n['i'])}
                if d[0].get('st'):
                    return {('static', d[0]['n'])}
                return {('local', n['i'])}
            if dk == 'static':
                return {('static', n['n'])}
            if dk == 'param':
                ps = self.fn['p']
                i = n.get('pi', n.get('i'))
                pt = self.p.type(ps[i]['t']) if isinstance(i, int) and i < len(ps) else ''
                if pt.endswith('&') or pt.endswith('*'):
                    return {('argument', n['n'])}
                return {('byvalue', n['n'])}
            return {('global', n['n'])}
        if k == 'mem':
            if n.get('m'):
                return {('?',)}
            ft = self.type(n)
            b = strip(n.get('x'))
            if b and b.get('k') == 'this':
                return {('member', n['n'], ft)}
            inner = self.storage(b, depth + 1)
            # a field of a local aggregate is local; through a pointer it is not
            return {x for x in inner if not n.get('ar')} or {('?',)}
        if k == 'ctor' or k == 'initlist':
            return {('temp', n.get('l'))}
        if k == 'call':
            b = base(n['f'])
            if n.get('pv'):
                return {('temp', n.get('l'))}
            c = n.get('c') or ''
            if b in ELEM and (is_vec(c) or is_str(c) or c.startswith('std::deque') or c.startswith('std::list')):
                return {('elem',) + x if x[0] in ('member', 'global', 'static') else x for x in self.storage(n.get('o'), depth + 1)}
            if b in ('operator=', 'assign', 'append', 'operator+=', 'insert', 'replace', 'erase') and n.get('o') and is_str(c):
                return self.storage(n['o'], depth + 1)
            return {('result', n['f'], n.get('id'))}
        if k == 'un' and n.get('op') == '*':
            return {('pointee',)}
        if k == '?:':
            return self.storage(n.get('a'), depth + 1) | self.storage(n.get('b'), depth + 1)
        return {('?',)}

    def view(self, n, depth=0, through=True):
        """set of owners of the memory a pointer (or array view) points to"""
        n = strip(n)
        if not n or depth > 12:
            return {('?',)}
        k = n.get('k')
        if k == 'call':
            b = base(n['f'])
            c = n.get('c') or ''
            if n.get('o') and b in GIVES and (is_str(c) or is_vec(c) or any(is_str(x) for x in self.p.bases(c))):
                if b in ('begin', 'end') and not self.type(n).endswith('*'):
                    return {('?',)}
                return {self.mark(x, c) for x in self.storage(n['o'], depth + 1)}
            if n['f'].endswith('toRiArray') and n['a']:
                return {self.mark(x, '') for x in self.storage(n['a'][0], depth + 1)}
            return {('result', n['f'], n.get('id'))}
        if k == 'un' and n.get('op') == '&':
            x = strip(n['x'])
            if x.get('k') == 'call' and base(x['f']) in ELEM and x.get('o') and (is_str(x.get('c') or '') or is_vec(x.get('c') or '')):
                return {self.mark(y, x['c']) for y in self.storage(x['o'], depth + 1)}
            return {('?',)}
        if k == 'ctor':
            out = set()
            for a in n['a']:
                t = self.type(strip(a)) or self.type(a)
                if t.endswith('*') or 'Array<' in t or t.endswith('Array'):
                    out |= self.view(a, depth + 1)
            return out or {('none',)}
        if k == 'ref' and n.get('dk') == 'local' and through:
            d = self.decl.get(n['i'])
            if not d:
                return {('?',)}
            dt = self.p.type(d[0]['t'])
            if not dt.endswith('*') and 'Array' not in dt:
                return {('?',)}
            out = set()
            if d[0].get('x'):
                out |= self.view(d[0]['x'], depth + 1)
            for x, pos, sc in self.asg.get(n['i'], ()):
                out |= self.view(x, depth + 1)
            return out or {('?',)}
        if k == '?:':
            return self.view(n.get('a'), depth + 1) | self.view(n.get('b'), depth + 1)
        if k in ('int', 'null'):
            return {('null',)}
        if k == 'str':
            return {('literal',)}
        return {('?',)}

    def mark(self, x, c):
        return x
