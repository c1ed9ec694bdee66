"""Which constructs of a function can let an exception out of it."""
import re

# library operations that raise something other than bad_alloc
THROWING = {'at', 'resize', 'reserve', 'substr', 'stoi', 'stol', 'stof', 'stod', 'stoul', 'lexical_cast', 'any_cast', 'cast_to',
            'throw_exception', 'rethrow_exception', 'compare', 'erase', 'replace', 'assign'}
SAFE_AT = {'std::map', 'std::set'}


def children(n):
    for k, v in n.items():
        if isinstance(v, dict):
            yield v
        elif isinstance(v, list):
            for x in v:
                if isinstance(x, dict):
                    yield x


class Throws:
    def __init__(self, prog, open_classes=()):
        self.p, self.open = prog, set(open_classes)
        self.memo = {}
        self.active = set()
        self.over = None

    def overriders(self, mid):
        if self.over is None:
            self.over = {}
            for i in self.p.funcs:
                for r in self.p.root_ids(i):
                    if r != i:
                        self.over.setdefault(r, set()).add(i)
        return self.over.get(mid, ())

    def derived(self, t, h):
        return t == h or h in self.p.bases(t) or (h == 'std::exception' and (t.startswith('std::') or t.startswith('boost::') or any(b.startswith('std::') for b in self.p.bases(t))))

    def caught(self, ty, hs):
        if ty == '?' and any('t' not in h for h in hs):
            return True
        for h in hs:
            if 't' not in h:
                return True
            ht = self.p.type(h['t']).replace('const ', '').rstrip('& ').strip()
            if ty == '?':
                continue
            if self.derived(ty, ht):
                return True
        return False

    def of(self, fn):
        """[(type, line, what)] that can leave the function"""
        i = fn['id']
        if i in self.memo:
            return self.memo[i]
        if i in self.active:
            return []
        self.active.add(i)
        out = []
        if not fn.get('nothrow'):
            if fn.get('body'):
                out = self.node(fn['body'], fn)
            for ini in fn.get('inits') or ():
                if ini.get('x'):
                    out = out + self.node(ini['x'], fn)
        self.active.discard(i)
        seen, res = set(), []
        for t, l, w in out:
            if (t, w) not in seen:
                seen.add((t, w))
                res.append((t, l, w))
        self.memo[i] = res
        return res

    def node(self, n, fn, rethrow=None):
        k = n.get('k')
        out = []
        if k == 'try':
            inner = self.node(n['b'], fn, rethrow)
            left = [x for x in inner if not self.caught(x[0], n['h'])]
            out += left
            for h in n['h']:
                if h.get('b'):
                    out += self.node(h['b'], fn, self.p.type(h['t']).replace('const ', '').rstrip('& ').strip() if 't' in h else '?')
            return out
        if k == 'throw':
            if n.get('x'):
                t = n.get('t') is not None and self.p.type(n['t']) or ''
                x = n['x']
                ty = self.p.type(n['tt']) if n.get('tt') is not None else '?'
                out.append((ty.replace('const ', '').strip() or '?', n.get('l', 0), 'throw'))
                for c in children(n):
                    out += self.node(c, fn, rethrow)
            else:
                out.append((rethrow or '?', n.get('l', 0), 'rethrow'))
            return out
        if k == 'lambda':
            return out
        for c in children(n):
            out += self.node(c, fn, rethrow)
        if k == 'call':
            out += self.call(n, fn)
        elif k == 'ctor':
            out += self.ctor(n, fn)
        return out

    def call(self, n, fn):
        line = n.get('l', 0)
        tgt = self.p.funcs.get(n['id'])
        cands = [tgt] if tgt else []
        if n.get('v'):
            cands += [self.p.funcs[i] for i in self.overriders(n['id'])]
        if n.get('v') and (n.get('c') or '') in self.open:
            return [('?', line, 'virtual call of %s' % n['f'])]
        if cands:
            out = []
            for t in cands:
                for ty, l, w in self.of(t):
                    out.append((ty, line, 'call of %s' % t['f']))
            return out
        if n.get('v') and not n['f'].startswith('std::'):
            return [('?', line, 'virtual call of %s' % n['f'])]
        m = n['f'].rsplit('::', 1)[-1]
        c = n.get('c') or ''
        if m in THROWING and not any(c.startswith(s) for s in SAFE_AT):
            if m in ('erase', 'replace', 'assign', 'compare') and 'basic_string' not in c:
                return []
            return [('?', line, '%s' % n['f'])]
        return []

    def ctor(self, n, fn):
        tgt = self.p.funcs.get(n.get('id'))
        if tgt:
            return [(ty, n.get('l', 0), 'constructor of %s' % (n.get('c') or tgt['f'])) for ty, l, w in self.of(tgt)]
        # vector(n): length_error
        i = n.get('id') or ''
        if re.search(r'St6vectorI.*EEC[12]Em', i):
            return [('std::length_error', n.get('l', 0), 'std::vector of a given size')]
        return []
