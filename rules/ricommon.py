"""What the rules about the RI request pipeline share."""
from engine import facts, paths
from engine.facts import Broken
from engine.paths import Policy, Walker, STAR_THIS, show, terms

RENDERER = 'Aqsis::Ri::Renderer'
NEXT = ('deref', ('fld', STAR_THIS, 'm_nextFilter'))


class Ri:
    """The interface: its requests, by the pure virtual methods of Ri::Renderer."""

    def __init__(self, prog):
        self.p = prog
        rec = prog.classes.get(RENDERER)
        if not rec:
            raise Broken('class %s not found' % RENDERER)
        self.req = {}
        for m in rec['methods']:
            if m.get('pure'):
                self.req[m['n']] = m
        if len(self.req) < 109:
            raise Broken('only %d requests in the renderer interface' % len(self.req))
        self.byid = {m['id']: n for n, m in self.req.items()}

    def request_of(self, mid):
        """name of the request a method id implements, or None"""
        for r in self.p.root_ids(mid):
            if r in self.byid:
                return self.byid[r]
        return None

    def impl(self, cls, req):
        """the function body an object of class cls runs for a request"""
        mid = self.p.resolve_virtual(self.req[req]['id'], cls)
        return self.p.funcs.get(mid)


class FwdPolicy(Policy):
    """looks through every repository function reached by a non-virtual call or
    a call on the same object, keeps request calls, stores and decisions"""
    correlate = True

    def __init__(self, ri, cls, stop=()):
        self.ri, self.dyn_class, self.stop = ri, cls, set(stop)

    def inline(self, w, fn, call):
        if fn['f'] in self.stop or fn['n'] in self.stop:
            return False
        if fn.get('kind') in ('ctor', 'dtor'):
            return False
        return True

    def event(self, e):
        if e[0] == 'call':
            return self.ri.request_of(e[5]) is not None
        return e[0] in ('cond', 'store', 'loop', 'endloop', 'switch', 'catch-any', 'catch')


def requests_made(ri, path):
    """[(request, target, args, line)] in order"""
    return [(ri.request_of(e[5]), e[2], e[3], e[4]) for e in path.events if e[0] == 'call' and ri.request_of(e[5])]


def identity_args(fn):
    return tuple(('P', i) for i in range(len(fn['p'])))


def strip_casts(t):
    while isinstance(t, tuple) and t and t[0] == 'cast':
        t = t[2]
    return t


def at(fn, line=None):
    return '%s:%s' % (fn['file'], line if line else fn['line'])


def names(fn):
    return [p['n'] or 'arg%d' % i for i, p in enumerate(fn['p'])]


class LocalPolicy(FwdPolicy):
    """looks through helpers of the same source file (or extra functions named)"""

    def __init__(self, ri, cls, files, stop=(), also=()):
        FwdPolicy.__init__(self, ri, cls, stop)
        self.files, self.also = set(files), set(also)

    def inline(self, w, fn, call):
        if fn['f'] in self.stop or fn['n'] in self.stop or fn.get('kind') in ('ctor', 'dtor'):
            return False
        return fn['file'] in self.files or fn['f'] in self.also or fn['n'] in self.also

    def event(self, e):
        return True
