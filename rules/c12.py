"""C12: what a request is handed stays valid until the request is done."""
import re
from engine import facts
from engine.facts import Broken
from engine.throws import children
from engine.views import Func, base, strip, is_str, is_vec, is_owner
from engine.paths import Policy, Walker, STAR_THIS, show
from .ricommon import at

SHORT = {'temp': 'a temporary', 'local': 'a local variable', 'byvalue': 'a parameter passed by value'}
LEX = 'Aqsis::RibLexer'


def walk(n, f, stack=()):
    f(n, stack)
    st = stack + (n,)
    for c in children(n):
        walk(c, f, st)


def ptr_type(t):
    return t.rstrip().endswith('*') and '(' not in t


def viewish(t):
    t = t.replace('const ', '').strip()
    return ptr_type(t) or re.match(r'(Aqsis::)?Ri::(Array<|[A-Z]\w*Array$)', t) is not None


def lint(ck, prog, fn):
    F = Func(prog, fn)
    rt = fn.get('rt') or ''
    rt = prog.type(fn['r']) if isinstance(fn.get('r'), int) else rt
    name = fn['f']

    def what(x):
        if x[0] == 'local':
            return 'the local variable %s' % F.decl[x[1]][0]['n']
        if x[0] == 'byvalue':
            return 'the by-value parameter %s' % x[1]
        return 'a temporary'

    def key(x):
        return '%s of %s' % (x[0], F.decl[x[1]][0]['n'] if x[0] == 'local' else x[1] if x[0] == 'byvalue' else name.rsplit('::', 1)[-1])

    def bind(var, x, line, scope_var, pos, scope_here):
        for v in F.view(x, through=False):
            if v[0] == 'temp':
                ck.violation('%s: %s views a temporary' % (name, var['n']), at(fn, line),
                             '%s keeps a pointer into a temporary that is gone at the end of the statement' % var['n'])
            elif v[0] == 'local':
                d, sc, _ = F.decl[v[1]]
                if len(sc) > len(scope_var) and sc[:len(scope_var)] == scope_var:
                    inner = sc[len(scope_var):][-1]
                    # used where the owner no longer exists?
                    used = [p for p, s in F.uses.get(var['i'], ()) if inner not in s and (p > pos or any(q[2] in ('for', 'while', 'do', 'rfor') and q in scope_here and q in s for q in s))]
                    if used:
                        ck.violation('%s: %s outlives %s' % (name, var['n'], d['n']), at(fn, line),
                                     '%s points into %s and is used after the block of %s was left' % (var['n'], d['n'], d['n']))

    def visit(n, stack):
        k = n.get('k')
        if k == 'decl':
            for d in n['d']:
                if 'x' in d and d['x'] and viewish(prog.type(d['t'])):
                    vs = F.view(d['x'], through=False)
                    if vs & {('?',), ('none',)} != vs:
                        ck.ob('kept-pointer', sample='%s: %s' % (name, d['n']))
                    bind(d, d['x'], d.get('l') or n.get('l'), F.decl[d['i']][1], F.decl[d['i']][2], F.decl[d['i']][1])
        elif k == 'asg' and n.get('op') == '=':
            a = strip(n['a'])
            if not viewish(F.type(a)):
                return
            if a.get('k') == 'ref' and a.get('dk') == 'local':
                d = F.decl.get(a['i'])
                if d:
                    ck.ob('kept-pointer', sample='%s: %s' % (name, a['n']))
                    for x, pos, sc in F.asg.get(a['i'], ()):
                        if x is n['b']:
                            bind(d[0], x, n.get('l'), d[1], pos, sc)
                return
            longlived = None
            if a.get('k') == 'mem' and strip(a.get('x') or {}).get('k') == 'this':
                longlived = 'member %s' % a['n']
            elif a.get('k') == 'ref' and a.get('dk') in ('global', 'static'):
                longlived = a['n']
            elif a.get('k') == 'un' and a.get('op') == '*' and strip(a['x']).get('dk') == 'param':
                longlived = '*%s' % strip(a['x'])['n']
            elif a.get('k') == 'mem' and a.get('ar'):
                b = strip(a['x'])
                if b.get('k') == 'ref' and b.get('dk') == 'param':
                    longlived = '%s->%s' % (b['n'], a['n'])
            if longlived:
                ck.ob('stored-pointer', sample='%s: %s' % (name, longlived))
                for v in F.view(n['b']):
                    if v[0] in SHORT:
                        ck.violation('%s: %s views %s' % (name, longlived, key(v)), at(fn, n.get('l')),
                                     '%s is left pointing into %s' % (longlived, what(v)))
        elif k == 'ret' and n.get('x') and viewish(F.type(strip(n['x'])) or ''):
            vs = F.view(n['x'])
            if vs & {('?',), ('none',), ('null',), ('literal',)} != vs:
                ck.ob('returned-pointer', sample=name)
            for v in vs:
                if v[0] in SHORT:
                    ck.violation('%s: returns view of %s' % (name, key(v)), at(fn, n.get('l')), 'the result points into %s, which is gone when the function returns' % what(v))
        elif k == 'call' and base(n['f']) in ('push_back', 'insert', 'push_front', 'emplace_back') and n.get('o') and n['a']:
            c = n.get('c') or ''
            m = re.match(r'std::(vector|deque|list|set)<(.*)$', c)
            if not m:
                return
            el = m.group(2)
            if not re.match(r'(const )?char ?(const )?\*', el) and 'Ri::Param' not in el:
                return
            a = strip(n['a'][-1])
            vs = F.view(a) if a.get('k') != 'ctor' else set().union(*[F.view(y) for y in a['a']] or [set()])
            own = F.storage(n['o'])
            ck.ob('collected-pointer', sample='%s: %s' % (name, sorted(own)[0]))
            for v in vs:
                if v[0] == 'temp':
                    ck.violation('%s: collects view of a temporary' % name, at(fn, n.get('l')), 'a container is given a pointer into a temporary')
                elif v[0] in ('local', 'byvalue') and any(o[0] in ('member', 'global', 'static', 'argument') for o in own):
                    ck.violation('%s: collects view of %s' % (name, key(v)), at(fn, n.get('l')), 'a container that outlives the call is given a pointer into %s' % what(v))
                elif v[0] in ('member', 'global', 'static') or v[0] == 'local':
                    # one string reused for every element collected
                    nm = F.decl[v[1]][0]['n'] if v[0] == 'local' else v[1]
                    for lp in [s for s in stack if s.get('k') in ('for', 'while', 'do', 'rfor')]:
                        if any(d.get('k') == 'decl' and any(z['n'] == nm and not z.get('st') for z in d['d']) for d in flat(lp)):
                            continue
                        for y in flat(lp):
                            if y.get('k') == 'call' and is_str(y.get('c') or '') and y.get('o') and base(y['f']) in ('operator=', 'assign', 'clear') and strip(y['o']).get('n') == nm and strip(y['o']).get('k') in ('ref', 'mem'):
                                ck.violation('%s: all elements view %s' % (name, nm), at(fn, n.get('l')), 'every collected pointer views %s, which is overwritten for each element' % nm)
                if v[0] == 'local' and any(o[0] == 'local' for o in own):
                    d, sc, _ = F.decl[v[1]]
                    o = [o for o in own if o[0] == 'local'][0]
                    sc2 = F.decl[o[1]][1]
                    if is_owner(prog, prog.type(d['t'])) and len(sc) > len(sc2) and any(s[2] in ('for', 'while', 'do', 'rfor') for s in sc[len(sc2):]):
                        ck.violation('%s: collects view of %s' % (name, key(v)), at(fn, n.get('l')), 'the container keeps a pointer into %s, which is gone when the iteration ends' % what(v))
    walk(fn['body'], visit)
    grow(ck, prog, fn, F)


def grow(ck, prog, fn, F):
    """views of elements of a vector that is still growing"""
    grows, views = [], []

    def owner_key(n):
        n = strip(n)
        if n.get('k') == 'ref':
            return (n.get('dk'), n['n'], n.get('i'))
        if n.get('k') == 'mem':
            return ('mem', n['n'])
        return None

    def visit(n, stack):
        if n.get('k') != 'call':
            return
        c = n.get('c') or ''
        b = base(n['f'])
        if n.get('o') and b in ('push_back', 'resize', 'emplace_back', 'insert') and re.match(r'std::vector<(std::basic_string|Aqsis::CqString)', c):
            o = owner_key(n['o'])
            loops = tuple(id(s) for s in stack if s.get('k') in ('for', 'while', 'do', 'rfor'))
            if o:
                grows.append((o, loops, n))
        if n.get('o') and b in ('c_str', 'data') and is_str(c):
            e = strip(n['o'])
            if e.get('k') == 'call' and base(e['f']) in ('back', 'front', 'operator[]', 'at') and re.match(r'std::vector<(std::basic_string|Aqsis::CqString)', e.get('c') or '') and e.get('o'):
                o = owner_key(e['o'])
                loops = tuple(id(s) for s in stack if s.get('k') in ('for', 'while', 'do', 'rfor'))
                # is the view kept beyond the statement?
                kept = False
                for s in reversed(stack):
                    if s.get('k') == 'asg' and viewish(F.type(strip(s['a']))) and any(x is n for x in flat(s['b'])):
                        kept = True
                    if s.get('k') == 'call' and base(s['f']) in ('push_back', 'insert', 'emplace_back') and '*' in (s.get('c') or '') + 'Ri::Param':
                        if re.match(r'std::(vector|deque|list)<((const )?char ?(const )?\*|.*Ri::Param)', s.get('c') or ''):
                            kept = True
                if o and kept:
                    views.append((o, loops, n))
    walk(fn['body'], visit)
    # an object that collects pointers into its own buffer while it fills that buffer
    for x in flat(fn['body']):
        if x.get('k') == 'call' and base(x['f']) in ('push_back', 'insert', 'emplace_back') and x.get('o') and strip(x['o']).get('k') == 'mem' and x['a'] \
                and re.match(r'std::(vector|deque|list)<(const )?char ?(const )?\*', x.get('c') or ''):
            for y in flat(x['a'][-1]):
                if y.get('k') == 'call' and base(y['f']) in ('operator[]', 'back', 'front', 'data', 'at') and y.get('o') and strip(y['o']).get('k') == 'mem' and re.match(r'std::vector<(char|unsigned char)', y.get('c') or ''):
                    m = strip(y['o'])['n']
                    ck.ob('growing-vector', sample='%s %s' % (fn['f'], m))
                    if any(g.get('k') == 'call' and base(g['f']) in ('push_back', 'insert', 'resize') and g.get('o') and strip(g['o']).get('k') == 'mem' and strip(g['o'])['n'] == m for g in flat(fn['body'])):
                        ck.violation('%s: view of growing %s' % (fn['f'], m), at(fn, x.get('l')), 'pointers into %s are collected while it still grows' % m)
    for o, loops, n in views:
        ck.ob('growing-vector', sample='%s %s' % (fn['f'], o[1]))
        for o2, l2, g in grows:
            if o2 == o and loops and set(loops) & set(l2):
                # reserved before?
                if any(x.get('k') == 'call' and base(x['f']) == 'reserve' and x.get('o') and owner_key(x['o']) == o for x in flat(fn['body'])):
                    continue
                a = strip(g['a'][0]) if g['a'] else {}
                if a.get('k') == 'call' and base(a['f']) == 'str':
                    # composed text: whether its characters move with the string depends on its length
                    ck.undecided(at(fn, n.get('l')), 'view of an element of the growing %s' % o[1])
                    continue
                ck.violation('%s: view of growing %s' % (fn['f'], o[1]), at(fn, n.get('l')),
                             'a pointer into an element of %s is kept while %s may still be reallocated' % (o[1], o[1]))


def flat(n):
    out = [n]
    for c in children(n):
        out += flat(c)
    return out


STABLE = ('boost::ptr_vector<', 'boost::ptr_deque<', 'boost::ptr_list<', 'std::deque<', 'std::list<')


def pool_classes(prog):
    """classes with a method that hands out a reference to an element of an own container"""
    out = {}
    for f in prog.funcs.values():
        if not f.get('body') or f.get('kind') != 'method' or not f['f'].startswith('Aqsis::RibLexerImpl::'):
            continue
        c = f.get('c') or f['f'].rsplit('::', 1)[0]
        out.setdefault(c, []).append(f)
    return out


def members_of(prog, cls):
    rec = prog.classes.get(cls)
    return {x['n']: prog.type(x['t']) for x in rec.get('fields', [])} if rec else {}


def run(ck):
    prog = facts.load([r'libs/', r'tools/'])
    ck.units = len(prog.units) if hasattr(prog, 'units') else 0
    n = 0
    for fn in prog.funcs.values():
        if not fn.get('body') or facts.is_test(fn['file']) or not re.match(r'(libs|tools|include)/', fn['file']):
            continue
        n += 1
        ck.fn(fn)
        lint(ck, prog, fn)
    ck.need('returned-pointer', 20)
    ck.need('kept-pointer', 20)
    ck.need('collected-pointer', 5)
    lexer(ck, prog)
    return ck.finish(
        'Every function of the libraries and tools: the owner of the memory behind each pointer or array view that is '
        'returned, stored, collected or kept is resolved (temporary, local, by-value parameter, member, pool) and must '
        'outlive the pointer. The RIB lexer: every value handed out lives in a pool buffer whose address is stable, which '
        'is handed out once per request and recycled only when the next request of the same stream is read; a nested '
        'stream neither recycles nor shares the buffers or parameter storage of the request in progress.',
        ['parameter storage of the varargs C interface is documented as not re-entrant and is not covered',
         'pointers kept by user code after a request returns are not considered'])


# ---------------------------------------------------------------- the lexer

def impl_class(prog):
    cs = [c for c in prog.subclasses(LEX) if c in prog.classes and any(m['n'] == 'getFloatArray' for m in prog.classes[c]['methods'])]
    cs = [c for c in cs if not facts.is_test(prog.classes[c].get('file', ''))]
    if len(cs) != 1:
        raise Broken('expected one implementation of %s, found %s' % (LEX, cs))
    return cs[0]


def lexer(ck, prog):
    cls = impl_class(prog)
    fields = {x['n']: prog.type(x['t']) for x in prog.classes[cls].get('f', prog.classes[cls].get('fields', []))}
    getters = [f for f in prog.methods_of(cls) if f.get('body')]
    pools = {}
    for fn in getters:
        F = Func(prog, fn)
        for r in [x for x in flat(fn['body']) if x.get('k') == 'ret' and x.get('x') and viewish(F.type(strip(x['x'])) or '')]:
            ck.ob('lexer-result', sample=fn['f'])
            for v in sorted(F.view(r['x']), key=str):
                if v[0] in ('null', 'literal'):
                    continue
                if v[0] == 'result' and v[2] in prog.funcs:
                    g = prog.funcs[v[2]]
                    gc = g.get('c') or ''
                    if gc == cls:
                        continue                  # another getter: judged itself
                    if gc.startswith(cls + '::') or pool_like(prog, g):
                        src = strip_call(F, r['x'], v[2])
                        pools.setdefault((gc, g['id']), set()).update(src)
                        continue
                    ck.violation('%s: result from %s' % (fn['f'], v[1]), at(fn, r.get('l')),
                                 'the value handed out is owned by %s, which changes with the next token' % v[1])
                    continue
                if v[0] in SHORT:
                    continue                      # reported by the lint
                if v[0] == 'member' or v[0] == 'elem' or v[0] == 'static':
                    ck.violation('%s: result in %s' % (fn['f'], v[1]), at(fn, r.get('l')), 'the value handed out lives in the single buffer %s, which the next value of the same request overwrites' % (v[1],))
                    continue
                ck.undecided(at(fn, r.get('l')), 'owner of the result of %s not resolved (%s)' % (fn['f'], v[0]))
    ck.need('lexer-result', 8)
    if not pools:
        ck.undecided(cls, 'no buffer pool recognised')
        return
    for (gc, gid), members in sorted(pools.items()):
        pool(ck, prog, prog.funcs[gid], gc)
    uses(ck, prog, cls, {m for ms in pools.values() for m in ms}, pools)
    params(ck, prog)


def pool_like(prog, g):
    return 'Pool' in (g.get('c') or '')


def strip_call(F, n, gid):
    """members of this whose method gid was called to obtain the buffer"""
    out = set()
    for x in flat(F.fn['body']):
        if x.get('k') == 'call' and x.get('id') == gid and x.get('o'):
            o = strip(x['o'])
            if o.get('k') == 'mem':
                out.add(o['n'])
    return out


class Pol(Policy):
    correlate = True

    def __init__(self, cls):
        self.cls = cls

    def inline(self, w, fn, call):
        return (fn.get('c') or '') == self.cls and fn.get('kind') not in ('ctor', 'dtor')


def summary(prog, fn, cls):
    w = Walker(prog, Pol(cls))
    return list(w.run(fn))


def fld(t):
    """name of a direct field of *this"""
    return t[2] if isinstance(t, tuple) and len(t) == 3 and t[0] == 'fld' and t[1] == STAR_THIS else None


def pool(ck, prog, get, cls):
    """the method handing out buffers"""
    ck.ob('pool', sample=cls)
    rec = prog.classes.get(cls)
    fields = {x['n']: prog.type(x['t']) for x in rec.get('f', rec.get('fields', []))} if rec else {}
    F = Func(prog, get)
    # the container the result comes from
    conts = set()
    idx = set()
    for x in flat(get['body']):
        if x.get('k') == 'call' and x.get('o') and base(x['f']) in ('operator[]', 'back', 'at', 'front'):
            o = strip(x['o'])
            if o.get('k') == 'mem' and o['n'] in fields:
                conts.add(o['n'])
                if x['a'] and strip(x['a'][0]).get('k') == 'mem':
                    idx.add(strip(x['a'][0])['n'])
    for c in sorted(conts):
        ck.ob('pool-address', sample='%s %s' % (cls, c))
        t = fields[c]
        if t.startswith('std::vector<') and not re.match(r'std::vector<(boost|std)::(shared_ptr|unique_ptr)|std::vector<[^<>]*\*', t):
            # only a problem if it can grow while buffers are out
            ck.violation('%s: buffers move' % cls, at(get), 'the buffers live by value in a std::vector: growing it moves the buffers already handed out')
        elif not t.startswith(STABLE) and 'ptr' not in t and '*' not in t:
            ck.undecided(at(get), 'container %s of the pool has type %s' % (c, t))
    if len(idx) != 1:
        ck.undecided(at(get), 'the index of the next free buffer was not recognised')
        return
    nxt = next(iter(idx))
    # every path advances the index by one and hands out the buffer at the old index
    for p in summary(prog, get, cls):
        if p.end[0] != 'ret':
            continue
        ck.ob('pool-advance', sample=get['f'])
        st = [e for e in p.events if e[0] == 'store' and fld(e[1]) == nxt]
        made = any(e[0] == 'call' and base(e[1]) == 'push_back' for e in p.events)
        emptied = any(e[0] == 'call' and base(e[1]) in ('clear', 'resize', 'assign', 'erase', 'swap', 'operator=') and e[2] == p.end[1] for e in p.events)
        if not emptied and not made:
            ck.violation('%s: stale buffer' % cls, at(get), 'a recycled buffer is handed out with the values of an earlier request in it')
        last = st[-1][2] if st else None
        good = ('bin', '+', ('fld', STAR_THIS, nxt), ('int', 1))
        if last is None:
            ck.violation('%s: buffer handed out twice' % cls, at(get), 'a path through %s does not advance %s: the next value overwrites this one' % (get['f'], nxt))
        elif last != good and show(last).find(nxt) < 0:
            ck.violation('%s: buffer index' % cls, at(get), '%s is set to %s' % (nxt, show(last)))
        elif last != good:
            ck.undecided(at(get), '%s becomes %s' % (nxt, show(last)))
    # what the other methods do to the index
    eff = {}
    for m in prog.methods_of(cls):
        if not m.get('body') or m['id'] == get['id'] or m.get('kind') in ('ctor', 'dtor'):
            continue
        eff[m['n']] = (m, summary(prog, m, cls))
    ck.extra.setdefault('pool_methods', {})[cls] = sorted(eff)


def uses(ck, prog, cls, members, pools):
    """rewinding happens for the next request only; nested streams keep off"""
    pcls = {c for c, _ in pools}
    fields = {x['n']: prog.type(x['t']) for x in prog.classes[cls].get('f', prog.classes[cls].get('fields', []))}
    poolm = sorted(n for n, t in fields.items() if any(t == c or t.startswith(c.split('<')[0]) for c in pcls))
    if len(poolm) < 3:
        ck.undecided(cls, 'pool members not recognised')
        return
    get_ids = {g for _, g in pools}
    model = {}
    for c in pcls:
        model[c] = pool_model(ck, prog, c, [g for cc, g in pools if cc == c][0])
    if any(m is None for m in model.values()):
        ck.undecided(cls, 'the index of the pool was not modelled')
        return
    kinds = {}
    for m in poolm:
        c = [c for c in pcls if c == fields[m] or fields[m] == c]
        kinds[m] = c[0] if c else sorted(pcls)[0]
    # effects of each method of the lexer on each pool, in order along every path
    eff = {}
    for f in prog.methods_of(cls):
        if not f.get('body') or f.get('kind') in ('ctor', 'dtor'):
            continue
        eff[f['n'], f['id']] = pool_effects(prog, f, cls, set(poolm))
    for (n, i), es in sorted(eff.items()):
        f = prog.funcs[i]
        for m in poolm:
            mod = model[kinds[m]]
            for seq in es.get(m, {()}):
                for op in seq:
                    e = mod.get(op)
                    if e == 'rewind' and not reached_only_from_request(prog, cls, f):
                        ck.violation('%s: recycles %s' % (f['f'], m), at(f), '%s makes the buffers of the request in progress available again' % f['f'])
    nested(ck, prog, cls, poolm, eff, model, kinds)


def reached_only_from_request(prog, cls, f):
    """f is nextRequest, or a private helper called by nextRequest only"""
    if f['n'] == 'nextRequest':
        return True
    callers = [g for g in prog.methods_of(cls) if g.get('body') and any(x.get('k') == 'call' and x.get('id') == f['id'] for x in flat(g['body']))]
    return bool(callers) and all(g['n'] == 'nextRequest' for g in callers)


def pool_effects(prog, f, cls, members):
    """member -> set of op sequences (names of pool methods other than getters) along the paths"""
    class P(Policy):
        correlate = True

        def inline(self, w, fn, call):
            return (fn.get('c') or '') == cls and fn.get('kind') not in ('ctor', 'dtor')

        def event(self, e):
            return e[0] == 'call'
    out = {}
    try:
        ps = list(Walker(prog, P()).run(f))
    except Exception:
        return {}
    for p in ps:
        if p.end[0] != 'ret':
            continue
        per = {}
        for e in p.events:
            m = fld(e[2]) if e[0] == 'call' else None
            if m in members:
                per.setdefault(m, []).append(base(e[1]))
        for m in members:
            out.setdefault(m, set()).add(tuple(per.get(m, ())))
    return out


def pool_model(ck, prog, cls, gid):
    """pool method name -> 'get' | 'rewind' | 'enter' | 'leave' | 'none'"""
    out = {}
    get = prog.funcs[gid]
    nxt = None
    for x in flat(get['body']):
        if x.get('k') == 'call' and x.get('o') and base(x['f']) in ('operator[]', 'at') and x['a'] and strip(x['a'][0]).get('k') == 'mem':
            nxt = strip(x['a'][0])['n']
    if not nxt:
        return None
    out[get['n']] = 'get'
    N = ('fld', STAR_THIS, nxt)
    # which half of the saved pair holds the index
    saved_at = None
    for m in prog.methods_of(cls):
        if m.get('body') and m.get('kind') == 'method':
            for p in summary(prog, m, cls):
                for e in p.events:
                    if e[0] == 'call' and base(e[1]) == 'make_pair' and len(e[3]) == 2 and N in e[3] and e[3][0] != e[3][1]:
                        saved_at = ('first', 'second')[e[3].index(N)]
    for m in prog.methods_of(cls):
        if not m.get('body') or m['id'] == gid or m.get('kind') in ('ctor', 'dtor'):
            continue
        kinds = set()
        for p in summary(prog, m, cls):
            if p.end[0] != 'ret':
                continue
            stores = {fld(e[1]): e[2] for e in p.events if e[0] == 'store' and fld(e[1])}
            pushes = [e for e in p.events if e[0] == 'call' and base(e[1]) in ('push_back', 'push', 'push_front', 'emplace_back')]
            pops = [e for e in p.events if e[0] == 'call' and base(e[1]) in ('pop_back', 'pop', 'pop_front')]
            if pushes and not pops:
                saved = str(pushes[0][3])
                others = [k for k, v in stores.items() if v == N and k != nxt]
                good = str(N) in saved and (nxt not in stores or stores[nxt] == N)
                # the start of the new input is the first buffer not in use
                kinds.add('enter' if good and (others or None) else 'enter-bad')
                out['first'] = others[0] if others else None
            elif pops:
                order = [e for e in p.events if e is pops[0] or e[0] == 'store' and fld(e[1]) == nxt]
                if nxt in stores and len(order) == 2 and order[0] is pops[0] and 'back' in str(order[1][2]) and str(order[1][2]).find("'r'") >= 0:
                    kinds.add('leave-bad')
                elif nxt in stores and saved_at is not None and isinstance(stores[nxt], tuple) and stores[nxt][0] == 'fld' and stores[nxt][2] in ('first', 'second') and stores[nxt][2] != saved_at:
                    kinds.add('leave-bad')
                else:
                    kinds.add('leave' if nxt in stores else 'leave-bad')
            elif nxt in stores:
                v = stores[nxt]
                if v == ('bin', '+', N, ('int', 1)):
                    kinds.add('none')
                else:
                    kinds.add('rewind')
                    out.setdefault('to', set()).add(v)
            else:
                kinds.add('none')
        out[m['n']] = next(iter(kinds)) if len(kinds) == 1 else 'mixed'
    return out


def nested(ck, prog, cls, poolm, eff, model, kinds):
    for m in poolm:
        mod = model[kinds[m]]
        ck.ob('nested-stream', sample='%s %s' % (cls, m))
        for fname, want, bad, txt in (('pushInput', 'enter', 'enter-bad', 'is not set aside while a nested stream is parsed'),
                                      ('popInput', 'leave', 'leave-bad', 'is not restored when the nested stream ends')):
            fs = [(k, e) for k, e in eff.items() if k[0] == fname]
            if not fs:
                ck.undecided(cls, 'no method %s' % fname)
                continue
            f = prog.funcs[fs[0][0][1]]
            for seq in fs[0][1].get(m, {()}):
                ops = [mod.get(o, '?') for o in seq]
                if '?' in ops or 'mixed' in ops:
                    ck.undecided(at(f), 'effect of %s on %s not recognised' % (fname, m))
                elif ops.count(want) != 1:
                    ck.violation('%s: %s %s' % (f['f'], m, fname), at(f), 'the pool %s holding values of the outer request %s' % (m, txt))
    for c, mod in model.items():
        ck.ob('rewind-target', sample=c)
        first = mod.get('first')
        for v in mod.get('to', ()):
            if first and v != ('fld', STAR_THIS, first):
                ck.violation('%s: rewinds too far' % c, c, 'recycling goes back to %s and not to the first buffer of the current stream' % show(v))
            elif first is None and v == ('int', 0):
                ck.violation('%s: rewinds too far' % c, c, 'recycling goes back to the first buffer although a nested stream may be running')


def params(ck, prog):
    """parameter lists of the parser survive a nested stream"""
    fs = [f for f in prog.funcs.values() if f.get('body') and f['n'] == 'readParamList']
    ps = [f for f in prog.funcs.values() if f.get('body') and f['n'] == 'parseStream' and f['file'].endswith('ribparser.cpp')]
    if not fs or not ps:
        ck.undecided('ribparser', 'readParamList/parseStream not found')
        return
    fn, top = fs[0], ps[0]
    own = set()
    for x in flat(fn['body']):
        if x.get('k') == 'call' and base(x['f']) in ('push_back', 'clear', 'resize', 'insert') and x.get('o') and strip(x['o']).get('k') == 'mem':
            own.add(strip(x['o'])['n'])
    F = Func(prog, top)
    for m in sorted(own):
        ck.ob('nested-params', sample=m)
        touched = []
        for d, sc, pos in F.decl.values():
            x = strip(d.get('x') or {})
            if any(y.get('k') == 'mem' and y.get('n') == m for y in flat(x)):
                touched.append(d)
        swaps = [x for x in flat(top['body']) if x.get('k') == 'call' and base(x['f']) in ('swap', 'operator=') and any(y.get('k') == 'mem' and y.get('n') == m for y in flat(x))]
        ok = bool(swaps)
        for d in touched:
            x = strip(d['x'])
            t = prog.type(d['t'])
            if x.get('k') == 'ctor' and any(strip(a).get('k') == 'mem' and strip(a)['n'] == m for a in x['a']):
                ct = prog.funcs.get(x['id'])
                dt = [g for g in prog.methods_of(x['c']) if g.get('kind') == 'dtor' and g.get('body')]
                if ct and not t.startswith('std::'):
                    a = any(base(y.get('f', '')) == 'swap' for y in flat(ct['body']) if y.get('k') == 'call')
                    b = dt and any(base(y.get('f', '')) in ('swap', 'operator=') for y in flat(dt[0]['body']) if y.get('k') == 'call')
                    if a and b:
                        ok = True
                    else:
                        ck.undecided(at(top), 'guard %s of %s not recognised' % (t, m))
                        ok = True
                else:
                    ok = True
            else:
                ok = True
                ck.undecided(at(top), 'treatment of %s not recognised' % m)
        if not ok:
            # maybe another function on the way does it
            if any(x.get('k') == 'mem' and x.get('n') == m for x in flat(top['body'])):
                ck.undecided(at(top), 'treatment of %s not recognised' % m)
            else:
                ck.violation('%s: %s shared with nested streams' % (top['f'], m), at(top), 'a stream parsed by a request overwrites %s, which holds the parameter list of that request' % m)
