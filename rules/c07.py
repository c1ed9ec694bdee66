"""C07: the C binding makes the request it names, with its own arguments."""
from .validator import SPEC, parse, nt, poly, evalt
from .c03 import FIELDS, field, want_counts, is_bilinear, under
from .ricommon import *
from engine.paths import INT, Overflow, Unsupported

# requests whose C form deals in handles: C arguments by name ('=' marks a handle)
HANDLES = {'AreaLightSource': ['shadername'], 'LightSource': ['shadername'], 'ObjectBegin': [], 'ObjectInstance': ['=name'],
           'Illuminate': ['=name', 'onoff']}
SCOPED = {'Frame', 'World', 'Attribute', 'Solid', 'Object', 'Motion', 'Resource', 'Archive'}


def base(q):
    return q.rsplit('::', 1)[-1]


class CApi:
    def __init__(self, ck):
        self.ck = ck
        self.prog = facts.load([r'^libs/riutil/'])
        ck.units = len(self.prog.units)
        self.ri = Ri(self.prog)
        f = self.prog.find('RiWorldBegin')
        if not f:
            raise Broken('RiWorldBegin not found')
        self.file = f[0]['file']
        self.inst = {i for i, fn in self.prog.funcs.items() if fn['file'] == self.file}
        self.build = self.collect = self.newh = self.findh = None
        for i in self.inst:
            fn = self.prog.funcs[i]
            ts = [self.prog.type(p['t']) for p in fn['p']]
            rt = self.prog.type(fn['ret']) if fn.get('ret') is not None else ''
            if len(ts) == 4 and 'SqInterpClassCounts' in ts[3] and 'ParamList' in rt:
                self.build = fn
            if len(ts) == 4 and 'va_list' in ts[0]:
                self.collect = fn
            if [t.replace(' ', '') for t in ts] == ['void*&']:
                self.newh = fn
            if [t.replace(' ', '') for t in ts] == ['void*'] and rt.replace(' ', '') == 'constchar*':
                self.findh = fn
        for n in ('build', 'collect', 'newh', 'findh'):
            if getattr(self, n) is None:
                raise Broken('the C binding has no %s helper any more' % n)

    def policy(self, stop=True):
        st = {self.build['id'], self.collect['id'], self.newh['id'], self.findh['id']} if stop else set()
        me = self

        class P(LocalPolicy):
            correlate = True

            def inline(self, w, fn, call):
                return fn['id'] not in st and fn['file'] == me.file and fn.get('kind') not in ('ctor', 'dtor')
        return P(self.ri, None, {self.file})

    def paths(self, fn, stop=True):
        self.ck.fn(fn)
        pol = self.policy(stop)
        try:
            return Walker(self.prog, pol).run(fn)
        except (Overflow, Unsupported) as e:
            self.ck.undecided(at(fn), 'cannot be summarised (%s)' % e)
            return None


def is_target(t):
    """the start of the filter chain, asked for at the time of the call"""
    return t is not None and t[0] == 'r' and base(t[1]) == 'firstFilter' and t[2] is not None and \
        any(x[0] == 'G' for x in terms(t[2]))


def array_of(t):
    """(pointer, length) of an Ri::Array made on the spot"""
    t = strip_casts(t)
    while t[0] in ('ctor', 'copy') and 'Array' in t[1] and len(t[2]) == 1 and strip_casts(t[2][0])[0] in ('ctor', 'copy'):
        t = strip_casts(t[2][0])
    if t[0] == 'ctor' and 'Array' in t[1] and len(t[2]) == 2:
        return strip_casts(t[2][0]), t[2][1]
    return None


def code_leaf(t):
    """lengths of arrays are spelled out; sums and maxima are named by the pointer"""
    t = strip_casts(t)
    if t[0] == 'r':
        m = base(t[1])
        if m == 'size':
            a = array_of(t[2] if t[2] is not None else t[3][0])
            if a:
                return ('poly', cpoly(a[1]))
        if m in ('sum', 'max') and t[2] is None:
            a = array_of(t[3][0])
            if a:
                return (m, a[0]) + tuple(strip_casts(x) for x in t[3][1:])
    return t


def _expand(p):
    """substitute ('poly', x) atoms"""
    out = {}
    for m, c in p:
        acc = {(): c}
        for x in m:
            sub = dict(x[1]) if isinstance(x, tuple) and x and x[0] == 'poly' else {(x,): 1}
            acc2 = {}
            for m1, c1 in acc.items():
                for m2, c2 in sub.items():
                    k = tuple(sorted(m1 + m2, key=repr))
                    acc2[k] = acc2.get(k, 0) + c1 * c2
            acc = acc2
        for k, v in acc.items():
            out[k] = out.get(k, 0) + v
    return tuple(sorted(((k, v) for k, v in out.items() if v), key=repr))


def cpoly(t):
    return _expand(poly(nt(t), code_leaf))


def spec_poly(t, lens):
    """lens: position -> length poly of the array passed there"""
    def leaf(x):
        x = strip_casts(x)
        if x[0] == 'r':
            m = base(x[1])
            if m == 'size' and x[2] is not None:
                return ('poly', lens[x[2][1]])
            if m in ('sum', 'max'):
                return (m, x[3][0]) + tuple(x[3][1:])
        return x
    return _expand(poly(nt(t), leaf))


def show_poly(p, nm):
    def at_(x):
        if isinstance(x, tuple) and x[0] == 'P':
            return nm[x[1]] if x[1] < len(nm) else str(x)
        if isinstance(x, tuple) and x[0] in ('sum', 'max'):
            return '%s(%s)' % (x[0], ','.join(at_(y) for y in x[1:]))
        if isinstance(x, tuple) and x[0] == 'int':
            return str(x[1])
        return show(x, nm) if isinstance(x, tuple) else str(x)
    return ' + '.join(('%d' % c if not m else ('' if c == 1 else '%d*' % c) + '*'.join(at_(x) for x in m)) for m, c in p) or '0'


def run(ck):
    c = CApi(ck)
    prog, ri = c.prog, c.ri
    for req in sorted(SPEC):
        sp = SPEC[req]
        if not sp['rib']:
            continue
        cname = 'Ri' + req + ('V' if sp['plist'] else '')
        if req == 'MotionBegin':
            cname += 'V'
        fns = [f for f in prog.find(cname) if f['id'] in c.inst]
        if not fns:
            ck.undecided(c.file, 'no definition of %s in the C binding' % cname)
            continue
        request(ck, c, req, sp, fns[0])
        if sp['plist']:
            va = [f for f in prog.find('Ri' + req) if f['id'] in c.inst]
            if va:
                varargs(ck, c, req, va[0], fns[0])
    motion_begin(ck, c)
    archive_record(ck, c)
    build_list(ck, c)
    collect_list(ck, c)
    handles(ck, c)
    ck.need('request', 100)
    ck.need('varargs', 35)
    ck.need('array-length', 25)
    ck.need('class-counts', 40)
    return ck.finish(
        'Every C entry point is summarised path by path, looking through the helpers of its file; on every path that '
        'returns normally the single request made on the start of the filter chain is compared with the interface table: '
        'argument order, array lengths and parameter counts (as polynomial normal forms), handles and return value, '
        'saving of basis steps and handle scopes. The parameter list builders and the handle table are checked on their '
        'own summaries.',
        ['lengths are compared over the integers without overflow'])


def top_is(t, stack):
    t = strip_casts(t)
    while t[0] in ('ctor', 'copy') and len(t[2]) == 1:
        t = strip_casts(t[2][0])
    return t[0] == 'r' and base(t[1]) in ('top', 'back') and t[2] == stack


def stack_ops(p, kind):
    """[('push', copies top)|('pop',)...] on the stack of that element type; guard: sizes tested"""
    out = []
    for e in p.events:
        if e[0] == 'call' and e[2] is not None and e[6] and kind(e[6]) and base(e[1]) in ('push', 'push_back', 'emplace', 'pop', 'pop_back'):
            m = base(e[1])
            if m.startswith('pop'):
                out.append(('pop', e[2]))
            else:
                out.append(('push', e[2], bool(e[3]) and top_is(e[3][0], e[2])))
    return out


def size_guard(p):
    """is the path one on which some stack was found to hold a single element?"""
    for e in p.events:
        if e[0] == 'cond':
            t, pol = e[1], e[2]
            v = evalt(t, lambda x: 1 if x[0] == 'r' and base(x[1]) == 'size' else None)
            w = evalt(t, lambda x: 2 if x[0] == 'r' and base(x[1]) == 'size' else None)
            if v is not None and bool(v) == pol and (w is None or bool(w) != pol):
                return True
    return False


def is_attr(cls):
    return 'AttrState' in cls


def is_hset(cls):
    return 'set<' in cls and ('ptr_' in cls or 'vector' in cls or 'stack' in cls)


def request(ck, c, req, sp, fn):
    ps = c.paths(fn)
    if ps is None:
        return
    ck.ob('request', sample='%s makes %s once' % (fn['f'], req))
    nm = names(fn)
    cargs = sp['cargs']
    pos = {a['n']: i for i, a in enumerate(cargs)}
    if req in HANDLES:
        pos = {n.lstrip('='): i for i, n in enumerate(HANDLES[req])}
    for p in ps:
        calls = requests_made(ri_of(c), p)
        if p.end[0] == 'throw':
            continue
        pre = [e for e in p.events if e[0] == 'cond' and e[1][0] == 'G' or e[0] == 'cond' and e[1][0] in ('cast', 'un') and strip_casts(e[1])[0] == 'G']
        if pre and req == 'Option' and not calls:
            nocontext(ck, c, fn, p, pre)
            continue
        if len(calls) != 1 or calls[0][0] != req or in_loop(p, c):
            ck.violation('%s requests' % fn['f'], at(fn), 'makes the requests %s instead of %s exactly once' % (
                [x[0] for x in calls], req))
            continue
        r, tgt, args, line = calls[0]
        ck.site((fn['file'], line, r))
        if not is_target(tgt):
            ck.violation('%s target' % fn['f'], at(fn, line), 'request goes to %s instead of the first filter' % show(tgt))
        check_args(ck, c, req, sp, fn, p, args, line, pos)
        state(ck, c, req, fn, p, line)
        ret_value(ck, c, req, fn, p)


def ri_of(c):
    return c.ri


def in_loop(p, c):
    d = 0
    for e in p.events:
        if e[0] == 'loop':
            d += 1
        elif e[0] == 'endloop':
            d -= 1
        elif e[0] == 'call' and d > 0 and c.ri.request_of(e[5]):
            return True
    return False


def nocontext(ck, c, fn, p, pre):
    ck.ob('option-before-begin')
    cl = [e for e in p.events if e[0] == 'call' and base(e[1]) == 'riToRiCxxOptionPreBegin']
    if len(cl) != 1 or tuple(cl[0][3]) != identity_args(fn):
        ck.violation('%s before RiBegin' % fn['f'], at(fn), 'options set before RiBegin are not passed to the handler for them unaltered')


def check_args(ck, c, req, sp, fn, p, args, line, pos):
    nm = names(fn)
    cargs = sp['cargs']
    lens = {}
    want = [a for a in cargs if not a.get('rib')]
    # two passes: lengths can refer to later arrays
    k = 0
    slots = []
    for a in sp['args']:
        slots.append(a)
    n_expect = len(sp['args']) + (1 if sp['plist'] else 0)
    if len(args) != n_expect:
        raise Broken('%s: the request has %d arguments, the table %d' % (req, len(args), n_expect))
    arr = {}
    for i, a in enumerate(sp['args']):
        if a['t'].endswith('Array'):
            x = array_of(args[i])
            if x is None:
                ck.undecided(at(fn, line), 'array argument %s of %s is not built here (%s)' % (a['n'], req, show(args[i], nm)))
                continue
            j = pos[a['n']]
            arr[i] = x
            lens[j] = cpoly(x[1])
    for i, a in enumerate(sp['args']):
        t = args[i]
        if a['n'] not in pos:
            # handle names
            hs = strip_casts(t)
            if hs[0] == 'r' and base(hs[1]) == c.newh['n']:
                ck.ob('handle-argument')
                continue
            ck.violation('%s argument %s' % (fn['f'], a['n']), at(fn, line), 'passes %s instead of a new handle name' % show(t, nm))
            continue
        j = pos[a['n']]
        ck.ob('argument')
        if i in arr:
            ptr, ln = arr[i]
            ck.ob('array-length', sample='%s %s' % (fn['f'], a['n']))
            if ptr != ('P', j):
                ck.violation('%s argument %s' % (fn['f'], a['n']), at(fn, line), 'passes the data of %s' % show(ptr, nm))
                continue
            spec = a.get('len') or a.get('rilen')
            if not spec:
                continue
            try:
                w = spec_poly(parse(spec, pos), lens)
            except KeyError:
                continue
            if lens[j] != w:
                ck.violation('%s length of %s' % (fn['f'], a['n']), at(fn, line), 'takes %s elements instead of %s' % (
                    show_poly(lens[j], nm), spec))
            continue
        if a['t'].endswith('Array'):
            continue
        if '=' + a['n'] in HANDLES.get(req, ()):
            h = strip_casts(t)
            ck.ob('handle-argument')
            if h[0] != 'r' or base(h[1]) != c.findh['n'] or h[3] != (('P', j),):
                ck.violation('%s argument %s' % (fn['f'], a['n']), at(fn, line), 'passes %s instead of the name of the given handle' % show(t, nm))
            continue
        if strip_casts(t) != ('P', j):
            ck.violation('%s argument %s' % (fn['f'], a['n']), at(fn, line), 'passes %s instead of its own argument' % show(t, nm))
    if sp['plist']:
        pl = strip_casts(args[-1])
        ck.ob('class-counts', sample='%s parameter counts' % fn['f'])
        np_ = len(fn['p'])
        if pl[0] != 'r' or pl[1] != c.build['f']:
            ck.undecided(at(fn, line), 'parameter list is not built with the list builder (%s)' % show(pl, nm)[:80])
            return
        if tuple(strip_casts(x) for x in pl[3][:3]) != (('P', np_ - 3), ('P', np_ - 2), ('P', np_ - 1)):
            ck.violation('%s parameter list' % fn['f'], at(fn, line), 'parameter list is not made from its own count, tokens and values')
            return
        counts(ck, c, req, sp, fn, p, pl[3][3], lens, line, pos)


def counts(ck, c, req, sp, fn, p, ct, lens, line, pos):
    nm = names(fn)
    ic = sp.get('iclass') or {}
    if 'ComplicatedCustomImpl' in ic:
        if req == 'Geometry':
            return
        t = strip_casts(ct)
        want = {'PatchMesh': 'patchMeshIClassCounts', 'Curves': 'curvesIClassCounts'}[req]
        while t[0] == 'ctor' and len(t[2]) == 1:
            t = strip_casts(t[2][0])
        if t[0] != 'r' or base(t[1]) != want:
            ck.violation('%s counts' % fn['f'], at(fn, line), 'parameter counts are not those of %s' % want)
            return
        a = t[3]
        names_ = {'PatchMesh': ['type', 'nu', 'uwrap', 'nv', 'vwrap', '#ustep', '#vstep'], 'Curves': ['type', 'nvertices', 'wrap', '#vstep']}[req]
        for x, n in zip(a, names_):
            x = strip_casts(x)
            if n[0] == '#':
                ok = x[0] == 'fld' and x[2] == n[1:] and strip_casts(x[1])[0] == 'r' and base(x[1][1]) in ('top', 'back')
            elif n == 'nvertices':
                y = array_of(x)
                ok = y is not None and y[0] == ('P', pos[n])
            else:
                ok = x == ('P', pos[n])
            if not ok:
                ck.violation('%s counts %s' % (fn['f'], n), at(fn, line), 'the %s of the parameter counts is %s' % (n.lstrip('#'), show(x, nm)))
        return
    cp = dict(pos)
    if ic.get('Varying') == 'countP(pList)':
        ic = dict(ic, Varying=sp['cargs'][0]['n'])
    want = want_counts(dict(sp, iclass=ic) if sp.get('iclass') else sp, cp)
    cases = [None]
    if any(isinstance(x, tuple) and x[0] == '?' for x in want.values()):
        cases = [True, False]
    for f in FIELDS:
        for bil in cases:
            got, w = field(ct, f), want[f]
            if bil is not None:
                # the decision may have been taken earlier on the path
                dec = [bool(evalt(e[1], lambda x: 0 if is_bilinear(x) else None)) == e[2] for e in p.events
                       if e[0] == 'cond' and any(is_bilinear(x) for x in terms(e[1]))]
                if dec and dec[0] != bil:
                    continue
                got = under(got, bil)
                if w[0] == '?':
                    w = w[2] if bil else w[3]
            if spec_poly(w, lens) != cpoly(got):
                ck.violation('%s %s count' % (fn['f'], f), at(fn, line), 'expects %s %s values per parameter instead of %s' % (
                    show_poly(cpoly(got), nm), f, show_poly(spec_poly(w, lens), nm)))


def state(ck, c, req, fn, p, line):
    """basis steps and handle scopes"""
    ck.ob('scope-state')
    ops = stack_ops(p, is_attr)
    begin, end = req.endswith('Begin') and req[:-5] in SCOPED, req.endswith('End') and req[:-3] in SCOPED
    if begin:
        ok = len(ops) == 1 and ops[0][0] == 'push' and ops[0][2]
    elif end:
        ok = (len(ops) == 1 and ops[0][0] == 'pop') or (not ops and size_guard(p))
    else:
        ok = not ops
    if not ok:
        ck.violation('%s attribute state' % fn['f'], at(fn, line), 'saved attribute state: %s' % ([o[0] for o in ops] or 'nothing done'))
    hs = stack_ops(p, is_hset)
    if req in ('FrameBegin', 'WorldBegin'):
        ok = len(hs) == 1 and hs[0][0] == 'push'
    elif req in ('FrameEnd', 'WorldEnd'):
        ok = (len(hs) == 1 and hs[0][0] == 'pop') or (not hs and size_guard(p))
    else:
        ok = not hs
    if not ok:
        ck.violation('%s handle scope' % fn['f'], at(fn, line), 'handle scopes: %s' % ([o[0] for o in hs] or 'nothing done'))
    st = {}
    for e in p.events:
        if e[0] == 'store' and e[1][0] == 'fld' and e[1][2] in ('ustep', 'vstep'):
            x = e[1][1]
            if x[0] == 'r' and base(x[1]) in ('top', 'back'):
                st[e[1][2]] = strip_casts(e[2])
    if req == 'Basis':
        pos = {a['n']: i for i, a in enumerate(SPEC['Basis']['cargs'])}
        for s in ('ustep', 'vstep'):
            if s not in st:
                ck.violation('%s %s' % (fn['f'], s), at(fn), 'the step is not remembered for later patches')
            elif st[s] != ('P', pos[s]):
                ck.violation('%s %s' % (fn['f'], s), at(fn), 'remembers %s as %s' % (show(st[s], names(fn)), s))
    elif st:
        ck.violation('%s steps' % fn['f'], at(fn), 'changes the basis steps')


def ret_value(ck, c, req, fn, p):
    rt = SPEC[req]['ret']
    if rt == 'RtVoid':
        return
    ck.ob('return-value', sample=fn['f'])
    v = strip_casts(p.end[1]) if p.end[1] is not None else None
    if req in ('Declare', 'ArchiveBegin'):
        ok = v == ('P', 0)
    else:
        # the handle the helper handed out
        ok = v is not None and v[0] == 'out' and base(v[1]) == c.newh['n']
    if not ok:
        ck.violation('%s return' % fn['f'], at(fn), 'returns %s' % (show(v, names(fn)) if v else 'nothing'))


def varargs(ck, c, req, fn, vfn):
    pol = c.policy()
    base_inline = pol.inline
    pol.inline = lambda w, f, call: f['id'] != vfn['id'] and base_inline(w, f, call)
    ck.fn(fn)
    try:
        ps = Walker(c.prog, pol).run(fn)
    except (Overflow, Unsupported) as e:
        ck.undecided(at(fn), 'cannot be summarised (%s)' % e)
        return
    ck.ob('varargs', sample='%s calls %s' % (fn['f'], vfn['f']))
    nm = names(fn)
    for p in ps:
        if p.end[0] == 'throw':
            continue
        calls = [e for e in p.events if e[0] == 'call' and e[5] == vfn['id']]
        other = [e for e in p.events if e[0] == 'call' and e[5] in c.inst and e[5] != vfn['id'] and e[1].startswith('Ri')]
        if len(calls) != 1 or other:
            ck.violation('%s call' % fn['f'], at(fn), 'does not call %s exactly once' % vfn['f'])
            continue
        a = tuple(strip_casts(x) for x in calls[0][3])
        n = len(fn['p'])
        for i in range(n):
            if a[i] != ('P', i):
                ck.violation('%s argument %d' % (fn['f'], i), at(fn, calls[0][4]), 'passes %s as %s' % (show(a[i], nm), names(vfn)[i]))
        for i in range(3):
            x = a[n + i]
            if x[0] != 'out' or x[1] != c.collect['f'] or x[2] != i + 1:
                ck.violation('%s parameter list' % fn['f'], at(fn, calls[0][4]), '%s is not what was collected from the arguments (%s)' % (
                    names(vfn)[n + i], show(x, nm)[:80]))
        st = [e for e in p.events if e[0] == 'call' and 'va_start' in e[1]]
        if len(st) != 1 or st[0][3][-1] != ('P', n - 1):
            ck.violation('%s va_start' % fn['f'], at(fn), 'collects the arguments after %s, not after the last named one' % (
                show(st[0][3][-1], nm) if st else 'none'))
        if SPEC[req]['ret'] != 'RtVoid':
            v = p.end[1]
            if v is None or v[0] != 'r' or v[1] != vfn['f']:
                ck.violation('%s return' % fn['f'], at(fn), 'does not return the value of %s' % vfn['f'])


def motion_begin(ck, c):
    fns = [f for f in c.prog.find('RiMotionBegin') if f['id'] in c.inst]
    if not fns:
        ck.undecided(c.file, 'no RiMotionBegin')
        return
    fn = fns[0]
    ps = c.paths(fn)
    if ps is None:
        return
    ck.ob('motion-times', sample='RiMotionBegin')
    for p in ps:
        if p.end[0] == 'throw':
            continue
        calls = requests_made(c.ri, p)
        if not calls:
            # an error path: must have been decided by a negative count
            continue
        if len(calls) != 1 or calls[0][0] != 'MotionBegin':
            ck.violation('RiMotionBegin requests', at(fn), 'makes the requests %s' % [x[0] for x in calls])
            continue
        x = array_of(calls[0][2][0])
        if x is None:
            continue
        if cpoly(x[1]) != cpoly(('P', 0)):
            ck.violation('RiMotionBegin length', at(fn, calls[0][3]), 'passes %s times instead of N' % show(x[1], names(fn)))
        st = [e for e in p.events if e[0] == 'store' and any(t[0] == 'vaarg' for t in terms(e[2]))]
        for e in st:
            ix = None
            if e[1][0] == 'idx':
                ix = strip_casts(e[1][2])
            elif e[1][0] == 'r' and base(e[1][1]) in ('operator[]', 'at'):
                ix = strip_casts(e[1][3][0])
            if ix is not None and any(t[0] == 'iv' for t in terms(ix)) and ix != ('iv', INT(0), 1):
                ck.violation('RiMotionBegin order', at(fn, e[3]), 'times are not stored in the order given')
        pushes = [e for e in p.events if e[0] == 'call' and base(e[1]) in ('push_back', 'emplace_back') and e[3] and any(t[0] == 'vaarg' for t in terms(e[3][0]))]
        if any(e[0] == 'loop' for e in p.events):
            ck.ob('motion-times')
            if not st and not pushes:
                ck.undecided(at(fn), 'cannot see how the times are collected')
            cond = [e for e in p.events if e[0] == 'cond' and any(t == ('iv', INT(0), 1) for t in terms(e[1]))]
            if st and cond and cond[0][1] not in (('bin', '<', ('iv', INT(0), 1), ('P', 0)), ('bin', '!=', ('iv', INT(0), 1), ('P', 0))):
                ck.violation('RiMotionBegin bound', at(fn, cond[0][3]), 'reads times while %s' % show(cond[0][1], names(fn)))


def archive_record(ck, c):
    fns = [f for f in c.prog.find('RiArchiveRecord') if f['id'] in c.inst]
    if not fns:
        ck.undecided(c.file, 'no RiArchiveRecord')
        return
    fn = fns[0]
    ps = c.paths(fn)
    if ps is None:
        return
    ck.ob('archive-record', sample='RiArchiveRecord')
    for p in ps:
        calls = requests_made(c.ri, p)
        if p.end[0] == 'throw' or not calls:
            continue
        if len(calls) != 1 or calls[0][0] != 'ArchiveRecord' or in_loop(p, c):
            ck.violation('RiArchiveRecord requests', at(fn), 'makes the requests %s' % [x[0] for x in calls])
            continue
        a = calls[0][2]
        if a[0] != ('P', 0):
            ck.violation('RiArchiveRecord type', at(fn, calls[0][3]), 'passes %s as type' % show(a[0], names(fn)))
        pr = [e for e in p.events if e[0] == 'call' and base(e[1]) in ('vsnprintf', '_vsnprintf', 'vsprintf', 'vasprintf')]
        if pr and not any(t == ('P', 1) for t in pr[-1][3]):
            ck.violation('RiArchiveRecord format', at(fn, pr[-1][4]), 'does not format with the given format string')
        if pr:
            buf = pr[-1][3][0]
            t = a[1]
            while t[0] in ('lx', 'cast'):
                t = t[-1]
            b = buf
            while b[0] in ('lx', 'cast'):
                b = b[-1]
            if t != b and t[0] in ('P', 'str', 'newarr', 'G', 'lv'):
                ck.violation('RiArchiveRecord text', at(fn, calls[0][3]), 'passes %s instead of the formatted text' % show(t, names(fn)))


def build_list(ck, c):
    """(count, tokens, values, counts) -> parameter list"""
    fn = c.build
    ps = c.paths(fn, stop=False)
    if ps is None:
        return
    nm = names(fn)
    I = ('iv', INT(0), 1)
    seen = 0
    for p in ps:
        if p.end[0] != 'ret':
            continue
        ck.ob('list-builder', sample=fn['f'])
        ret = strip_casts(p.end[1])
        while ret[0] == 'ctor' and len(ret[2]) == 1:
            ret = strip_casts(ret[2][0])
        loop = any(e[0] == 'loop' for e in p.events)
        if not loop:
            if ret[0] == 'ctor' and len(ret[2]) == 2 and cpoly(ret[2][1]) not in (cpoly(('P', 0)), ()):
                ck.violation('list builder empty', at(fn), 'returns a list of %s parameters' % show(ret[2][1], nm))
            continue
        push = [e for e in p.events if e[0] == 'call' and base(e[1]) in ('push_back', 'emplace_back') and e[6] and 'Ri::Param' in e[6]]
        if len(push) != 1:
            if push or not any('Param' in str(e[1]) for e in p.events if e[0] == 'store'):
                ck.violation('list builder count', at(fn), '%d parameters are appended per token' % len(push))
            continue
        seen += 1
        x = strip_casts(push[0][3][0])
        while x[0] == 'ctor' and len(x[2]) == 1:
            x = strip_casts(x[2][0])
        if x[0] != 'ctor' or len(x[2]) != 4:
            ck.undecided(at(fn, push[0][4]), 'parameter is built in a way that cannot be read')
            continue
        spec, name, data, size = [strip_casts(y) for y in x[2]]
        decl = [e for e in p.events if e[0] == 'call' and base(e[1]) == 'getDeclaration']
        if len(decl) != 1 or not decl[0][3] or strip_casts(decl[0][3][0]) != ('idx', ('P', 1), I):
            ck.violation('list builder declaration', at(fn, push[0][4]), 'the type is not looked up from the i-th token')
        if spec[0] == 'r' and base(spec[1]) == 'getDeclaration' and strip_casts(spec[3][0]) != ('idx', ('P', 1), I):
            ck.violation('list builder type', at(fn, push[0][4]), 'the type is that of %s' % show(spec[3][0], nm))
        if data != ('idx', ('P', 2), I):
            ck.violation('list builder value', at(fn, push[0][4]), 'the value is %s instead of values[i]' % show(data, nm))
        # name: the name part of the declaration, terminated
        term = [e for e in p.events if e[0] == 'cond' and any(t[0] == 'deref' and t[1][0] == 'out' for t in terms(e[1]))]
        copied = any(t[0] == 'r' and base(t[1]) in ('c_str', 'data') for t in terms(name))
        if term:
            needs = [e[2] if e[1][0] in ('cast', 'deref', 'bin') and not (e[1][0] == 'bin' and e[1][1] == '==') else not e[2] for e in term]
            if needs[-1] and not copied:
                ck.violation('list builder name', at(fn, push[0][4]), 'a name followed by blanks is passed with the blanks')
        elif not copied:
            ck.violation('list builder name', at(fn, push[0][4]), 'the end of the name is never looked at')
        if not copied and not (name[0] == 'out' and name[2] == 1):
            ck.violation('list builder name source', at(fn, push[0][4]), 'the name is %s' % show(name, nm)[:80])
        # size
        pl = poly(size, lambda t: base(t[1]) if t[0] == 'r' else t)
        if pl != ((('iclassCount', 'storageCount'), 1),):
            ck.violation('list builder size', at(fn, push[0][4]), 'the number of values is %s' % show(size, nm)[:120])
        for t in terms(size):
            if t[0] == 'r' and base(t[1]) == 'iclassCount' and strip_casts(t[3][0]) != ('P', 3):
                ck.violation('list builder counts', at(fn, push[0][4]), 'class counts are not the given ones')
        if ret[0] == 'ctor' and len(ret[2]) == 2 and cpoly(ret[2][1]) != cpoly(('P', 0)) and \
                not any(t[0] == 'r' and base(t[1]) == 'size' for t in terms(ret[2][1])):
            ck.violation('list builder length', at(fn), 'returns %s parameters' % show(ret[2][1], nm))
        cl = [e for e in p.events if e[0] == 'call' and base(e[1]) == 'clear' and e[2] == push[0][2]]
        if not cl and push[0][2][0] == 'G':
            ck.violation('list builder clear', at(fn), 'parameters of an earlier call are kept in the list')
    if not seen:
        ck.undecided(at(fn), 'the list builder has a shape that cannot be read')


def collect_list(ck, c):
    """va_list -> (count, tokens, values)"""
    fn = c.collect
    ps = c.paths(fn, stop=False)
    if ps is None:
        return
    for p in ps:
        if not any(e[0] == 'loop' for e in p.events):
            continue
        ck.ob('varargs-collector', sample=fn['f'])
        pushes = [e for e in p.events if e[0] == 'call' and base(e[1]) in ('push_back', 'emplace_back')]
        tok = [e for e in pushes if e[6] and 'char' in e[6]]
        val = [e for e in pushes if e[6] and 'void' in e[6]]
        if len(tok) != 1 or len(val) != 1:
            ck.violation('varargs collector push', at(fn), '%d tokens and %d values kept per pair' % (len(tok), len(val)))
            continue
        va = [t for t in terms(val[0][3][0]) if t[0] == 'vaarg']
        if not va or 'void' not in va[0][2]:
            ck.violation('varargs collector value', at(fn, val[0][4]), 'the value kept is not the pointer that follows the token')
        end = [e for e in p.events if e[0] == 'store' and e[1] in (('P', 2), ('P', 3)) and e[2] != ('null',)]
        for e in end:
            want = tok[0][2] if e[1] == ('P', 2) else val[0][2]
            if not any(t == want for t in terms(e[2])):
                ck.violation('varargs collector result', at(fn, e[3]), 'hands out the wrong vector')
        for who in (tok[0][2], val[0][2]):
            if who[0] == 'G' and not any(e[0] == 'call' and base(e[1]) == 'clear' and e[2] == who for e in p.events):
                ck.violation('varargs collector clear', at(fn), 'tokens of an earlier call are kept')
        st = [e for e in p.events if e[0] == 'store' and e[1] == ('P', 1)]
        inc = [e for e in st if e[2][0] == 'bin']
        if inc and dict(poly(inc[-1][2], lambda t: 'x')) != {(): 1, ('x',): 1}:
            ck.violation('varargs collector count', at(fn, inc[-1][3]), 'the number of parameters is counted as %s' % show(inc[-1][2]))


def handles(ck, c):
    """new handles are kept in the innermost set and name themselves; a name is given out for a known handle only"""
    fn = c.newh
    ps = c.paths(fn, stop=False)
    for p in ps or ():
        if p.end[0] != 'ret':
            continue
        ck.ob('handle-table', sample=fn['f'])
        ins = [e for e in p.events if e[0] == 'call' and base(e[1]) in ('insert', 'push_back', 'emplace') and e[6] and 'set<' in e[6]]
        st = [e for e in p.events if e[0] == 'store' and e[1] == ('P', 0)]
        new = [e for e in p.events if e[0] == 'new']
        if len(new) != 1 or len(st) != 1 or strip_casts(st[0][2]) != new[0][1]:
            ck.violation('new handle value', at(fn), 'the handle handed out is not the new object')
            continue
        if len(ins) != 1 or strip_casts(ins[0][3][0]) != new[0][1]:
            ck.violation('new handle kept', at(fn), 'the new handle is not entered in the table')
        elif not (ins[0][2][0] == 'r' and base(ins[0][2][1]) == 'back'):
            ck.violation('new handle scope', at(fn, ins[0][4]), 'the new handle is not entered in the innermost scope')
    fn = c.findh
    ps = c.paths(fn, stop=False)
    for p in ps or ():
        ck.ob('handle-table', sample=fn['f'])
        if p.end[0] == 'ret':
            found = False
            for e in p.events:
                if e[0] == 'cond':
                    t = strip_casts(e[1])
                    if t[0] == 'r' and base(t[1]) in ('operator!=', 'operator==') and any(x[0] == 'r' and base(x[1]) == 'find' for x in terms(t)):
                        if (base(t[1]) == 'operator!=') == e[2]:
                            found = True
                    elif t[0] == 'r' and base(t[1]) in ('count', 'contains') and e[2]:
                        found = True
                    elif t[0] == 'bin' and any(x[0] == 'r' and base(x[1]) in ('count', 'find') for x in terms(t)):
                        found = True
            if not found:
                ck.violation('find handle', at(fn), 'a name is returned for a handle that was not found')
