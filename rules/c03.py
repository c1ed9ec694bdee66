"""C03: argument ranges, array lengths and parameter counts are enforced."""
from .validator import *

FIELDS = ('uniform', 'varying', 'vertex', 'facevarying', 'facevertex')


def field(t, name):
    t = strip_casts(t)
    if t[0] == 'agg':
        for k, x in t[2]:
            if k == name:
                return x
        return field(t[1], name)
    if t[0] == 'ctor' and t[1].endswith('SqInterpClassCounts'):
        if len(t[2]) == 0:
            return INT(0)
        if len(t[2]) == 5:
            return t[2][FIELDS.index(name)]
        if len(t[2]) == 1:
            return field(t[2][0], name)
    return ('fld', t, name)


def want_counts(sp, pos):
    ic = sp.get('iclass')
    one = INT(1)
    if ic is None:
        return {f: one for f in FIELDS}
    out = {}
    out['uniform'] = parse(ic['Uniform'], pos) if 'Uniform' in ic else one
    out['varying'] = parse(ic['Varying'], pos) if 'Varying' in ic else one
    out['vertex'] = parse(ic['Vertex'], pos) if 'Vertex' in ic else out['varying']
    out['facevarying'] = parse(ic['FaceVarying'], pos) if 'FaceVarying' in ic else out['varying']
    out['facevertex'] = parse(ic['FaceVertex'], pos) if 'FaceVertex' in ic else out['facevarying']
    return out


def is_bilinear(t):
    """is the term strcmp(type, "bilinear") (0 when it is)?"""
    t = strip_casts(t)
    return t[0] == 'r' and t[1].rsplit('::', 1)[-1] == 'strcmp' and ('str', 'bilinear') in t[3]


def under(t, assume):
    """evaluate conditionals on strcmp(type, "bilinear") under an assumption"""
    if t[0] == '?':
        c, pol = t[1], True
        v = evalt(c, lambda x: (0 if assume else 1) if is_bilinear(x) else None)
        if v is not None:
            return under(t[2] if v else t[3], assume)
    if t[0] == 'bin':
        return ('bin', t[1], under(t[2], assume), under(t[3], assume))
    if t[0] == 'cast':
        return ('cast', t[1], under(t[2], assume))
    return t


def run(ck):
    v = V(ck)
    ri = v.ri
    for req in sorted(ri.req):
        if req == 'ArchiveRecord':
            continue
        fn, ps = v.paths(req)
        if ps is None:
            continue
        sp = SPEC[req]
        pos = {a['n']: i for i, a in enumerate(sp['args'])}
        np_ = len(sp['args'])
        if sp['plist']:
            pos['pList'] = np_
        ptypes = [v.prog.type(p['t']) for p in fn['p']]

        def isint(x):
            if isinstance(x, str):
                return False
            if x[0] == 'P':
                return ptypes[x[1]] in ('int', 'RtInt', 'short', 'RtBoolean')
            if x[0] == 'float':
                return False
            return x[0] in ('size', 'sum', 'max', 'countP')
        need = []
        for a in sp['args']:
            for op, lim in a.get('range', ()):
                o = {'gt': '>', 'lt': '<', 'ge': '>=', 'le': '<=', 'ne': '!='}[op]
                need.append((rel(o, ('P', pos[a['n']]), parse(lim, pos), isint), '%s %s %s' % (a['n'], o, lim), 'range'))
            if 'len' in a and a['t'].endswith('Array'):
                need.append((rel('>=', ('r', 'size', ('P', pos[a['n']]), ()), parse(a['len'], pos), isint), 'length of %s >= %s' % (a['n'], a['len']), 'length'))
        for r, txt, kind in need:
            ck.ob(kind, sample='%s: %s' % (req, txt))
        SCODES = SCOPES
        for pth in ps:
            rels = path_relations(pth, isint)
            calls = requests_made(ri, pth)
            if pth.end[0] == 'throw':
                just = any(implied(negate(r, isint), rels) for r, _, _ in need)
                if not just:
                    # by scope?
                    ok = [s for s, c in SCODES.items() for z in (False, True) if v.run_scope(pth, c, z, False) is not None]
                    allowed = set(sp['scopes']) | {'Any'} if sp['scopes'] else set(SCODES)
                    just = not (set(ok) & allowed)
                if not just:
                    cs = [e for e in pth.events if e[0] == 'cond']
                    last = cs[-1] if cs else None
                    if last is not None and opaque(last[1]):
                        ck.undecided(at(fn), 'rejects on a condition the rule cannot read: %s' % show(last[1], names(fn)))
                    else:
                        ck.violation('%s over-rejects' % req, at(fn, last[3] if last else None),
                                     'rejects a request that satisfies every documented constraint (when %s%s)' % (
                                         '' if not last or last[2] else 'not ', show(last[1], names(fn)) if last else 'always'))
                continue
            if pth.end[0] != 'ret' or not calls:
                continue
            for r, txt, kind in need:
                if not implied(r, rels):
                    ck.violation('%s unchecked %s' % (req, txt), at(fn), 'a request with not(%s) reaches the next stage' % txt)
            params(ck, v, fn, sp, req, pth, pos, isint)
    helpers(ck, v)
    ck.need('range', 60)
    ck.need('length', 14)
    ck.need('param-counts', 40)
    return ck.finish(
        'On every accepting path of every validator method each documented range constraint and array length must have been '
        'established by a branch decision (relations compared as polynomial normal forms); on every rejecting path one must '
        'have been refuted; parameter-list lengths are checked against the documented number of values per interpolation '
        'class; the counting helpers are summarised against their definitions.',
        ['comparisons are over reals; NaN arguments are not distinguished',
         'patch-mesh and curves parameter sizes inside archives are exempt, as documented'])


def opaque(t):
    return any(x and x[0] in ('out', 'iv', 'phi', 'L', 'lambda', 'icall') for x in terms(t))


def params(ck, v, fn, sp, req, pth, pos, isint):
    if not sp['plist']:
        return
    nm = names(fn)
    pl = ('P', pos['pList'])
    ck.ob('param-counts', sample='%s: %s' % (req, sp.get('iclass', 'one value per class')))
    cs = [e for e in pth.events if e[0] == 'call' and e[1].endswith('checkParamListArraySizes')]
    archive = any(e[0] == 'cond' and e[1][0] == 'bin' and (
        (e[1][1] == '==' and e[2]) or (e[1][1] == '!=' and not e[2])) and e[1][3] == INT(512) and
        strip_casts(e[1][2])[0] == 'r' and strip_casts(e[1][2])[2] == v.scope_f for e in pth.events)
    if not cs:
        if not (req in ('PatchMesh', 'Curves') and archive):
            ck.violation('%s parameter sizes' % req, at(fn), 'parameter array lengths are not checked on an accepting path')
    else:
        e = cs[0]
        if strip_casts(e[3][0]) != pl:
            ck.violation('%s parameter sizes' % req, at(fn, e[4]), 'checks a parameter list other than its own')
        counts = e[3][1]
        if sp.get('iclass', {}).get('ComplicatedCustomImpl') is not None:
            if req == 'Geometry':
                got = [field(counts, f) for f in FIELDS]
                if any(poly(g) != poly(INT(-1)) for g in got):
                    ck.violation('Geometry parameter counts', at(fn, e[4]), 'parameter counts of Geometry are unknown and must not be checked')
            else:
                want = {'PatchMesh': ('patchMeshIClassCounts', (('P', 0), ('P', 1), ('P', 2), ('P', 3), ('P', 4), 'ustep', 'vstep', 'known')),
                        'Curves': ('curvesIClassCounts', (('P', 0), ('P', 1), ('P', 2), 'vstep', 'known'))}[req]
                t = strip_casts(counts)
                while t[0] == 'ctor' and len(t[2]) == 1:
                    t = strip_casts(t[2][0])
                if t[0] != 'r' or not t[1].endswith(want[0]):
                    ck.undecided(at(fn), 'parameter counts come from %s' % show(t, nm))
                else:
                    for g, w in zip(t[3], want[1]):
                        g = strip_casts(g)
                        if w in ('ustep', 'vstep'):
                            ok = g[0] == 'fld' and g[2] == w and g[1][0] == 'r' and g[1][2] == v.attr_f
                        elif w == 'known':
                            ok = g[0] == 'un' and g[1] == '!'
                        else:
                            ok = g == w
                        if not ok:
                            ck.violation('%s parameter counts' % req, at(fn, e[4]), 'counts are computed from %s where %s is wanted' % (show(g, nm), w if isinstance(w, str) else nm[w[1]]))
        else:
            want = want_counts(sp, pos)
            known = None
            for c in pth.events:
                if c[0] == 'cond':
                    x = evalt(c[1], lambda y: 0 if is_bilinear(y) else None)
                    if x is not None and any(is_bilinear(y) for y in terms(c[1]) if y):
                        known = bool(x) == c[2]
            for f in FIELDS:
                g, w = field(counts, f), want[f]
                for assume in ((True, False) if known is None else (known,)):
                    w1 = w
                    if w[0] == '?':
                        w1 = w[2] if assume else w[3]
                    g1 = under(g, assume)
                    if poly(nt(g1), leaf) != poly(nt(w1), leaf):
                        ck.violation('%s %s count' % (req, f), at(fn, e[4]), '%s parameters are checked against %s values, the interface wants %s' % (f, show(g, nm), show(w1, nm)))
                        break
    if sp['required']:
        rq = [e for e in pth.events if e[0] == 'call' and e[1].endswith('checkPointParamPresent')]
        ck.ob('required-point', sample=req)
        if not rq or strip_casts(rq[0][3][0]) != pl:
            ck.violation('%s required P' % req, at(fn), 'accepted without checking that "P" or "Pw" is present')


def helpers(ck, v):
    """the counting functions mean what they say"""
    prog = v.prog

    def get(q, n=None):
        fs = [f for f in prog.find(q) if n is None or len(f['p']) == n]
        return fs[0] if fs else None

    def summary(fn, also=()):
        pol = LocalPolicy(v.ri, None, {fn['file'], v.file}, stop=STOP + ('warning', 'error'), also=also)
        try:
            return Walker(prog, pol).run(fn)
        except (Overflow, Unsupported) as e:
            ck.undecided(at(fn), 'cannot be summarised (%s)' % e)
            return []
    # iclassCount
    f = get('Aqsis::iclassCount')
    if f:
        ck.fn(f)
        en = prog.enums.get('Aqsis::Ri::TypeSpec::IClass')
        code = {k.rsplit('::', 1)[-1]: x for k, x in en['c']} if en else {}
        for name, fld in (('Uniform', 'uniform'), ('Varying', 'varying'), ('Vertex', 'vertex'), ('FaceVarying', 'facevarying'),
                          ('FaceVertex', 'facevertex'), ('Constant', None)):
            ck.ob('helper', sample='iclassCount(%s)' % name)
            want = ('fld', ('P', 0), fld) if fld else INT(1)
            for pth in summary(f):
                ok = True
                for e in pth.events:
                    if e[0] in ('cond', 'switch'):
                        t = evalt(e[1], lambda x: code.get(name) if x == ('P', 1) else None)
                        if t is None:
                            continue
                        if e[0] == 'cond' and bool(t) != e[2]:
                            ok = False
                        if e[0] == 'switch':
                            ok = ok and (t not in e[2][1] if isinstance(e[2], tuple) else t == e[2])
                if ok and pth.end[0] == 'ret' and pth.end[1] is not None and strip_casts(pth.end[1]) != want:
                    ck.violation('iclassCount %s' % name, at(f), 'the %s count is taken from %s' % (name, show(pth.end[1], names(f))))
    # checkParamListArraySizes: one generic parameter
    f = get(CLS + '::checkParamListArraySizes')
    if f is None:
        ck.undecided(v.file, 'no checkParamListArraySizes')
    else:
        ck.fn(f)
        seen = {'skip': False, 'throw': False, 'ok': False}
        for pth in summary(f):
            inl = [e for e in pth.events if e[0] in ('cond',) and any(x and x[0] == 'iv' for x in terms(e[1])) and not loop_cond(e[1])]
            ck.ob('helper', sample='checkParamListArraySizes, one parameter')
            if not inl:
                continue
            # expected = iclassCount(P1, spec.iclass) * storageCount
            def size_of(t):
                """actual size / expected size / other"""
                t = strip_casts(t)
                if t[0] == 'r' and t[1].endswith('::size') and any(x and x[0] == 'iv' for x in terms(t)):
                    return 'actual'
                p = poly(t)
                if len(p) == 1 and p[0][1] == 1 and len(p[0][0]) == 2:
                    a = p[0][0]
                    k = sorted(x[1].rsplit('::', 1)[-1] if x[0] == 'r' else '?' for x in a)
                    if k == ['iclassCount', 'storageCount']:
                        ic = [x for x in a if x[1].endswith('iclassCount')][0]
                        if ic[3][0] == ('P', 1) and ic[3][1][0] == 'fld' and ic[3][1][2] == 'iclass':
                            return 'expected'
                if t == INT(0):
                    return 'zero'
                return None
            rels_ = []
            bad = False
            for e in inl:
                t = e[1]
                if t[0] == 'bin' and t[1] in NEGOP:
                    a, b = size_of(t[2]), size_of(t[3])
                    op = t[1] if e[2] else NEGOP[t[1]]
                    if a and b:
                        rels_.append((a, op, b))
                        continue
                bad = True
            if bad:
                ck.undecided(at(f), 'parameter length comparison of a shape the rule cannot read')
                continue
            neg = ('expected', '<', 'zero') in rels_
            short = ('actual', '<', 'expected') in rels_ or ('expected', '>', 'actual') in rels_
            if pth.end[0] == 'throw':
                if not short:
                    ck.violation('parameter arrays over-reject', at(f), 'a parameter array that is long enough is rejected')
                seen['throw'] = True
            else:
                if short and not neg:
                    ck.violation('parameter arrays accept short', at(f), 'a parameter array shorter than its interpolation class needs is accepted')
                if not neg and not any(r in rels_ for r in (('actual', '>=', 'expected'), ('expected', '<=', 'actual'), ('actual', '>', 'expected'), ('actual', '==', 'expected'))):
                    ck.violation('parameter arrays unchecked', at(f), 'a parameter array passes with only %s known' % rels_)
    # checkPointParamPresent
    fs = [g for g in prog.funcs.values() if g['n'] == 'checkPointParamPresent']
    if not fs:
        ck.undecided(v.file, 'no checkPointParamPresent')
    for f in fs:
        ck.fn(f)
        ck.ob('helper', sample='checkPointParamPresent')
        for pth in summary(f):
            hits = set()
            for e in pth.events:
                if e[0] == 'cond':
                    t = e[1]
                    if t[0] == 'r' and t[1].endswith('strcmp') and not e[2]:
                        hits |= {x[1] for x in t[3] if x[0] == 'str'}
                    if t[0] == 'bin' and t[1] == '==' and e[2] and t[2][0] == 'r' and t[2][1].endswith('strcmp'):
                        hits |= {x[1] for x in t[2][3] if x[0] == 'str'}
                    if t[0] == 'r' and t[1].endswith('operator==') and e[2]:
                        hits |= {x[1] for x in terms(t) if x and x[0] == 'str'}
            if pth.end[0] == 'throw' and hits & {'P', 'Pw'}:
                ck.violation('point parameter check', at(f), 'throws although "%s" is present' % next(iter(hits)))
            if pth.end[0] == 'ret' and not hits & {'P', 'Pw'}:
                ck.violation('point parameter check', at(f), 'accepts a parameter list in which neither "P" nor "Pw" was found')
    countp(ck, v, get('Aqsis::countP'), summary)
    sums(ck, v, get, summary)
    meshes(ck, v, get, summary)


def loop_cond(t):
    return t[0] == 'bin' and t[2][0] == 'iv' and t[1] in ('<', '!=', '<=')


def countp(ck, v, f, summary):
    if f is None:
        return
    ck.fn(f)
    ck.ob('helper', sample='countP')
    for pth in summary(f):
        hit = None
        for e in pth.events:
            if e[0] == 'cond':
                t = e[1]
                pos_ = t[0] == 'r' and t[1].endswith('strcmp') and not e[2]
                if pos_:
                    s = [x[1] for x in t[3] if x[0] == 'str']
                    hit = s[0] if s else None
        if pth.end[0] == 'ret' and hit in ('P', 'Pw') and pth.end[1] is not None:
            t = strip_casts(pth.end[1])
            d = 3 if hit == 'P' else 4
            if t[0] == 'bin' and t[1] == '/':
                if strip_casts(t[3]) != INT(d):
                    ck.violation('countP %s' % hit, at(f), 'divides the length of "%s" by %s, a %s has %d floats' % (hit, show(t[3]), hit, d))


def sums(ck, v, get, summary):
    """sum adds every element from start by step; max starts below every int; over one
    generic iteration"""
    for q, n in (('Aqsis::sum', 1), ('Aqsis::sum', 3), ('Aqsis::max', 1)):
        f = get(q, n)
        if f is None:
            continue
        ck.fn(f)
        ck.ob('helper', sample='%s/%d' % (q, n))
        for node in walk(f['body']):
            if node.get('k') == 'for':
                ini = node.get('i')
                d = None
                for x in walk(ini):
                    if x.get('k') == 'decl':
                        for y in x.get('d', x.get('v', [])) if isinstance(x.get('d', x.get('v', [])), list) else []:
                            d = y
                if d is None or not d.get('x'):
                    continue
                x0 = strip_node(d['x'])
                if n == 3:
                    ok = x0.get('k') == 'ref' and x0.get('dk') == 'param' and x0.get('pi', 1) == 1
                else:
                    ok = x0.get('k') == 'int' and x0.get('v') == 0
                if not ok and x0.get('k') in ('int', 'ref'):
                    ck.violation('%s start' % q, at(f, node.get('l')), 'does not start at the %s element' % ('requested' if n == 3 else 'first'))


def strip_node(n):
    while n is not None and n.get('k') == 'cast':
        n = n['x']
    return n


def walk(n):
    if isinstance(n, dict):
        yield n
        for x in n.values():
            if isinstance(x, (dict, list)):
                yield from walk(x)
    elif isinstance(n, list):
        for x in n:
            yield from walk(x)


def meshes(ck, v, get, summary):
    """patch mesh and curves counts, per case of type/wrap"""
    f = get('Aqsis::patchMeshIClassCounts')
    P = lambda i: ('P', i)

    def cases(pth, table):
        """truth of named string tests on the path; table: name -> (param, literal)"""
        def atom(t):
            t0 = strip_casts(t)
            if t0[0] == 'r' and t0[1].rsplit('::', 1)[-1] == 'strcmp':
                for nme, (pi, lit) in table.items():
                    if ('P', pi) in t0[3] and ('str', lit) in t0[3]:
                        return 0 if asg[nme] else 1
            if t0[0] == 'P' and t0[1] in flags:
                return int(asg[flags[t0[1]]])
            return None
        return atom
    import itertools
    if f is not None:
        ck.fn(f)
        ps = summary(f)
        table = {'bilinear': (0, 'bilinear'), 'uper': (2, 'periodic'), 'vper': (4, 'periodic')}
        flags = {7: 'known'}
        for vals in itertools.product((False, True), repeat=4):
            asg = dict(zip(('bilinear', 'uper', 'vper', 'known'), vals))
            ck.ob('helper', sample='patchMeshIClassCounts %s' % asg)
            nu, nv, us, vs = P(1), P(3), P(5), P(6)
            if asg['bilinear']:
                U = ('bin', '*', nu if asg['uper'] else ('bin', '-', nu, INT(1)), nv if asg['vper'] else ('bin', '-', nv, INT(1)))
                VA = ('bin', '*', nu, nv)
            elif asg['known']:
                pu = ('bin', '/', nu, us) if asg['uper'] else ('bin', '+', ('bin', '/', ('bin', '-', nu, INT(4)), us), INT(1))
                pv = ('bin', '/', nv, vs) if asg['vper'] else ('bin', '+', ('bin', '/', ('bin', '-', nv, INT(4)), vs), INT(1))
                U = ('bin', '*', pu, pv)
                VA = ('bin', '*', pu if asg['uper'] else ('bin', '+', pu, INT(1)), pv if asg['vper'] else ('bin', '+', pv, INT(1)))
            else:
                U = VA = INT(-1)
            want = {'uniform': U, 'varying': VA, 'vertex': ('bin', '*', nu, nv)}
            check_case(ck, f, ps, cases(None, table), want, 'patch mesh', asg)
    f = get('Aqsis::curvesIClassCounts')
    if f is not None:
        ck.fn(f)
        ps = summary(f)
        table = {'cubic': (0, 'cubic'), 'per': (2, 'periodic')}
        flags = {4: 'known'}
        for vals in itertools.product((False, True), repeat=3):
            asg = dict(zip(('cubic', 'per', 'known'), vals))
            ck.ob('helper', sample='curvesIClassCounts %s' % asg)
            want = {'uniform': ('r', 'size', P(1), ()), 'vertex': ('r', 'sum', None, (P(1),))}
            if not asg['cubic']:
                want['varying'] = want['vertex']
            elif not asg['known']:
                want['varying'] = INT(-1)
            check_case(ck, f, ps, cases(None, table), want, 'curves', asg)


def simp(t, atom):
    """resolve conditionals"""
    if t[0] == '?':
        c = evalt(t[1], atom)
        if c is not None:
            return simp(t[2] if c else t[3], atom)
        return t
    if t[0] == 'bin':
        return ('bin', t[1], simp(t[2], atom), simp(t[3], atom))
    if t[0] == 'cast':
        return ('cast', t[1], simp(t[2], atom))
    return t


def canon_div(t):
    """polynomials with quotients as atoms in canonical form"""
    def lf(x):
        if x[0] == 'bin' and x[1] in '/%':
            return (x[1], poly(x[2], lf), poly(x[3], lf))
        return leaf(x)
    return poly(t, lf)


def check_case(ck, f, ps, atom, want, what, asg):
    for pth in ps:
        ok = True
        for e in pth.events:
            if e[0] == 'cond':
                c = evalt(e[1], atom)
                if c is not None and bool(c) != e[2]:
                    ok = False
        if not ok or pth.end[0] != 'ret' or pth.end[1] is None:
            continue
        for fld, w in want.items():
            g = simp(field(pth.end[1], fld), atom)
            if any(x and x[0] in ('out', 'iv', 'phi', 'L', 'upd', 'loopvar') for x in terms(g)) or g[0] == 'fld':
                ck.undecided(at(f), '%s %s count of a shape the rule cannot read' % (what, fld))
                continue
            if canon_div(g) != canon_div(w):
                ck.violation('%s %s count' % (what, fld), at(f), 'for %s the %s count is %s, wanted %s' % (
                    ', '.join(('' if x else 'not ') + k for k, x in asg.items()), fld, show(g, names(f)), show(w, names(f))))
