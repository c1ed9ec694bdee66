"""C05: the RIB writer writes each request it receives, with its arguments in
the order and type the parser expects, and nothing else."""
from engine.paths import Overflow, Unsupported, INT
from .ricommon import *
from .validator import SPEC
from .c03 import walk

FILE = 'libs/riutil/ribwriter.cpp'
FMT = {'print', 'printTriple', 'printParam', 'whitespace', 'beginRequest', 'endRequest', 'increaseIndent', 'decreaseIndent', 'archiveRecord'}
SERVICES = 'Aqsis::RibWriterServicesImpl'
PROC = {'DelayedReadArchive': 1, 'RunProgram': 2, 'DynamicLoad': 2}
DATA = {'Float': 'floatData', 'Integer': 'intData', 'String': 'stringData'}


class WriterPolicy(LocalPolicy):
    def inline(self, w, fn, call):
        if fn['n'] in FMT and 'Formatter' in fn['f'] and 'RibWriter' not in fn['f'].rsplit('::', 1)[0].split('<')[0]:
            return False
        return LocalPolicy.inline(self, w, fn, call)


def short(q):
    return q.rsplit('::', 1)[-1]


def items(pth):
    """formatter events of a path, in order: (what, args, line, cfg events)"""
    out = []
    for e in pth.events:
        if e[0] == 'call' and 'Formatter::' in e[1] and short(e[1]) in FMT:
            out.append((short(e[1]), e[3], e[4]))
        elif e[0] in ('loop', 'endloop'):
            out.append((e[0], (), None))
    return out


def lookups(t):
    """map lookups inside a term: {(map field, key)}"""
    out = set()
    for x in terms(t):
        if x and x[0] == 'r' and short(x[1]) in ('find', 'at', 'operator[]', 'lower_bound') and 'map<' in x[1]:
            f = next((y[2] for y in terms(x[2]) if y and y[0] == 'fld' and 'FuncMap' in y[2]), None)
            f2 = x[2][2] if x[2][0] == 'fld' else None
            out.add((f, f2, x[3][0] if x[3] else None))
    return out


def unwrap(t):
    """drop casts between pointer types and copies"""
    t = strip_casts(t)
    while t and t[0] == 'copy':
        t = strip_casts(t[1])
    return t


def run(ck):
    prog = facts.load([r'^libs/riutil/'])
    ck.units = len(prog.units)
    ri = Ri(prog)
    writers = sorted(c for c in prog.classes if c.startswith('Aqsis::RibWriter<'))
    if len(writers) < 2:
        raise Broken('the two RIB writers were not found')
    maps = services(ck, prog, ri)
    bases = basis_names(ck, prog, ri)
    enums = {q.rsplit('::', 1)[-1]: v for q, v in (prog.enums.get('Aqsis::Ri::TypeSpec::Type') or {'c': []})['c']}
    if not set(DATA) <= set(enums):
        raise Broken('the parameter storage types were not found')
    for cls in writers:
        for req, sp in sorted(SPEC.items()):
            if not sp['rib']:
                continue
            fn = ri.impl(cls, req)
            if fn is None or not fn['f'].startswith(cls + '::'):
                ck.violation('%s not written' % req, cls, 'the writer has no method for the request %s' % req)
                continue
            ck.fn(fn)
            try:
                ps = Walker(prog, WriterPolicy(ri, cls, {FILE, fn['file']})).run(fn)
            except (Overflow, Unsupported) as e:
                ck.undecided(at(fn), 'cannot be summarised (%s)' % e)
                continue
            for pth in ps:
                method(ck, prog, ri, cls, req, sp, fn, pth, maps, bases, enums)
        archive_record(ck, prog, ri, cls)
    formatters(ck, prog, ri)
    ck.need('request-path', 400)
    ck.need('parameter', 200)
    ck.need('service-map', 9)
    ck.need('formatter', 8)
    return ck.finish(
        'Every request method of both RIB writers is summarised path by path down to the formatter calls; the printed values '
        'must be exactly the arguments of the request in documented order between one beginRequest(name) and one endRequest, '
        'parameters must be printed by storage type under their own name or an inline declaration; function and basis names '
        'must be those that read back to the same object.',
        ['operator<< of std::ostream writes the value it is given'])


def method(ck, prog, ri, cls, req, sp, fn, pth, maps, bases, enums):
    it = items(pth)
    nm = [p['n'] for p in fn['p']]
    key = '%s (%s)' % (req, 'binary' if 'Binary' in cls else 'ascii')
    if pth.end[0] == 'throw':
        return
    conds = [(e[1], e[2]) for e in pth.events if e[0] == 'cond']
    printed = [x for x in it if x[0] in ('beginRequest', 'endRequest', 'print', 'printTriple', 'printParam', 'archiveRecord')]
    if req == 'ReadArchive':
        parsed = [e for e in pth.events if e[0] == 'call' and short(e[1]) in ('parseRib', 'parseStream')]
        interp = next((p for c, p in conds if c == ('fld', STAR_THIS, 'm_interpolateArchives')), None)
        ck.ob('archive', sample=key)
        if parsed and interp is False:
            ck.violation(key + ' interpolation', at(fn, parsed[0][4]), 'archives are read although interpolation is off')
        if bool(parsed) == bool(printed):
            ck.violation(key + ' once', at(fn), 'an archive read is %s' % ('both interpolated and written' if parsed else 'neither interpolated nor written'))
            return
        if len(parsed) > 1:
            ck.violation(key + ' once', at(fn), 'an archive is interpolated twice')
        if parsed:
            return
    if req == 'Procedural':
        handle = next((p for c, p in conds if c == ('fld', STAR_THIS, 'm_handleProcedurals')), None)
        frees = [e for e in pth.events if e[0] in ('icall', 'call') and any(x == ('P', 3) for y in e[1:4] if isinstance(y, tuple) for x in terms(y) or ())]
        if handle is False:
            ck.ob('procedural', sample=key)
            if printed or frees:
                ck.violation(key + ' not handled', at(fn), 'a procedural is written or freed although procedurals are not handled')
            return
        ck.ob('procedural')
        if len(frees) != 1:
            ck.violation(key + ' free', at(fn), 'the procedural data is freed %d times' % len(frees))
    if req == 'Declare':
        d = [e for e in pth.events if e[0] == 'call' and short(e[1]) == 'declare']
        ck.ob('declare', sample=key)
        if len(d) != 1 or tuple(unwrap(a) for a in d[0][3]) != (('P', 0), ('P', 1)):
            ck.violation(key + ' dictionary', at(fn), 'the declaration is not entered in the dictionary that decides about inline declarations')
    ck.ob('request-path', sample=key)
    begins = [x for x in it if x[0] == 'beginRequest']
    if len(begins) != 1 or printed[0][0] != 'beginRequest':
        ck.violation(key + ' begin', at(fn), 'the request name is written %d times' % len(begins))
        return
    if unwrap(begins[0][1][0]) != ('str', req):
        ck.violation(key + ' name', at(fn, begins[0][2]), 'is written as %s' % show(begins[0][1][0]))
    if [x[0] for x in printed].count('endRequest') != 1 or printed[-1][0] != 'endRequest':
        ck.violation(key + ' end', at(fn), 'the request is not ended exactly once after its last argument')
        return
    # the arguments
    want = [(i, a) for i, a in enumerate(sp['args']) if 'rib' not in a or a['rib'] is None]
    want = [(i, a) for i, a in want if a['t'] != 'RtArchiveCallback']
    if req == 'Procedural':
        want = [(2, sp['args'][2]), (0, dict(sp['args'][0], t='data')), (1, sp['args'][1])]
        if not any(eq_established(conds, n) for n in PROC):
            want = [want[0], want[2]]
    body = it[[x[0] for x in it].index('beginRequest') + 1:]
    pos, depth, inparam = 0, 0, []
    sep = False
    prev = 'name'
    for x, args, line in body:
        if x == 'whitespace':
            sep = True
            continue
        if x in ('increaseIndent', 'decreaseIndent'):
            continue
        if x == 'loop':
            depth += 1
            continue
        if x == 'endloop':
            depth -= 1
            continue
        if x == 'endRequest':
            break
        cur = 'quoted'
        if x in ('print', 'printTriple') and not depth:
            v = unwrap(args[0])
            if pos >= len(want):
                ck.violation(key + ' extra value', at(fn, line), 'writes %s after the last argument' % show(v, nm))
                return
            i, a = want[pos]
            ok, n = value(ck, fn, req, x, v, i, a, maps, bases, conds, line, key, nm)
            if ok is None:
                ck.undecided(at(fn, line), 'argument %s is written as %s' % (a['n'], show(v, nm)))
            elif not ok:
                ck.violation('%s argument %s' % (key, a['n']), at(fn, line), 'is written as %s' % show(v, nm))
            pos += 1
            if a['t'] in ('RtInt', 'RtFloat', 'RtBoolean', 'RtColor', 'RtPoint'):
                cur = 'number'
        elif x == 'printParam' or depth:
            if not sp['plist'] or pos < len(want):
                ck.violation(key + ' parameter position', at(fn, line), 'parameters are written before argument %s' % (want[pos][1]['n'] if pos < len(want) else ''))
            inparam.append((x, args, line))
        if not sep and cur == 'number' and prev in ('name', 'number') and 'Binary' not in cls:
            ck.violation('%s separator' % key, at(fn, line), 'no white space before %s' % show(args[0], nm))
        sep, prev = False, cur
    if pos < len(want):
        if req == 'Procedural' and pos == 0:
            pass
        ck.violation('%s argument %s' % (key, want[pos][1]['n']), at(fn), 'is not written')
        return
    if sp['plist']:
        plist(ck, prog, fn, key, pth, len(fn['p']) - 1, inparam, enums)


def value(ck, fn, req, how, v, i, a, maps, bases, conds, line, key, nm):
    """(True | False | None, number of values) is v the written form of argument i"""
    P = ('P', i)
    ty = a['t']
    here = any(x == P for x in terms(v))
    if ty in ('RtColor', 'RtPoint'):
        return (how == 'printTriple' and v == P) if here else False, 1
    if ty in ('RtMatrix', 'RtBound'):
        n = 16 if ty == 'RtMatrix' else 6
        if how == 'print' and v[0] == 'ctor' and len(v[2]) == 2 and here:
            p, c = unwrap(v[2][0]), v[2][1]
            first = p in (P, ('idx', P, INT(0)), ('addr', ('idx', P, INT(0))), ('addr', ('idx', ('idx', P, INT(0)), INT(0))), ('deref', P))
            return first and c == INT(n), 1
        return (None if here else False), 1
    if ty == 'RtBasis':
        if v[0] == 'str':
            g = {x for c, p in conds if p for x in globals_in(c) if P in list(terms(c))}
            return bases.get(v[1]) in g, 1
        if v[0] == 'ctor' and len(v[2]) == 2 and here:
            return v[2][1] == INT(16), 1
        return (None if here else False), 1
    if ty in ('RtFilterFunc', 'RtErrorFunc', 'RtProcSubdivFunc'):
        lk = lookups(v)
        if len(lk) == 1:
            f, f2, k = next(iter(lk))
            return unwrap(k) == P and f == maps[ty], 1
        return (None if here else False), 1
    if ty == 'data':
        want = PROC
        if v[0] == 'ctor' and len(v[2]) == 2 and here:
            c = v[2][1]
            pos = [n for n in want if eq_established(conds, n)]
            if len(pos) == 1:
                return c == INT(want[pos[0]]), 1
            return None, 1
        return (None if here else False), 1
    return how == 'print' and v == P, 1


def eq_established(conds, s):
    """a decision on this path says that a name equals s"""
    for c, p in conds:
        st = [x[1] for x in terms(c) if x and x[0] == 'str']
        if s in st:
            fs = [x[1] for x in terms(c) if x and x[0] == 'r']
            if any(short(f) in ('strcmp',) for f in fs):
                if (c[0] == 'r' and not p) or (c[0] == 'bin' and c[1] == '==' and p) or (c[0] == 'bin' and c[1] == '!=' and not p) or (c[0] == 'un' and p) or (c[0] == 'cast' and not p):
                    return True
            elif any(short(f) == 'operator==' for f in fs) and p:
                return True
    return False


def globals_in(t):
    return {x[1] for x in terms(t) if x and x[0] in ('G', 'g', 'glob', 'ref', 'var')}


def plist(ck, prog, fn, key, pth, k, inparam, enums):
    """one generic parameter of the list"""
    P = ('P', k)
    loops = [i for i, e in enumerate(pth.events) if e[0] == 'loop']
    sel = None
    conds = []
    elem = None
    for e in pth.events:
        if e[0] == 'switch' and any(x and x[0] == 'r' and short(x[1]) == 'storageType' for x in terms(e[1])):
            sel = e[2]
            elem = elem or element(e[1], P)
        if e[0] == 'cond':
            conds.append((e[1], e[2]))
            if e[1][0] == 'bin' and e[1][1] == '==' and e[2] and e[1][3][0] == 'int' and any(x and x[0] == 'r' and short(x[1]) == 'storageType' for x in terms(e[1])):
                sel = e[1][3][1]
                elem = elem or element(e[1], P)
    used = any(P in list(terms(e[1])) for e in pth.events if e[0] == 'cond') or inparam or any(
        e[0] == 'call' and (e[2] == P or P in e[3]) for e in pth.events)
    ck.ob('parameter', sample=key)
    if not used:
        ck.violation(key + ' parameters', at(fn), 'the parameter list is not written')
        return
    entered = any(e[0] == 'loop' for e in pth.events) and elem is not None
    if not entered:
        if inparam and not any(element(a, P) is not None for x, args, l in inparam for a in args):
            ck.undecided(at(fn), 'parameter written in a form the rule cannot read')
        return
    byval = {enums[n]: n for n in DATA}
    kind = byval.get(sel) if not isinstance(sel, tuple) else None
    if isinstance(sel, tuple) and sel and sel[0] == 'not' and not [x for x in inparam if x[0] in ('printParam', 'print')]:
        for n in DATA:
            if enums[n] not in [y[1] if isinstance(y, tuple) else y for y in sel[1]]:
                ck.violation(key + ' parameter ' + n, at(fn), 'a parameter of this storage type is not written')
    prints = [x for x in inparam if x[0] in ('printParam', 'print')]
    if kind in DATA:
        if not prints:
            ck.violation(key + ' parameter ' + kind, at(fn), 'a parameter of this storage type is not written')
            return
        if len(prints) == 1 and prints[0][0] == 'printParam':
            tok, data, line = prints[0][1][0], unwrap(prints[0][1][1]), prints[0][2]
        elif len(prints) == 2:
            tok, data, line = prints[0][1][0], unwrap(prints[1][1][0]), prints[1][2]
        else:
            ck.violation(key + ' parameter once', at(fn, prints[0][2]), 'a parameter is written %d times' % len(prints))
            return
        if not (data[0] == 'r' and short(data[1]) == DATA[kind]) or element(data, P) != elem:
            ck.violation(key + ' parameter data ' + kind, at(fn, line), 'the data of a parameter of storage type %s is written as %s' % (kind, show(data)))
        i = elem[3][0] if elem[0] == 'r' and elem[3] else None
        if i is not None and i[0] == 'iv' and i[2] == 1 and i[1] != INT(0) and i[1][0] == 'int' or i is not None and i[0] == 'iv' and i[2] not in (1, -1):
            ck.violation(key + ' parameter loop', at(fn, line), 'the parameters written start at or step by other than one (%s)' % show(i))
        tok = unwrap(tok)
        plain = tok[0] == 'r' and short(tok[1]) == 'name'
        if plain:
            if element(tok, P) != elem:
                ck.violation(key + ' parameter name', at(fn, line), 'is written as %s' % show(tok))
            same = any(p and c[0] == 'r' and short(c[1]) == 'operator==' and has(c, 'getDeclaration') and has(c, 'spec') or
                       (not p and c[0] == 'r' and short(c[1]) == 'operator!=' and has(c, 'getDeclaration') and has(c, 'spec')) for c, p in conds)
            if not same:
                ck.violation(key + ' inline declaration', at(fn, line), 'a parameter is written under its bare name although no equal declaration has been established')
        elif tok[0] == 'str':
            ck.violation(key + ' parameter name', at(fn, line), 'is written as %s' % show(tok))


def has(t, name):
    return any(x and x[0] == 'r' and short(x[1]) == name for x in terms(t))


def element(t, P):
    """the list element term inside t"""
    for x in terms(t):
        if x and x[0] == 'r' and short(x[1]) in ('operator[]', 'at') and unwrap(x[2]) == P:
            return x
        if x and x[0] == 'idx' and P in list(terms(x[1])):
            return x
    return None


# ------------------------------------------------------------------ services
def services(ck, prog, ri):
    """name <-> pointer maps: the same map serves both directions and registration"""
    maps = {}
    for ty, get, reg, name in (('RtFilterFunc', 'getFilterFunc', 'registerFilterFunc', 'getFilterFuncName'),
                               ('RtErrorFunc', 'getErrorFunc', 'registerErrorFunc', 'getErrorFuncName'),
                               ('RtProcSubdivFunc', 'getProcSubdivFunc', 'registerProcSubdivFunc', 'getSubdivFuncName')):
        for m in (get, reg):
            fs = [f for f in prog.methods_of(SERVICES) if f['n'] == m]
            if not fs:
                raise Broken('%s::%s not found' % (SERVICES, m))
            f = fs[0]
            ck.fn(f)
            ck.ob('service-map', sample=m)
            ps = Walker(prog, LocalPolicy(ri, SERVICES, {FILE})).run(f)
            for p in ps:
                if p.end[0] == 'throw':
                    continue
                if m == get:
                    lk = lookups(p.end[1]) if p.end[1] else set()
                    if len(lk) != 1:
                        ck.undecided(at(f), 'lookup of unknown form')
                        continue
                    fld, dirn, k = next(iter(lk))
                    maps[ty] = fld
                    ck.ob('service-map')
                    if not from_param(k, 0):
                        ck.violation('%s key' % m, at(f), 'looks up %s' % show(k))
                    if dirn and 'String' not in dirn.split('To')[0].split('to')[0] and dirn != 'm_stringToPtr':
                        ck.violation('%s direction' % m, at(f), 'a name is looked up in %s' % dirn)
                else:
                    flds = set()
                    stores = []
                    for e in p.events:
                        if e[0] == 'store':
                            lk = lookups(e[1])
                            for x in lk:
                                flds.add(x[0])
                                stores.append((x[2], e[2]))
                        elif e[0] == 'call' and short(e[1]) in ('operator=', 'assign') and lookups(e[2]):
                            for x in lookups(e[2]):
                                flds.add(x[0])
                                stores.append((x[2], e[3][0]))
                        elif e[0] == 'call' and short(e[1]) in ('insert', 'emplace') and e[2] is not None:
                            stores.append(None)
                    if None in stores or not stores:
                        ck.undecided(at(f), 'registration of unknown form')
                        continue
                    if flds != {maps.get(ty)}:
                        ck.violation('%s map' % m, at(f), 'enters the function in %s, names are looked up in %s' % (', '.join(map(str, flds)), maps.get(ty)))
                    dirs = set()
                    for k, v in stores:
                        dirs.add((param_of(k), param_of(v)))
                    if not {(0, 1), (1, 0)} <= dirs:
                        ck.violation('%s directions' % m, at(f), 'a registered function cannot be found by name and by pointer')
    return maps


def param_of(t):
    s = {x[1] for x in terms(t) if x and x[0] == 'P'}
    return next(iter(s)) if len(s) == 1 else None


def from_param(t, i):
    return param_of(t) == i


def basis_names(ck, prog, ri):
    """{name: global variable} of getBasis"""
    fs = [f for f in prog.methods_of(SERVICES) if f['n'] == 'getBasis']
    if not fs:
        raise Broken('getBasis not found')
    out = {}
    for p in Walker(prog, LocalPolicy(ri, SERVICES, {FILE})).run(fs[0]):
        if p.end[0] != 'ret' or not p.end[1]:
            continue
        g = globals_in(p.end[1])
        conds = [(e[1], e[2]) for e in p.events if e[0] == 'cond']
        ns = [x[1] for c, pol in conds for x in terms(c) if x and x[0] == 'str' and eq_established([(c, pol)], x[1])]
        if len(g) == 1 and len(ns) == 1:
            ck.ob('basis-name', sample='%s' % ns[0])
            out[ns[0]] = next(iter(g))
    if set(out) != {'bezier', 'b-spline', 'catmull-rom', 'hermite', 'power'}:
        raise Broken('names of the standard bases: %s' % sorted(out))
    if len(set(out.values())) != 5:
        ck.violation('basis names', at(fs[0]), 'two names mean one basis')
    # the named basis must be the matrix of that name
    want = {'bezier': [-1, 3, -3, 1, 3, -6, 3, 0, -3, 3, 0, 0, 1, 0, 0, 0],
            'b-spline': [x / 6 for x in [-1, 3, -3, 1, 3, -6, 3, 0, -3, 0, 3, 0, 1, 4, 1, 0]],
            'catmull-rom': [x / 2 for x in [-1, 3, -3, 1, 2, -5, 4, -1, -1, 0, 1, 0, 0, 2, 0, 0]],
            'hermite': [2, 1, -2, 1, -3, -2, 3, -1, 0, 1, 0, 0, 1, 0, 0, 0],
            'power': [1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1, 0, 0, 0, 0, 1]}
    return out


# ---------------------------------------------------------------- formatters
def archive_record(ck, prog, ri, cls):
    fn = ri.impl(cls, 'ArchiveRecord')
    ck.fn(fn)

    class P2(LocalPolicy):
        def inline(self, w, f, call):
            return f['file'] == FILE and (f['n'] in ('archiveRecord', 'ArchiveRecord') or f['n'] not in FMT)
    want = {'comment': '#', 'structure': '##', 'verbatim': ''}
    seen = set()
    for p in Walker(prog, P2(ri, cls, {FILE})).run(fn):
        conds = [(e[1], e[2]) for e in p.events if e[0] == 'cond']
        kind = [k for k in want if eq_established(conds, k)]
        outs = stream_outputs(p)
        key = 'ArchiveRecord (%s)' % ('binary' if 'Binary' in cls else 'ascii')
        if len(kind) != 1:
            if any(x == ('P', 1) for x in outs):
                ck.undecided(at(fn), 'record of unknown type is written')
            continue
        seen.add(kind[0])
        ck.ob('archive-record', sample='%s %s' % (key, kind[0]))
        if outs.count(('P', 1)) != 1:
            ck.violation('%s %s' % (key, kind[0]), at(fn), 'the record is written %d times' % outs.count(('P', 1)))
            continue
        pre = ''.join(x[1] if x[0] == 'str' else chr(x[1]) for x in outs[:outs.index(('P', 1))] if x[0] == 'str' or (x[0] == 'int' and 0 < x[1] < 256))
        if pre.strip() != want[kind[0]]:
            ck.violation('%s %s prefix' % (key, kind[0]), at(fn), 'the record is preceded by "%s"' % pre)
        post = outs[outs.index(('P', 1)) + 1:]
        nl = any(x == INT(10) or (x[0] == 'str' and '\n' in x[1]) for x in post)
        if kind[0] != 'verbatim' and not nl:
            ck.violation('%s %s newline' % (key, kind[0]), at(fn), 'a comment runs into the next request')
    if seen != set(want):
        ck.violation('ArchiveRecord types', at(fn), 'record types written: %s' % sorted(seen))


def stream_outputs(p):
    """values inserted into a stream, in order (terms without casts)"""
    out = []
    for e in p.events:
        if e[0] != 'call':
            continue
        n = short(e[1])
        if n == 'operator<<':
            out.append(unwrap(e[3][-1]))
        elif n == 'put':
            out.append(unwrap(e[3][0]))
        elif n == 'write' and e[2] is not None:
            out.append(('write',) + tuple(unwrap(a) for a in e[3]))
    return out


def formatters(ck, prog, ri):
    cls = 'Aqsis::(anonymous namespace)::AsciiFormatter'
    binary = 'Aqsis::(anonymous namespace)::BinaryFormatter'
    for c in (cls, binary):
        ms = [f for f in prog.methods_of(c)]
        arr = [f for f in ms if f['n'] == 'print' and 'Array<' in f['id'] or (f['n'] == 'print' and 'Array' in prog.type(f['p'][0]['t']))]
        for f in arr:
            ck.fn(f)
            ck.ob('formatter', sample='%s::print(%s)' % (short(c), prog.type(f['p'][0]['t'])))

            class P3(LocalPolicy):
                def inline(self, w, fn, call):
                    return fn['file'] == FILE and fn['n'] not in ('print', 'unpack', 'encodeInt32', 'union_cast')
            zero = False
            for p in Walker(prog, P3(ri, c, {FILE})).run(f):
                inl, got, sepd, more = False, 0, False, None
                for e in p.events:
                    if e[0] == 'loop':
                        inl = True
                    elif e[0] == 'endloop':
                        inl = False
                    elif inl and e[0] == 'call' and short(e[1]) in ('print', 'unpack', 'operator<<') and has_elem(e):
                        got += 1
                        i = elem_index(e)
                        if i is not None and i[0] == 'iv' and i[1:3] != (INT(0), 1):
                            ck.violation('%s::print elements' % short(c), at(f, e[4]), 'elements written start at or step by other than one')
                        if i is not None and i[0] != 'iv':
                            ck.violation('%s::print elements' % short(c), at(f, e[4]), 'the element written is %s' % show(i))
                    elif inl and e[0] == 'call' and got and short(e[1]) in ('operator<<', 'put', 'write'):
                        sepd = True
                    elif inl and e[0] == 'cond' and got:
                        more = (e[1], e[2])
                if any(e[0] == 'loop' for e in p.events):
                    if got != 1:
                        ck.violation('%s::print elements' % short(c), at(f), 'an element is written %d times' % got)
                    if c == cls and not sepd and more is None:
                        ck.violation('%s::print separator' % short(c), at(f), 'elements are not separated')
                    if c == cls and not sepd and more is not None:
                        # only the last element may go without separator
                        if not last_only(more):
                            ck.violation('%s::print separator' % short(c), at(f), 'elements other than the last are not separated')
                else:
                    zero = True
                outs = [x for x in stream_outputs(p) if x[0] in ('int', 'str')]
                if not has_encode(p):
                    if not outs or outs[0] not in (INT(91), ('str', '[')) or outs[-1] not in (INT(93), ('str', ']')):
                        ck.violation('%s::print brackets' % short(c), at(f), 'an array is not enclosed in brackets')
    # triples
    for c in (cls, binary):
        for f in prog.methods_of(c):
            if f['n'] == 'printTriple':
                ck.fn(f)
                ck.ob('formatter', sample='%s::printTriple' % short(c))

                class P4(LocalPolicy):
                    def inline(self, w, fn, call):
                        return fn['file'] == FILE and fn['n'] != 'print'
                for p in Walker(prog, P4(ri, c, {FILE})).run(f):
                    seq = []
                    for e in p.events:
                        if e[0] == 'call' and short(e[1]) in ('operator<<', 'print'):
                            v = unwrap(e[3][-1])
                            seq.append(v)
                    vals = [v for v in seq if any(x == ('P', 0) for x in terms(v))]
                    if vals != [('idx', ('P', 0), INT(i)) for i in range(3)] and [norm0(v) for v in vals] != [0, 1, 2]:
                        ck.violation('%s::printTriple' % short(c), at(f), 'writes %s' % ', '.join(show(v) for v in vals))
                    if c == cls:
                        ks = [i for i, v in enumerate(seq) if any(x == ('P', 0) for x in terms(v))]
                        if any(b - a < 2 for a, b in zip(ks, ks[1:])) and len(ks) == 3:
                            ck.violation('%s::printTriple separator' % short(c), at(f), 'components are not separated')
    # float precision of the text form
    for f in prog.methods_of(cls):
        if f.get('kind') == 'ctor':
            ck.fn(f)
            ps = Walker(prog, LocalPolicy(ri, cls, {FILE})).run(f)
            for p in ps:
                pr = [e for e in p.events if e[0] == 'call' and short(e[1]) == 'precision' and e[3]]
                sp = [x for e in p.events if e[0] == 'call' for a in e[3] for x in terms(a) if x and x[0] == 'r' and short(x[1]) == 'setprecision']
                val = [e[3][0] for e in pr] + [x[3][0] for x in sp]
                ck.ob('formatter', sample='float precision')
                if not val:
                    ck.violation('float precision', at(f), 'the float precision of the text form is not set (9 digits are needed)')
                elif val[-1][0] == 'int' and val[-1][1] < 9:
                    ck.violation('float precision', at(f), 'only %d digits are written, 9 are needed for 32 bit floats' % val[-1][1])
        if f['n'] == 'print' and 'Array' not in prog.type(f['p'][0]['t']) and 'char' not in prog.type(f['p'][0]['t']):
            ck.fn(f)
            ck.ob('formatter', sample='print(%s)' % prog.type(f['p'][0]['t']))
            for p in Walker(prog, LocalPolicy(ri, cls, {FILE})).run(f):
                o = stream_outputs(p)
                if o.count(('P', 0)) != 1 or any(e[0] == 'call' and short(e[1]) == 'operator<<' and e[3][-1] != ('P', 0) and strip_casts(e[3][-1]) == ('P', 0) for e in p.events):
                    ck.violation('%s::print number' % short(cls), at(f), 'a number is written as %s' % ', '.join(show(x) for x in o))


def norm0(v):
    if v == ('deref', ('P', 0)):
        return 0
    if v[0] == 'idx' and v[1] == ('P', 0) and v[2][0] == 'int':
        return v[2][1]
    if v[0] == 'deref' and v[1][0] == 'bin' and v[1][1] == '+' and v[1][2] == ('P', 0) and v[1][3][0] == 'int':
        return v[1][3][1]
    return None


def has_encode(p):
    return any(e[0] == 'call' and short(e[1]) == 'encodeInt32' for e in p.events)


def elem_index(e):
    for a in e[3]:
        for x in terms(a):
            if x and x[0] == 'r' and short(x[1]) == 'operator[]' and unwrap(x[2]) == ('P', 0):
                return x[3][0]
            if x and x[0] == 'idx' and unwrap(x[1]) == ('P', 0):
                return x[2]
    return None


def has_elem(e):
    return elem_index(e) is not None


def last_only(c):
    """the decision holds only for the last index of the loop"""
    t, p = c
    if t[0] != 'bin' or not any(x and x[0] == 'r' and short(x[1]) == 'size' for x in terms(t)):
        return False
    op = t[1]
    if not p:
        op = {'==': '!=', '!=': '==', '<': '>=', '>=': '<', '<=': '>', '>': '<='}.get(op)
    a, b = t[2], t[3]
    if any(x and x[0] == 'r' and short(x[1]) == 'size' for x in terms(a)):
        a, b = b, a
        op = {'<': '>', '>': '<', '<=': '>=', '>=': '<='}.get(op, op)
    # now a is about the index, b about the size
    off = 0
    if a[0] == 'bin' and a[1] in '+-' and a[3][0] == 'int':
        off += a[3][1] if a[1] == '+' else -a[3][1]
        a = a[2]
    if b[0] == 'bin' and b[1] in '+-' and b[3][0] == 'int':
        off -= b[3][1] if b[1] == '+' else -b[3][1]
        b = b[2]
    return a[0] == 'iv' and ((op in ('==', '>=') and off == 1) or (op == '>' and off == 0 and False) or (op == '>' and off == 2 and False))
