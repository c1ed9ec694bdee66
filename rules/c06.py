"""C06: recorded archives and objects replay exactly the requests recorded."""
import re
from engine.absval import evalt
from engine.paths import Overflow, Unsupported, INT
from .ricommon import *
from .validator import SPEC
from .c03 import walk

CLS = 'Aqsis::RenderUtilFilter'
STREAM = 'Aqsis::CachedRiStream'
CACHE = 'Aqsis::RiCache::'
COND = {'IfBegin', 'ElseIf', 'Else', 'IfEnd'}
SPECIAL = {'ArchiveBegin', 'ArchiveEnd', 'ReadArchive', 'ObjectBegin', 'ObjectEnd', 'ObjectInstance'}
BORROW = re.compile(r'(\*|&)\s*$|^(const )?Aqsis::Ri::(Array|ParamList|FloatArray|IntArray|StringArray|TokenArray)\b|^(RtConst|RtToken|RtString)')
POINTERS = {'RtPointer', 'RtFilterFunc', 'RtErrorFunc', 'RtProcSubdivFunc', 'RtProcFreeFunc', 'RtArchiveCallback'}


def short(q):
    return q.rsplit('::', 1)[-1]


class Roles:
    """the members of the filter, found by type and use"""

    def __init__(self, ck, prog, ri):
        rec = prog.classes.get(CLS)
        if not rec:
            raise Broken('class %s not found' % CLS)
        ty = {f['n']: prog.type(f['t']) for f in rec['fields']}
        cur = [n for n, t in ty.items() if re.search(r'CachedRiStream ?\*$|^(boost|std)::\w+_ptr<(Aqsis::)?CachedRiStream>', t)]
        if len(cur) != 1:
            raise Broken('the current stream member of the filter was not found')
        self.cur = ('fld', STAR_THIS, cur[0])
        self.types = ty


def paths_of(ck, prog, ri, cls, fn, files):
    try:
        return Walker(prog, LocalPolicy(ri, cls, files)).run(fn)
    except (Overflow, Unsupported) as e:
        ck.undecided(at(fn), 'cannot be summarised (%s)' % e)
        return None


def effects(ri, pth):
    """pushes of recorded requests and requests made, in order"""
    out = []
    for e in pth.events:
        if e[0] == 'call' and e[1] == STREAM + '::push_back':
            out.append(('push', e[2], e[3][0], e[4]))
        elif e[0] == 'call' and ri.request_of(e[5]):
            out.append(('req', ri.request_of(e[5]), e[2], e[3], e[4]))
        elif e[0] == 'call' and e[1] == STREAM + '::replay':
            out.append(('replay', e[2], e[3], e[4]))
    return out


def conds(pth):
    return [(e[1], e[2]) for e in pth.events if e[0] == 'cond']


def find_off(ck, prog, ri, R):
    """the member that disables all requests"""
    files = {f['file'] for f in prog.methods_of(CLS)}
    for req in ('Translate', 'Sphere', 'Identity'):
        fn = ri.impl(CLS, req)
        ps = paths_of(ck, prog, ri, CLS, fn, files) or []
        off = {c for p in ps if not effects(ri, p) for c, pol in conds(p) if pol and c[0] == 'fld'}
        if len(off) == 1:
            return next(iter(off))
    raise Broken('the member that disables requests in a false conditional was not found')


def run(ck):
    prog = facts.load([r'^libs/riutil/'])
    ck.units = len(prog.units)
    ri = Ri(prog)
    R = Roles(ck, prog, ri)
    files = {f['file'] for f in prog.methods_of(CLS)}
    R.off = find_off(ck, prog, ri, R)
    for req, sp in sorted(SPEC.items()):
        if not sp['rib']:
            continue
        fn = ri.impl(CLS, req)
        if fn is None or not fn['f'].startswith(CLS + '::'):
            ck.violation('%s not recorded' % req, CLS, 'the request %s goes past the recorder' % req)
            continue
        ck.fn(fn)
        if req not in COND | SPECIAL:
            ps = paths_of(ck, prog, ri, CLS, fn, files)
            for p in ps or []:
                ordinary(ck, ri, R, req, fn, p)
            kinds = {k for p in ps or [] for k in [state(R, p)]}
        record(ck, prog, ri, req, sp)
    specials(ck, prog, ri, R, files)
    containers(ck, prog, ri)
    params(ck, prog, ri)
    keepalive(ck, prog, R)
    ck.need('record-or-pass', 270)
    ck.need('replayed-argument', 250)
    ck.need('owning-copy', 150)
    ck.need('recorder-state', 20)
    ck.need('copy-loop', 6)
    return ck.finish(
        'Every request method of the recording filter is summarised: with a stream open it must push exactly one recorded '
        'request of its own kind holding all arguments, otherwise pass the request on. The constructor and reCall of every '
        'recorded request are composed, so that each argument replayed is the owning copy of the same argument recorded. The '
        'archive/object requests are evaluated over the finite recorder states against the documented behaviour. The copying '
        'containers are checked for complete copies; buffer sizing and filling of parameter lists must agree.',
        ['boost and std containers behave as documented'])


def state(R, p):
    return tuple(sorted((show(c), pol) for c, pol in conds(p) if c in (R.cur, R.off)))


def ordinary(ck, ri, R, req, fn, p):
    ef = effects(ri, p)
    cs = conds(p)
    offs = [pol for c, pol in cs if c == R.off]
    rec = [pol for c, pol in cs if c == R.cur]
    ck.ob('record-or-pass', sample=req)
    if p.end[0] == 'throw':
        ck.undecided(at(fn), 'throws')
        return
    if True in offs:
        if ef:
            ck.violation('%s while disabled' % req, at(fn, ef[0][-1]), 'has an effect inside a false conditional')
        return
    if not offs:
        ck.violation('%s while disabled' % req, at(fn), 'is not disabled inside a false conditional')
    if not rec:
        ck.violation('%s recording' % req, at(fn), 'does not depend on whether an archive or object is being recorded')
        return
    if rec[0]:
        if [e[0] for e in ef] != ['push']:
            ck.violation('%s recording' % req, at(fn), 'while recording: %s' % (', '.join(e[0] for e in ef) or 'nothing is recorded'))
            return
        pushed(ck, R, req, fn, ef[0], identity_args(fn))
    else:
        if [e[0] for e in ef] != ['req'] or ef[0][1] != req:
            ck.violation('%s passing on' % req, at(fn), 'while not recording: %s' % (', '.join('%s %s' % (e[0], e[1]) for e in ef) or 'nothing is passed on'))
            return
        args(ck, req, fn, ef[0])


def args(ck, req, fn, e):
    if e[3] != identity_args(fn):
        for i, a in enumerate(e[3]):
            if a != ('P', i):
                ck.violation('%s argument %d' % (req, i), at(fn, e[4]), 'is passed on as %s' % show(a))
    t = e[2]
    if t != NEXT and not (t[0] == 'r' and short(t[1]) == 'nextFilter'):
        ck.violation('%s target' % req, at(fn, e[4]), 'is passed to %s' % show(t))


def pushed(ck, R, req, fn, e, want):
    tgt, v = e[1], e[2]
    if tgt not in (('deref', R.cur), R.cur):
        ck.violation('%s recording target' % req, at(fn, e[3]), 'is recorded in %s' % show(tgt))
    if v[0] != 'new':
        ck.undecided(at(fn, e[3]), 'records %s' % show(v))
        return
    ctor = next((x for x in terms(v) if x and x[0] == 'ctor' and x[1].startswith(CACHE)), None)
    if ctor is None:
        ck.undecided(at(fn, e[3]), 'records %s' % show(v))
        return
    if ctor[1] != CACHE + req:
        ck.violation('%s recorded as' % req, at(fn, e[3]), 'is recorded as %s' % ctor[1])
    elif tuple(ctor[2]) != tuple(want):
        for i, (a, b) in enumerate(zip(ctor[2], want)):
            if a != b:
                ck.violation('%s recorded argument %d' % (req, i), at(fn, e[3]), 'is recorded as %s' % show(a))
        if len(ctor[2]) != len(want):
            ck.violation('%s recorded arguments' % req, at(fn, e[3]), '%d arguments are recorded, the request has %d' % (len(ctor[2]), len(want)))


def record(ck, prog, ri, req, sp):
    """constructor and reCall of the recorded request compose to the identity"""
    cls = CACHE + req
    rec = prog.classes.get(cls)
    if not rec:
        ck.violation('%s record' % req, cls, 'there is no recorded form of the request')
        return
    ms = prog.methods_of(cls)
    nargs = len(sp['args']) + (1 if sp['plist'] else 0)
    ctors = [f for f in ms if f.get('kind') == 'ctor' and len(f['p']) == nargs and f.get('body') is not None and
             not (nargs == 1 and cls in prog.type(f['p'][0]['t']))]
    calls = [f for f in ms if f['n'] == 'reCall']
    if not calls or (not ctors and nargs):
        ck.undecided(cls, 'constructor or reCall has no body')
        return
    src = {}
    if ctors:
        c = ctors[0]
        ck.fn(c)

        class P(LocalPolicy):
            def inline(self, w, f, call):
                return False
        for p in Walker(prog, P(ri, cls, ())).run(c):
            for e in p.events:
                if e[0] == 'store' and e[1][0] == 'fld' and e[1][1] == STAR_THIS:
                    src[e[1][2]] = e[2]
    ftypes = {f['n']: prog.type(f['t']) for f in rec['fields']}
    f = calls[0]
    ck.fn(f)
    pol = LocalPolicy(ri, cls, ())
    pol.inline = lambda w, fn, call: False
    for p in Walker(prog, pol).run(f):
        rq = requests_made(ri, p)
        if len(rq) != 1 or rq[0][0] != req:
            ck.violation('%s replay' % req, at(f), 'replays as %s' % (', '.join(r[0] for r in rq) or 'nothing'))
            continue
        if strip_casts(rq[0][1]) not in (('P', 0), ('deref', ('P', 0))):
            ck.violation('%s replay target' % req, at(f, rq[0][3]), 'is replayed into %s' % show(rq[0][1]))
        for i, a in enumerate(rq[0][2]):
            ck.ob('replayed-argument', sample='%s %d' % (req, i))
            name = sp['args'][i]['n'] if i < len(sp['args']) else 'parameters'
            ty = sp['args'][i]['t'] if i < len(sp['args']) else 'plist'
            flds = {x[2] for x in terms(a) if x and x[0] == 'fld' and x[1] == STAR_THIS}
            if ty == 'RtProcFreeFunc':
                # the data must survive: it is freed by the destructor
                if flds:
                    ck.violation('%s replayed free function' % req, at(f, rq[0][3]), 'the data of a recorded procedural would be freed at the first replay')
                continue
            if len(flds) != 1:
                ck.violation('%s replayed argument %s' % (req, name), at(f, rq[0][3]), 'is %s' % show(a))
                continue
            fld = next(iter(flds))
            v = src.get(fld)
            ps = {x[1] for x in terms(v) if x and x[0] == 'P'} if v is not None else set()
            if ps != {i}:
                ck.violation('%s replayed argument %s' % (req, name), at(f, rq[0][3]), 'is recorded from argument %s' % (', '.join(str(x) for x in ps) or 'nothing'))
            if v is not None and ty in ('RtInt', 'RtFloat', 'RtBoolean') and strip_casts(v) != ('P', i):
                ck.violation('%s recorded value %s' % (req, name), at(f), 'is %s' % show(v))
            t = ftypes.get(fld, '')
            if ty in ('RtFloat', 'RtInt', 'RtBoolean'):
                ck.ob('value-type')
                w = {'RtFloat': ('float', 'RtFloat', 'double'), 'RtInt': ('int', 'RtInt', 'long'), 'RtBoolean': ('short', 'RtBoolean', 'bool', 'int')}[ty]
                if t.replace('const ', '') not in w:
                    ck.violation('%s recorded type %s' % (req, name), at(f), 'a %s is recorded as %s' % (ty, t))
            elif ty not in POINTERS:
                ck.ob('owning-copy', sample='%s %s: %s' % (req, name, t))
                if BORROW.search(t):
                    ck.violation('%s borrowed %s' % (req, name), at(f), 'the record keeps a reference to the caller\'s data (%s)' % t)
                n = {'RtMatrix': 16, 'RtBasis': 16, 'RtBound': 6, 'RtColor': 3, 'RtPoint': 3}.get(ty)
                m = re.search(r'CachedFloatTuple<(\d+)>', t)
                if n and m and int(m.group(1)) != n:
                    ck.violation('%s size %s' % (req, name), at(f), '%d of %d numbers are recorded' % (int(m.group(1)), n))
    if req == 'Procedural':
        d = [m for m in ms if m.get('kind') == 'dtor' and m.get('body') is not None]
        ck.ob('procedural-free')
        if not d:
            ck.violation('Procedural data', cls, 'the data of a recorded procedural is never freed')
            return
        for p in Walker(prog, LocalPolicy(ri, cls, {d[0]['file']})).run(d[0]):
            n = [e for e in p.events if e[0] == 'icall']
            if len(n) != 1:
                ck.violation('Procedural data', at(d[0]), 'the data of a recorded procedural is freed %d times' % len(n))


def specials(ck, prog, ri, R, files):
    """archive and object requests over the finite recorder states"""
    P = {}
    for r in sorted(SPECIAL):
        fn = ri.impl(CLS, r)
        P[r] = (fn, paths_of(ck, prog, ri, CLS, fn, files))
        if P[r][1] is None:
            return
    # roles: nesting counter and object flag
    def stored(req, pred=lambda v: True):
        return {e[1] for p in P[req][1] for e in p.events if e[0] == 'store' and e[1][0] == 'fld' and e[1][1] == STAR_THIS and pred(e[2])}
    nest = stored('ArchiveBegin') - {R.cur}
    inobj = stored('ObjectBegin') - {R.cur} - nest
    if len(nest) != 1 or len(inobj) != 1:
        ck.undecided(CLS, 'nesting members of the recorder not recognised')
        return
    nest, inobj = next(iter(nest)), next(iter(inobj))
    conts = {}
    for off in (0, 1):
        for cur in (0, 1):
            for n in ((0, 1, 2) if cur else (0,)):
                for ob in ((0, 1) if cur else (0,)):
                    if off and cur:
                        continue
                    if ob and n and False:
                        continue
                    env = {R.off: off, R.cur: cur, nest: n, inobj: ob}
                    for r in sorted(SPECIAL):
                        fn, ps = P[r]
                        ck.ob('recorder-state', sample='%s off=%d recording=%d nested=%d object=%d' % (r, off, cur, n, ob))
                        for p in ps:
                            ok = True
                            for c, pol in conds(p):
                                v = evalt(c, lambda t: env.get(t))
                                if v is not None and bool(v) != pol:
                                    ok = False
                                    break
                            if not ok:
                                continue
                            expect(ck, ri, R, r, fn, p, env, nest, inobj, conts)
    if len(conts.get('ArchiveBegin', ())) > 1 or conts.get('ArchiveBegin') != conts.get('ReadArchive'):
        ck.violation('archive store', at(P['ReadArchive'][0]), 'archives are stored in %s and looked up in %s' % (sorted(conts.get('ArchiveBegin', ())), sorted(conts.get('ReadArchive', ()))))
    if len(conts.get('ObjectBegin', ())) > 1 or conts.get('ObjectBegin') != conts.get('ObjectInstance'):
        ck.violation('object store', at(P['ObjectInstance'][0]), 'objects are stored in %s and looked up in %s' % (sorted(conts.get('ObjectBegin', ())), sorted(conts.get('ObjectInstance', ()))))
    if conts.get('ArchiveBegin') == conts.get('ObjectBegin') and conts.get('ArchiveBegin'):
        ck.violation('object and archive store', at(P['ObjectInstance'][0]), 'objects and archives share one name space')


def expect(ck, ri, R, r, fn, p, env, nest, inobj, conts):
    if p.end[0] == 'throw':
        ck.undecided(at(fn), 'throws')
        return
    ef = effects(ri, p)
    st = {}
    newstream = 0
    for e in p.events:
        if e[0] == 'store' and e[1] in (R.cur, nest, inobj):
            st[e[1]] = e[2]
        if e[0] == 'store' and e[1] == R.cur:
            for x in terms(e[2]):
                if x and x[0] == 'fld' and x[1] == STAR_THIS and 'CachedRiStream' in R.types.get(x[2], '') and x != R.cur:
                    conts.setdefault(r, set()).add(x[2])
        if e[0] == 'new' and STREAM in str(e[1]):
            newstream += 1
            for x in terms(e[1]):
                if x and x[0] == 'ctor' and x[1] == STREAM and x[2] != (('P', 0),):
                    ck.violation('%s name' % r, at(fn), 'the new stream is named %s' % show(x[2][0]) if x[2] else 'nothing')
        if e[0] == 'store' and e[1][0] != 'fld':
            for x in terms(e[1]):
                if x and x[0] == 'fld' and x[1] == STAR_THIS and 'CachedRiStream' in R.types.get(x[2], ''):
                    conts.setdefault(r, set()).add(x[2])
    desc = '%s (recording=%d nested=%d object=%d)' % (r, env[R.cur], env[nest], env[inobj])

    def bad(msg, line=None):
        ck.violation(desc, at(fn, line), msg)

    def val(f):
        v = st.get(f)
        if v is None:
            return env[f]
        return evalt(v, lambda t: env.get(t))
    if env[R.off]:
        if ef or st:
            bad('has an effect inside a false conditional')
        return
    rec, n, ob = env[R.cur], env[nest], env[inobj]
    pushes = [e for e in ef if e[0] == 'push']
    if rec and not (r == 'ArchiveEnd' and not n) and not (r == 'ObjectEnd' and ob):
        if [e[0] for e in ef] != ['push']:
            bad('while recording, %s' % (', '.join(e[0] for e in ef) or 'nothing is recorded'))
            return
        pushed(ck, R, r, fn, ef[0], identity_args(fn))
        dn = {'ArchiveBegin': 1, 'ArchiveEnd': -1}.get(r, 0)
        if val(nest) is not None and val(nest) != n + dn:
            bad('the nesting depth changes from %d to %s' % (n, val(nest)))
        if R.cur in st:
            bad('the recording is ended or replaced by a nested request')
        if inobj in st and val(inobj) != ob:
            bad('the object state changes')
        return
    if r == 'ArchiveEnd':
        if ef:
            bad('closing the archive has other effects', ef[0][-1])
        if rec and (R.cur not in st or strip_casts(st[R.cur]) not in (INT(0), ('null',))):
            bad('the archive is not closed')
        if val(nest) not in (0, None) or val(inobj) not in (ob, None):
            bad('closing the archive leaves the nesting state changed')
        return
    if r == 'ObjectEnd':
        if ef:
            bad('closing the object has other effects', ef[0][-1])
        if rec and (R.cur not in st or strip_casts(st[R.cur]) not in (INT(0), ('null',)) or val(inobj) != 0):
            bad('the object is not closed')
        return
    if r in ('ArchiveBegin', 'ObjectBegin'):
        if ef:
            bad('opening a stream has other effects', ef[0][-1])
        if R.cur not in st or newstream != 1:
            bad('no new stream is opened')
        if val(inobj) != (1 if r == 'ObjectBegin' else ob) or val(nest) not in (n, None):
            bad('the nesting state is wrong after the stream is opened')
        return
    # ReadArchive, ObjectInstance outside a recording
    if st:
        bad('changes the recorder state')
    found = any(e[0] == 'replay' for e in ef)
    if found:
        e = ef[0]
        if len(ef) != 1:
            bad('%s' % ', '.join(x[0] for x in ef))
            return
        for x in terms(e[1]):
            if x and x[0] == 'fld' and x[1] == STAR_THIS and 'CachedRiStream' in R.types.get(x[2], ''):
                conts.setdefault(r, set()).add(x[2])
        a = e[2][0]
        if not (a[0] == 'r' and short(a[1]) == 'firstFilter'):
            bad('is replayed into %s instead of the start of the filter chain' % show(a), e[3])
        same = [(c, pol) for c, pol in conds(p) if any(x and x[0] == 'r' and short(x[1]) == 'name' for x in terms(c)) and ('P', 0) in list(terms(c))]
        if not any(matches(c, pol) for c, pol in same):
            bad('a stream is replayed without its name having been compared with the argument', e[3])
    elif r == 'ReadArchive':
        hit = any(matches(c, pol) for c, pol in conds(p) if any(x and x[0] == 'r' and short(x[1]) == 'name' for x in terms(c)))
        neg = any(c[0] == 'bin' and c[1] == '<' and pol and c[2][0] == 'iv' for c, pol in conds(p))
        if hit and not neg:
            bad('a recorded archive is not replayed')
        elif [x[0] for x in ef] != ['req'] or ef[0][1] != r:
            bad('an archive that is not recorded must be passed on once, got %s' % (', '.join(x[0] for x in ef) or 'nothing'))
        else:
            args(ck, r, fn, ef[0])
    else:
        hit = any(matches(c, pol) for c, pol in conds(p) if any(x and x[0] == 'r' and short(x[1]) == 'name' for x in terms(c)))
        neg = any(c[0] == 'bin' and c[1] == '<' and pol and c[2][0] == 'iv' for c, pol in conds(p))
        if hit and not neg:
            bad('a recorded object is not replayed')
        elif ef:
            bad('an unknown object has an effect')
        elif not any(e[0] == 'call' and ('rror' in e[1]) for e in p.events):
            bad('an unknown object is not reported')


def matches(c, pol):
    c = strip_casts(c)
    if c[0] == 'r' and short(c[1]) == 'operator==':
        return pol
    if c[0] == 'r' and short(c[1]) == 'operator!=':
        return not pol
    if c[0] == 'bin' and any(x and x[0] == 'r' and short(x[1]) in ('compare', 'strcmp') for x in terms(c)):
        return (c[1] == '==') == pol if c[1] in ('==', '!=') else False
    if c[0] == 'r' and short(c[1]) in ('compare', 'strcmp'):
        return not pol
    if c[0] == 'un' and c[1] == '!':
        return matches(c[2], not pol)
    return False


def containers(ck, prog, ri):
    """the copying argument holders, and replay order"""
    def one(q):
        fs = [f for f in prog.find(q) if f.get('body') is not None]
        return fs
    # replay
    fs = one(STREAM + '::replay')
    if not fs:
        raise Broken('CachedRiStream::replay not found')
    f = fs[0]
    ck.fn(f)
    ck.ob('copy-loop', sample='replay')
    for p in Walker(prog, LocalPolicy(ri, STREAM, {f['file']})).run(f):
        rc = [e for e in p.events if e[0] == 'call' and short(e[1]) == 'reCall']
        loop = any(e[0] == 'loop' for e in p.events)
        if loop and len(rc) != 1:
            ck.violation('replay once', at(f), 'a recorded request is replayed %d times' % len(rc))
        for e in rc:
            iv = [x for x in terms(e[2]) if x and x[0] == 'iv']
            if iv and iv[0][1:] != (INT(0), 1) and iv[0][1][0] == 'int':
                ck.violation('replay order', at(f, e[4]), 'requests are not replayed from the first on (%s)' % show(iv[0]))
            if iv and iv[0][2] != 1:
                ck.violation('replay order', at(f, e[4]), 'requests are not replayed in order')
            if e[3] != (('P', 0),):
                ck.violation('replay context', at(f, e[4]), 'requests are replayed into %s' % show(e[3][0]))
        for c, pol in conds(p):
            iv = [x for x in terms(c) if x and x[0] == 'iv']
            if loop and iv and pol and c[0] == 'bin' and not bound_full(c):
                ck.violation('replay bound', at(f), 'the loop stops at %s' % show(c))
    fs = one(STREAM + '::push_back')
    for f in fs:
        ck.ob('copy-loop', sample='push_back')
        for p in Walker(prog, LocalPolicy(ri, STREAM, {f['file']})).run(f):
            pb = [e for e in p.events if e[0] == 'call' and short(e[1]) == 'push_back']
            if len(pb) != 1 or strip_casts(pb[0][3][0]) != ('P', 0):
                ins = [e for e in p.events if e[0] == 'call' and short(e[1]) in ('insert', 'push_front')]
                if ins or not pb:
                    ck.violation('record order', at(f), 'a recorded request is not appended exactly once')
    # float tuples and matrices
    for cls in sorted(c for c in prog.classes if c.startswith(CACHE + 'CachedFloatTuple<') or c == CACHE + 'CachedMatrix'):
        m = re.search(r'<(\d+)>', cls)
        n = int(m.group(1)) if m else 16
        for f in prog.methods_of(cls):
            if f.get('kind') != 'ctor' or f.get('body') is None or len(f['p']) != 1 or cls in prog.type(f['p'][0]['t']):
                continue
            ck.fn(f)
            ck.ob('copy-loop', sample=cls)
            for p in Walker(prog, LocalPolicy(ri, cls, {f['file']})).run(f):
                st = {}
                bulk = [e for e in p.events if e[0] == 'call' and short(e[1]) in ('memcpy', 'copy', 'copy_n')]
                for e in p.events:
                    if e[0] == 'store' and e[1][0] == 'idx':
                        st[index(e[1])] = index(strip_casts(e[2]))
                if bulk or any(e[0] == 'loop' for e in p.events):
                    ck.undecided(at(f), 'bulk copy')
                    continue
                if len(st) != n or any(k != v for k, v in st.items()):
                    ck.violation('%s copy' % short(cls), at(f), '%d of %d numbers are copied to their place' % (sum(k == v for k, v in st.items()), n))
    # arrays
    for cls in sorted(c for c in prog.classes if c.startswith(CACHE + 'CachedArray<')):
        for f in prog.methods_of(cls):
            if f.get('kind') == 'ctor' and f.get('body') is not None and len(f['p']) == 1 and 'Ri::' in prog.type(f['p'][0]['t']):
                ck.fn(f)
                ck.ob('copy-loop', sample=cls)
                for p in Walker(prog, LocalPolicy(ri, cls, {f['file']})).run(f):
                    for e in p.events:
                        if e[0] == 'store' and e[1][0] == 'fld' and e[2][0] == 'ctor' and len(e[2][2]) >= 2:
                            a, b = e[2][2][:2]
                            if a[0] == 'r' and b[0] == 'r':
                                if (short(a[1]), short(b[1])) not in (('begin', 'end'), ('cbegin', 'cend')):
                                    ck.violation('%s copy' % short(cls), at(f), 'copies from %s to %s' % (show(a), show(b)))
                            elif not (a[0] == 'r' and short(a[1]) == 'begin'):
                                ck.undecided(at(f), 'copy of unknown form')
            if f['n'].startswith('operator') and f.get('body') is not None and 'Array' in f['n']:
                sizes(ck, prog, ri, cls, f)
    cls = CACHE + 'CachedStringArray'
    for f in prog.methods_of(cls):
        if f.get('kind') == 'ctor' and f.get('body') is not None and len(f['p']) == 1 and 'Ri::' in prog.type(f['p'][0]['t']):
            ck.fn(f)
            ck.ob('copy-loop', sample=cls)
            for p in Walker(prog, LocalPolicy(ri, cls, {f['file']})).run(f):
                pb = [e for e in p.events if e[0] == 'call' and short(e[1]) == 'push_back']
                if any(e[0] == 'loop' for e in p.events):
                    if len(pb) != 1:
                        ck.violation('CachedStringArray copy', at(f), 'a string is copied %d times' % len(pb))
                    for e in pb:
                        iv = [x for x in terms(e[3][0]) if x and x[0] == 'iv']
                        if iv and iv[0][1:] != (INT(0), 1):
                            ck.violation('CachedStringArray copy', at(f), 'strings are copied from %s' % show(iv[0]))
                    for c, pol in conds(p):
                        if c[0] == 'bin' and pol and any(x and x[0] == 'iv' for x in terms(c)) and not bound_full(c):
                            ck.violation('CachedStringArray bound', at(f), 'the copy stops at %s' % show(c))
        if f['n'].startswith('operator') and f.get('body') is not None and 'Array' in f['n']:
            sizes(ck, prog, ri, cls, f)
    # the string buffer: offsets are taken before the string is appended, strings are terminated
    for f in prog.methods_of('Aqsis::MultiStringBuffer'):
        if f['n'] == 'push_back' and len(f['p']) == 2 and f.get('body') is not None:
            ck.fn(f)
            ck.ob('copy-loop', sample='MultiStringBuffer::push_back')
            for p in Walker(prog, LocalPolicy(ri, 'Aqsis::MultiStringBuffer', {f['file']})).run(f):
                seq = []
                for e in p.events:
                    if e[0] == 'call' and short(e[1]) in ('push_back', 'insert') and e[2] is not None:
                        if e[3] and any(x and x[0] == 'r' and short(x[1]) == 'size' for x in terms(e[3][0])):
                            seq.append('offset')
                        elif short(e[1]) == 'insert':
                            seq.append('insert')
                        elif strip_casts(e[3][0]) == INT(0):
                            seq.append('nul')
                if seq and seq != ['offset', 'insert', 'nul'] and set(seq) <= {'offset', 'insert', 'nul'}:
                    if 'insert' in seq:
                        ck.violation('MultiStringBuffer::push_back', at(f), 'the steps are %s, needed: offset, insert, terminator' % ', '.join(seq))


def index(t):
    out = []
    while t[0] == 'idx':
        out.append(t[2])
        t = t[1]
    return tuple(reversed(out))


def bound_full(c):
    """iv < size (or iv != size)"""
    if c[0] != 'bin':
        return True
    a, b = strip_casts(c[2]), strip_casts(c[3])
    if a[0] == 'iv' and b[0] == 'r' and short(b[1]) == 'size':
        return c[1] in ('<', '!=')
    if a[0] == 'iv' and b[0] == 'bin' and strip_casts(b[2])[0] == 'r' and short(strip_casts(b[2])[1]) == 'size':
        return c[1] == '<=' and b[1:2] == ('-',) and b[3] == INT(1)
    return True


def sizes(ck, prog, ri, cls, f):
    """a holder hands out its whole contents"""
    ck.fn(f)
    ck.ob('copy-loop', sample=f['f'])
    for p in Walker(prog, LocalPolicy(ri, cls, {f['file']})).run(f):
        if p.end[0] != 'ret' or not p.end[1]:
            continue
        v = p.end[1]
        while v[0] == 'ctor' and len(v[2]) == 1:
            v = v[2][0]
        if v[0] == 'ctor' and len(v[2]) == 2:
            n = strip_casts(v[2][1])
            if n[0] == 'int' or (n[0] == 'bin'):
                ck.violation('%s size' % f['f'], at(f), 'hands out %s elements' % show(n))


def params(ck, prog, ri):
    """parameter lists: the space counted and the space used agree, per storage type"""
    cls = CACHE + 'CachedParamList'
    ctors = [f for f in prog.methods_of(cls) if f.get('kind') == 'ctor' and f.get('body') is not None and f['p'] and 'ParamList' in prog.type(f['p'][0]['t']) and 'Cached' not in prog.type(f['p'][0]['t'])]
    if not ctors:
        raise Broken('constructor of CachedParamList not found')
    f = ctors[0]
    ck.fn(f)
    try:
        ps = Walker(prog, LocalPolicy(ri, cls, {f['file']})).run(f)
    except (Overflow, Unsupported) as e:
        ck.undecided(at(f), 'cannot be summarised (%s)' % e)
        ps = []
    en = {q.rsplit('::', 1)[-1]: v for q, v in prog.enums['Aqsis::Ri::TypeSpec::Type']['c']}
    width = {'Integer': ('int', 4), 'Float': ('float', 4), 'Pointer': ('void *', 8), 'String': ('char', 1)}
    seen = set()
    for p in ps:
        pl = [e for e in p.events if e[0] == 'call' and short(e[1]) in ('push_back', 'emplace_back') and 'Param' in e[1]]
        for e in pl:
            a = e[3][0]
            c = next((x for x in terms(a) if x and x[0] == 'ctor' and x[1].endswith('Ri::Param') and len(x[2]) == 4), None)
            if not c:
                continue
            ck.ob('recorded-parameter')
            spec, name, data, size = [strip_casts(x) for x in c[2]]
            el = [x for x in terms(spec) if x and x[0] == 'r' and short(x[1]) == 'operator[]']
            if not (spec[0] == 'r' and short(spec[1]) == 'spec'):
                ck.violation('recorded parameter type', at(f, e[4]), 'is %s' % show(spec))
            if not (size[0] == 'r' and short(size[1]) == 'size'):
                ck.violation('recorded parameter size', at(f, e[4]), 'is %s' % show(size))
            # storage the data and the name live in
            for what, t in (('name', name), ('data', data)):
                while t[0] in ('bin', 'cast', 'addr', 'idx'):
                    t = t[1] if t[0] in ('addr', 'idx') else t[2]
                if t[0] == 'r' and short(t[1]) in ('name', 'data', 'floatData', 'intData', 'stringData', 'begin'):
                    ck.violation('recorded parameter %s' % what, at(f, e[4]), 'refers to the caller\'s parameter list (%s)' % show(t))
            sw = [x[2] for x in p.events if x[0] == 'switch']
            if sw and not isinstance(sw[-1], tuple):
                seen.add(sw[-1])
                cp = [x for x in p.events if x[0] == 'call' and short(x[1]) in ('memcpy', 'copy', 'memmove')]
                kind = next((k for k in width if en[k] == sw[-1]), None)
                if kind and kind != 'String' and data[0] not in ('null', 'int'):
                    mc = [x for x in cp if short(x[1]) in ('memcpy', 'memmove') and strip_casts(x[3][0]) == data]
                    if not mc and not [x for x in cp if short(x[1]) == 'copy']:
                        ck.violation('recorded parameter data %s' % kind, at(f, e[4]), 'the data is not copied into the record')
                    for x in mc:
                        n = strip_casts(x[3][2])
                        ok = n[0] == 'bin' and n[1] == '*' and {strip_casts(y) if strip_casts(y)[0] != 'sizeof' else ('sizeof',) for y in n[2:4]} == {size, ('sizeof',)}
                        w = next((y for y in terms(n) if y and y[0] in ('sizeof', 'int')), None)
                        if n == size or (w and w[0] == 'int' and n[0] == 'bin' and w[1] != width[kind][1]):
                            ck.violation('recorded parameter bytes %s' % kind, at(f, x[4]), 'copies %s bytes' % show(n))
    counters(ck, prog, f, en)


def strip(n):
    while n.get('k') in ('cast', 'paren') and isinstance(n.get('x'), dict):
        n = n['x']
    return n


def counters(ck, prog, f, en):
    """per storage type, what the sizing pass adds to a counter is what the copying pass adds"""
    decls, mut = {}, set()
    for n in walk(f['body']):
        if n.get('k') == 'decl':
            for d in n['d']:
                if 'x' in d:
                    decls[d['i']] = d['x']
        if n.get('k') == 'asg':
            v = strip(n['a'])
            if v.get('k') == 'ref' and 'i' in v:
                mut.add(v['i'])
        if n.get('k') == 'un' and n['op'] in ('++', '--', 'post++', 'post--'):
            v = strip(n['x'])
            if v.get('k') == 'ref' and 'i' in v:
                mut.add(v['i'])
    sws = [n for n in walk(f['body']) if n.get('k') == 'switch']
    if len(sws) != 2:
        ck.undecided(at(f), 'sizing and copying pass not recognised')
        return

    def norm(n, idx=()):
        n = strip(n)
        k = n.get('k')
        if k == 'int':
            return str(n['v'])
        if k == 'ref':
            i = n.get('i')
            if n.get('dk') == 'local' and i in decls and i not in mut:
                return norm(decls[i])
            return str(n.get('q') or n.get('n'))
        if k == 'bin':
            return '(%s%s%s)' % (norm(n['a']), n['op'], norm(n['b']))
        if k == 'call':
            return '%s.%s(%s)' % (norm(n['o']) if n.get('o') else '', short(n.get('f', '')), ','.join(norm(x) for x in n.get('a', [])))
        if k == 'idx':
            return '%s[%s]' % (norm(n['a']), norm(n['b'])) if 'a' in n else '?idx'
        if k == 'ctor' and len(n.get('a', [])) == 1:
            return norm(n['a'][0])
        return '?%s' % k

    def adds(node, loops=()):
        out = []
        if isinstance(node, list):
            for x in node:
                out += adds(x, loops)
            return out
        if not isinstance(node, dict):
            return out
        k = node.get('k')
        if k in ('for', 'while', 'do', 'rfor'):
            c = node.get('c')
            return adds(node.get('b'), loops + (norm(c) if isinstance(c, dict) else '?',))
        if k == 'asg' and node.get('op') == '+=':
            v = strip(node['a'])
            if v.get('k') == 'ref':
                out.append((v.get('n'), norm(node['b']), loops))
        if k == 'un' and node.get('op') in ('++', 'post++'):
            v = strip(node['x'])
            if v.get('k') == 'ref':
                out.append((v.get('n'), '1', loops))
        for x in node.values():
            if isinstance(x, (dict, list)):
                out += adds(x, loops)
        return out

    def cases(sw):
        res = {}
        body = sw.get('b') or {}
        cur = []
        for x in body.get('s') or []:
            labels = []
            while isinstance(x, dict) and x.get('k') in ('case', 'default'):
                labels.append('default' if x['k'] == 'default' else x['v'].get('cv', x['v'].get('v')))
                x = x.get('s')
            cur = cur + labels
            if isinstance(x, dict):
                if x.get('k') == 'break':
                    cur = []
                    continue
                for l in cur:
                    res.setdefault(l, [])
                    res[l] += adds(x)
        return res

    def canon(lst):
        out = []
        for v, amount, loops in lst:
            if '?' in amount or any('?' in l for l in loops):
                return None
            if loops and amount == '1':
                m = re.match(r'^\((\w+)(?:<|!=)(.*)\)$', loops[-1])
                out.append((v, m.group(2) if m else amount, loops[:-1] if m else loops))
            else:
                out.append((v, amount, loops))
        return sorted(out)
    a, b = cases(sws[0]), cases(sws[1])
    for k in ('Integer', 'Float', 'Pointer', 'String'):
        v = en[k]
        if v not in a or v not in b:
            ck.violation('recorded parameter %s' % k, at(f), 'parameters of this storage type are not recorded')
            continue
        x, y = canon(a[v]), canon(b[v])
        ck.ob('sizing-agrees', sample='%s: %s' % (k, x))
        if x is None or y is None or not x:
            ck.undecided(at(f), 'sizing of %s parameters not readable' % k)
        elif x != y:
            ck.violation('sizing of %s parameters' % k, at(f), 'the sizing pass adds %s, the copying pass %s' % (x, y))


def keepalive(ck, prog, R):
    """a stream must not be destroyed while it is replayed: the replay holds a
    local owner, or no request can destroy a stored stream"""
    for f in prog.methods_of(CLS):
        for n in walk(f.get('body') or {}):
            if n.get('k') == 'call' and n.get('f') == STREAM + '::replay':
                ck.ob('keep-alive', sample=f['n'])
                ck.site((f['file'], n['l']))
                raw = [x for x, t in R.types.items() if re.search(r'CachedRiStream ?\*>', t)]
                dels = [m for m in prog.methods_of(CLS) if m.get('kind') != 'dtor' and any(y.get('k') == 'delete' for y in walk(m.get('body') or {}))]
                if raw and dels:
                    ck.violation('%s replay lifetime' % f['n'], at(f, n['l']), 'the replayed stream can be deleted by %s during its own replay' % dels[0]['n'])
                    continue
                # owner expression
                refs = [y for y in walk(n.get('o') or {}) if y.get('k') in ('ref', 'mem')]
                mem = [y for y in refs if y.get('k') == 'mem' and y.get('n') in R.types and 'CachedRiStream' in R.types[y['n']]]
                refd = {d['i'] for y in walk(f['body']) if y.get('k') == 'decl' for d in y['d'] if prog.type(d['t']).endswith('&')
                        and any(z.get('k') == 'mem' and z.get('n') in R.types for z in walk(d.get('x') or {}))}
                if any(y.get('k') == 'ref' and y.get('dk') == 'local' and y.get('i') in refd for y in refs):
                    mem = refs
                if mem and not raw:
                    ck.violation('%s replay lifetime' % f['n'], at(f, n['l']), 'the stream is replayed without holding on to it; a request that redefines it destroys it')
    ck.need('keep-alive', 2)
