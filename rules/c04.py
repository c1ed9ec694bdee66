"""C04: the RIB parser turns each request into the request of that name, with
its arguments read in the documented order and type."""
from engine.absval import evalt
from engine.paths import Overflow, Unsupported, INT
from .ricommon import *
from .validator import SPEC
from .c03 import walk, strip_node

PARSER = 'Aqsis::RibParserImpl'
LEXER = 'Aqsis::RibLexer'
LEXIMPL = 'Aqsis::RibLexerImpl'
KIND = {'RtBoolean': {'getInt'}, 'RtInt': {'getInt'}, 'RtIntArray': {'getIntArray'}, 'RtFloat': {'getFloat'},
        'RtFloatArray': {'getFloatArray'}, 'RtString': {'getString'}, 'RtStringArray': {'getStringArray'},
        'RtToken': {'getString'}, 'RtTokenArray': {'getStringArray'}, 'RtColor': {'getFloatArray'}, 'RtPoint': {'getFloatArray'},
        'RtMatrix': {'getFloatArray'}, 'RtBound': {'getFloatArray'}, 'RtFilterFunc': {'getString'}, 'RtErrorFunc': {'getString'},
        'RtBasis': {'getBasis'}, 'RtProcSubdivFunc': {'getString'}}
FIXED = {'RtPoint': 3, 'RtMatrix': 16, 'RtBound': 6}
LOOKUP = {'RtFilterFunc': 'getFilterFunc', 'RtErrorFunc': 'getErrorFunc', 'RtProcSubdivFunc': 'getProcSubdivFunc'}


class ReadPolicy(LocalPolicy):
    """numbers the lexer reads of a path"""

    def call_hook(self, w, n, o, vs, st):
        c, f = n.get('c') or '', n['f'].rsplit('::', 1)[-1]
        if c in (LEXER, LEXIMPL) and f.startswith('get') and o != STAR_THIS:
            return self.read(w, st, f, vs, n)
        if f in ('readParamList', 'getBasis') and n['f'].startswith(PARSER):
            return self.read(w, st, f, vs, n)
        if n['f'].rsplit('::', 1)[-1].startswith('operator ') and o is not None and o[0] == 'L':
            v = st.env.get(o)
            if v is not None and v[0] == 'lex':
                return v
        return None

    def ctor_hook(self, w, n, vs, st):
        if len(vs) == 1 and any(x and x[0] == 'fld' and x[2] == self.lexfield for x in terms(vs[0])):
            return self.read(w, st, 'holder:' + n['c'], (), n)
        return None

    def read(self, w, st, f, vs, n):
        k = st.env.get(('lexn',), 0)
        st.env[('lexn',)] = k + 1
        t = ('lex', k, f, vs)
        w.emit(st, ('lexread', t, n['l']))
        return t


def reads_in(t):
    return [x for x in terms(t) if x and x[0] == 'lex']


def run(ck):
    prog = facts.load([r'^libs/riutil/'])
    ck.units = len(prog.units)
    ri = Ri(prog)
    rec = prog.classes.get(PARSER)
    if not rec:
        raise Broken('class %s not found' % PARSER)
    lexf = [f['n'] for f in rec['fields'] if 'RibLexer' in prog.type(f['t'])]
    if len(lexf) != 1:
        raise Broken('the parser has no lexer member')
    table = handler_table(ck, prog)
    ck.extra['handlers'] = len(table)
    for req, sp in sorted(SPEC.items()):
        if not sp['rib']:
            continue
        ck.ob('handler-table', sample='%s -> %s' % (req, ', '.join(x[0]['n'] for x in table.get(req, []))))
        hs = table.get(req, [])
        if not hs:
            ck.violation('no handler for %s' % req, rec.get('file', PARSER), 'the request %s is not in the dispatch table' % req)
            continue
        # map::insert keeps the first of two entries with one key
        handler(ck, prog, ri, req, sp, hs[0][0], lexf[0])
    for name in table:
        if name != 'version' and name not in SPEC:
            ck.violation('unknown request %s' % name, at(table[name][0][0]), 'the dispatch table has a request %s that the interface lacks' % name)
    basis(ck, prog, ri, lexf[0])
    holder(ck, prog, ri, lexf[0])
    param_list(ck, prog, ri, lexf[0])
    lexer(ck, prog)
    ck.need('handler-table', 108)
    ck.need('handler-path', 110)
    ck.need('lexer-typed-access', 12)
    return ck.finish(
        'The dispatch table is read from the parser constructor; every handler is summarised path by path, the lexer reads of '
        'a path are numbered in order, and each argument of the one request made must be the value of the read that the '
        'documented argument order and type assign to it. The lexer getters are summarised with token identity, so that a '
        'token value is only used under a test of its type.',
        ['the lexer interface is implemented by RibLexerImpl'])


def handler_table(ck, prog):
    """{request: [(handler function, line)]} from string/method-pointer pairs in the constructor"""
    out = {}
    for f in prog.methods_of(PARSER):
        for n in walk(f.get('body') or {}):
            pair = None
            k = n.get('k')
            if k in ('ctor', 'init', 'call'):
                args = n.get('a') or n.get('x') or []
                if isinstance(args, list) and len(args) == 2:
                    pair = args
            if k == 'asg' and n.get('op') == '=':
                pair = [n['a'], n['b']]
            if not pair:
                continue
            s = [x for x in walk(pair[0]) if x.get('k') == 'str']
            m = [x for x in walk(pair[1]) if x.get('k') == 'ref' and x.get('dk') in ('func', 'method') or (x.get('k') == 'ref' and str(x.get('q', '')).startswith(PARSER + '::handle'))]
            if len(s) == 1 and m:
                fid = m[0].get('id')
                fs = [prog.funcs[fid]] if fid in prog.funcs else prog.find(m[0].get('q', ''))
                if fs and all(x[0]['id'] != fs[0]['id'] for x in out.get(s[0]['v'], [])):
                    out.setdefault(s[0]['v'], []).append((fs[0], n.get('l')))
    return out


def handler(ck, prog, ri, req, sp, fn, lexf):
    ck.fn(fn)
    pol = ReadPolicy(ri, PARSER, {fn['file']}, also=())
    pol.lexfield = lexf
    try:
        ps = Walker(prog, pol).run(fn)
    except (Overflow, Unsupported) as e:
        ck.undecided(at(fn), 'cannot be summarised (%s)' % e)
        return
    nm = names(fn)
    for pth in ps:
        calls = requests_made(ri, pth)
        reads = [e[1] for e in pth.events if e[0] == 'lexread']
        if pth.end[0] == 'throw':
            if calls:
                ck.violation('%s throws after request' % fn['n'], at(fn), 'an error is raised after the request has been made')
            elif not sizes_refuted(pth) and req not in ('Procedural',):
                ck.undecided(at(fn), 'rejects on a condition the rule cannot read')
            continue
        ck.ob('handler-path', sample='%s: %s' % (fn['n'], ' '.join(r[2] for r in reads)))
        if len(calls) != 1 or calls[0][0] != req:
            ck.violation('%s request' % fn['n'], at(fn, calls[0][3] if calls else None),
                         'the RIB request %s makes %s' % (req, ', '.join(c[0] for c in calls) or 'no request'))
            continue
        _, tgt, args, line = calls[0]
        ck.site((fn['file'], line, req))
        if tgt != ('P', 0) and tgt != ('deref', ('P', 0)):
            ck.violation('%s target' % fn['n'], at(fn, line), 'the request goes to %s' % show(tgt))
        if not reads and req == 'DepthOfField':
            if any(a[0] not in ('float', 'cast') or len({repr(x) for x in args}) != 1 for a in args):
                ck.violation('DepthOfField default', at(fn, line), 'DepthOfField without arguments must reset the camera to a pinhole')
            continue
        spec = list(sp['args'])
        if len(args) != len(spec) + (1 if sp['plist'] else 0):
            ck.undecided(at(fn, line), 'unexpected number of arguments')
            continue
        pos = 0
        if req == 'Procedural':
            want_order = [(2, spec[2]), (0, {'n': 'data', 't': 'RtStringArray'}), (1, spec[1])]
        else:
            want_order = list(enumerate(spec))
        whole = None
        # all arguments out of one array read
        if sp['arr'] and reads and reads[0][2] == 'getFloatArray' and all(set(map(id_of, reads_in(args[i]))) == {0} for i, _ in want_order):
            whole = reads[0]
        if whole is not None:
            idx, width = [], 0
            for i, a in want_order:
                off = offset(args[i], whole)
                w = 3 if a['t'] == 'RtPoint' else 1
                if off is None:
                    ck.undecided(at(fn, line), 'argument %s: %s' % (a['n'], show(args[i])))
                elif off != width:
                    ck.violation('%s argument %s' % (fn['n'], a['n']), at(fn, line), 'is element %d of the argument array, documented position is %d' % (off, width))
                width += w
            if whole[3] != (INT(width),):
                ck.violation('%s array length' % fn['n'], at(fn), 'reads an array of %s numbers, the arguments are %d' % (', '.join(show(x) for x in whole[3]) or 'any', width))
            pos = 1
        else:
            opt = req == 'SubdivisionMesh' and len(reads) <= 4
            for i, a in want_order:
                t = args[i]
                rs = {r[1]: r for r in reads_in(t)}
                if a['t'] == 'RtArchiveCallback':
                    if strip_casts(t) not in (('null',), INT(0)):
                        ck.violation('%s callback' % fn['n'], at(fn, line), 'RIB has no archive callback, %s is passed' % show(t))
                    continue
                if opt and a['n'] in ('tags', 'nargs', 'intargs', 'floatargs'):
                    if rs:
                        ck.violation('%s optional argument %s' % (fn['n'], a['n']), at(fn, line), 'takes %s when the optional arguments are absent' % show(t))
                    continue
                if req == 'Procedural' and i == 0:
                    pos += 1
                    continue
                if len(rs) != 1:
                    if not rs and opaque(t):
                        ck.undecided(at(fn, line), 'argument %s is %s' % (a['n'], show(t)))
                        pos += 1
                        continue
                    ck.violation('%s argument %s' % (fn['n'], a['n']), at(fn, line), 'is %s, not one value read from the stream' % show(t))
                    pos += 1
                    continue
                k, r = next(iter(rs.items()))
                if k != pos:
                    ck.violation('%s argument %s' % (fn['n'], a['n']), at(fn, line), 'is the value number %d of the request, documented number is %d' % (k + 1, pos + 1))
                kinds = KIND.get(a['t'], set())
                if a.get('alt'):
                    ok = r[2].startswith('holder:')
                else:
                    ok = r[2] in kinds
                if not ok:
                    ck.violation('%s argument %s type' % (fn['n'], a['n']), at(fn, line), 'a %s is read with %s' % (a['t'], r[2]))
                elif a['t'] in FIXED:
                    n = FIXED[a['t']]
                    if r[3][:1] != (INT(n),) and not size_known(pth, r, n):
                        ck.violation('%s argument %s length' % (fn['n'], a['n']), at(fn, line), 'a %s of other than %d numbers is passed on' % (a['t'], n))
                elif a['t'] == 'RtColor':
                    if not (r[3] and r[3][0][0] == 'fld'):
                        ck.violation('%s argument %s length' % (fn['n'], a['n']), at(fn, line), 'a colour must have the number of components set by ColorSamples')
                elif a['t'] in LOOKUP:
                    if not any(x and x[0] == 'r' and x[1].endswith('::' + LOOKUP[a['t']]) and r in x[3] for x in terms(t)):
                        ck.violation('%s argument %s lookup' % (fn['n'], a['n']), at(fn, line), 'is not looked up with %s' % LOOKUP[a['t']])
                pos += 1
        if sp['plist']:
            rs = {x[1]: x for x in reads_in(args[-1])}
            if set(rs) != {pos} or rs[pos][2] != 'readParamList':
                ck.violation('%s parameter list' % fn['n'], at(fn, line), 'the parameter list is %s, wanted the one read after the %d arguments' % (show(args[-1]), pos))
            pos += 1
        if len(reads) != pos:
            ck.violation('%s reads' % fn['n'], at(fn), 'reads %d values, the request has %d' % (len(reads), pos))
        if req == 'ColorSamples':
            ck.ob('colour-components')
            st = [e for e in pth.events if e[0] == 'store' and e[1][0] == 'fld']
            okc = False
            for e in st:
                v = strip_casts(e[2])
                if v[0] == 'bin' and v[1] == '/' and strip_casts(v[3]) == INT(3) and {r[1] for r in reads_in(v)} == {0}:
                    okc = True
            if not okc:
                ck.violation('ColorSamples components', at(fn), 'the number of colour components is not set to size(nRGB)/3')


def id_of(r):
    return r[1]


def opaque(t):
    return any(x and x[0] in ('L', 'out', 'upd') for x in terms(t))


def offset(t, whole):
    """element offset of a term inside the array read"""
    best = None
    for x in terms(t):
        if not x:
            continue
        if x[0] == 'idx' and x[1] == whole:
            return x[2][1] if x[2][0] == 'int' else None
        if x[0] == 'r' and x[1].endswith('operator[]') and x[2] == whole:
            a = strip_casts(x[3][0])
            return a[1] if a[0] == 'int' else None
        if x[0] == 'bin' and x[1] == '+' and strip_casts(x[3])[0] == 'int' and whole in set(y for y in terms(x[2])):
            return strip_casts(x[3])[1]
        if x[0] == 'r' and x[1].endswith('::begin') and x[2] == whole:
            best = 0
    return best


def is_size(t, read):
    t = strip_casts(t)
    return t[0] == 'r' and t[1].endswith('::size') and read in set(terms(t))


def size_known(pth, read, n):
    for e in pth.events:
        if e[0] == 'cond' and e[1][0] == 'bin':
            op, a, b = e[1][1:]
            op = op if e[2] else {'==': '!=', '!=': '=='}.get(op, op)
            if op == '==' and ((is_size(a, read) and strip_casts(b) == INT(n)) or (is_size(b, read) and strip_casts(a) == INT(n))):
                return True
    return False


def sizes_refuted(pth):
    for e in pth.events:
        if e[0] == 'cond' and e[1][0] == 'bin' and e[1][1] in ('!=', '==') and any(x and x[0] == 'r' and x[1].endswith('::size') for x in terms(e[1])):
            return True
    return False


def basis(ck, prog, ri, lexf):
    for fn in prog.find(PARSER + '::getBasis'):
        ck.fn(fn)
        pol = ReadPolicy(ri, PARSER, {fn['file']})
        pol.lexfield = lexf
        for pth in Walker(prog, pol).run(fn):
            if pth.end[0] != 'ret':
                continue
            reads = [e[1] for e in pth.events if e[0] == 'lexread']
            ck.ob('basis', sample=' '.join(r[2] for r in reads))
            if not reads:
                continue
            r = reads[0]
            if r[2] == 'getFloatArray' and r[3][:1] != (INT(16),) and not size_known(pth, r, 16):
                ck.violation('getBasis length', at(fn), 'a basis array of other than 16 numbers is accepted')
            if r[2] == 'getString':
                t = pth.end[1]
                look = [x for x in terms(t) if x and x[0] == 'r' and x[1].endswith('::getBasis')]
                if not look or r not in look[0][3]:
                    ck.violation('getBasis name', at(fn), 'a named basis is not looked up by its name')
                else:
                    nz = any(e[0] == 'cond' and e[2] and strip_casts(e[1]) == look[0] for e in pth.events)
                    if not nz:
                        ck.violation('getBasis unknown', at(fn), 'an unknown basis name is not rejected')


def holder(ck, prog, ri, lexf):
    """names given as integers: the string read, or the integer formatted"""
    for fn in prog.funcs.values():
        if fn['kind'] != 'ctor' or len(fn['p']) != 1 or 'RibLexer' not in prog.type(fn['p'][0]['t']) or not fn['file'].endswith('ribparser.cpp'):
            continue
        ck.fn(fn)

        class P(ReadPolicy):
            def call_hook(self, w, n, o, vs, st):
                c, f = n.get('c') or '', n['f'].rsplit('::', 1)[-1]
                if c in (LEXER, LEXIMPL) and f.startswith('get'):
                    return self.read(w, st, f, vs, n)
                return None
        pol = P(ri, None, {fn['file']})
        pol.lexfield = lexf
        for pth in Walker(prog, pol).run(fn):
            reads = [e[1] for e in pth.events if e[0] == 'lexread']
            ck.ob('name-or-number', sample=' '.join(r[2] for r in reads))
            if len(reads) != 1 or reads[0][2] not in ('getString', 'getInt'):
                ck.violation('name or number', at(fn), 'reads %s for one name' % ', '.join(r[2] for r in reads))
                continue
            isstr = None
            for e in pth.events:
                if e[0] in ('cond', 'switch') and any(x and x[0] == 'r' and x[1].endswith('peekNextType') for x in terms(e[1])):
                    code = enum(prog, 'Tok_String')
                    v = evalt(e[1], lambda x: code if x[0] == 'r' and x[1].endswith('peekNextType') else None)
                    if e[0] == 'cond' and v is not None:
                        isstr = bool(v) == e[2]
            if isstr is not None and isstr != (reads[0][2] == 'getString'):
                ck.violation('name or number', at(fn), 'a %s is read with %s' % ('string' if isstr else 'number', reads[0][2]))


def enum(prog, name):
    for e in prog.enums.values():
        for k, v in e['c']:
            if k.rsplit('::', 1)[-1] == name:
                return v
    return None


def param_list(ck, prog, ri, lexf):
    """each parameter: declaration from the token string, value read by storage type"""
    for fn in prog.find(PARSER + '::readParamList'):
        ck.fn(fn)

        class P(ReadPolicy):
            def call_hook(self, w, n, o, vs, st):
                c, f = n.get('c') or '', n['f'].rsplit('::', 1)[-1]
                if c in (LEXER, LEXIMPL) and f.startswith('get'):
                    return self.read(w, st, f, vs, n)
                return None
        pol = P(ri, PARSER, {fn['file']})
        pol.lexfield = lexf
        try:
            ps = Walker(prog, pol).run(fn)
        except (Overflow, Unsupported) as e:
            ck.undecided(at(fn), str(e))
            return
        want = {}
        en = prog.enums.get('Aqsis::Ri::TypeSpec::Type')
        for k, v in (en['c'] if en else ()):
            want[v] = {'Float': 'getFloatParam', 'Integer': 'getIntParam', 'String': 'getStringParam'}.get(k.rsplit('::', 1)[-1])
        for pth in ps:
            reads = [e[1] for e in pth.events if e[0] == 'lexread']
            if pth.end[0] != 'ret' or not reads:
                continue
            code = None
            for e in pth.events:
                if e[0] == 'switch' and any(x and x[0] == 'r' and x[1].endswith('storageType') for x in terms(e[1])) and isinstance(e[2], int):
                    code = e[2]
                if e[0] == 'cond' and e[1][0] == 'bin' and e[1][1] == '==' and e[2] and any(x and x[0] == 'r' and x[1].endswith('storageType') for x in terms(e[1])):
                    c = strip_casts(e[1][3])
                    if c[0] == 'int':
                        code = c[1]
            if code is None or want.get(code) is None:
                continue
            ck.ob('param-read', sample='storage %s: %s' % (code, [r[2] for r in reads]))
            if [r[2] for r in reads] != ['getString', want[code]]:
                ck.violation('parameter value %s' % want[code], at(fn), 'a parameter of that storage type is read with %s' % ', '.join(r[2] for r in reads[1:]))
                continue
            push = [e for e in pth.events if e[0] == 'call' and e[1].endswith('push_back') and any(x and x[0] == 'ctor' and x[1].endswith('Ri::Param') for x in terms(e[3]))]
            for e in push:
                c = [x for x in terms(e[3]) if x and x[0] == 'ctor' and x[1].endswith('Ri::Param')][0]
                if reads[1] not in set(terms(c[2])):
                    ck.violation('parameter value stored', at(fn, e[4]), 'the stored parameter does not hold the value read')


# --------------------------------------------------------------------- lexer
class TokPolicy(LocalPolicy):
    noreturn = True

    def call_hook(self, w, n, o, vs, st):
        f = n['f'].rsplit('::', 1)[-1]
        if f == 'tokenError' and self.noreturn:
            w.emit(st, ('reject', n['l']))
            return [(st, ('!throw', 'XqParseError', None, n['l']))]
        if (n.get('c') or '').endswith('RibTokenizer'):
            k = st.env.get(('tokn',), 0)
            if f == 'peek':
                return ('tok', k)
            if f == 'get':
                st.env[('tokn',)] = k + 1
                return ('tok', k)
            if f == 'unget':
                st.env[('tokn',)] = k - 1
                w.emit(st, ('unget', n['l']))
                return ('none',)
        return None


def tok_types(prog):
    for q, e in prog.enums.items():
        if q.endswith('RibToken::Type'):
            return {k.rsplit('::', 1)[-1]: v for k, v in e['c']}
    raise Broken('no token types')


def lexer(ck, prog):
    tt = tok_types(prog)
    need = {'intVal': {'INTEGER'}, 'floatVal': {'FLOAT'}, 'stringVal': {'STRING', 'REQUEST', 'ERROR', 'COMMENT'}}
    rows = {'getInt': {'stringVal': set()}, 'getString': {'stringVal': {'STRING'}}, 'nextRequest': {'stringVal': {'REQUEST'}}}
    for name in ('getInt', 'getFloat', 'getString', 'nextRequest', 'getIntArray', 'getFloatArray', 'getStringArray',
                 'getIntParam', 'getFloatParam', 'getStringParam'):
        fs = prog.find(LEXIMPL + '::' + name)
        if not fs:
            raise Broken('no %s::%s' % (LEXIMPL, name))
        fn = fs[0]
        ck.fn(fn)
        pol = TokPolicy(None, LEXIMPL, {fn['file']})
        pol.ri = None
        try:
            ps = Walker(prog, pol).run(fn)
        except (Overflow, Unsupported) as e:
            ck.undecided(at(fn), 'cannot be summarised (%s)' % e)
            continue
        for pth in ps:
            poss = {}     # token -> set of types still possible
            allt = set(tt)

            def restrict(term, keep):
                for x in terms(term):
                    if x and x[0] == 'r' and x[1].endswith('::type') and x[2] and x[2][0] == 'tok':
                        k = x[2]
                        cur = poss.setdefault(k, set(allt))
                        poss[k] = {t for t in cur if keep(lambda y, t=t, k=k: tt[t] if y[0] == 'r' and y[1].endswith('::type') and y[2] == k else None)}
            for e in pth.events:
                if e[0] == 'cond':
                    restrict(e[1], lambda a, e=e: (lambda v: v is None or bool(v) == e[2])(evalt(e[1], a)))
                elif e[0] == 'switch':
                    def ok(a, e=e):
                        v = evalt(e[1], a)
                        if v is None:
                            return True
                        return v not in e[2][1] if isinstance(e[2], tuple) else v == e[2]
                    restrict(e[1], ok)
                elif e[0] == 'call' and e[1].rsplit('::', 1)[-1] in need and e[2] and e[2][0] == 'tok':
                    if any(not s for s in poss.values()):
                        break      # infeasible
                    m = e[1].rsplit('::', 1)[-1]
                    ck.ob('lexer-typed-access', sample='%s uses %s under a type test' % (name, m))
                    want = need[m]
                    if name in ('getString', 'getStringArray', 'getStringParam') and pth.end[0] == 'ret':
                        want = {'STRING'}
                    if name == 'nextRequest' and pth.end[0] == 'ret':
                        want = {'REQUEST'}
                    have = poss.get(e[2], allt)
                    if not have <= want:
                        ck.violation('%s %s' % (name, m), at(fn, e[4]), 'the %s of a token that may be %s is used' % (m, '/'.join(sorted(have - want))[:60]))
            if any(not s for s in poss.values()):
                continue
            if name == 'getFloatArray' and pth.end[0] == 'ret':
                first = poss.get(('tok', 0), allt)
                if first == {'ARRAY_BEGIN'}:
                    ck.ob('array-length', sample='getFloatArray(length) of a bracketed array')
                    good = False
                    for e in pth.events:
                        if e[0] == 'cond' and e[1][0] == 'bin':
                            op, a, b = e[1][1:]
                            neg = {'<': '>=', '>=': '<', '==': '!=', '!=': '==', '>': '<=', '<=': '>'}
                            op = op if e[2] else neg.get(op)
                            a, b = strip_casts(a), strip_casts(b)
                            if a == ('P', 0) and b == INT(0) and op == '<':
                                good = True
                            if op == '==' and (('P', 0) in (a, b)) and any(x[0] == 'r' and x[1].endswith('::size') for x in (a, b)):
                                good = True
                    if not good:
                        ck.violation('getFloatArray length', at(fn), 'an array of the wrong length is returned when a length was asked for')
    # errors never swallow the next request
    for fn in prog.find(LEXIMPL + '::tokenError'):
        ck.fn(fn)
        pol = TokPolicy(None, LEXIMPL, {fn['file']})
        pol.noreturn = False
        for pth in Walker(prog, pol).run(fn):
            code = None
            for e in pth.events:
                if e[0] == 'switch' and isinstance(e[2], int):
                    code = [k for k, v in tt.items() if v == e[2]]
                elif e[0] == 'cond' and e[1][0] == 'bin' and e[1][1] == '==' and e[2] and strip_casts(e[1][3])[0] == 'int':
                    code = [k for k, v in tt.items() if v == strip_casts(e[1][3])[1]]
            ck.ob('error-recovery', sample='tokenError on %s' % (code and code[0]))
            if pth.end[0] != 'throw':
                ck.violation('tokenError returns', at(fn), 'a path returns to the caller with a token of the wrong type')
            un = sum(1 for e in pth.events if e[0] == 'unget')
            if code and code[0] in ('REQUEST', 'ENDOFFILE') and un != 1:
                ck.violation('tokenError loses %s' % code[0], at(fn), 'an unexpected %s token is not put back' % code[0])
            if code and code[0] not in ('REQUEST', 'ENDOFFILE') and un:
                ck.violation('tokenError repeats %s' % code[0], at(fn), 'an unexpected %s token is put back and met again' % code[0])
