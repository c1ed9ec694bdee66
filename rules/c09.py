"""C09: a malformed request is reported once, skipped, and parsing goes on."""
from engine.throws import children
from .ricommon import *

LEX = 'Aqsis::RibLexerImpl'
TKZ = 'Aqsis::RibTokenizer'
TOK = 'Aqsis::RibToken'


def one(prog, q):
    fs = [f for f in prog.find(q) if f.get('body')]
    if len(fs) != 1:
        raise Broken('%s: %d definitions' % (q, len(fs)))
    return fs[0]


class TokPolicy(Policy):
    """the lexer over an abstract token sequence: every token is split by its type"""
    sym_unroll = 2
    max_paths = 20000

    def __init__(self, types, stop=()):
        self.types, self.stop = types, stop

    def inline(self, w, fn, call):
        return fn['f'].startswith(LEX + '::') and fn['f'] not in self.stop or fn['file'].endswith('riblexer.cpp') and fn['f'] not in self.stop

    def call_hook(self, w, call, o, vs, st):
        f = call['f']
        if f in (TKZ + '::get', TKZ + '::peek'):
            pos = st.env.get(('tokpos',), ('int', 0))[1]
            if f.endswith('get'):
                st.env[('tokpos',)] = ('int', pos + 1)
            w.emit(st, ('tokenizer', f.rsplit('::', 1)[1], pos, call['l']))
            return ('tok', pos)
        if f == TKZ + '::unget':
            pos = st.env.get(('tokpos',), ('int', 0))[1]
            st.env[('tokpos',)] = ('int', pos - 1)
            w.emit(st, ('tokenizer', 'unget', pos - 1, call['l']))
            return ('none',)
        if f == TOK + '::type' and o is not None:
            o2 = w.read(st, o)
            if o2[0] == 'ref':
                o2 = w.read(st, o2[1])
            key = ('ttype', o2)
            if key in st.env:
                return st.env[key]
            out = []
            for v in sorted(self.types.values()):
                s = st.fork()
                s.env[key] = ('int', v)
                out.append((s, ('int', v)))
            return out
        return None


def run(ck):
    prog = facts.load([r'libs/riutil/riblexer\.cpp', r'libs/riutil/ribtokenizer\.cpp', r'libs/riutil/ribparser\.cpp'])
    ck.units = 3
    types = {}
    for q, e in prog.enums.items():
        if q.startswith(TOK + '::'):
            types = {n.rsplit('::', 1)[1]: v for n, v in e['c']}
    if not {'REQUEST', 'ENDOFFILE', 'ERROR', 'STRING'} <= set(types):
        raise Broken('token types not found')
    keep = {types['REQUEST'], types['ENDOFFILE']}
    inv = {v: k for k, v in types.items()}
    token_error(ck, prog, types, inv, keep)
    discard(ck, prog, types, inv, keep)
    tokenizer(ck, prog)
    push_pop(ck, prog)
    parse_stream(ck, prog)
    return ck.finish(
        'The token reader, the recovery and the request loop are walked over abstract tokens split by type: the error '
        'report of a bad token keeps request and end-of-file tokens and consumes all others, recovery consumes exactly '
        'the tokens that are neither, look-ahead and put-back are evaluated for both states of the look-ahead flag, the '
        'state saved when an input is pushed is compared field by field with what is restored, and the request loop is '
        'walked with every call that can fail failing in each way: each failed request is reported exactly once with '
        'the position, recovery runs once, and the input is popped however the loop is left.',
        ['the look-ahead tokens of encoded arrays and encoded requests are not saved between inputs (documented in the code)'])


def token_error(ck, prog, types, inv, keep):
    fn = one(prog, LEX + '::tokenError')
    ck.fn(fn)
    ps = Walker(prog, TokPolicy(types)).run(fn)
    seen = set()
    for p in ps:
        key = [k for k in p.env if k[0] == 'ttype']
        t = p.env[key[0]][1] if key else None
        seen.add(t)
        ck.ob('bad-token', sample='%s' % inv.get(t))
        un = [e for e in p.events if e[0] == 'tokenizer' and e[1] == 'unget']
        got = [e for e in p.events if e[0] == 'tokenizer' and e[1] != 'unget']
        if p.end[0] != 'throw':
            ck.violation('tokenError returns for %s' % inv.get(t), at(fn), 'an unexpected %s token is accepted silently' % inv.get(t))
        elif 'XqParseError' not in (p.end[1] or ''):
            ck.violation('tokenError type', at(fn), 'a bad token raises %s, which is not a parse error' % p.end[1])
        want = 1 if t in keep else 0
        if t is None:
            ck.undecided(at(fn), 'token type not examined')
        elif len(un) != want or got:
            ck.violation('tokenError put back %s' % inv[t], at(fn, un[0][3] if un else None),
                         'an unexpected %s token is %s' % (inv[t], 'lost, so the next request or the end of the input is missed' if want and not un else 'put back, so recovery never gets past it or reads too far'))
    if None not in seen and seen != set(inv):
        ck.undecided(at(fn), 'not all token types seen')


def discard(ck, prog, types, inv, keep):
    fn = one(prog, LEX + '::discardUntilRequest')
    ck.fn(fn)
    ps = Walker(prog, TokPolicy(types)).run(fn)
    if not ps:
        ck.violation('discardUntilRequest ends', at(fn), 'recovery never returns')
    for p in ps:
        ck.ob('recovery', sample='%d tokens' % p.env.get(('tokpos',), ('int', 0))[1])
        n = p.env.get(('tokpos',), ('int', 0))[1]
        ty = lambda i: p.env.get(('ttype', ('tok', i)), (0, None))[1]
        if p.end[0] == 'throw':
            ck.violation('discardUntilRequest raises', at(fn), 'recovery fails on %s' % inv.get(ty(n)))
            continue
        for i in range(n):
            if ty(i) in keep or ty(i) is None:
                ck.violation('discardUntilRequest eats %s' % inv.get(ty(i)), at(fn), 'recovery drops a %s token' % (inv.get(ty(i)) or 'token of any type'))
        if ty(n) not in keep:
            ck.violation('discardUntilRequest stops at %s' % inv.get(ty(n)), at(fn), 'recovery stops before a %s token, which is not the start of a request' % (inv.get(ty(n)) or 'token of any type'))
    stops = {p.env.get(('ttype', ('tok', p.env.get(('tokpos',), ('int', 0))[1])), (0, None))[1] for p in ps}
    for t in keep - stops:
        ck.violation('discardUntilRequest passes %s' % inv[t], at(fn), 'recovery does not stop at a %s token' % inv[t])


class FlagPolicy(Policy):
    """look-ahead with the flag fixed"""

    def inline(self, w, fn, call):
        return fn['f'].startswith(TKZ + '::') and fn['n'] != 'scanNext'


def tokenizer(ck, prog):
    cls = prog.classes[TKZ]
    flds = {f['n']: prog.type(f['t']) for f in cls['fields']}
    toks = [n for n, t in flds.items() if t == TOK]
    flags = [n for n, t in flds.items() if t == 'bool']
    if len(toks) != 1 or len(flags) != 1:
        ck.undecided(TKZ, 'look-ahead members not recognised')
        return
    tok, flag = toks[0], flags[0]
    F = ('fld', STAR_THIS, flag)
    pf, posread, todo = one(prog, TKZ + '::streamPos'), set(), []
    todo = [pf['body']]
    while todo:
        n = todo.pop()
        if n.get('k') == 'mem' and 'SourcePos' in flds.get(n['n'], ''):
            posread.add(n['n'])
        todo += list(children(n))
    for name in ('get', 'peek', 'unget'):
        fn = one(prog, TKZ + '::' + name)
        ck.fn(fn)
        for p in Walker(prog, FlagPolicy()).run(fn):
            have = None
            for e in p.events:
                if e[0] == 'cond' and strip_casts(e[1]) == F:
                    have = e[2]
                    break
                if e[0] == 'store' and e[1] == F:
                    break
            stores = [e for e in p.events if e[0] == 'store' and e[1] == F]
            scans = [e for e in p.events if e[0] == 'call' and e[1] == TKZ + '::scanNext']
            if name == 'get':
                for m in posread:
                    ck.ob('position', sample=m)
                    if not any(e[0] == 'store' and e[1] == ('fld', STAR_THIS, m) for e in p.events):
                        ck.violation('get position', at(fn), 'the position reported for an error is not that of the token read')
            last = stores[-1][2] if stores else (('int', int(have)) if have is not None else None)
            ck.ob('look-ahead', sample='%s with flag %s' % (name, have))
            if name != 'unget':
                if have is None:
                    if scans:
                        ck.violation('%s rescans' % name, at(fn), '%s drops a token that was put back or looked at' % name)
                    else:
                        ck.violation('%s never scans' % name, at(fn), '%s returns a stale token' % name)
                elif len(scans) != (0 if have else 1):
                    ck.violation('%s scan with flag %s' % (name, have), at(fn), '%s scans %d tokens when one is %s at hand' % (name, len(scans), 'already' if have else 'not'))
                for s in scans:
                    if s[3] != (('fld', STAR_THIS, tok),):
                        ck.violation('%s scan target' % name, at(fn), 'the token scanned is not the one returned')
                if p.end != ('ret', ('fld', STAR_THIS, tok)):
                    ck.violation('%s result' % name, at(fn), 'the token returned is not the current one')
            want = ('int', 0 if name == 'get' else 1)
            if last is None or last[0] != 'int':
                ck.undecided(at(fn), 'flag after %s' % name)
            elif last != want:
                ck.violation('%s flag' % name, at(fn), 'after %s the token counts as %s' % (name, 'unread' if last[1] else 'read'))


class PushPolicy(Policy):
    def inline(self, w, fn, call):
        return fn['f'].startswith(TKZ + '::')

    def ctor_hook(self, w, ctor, args, st):
        c = ctor['c']
        rec = w.p.classes.get(c)
        fn = w.p.funcs.get(ctor['id'])
        if fn is not None and fn.get('inits') and c.startswith(TKZ + '::'):
            # the fields of the saved state, as functions of the arguments
            vals = []
            for i in fn['inits']:
                if i.get('m') is None and i.get('n') is None:
                    continue
                name = i.get('m') or i.get('n')
                x = i.get('x')
                v = None
                y = x
                while y and y.get('k') in ('cast', 'ctor') and (y.get('k') == 'cast' or len(y.get('a', [])) == 1):
                    y = y['x'] if y['k'] == 'cast' else y['a'][0]
                if y and y.get('k') == 'ref':
                    for k, prm in enumerate(fn['p']):
                        if prm['i'] == y.get('i'):
                            v = args[k] if k < len(args) else None
                vals.append((name, v or ('expr', name)))
            return ('saved', tuple(vals))
        return None


def push_pop(ck, prog):
    push, pop = one(prog, TKZ + '::pushInput'), one(prog, TKZ + '::popInput')
    ck.fn(push), ck.fn(pop)
    flds = {f['n']: prog.type(f['t']) for f in prog.classes[TKZ]['fields']}
    saved = {}
    ps = [p for p in Walker(prog, PushPolicy()).run(push) if p.end[0] != 'throw']
    for p in ps:
        hit = None
        first_store = {}
        for k, e in enumerate(p.events):
            if e[0] == 'store' and e[1][0] == 'fld' and e[1][1] == STAR_THIS:
                first_store.setdefault(e[1][2], k)
            if e[0] == 'call' and e[1].endswith('::push'):
                for t in terms(e[3]):
                    if t[0] == 'saved':
                        hit = (k, t)
        if not hit:
            ck.undecided(at(push), 'saved state not recognised')
            return
        for name, v in hit[1][1]:
            v = strip_casts(v)
            if v[0] == 'fld' and v[1] == STAR_THIS:
                saved[name] = v[2]
                ck.ob('saved', sample='%s = %s' % (name, v[2]))
                if first_store.get(v[2], 1 << 30) < hit[0]:
                    # changed before it was saved: the value saved is the new one
                    ck.violation('pushInput saves changed %s' % v[2], at(push), '%s is changed before it is saved' % v[2])
        # what has to be fresh for the new input
        st = {}
        for e in p.events:
            if e[0] == 'store' and e[1][0] == 'fld' and e[1][1] == STAR_THIS:
                st[e[1][2]] = e[2]
        for n, t in flds.items():
            if t == 'bool':
                ck.ob('fresh input', sample=n)
                if st.get(n) != ('int', 0):
                    ck.violation('pushInput keeps %s' % n, at(push), 'the look-ahead of the outer input is read as part of the new one')
            if 'SourcePos' in t:
                ck.ob('fresh input', sample=n)
                v = st.get(n)
                if v is None:
                    ck.violation('pushInput keeps %s' % n, at(push), 'positions in the new input start where the outer one was')
            if 'function' in t:
                ck.ob('fresh input', sample=n)
                v = st.get(n)
                if v is None or ('P', 2) not in list(terms(v)) + [v]:
                    ck.violation('pushInput callback', at(push), 'comments of the new input go to the callback of the outer one')
    state = [f for c, r in prog.classes.items() if c.startswith(TKZ + '::') for f in r['fields']]
    if len(saved) < 4:
        ck.undecided(at(push), 'only %d members saved' % len(saved))
    members = [n for n, t in flds.items() if t == 'bool' or 'SourcePos' in t or t == TOK or 'function' in t]
    for m in members:
        ck.ob('saved member', sample=m)
        if m not in saved.values():
            ck.violation('pushInput does not save %s' % m, at(push), '%s of the outer input is lost' % m)
    back = {v: k for k, v in saved.items()}
    npath = 0
    for p in Walker(prog, PushPolicy()).run(pop):
        if p.end[0] == 'throw':
            continue
        npath += 1
        st, popped, empty, after = {}, None, None, {}
        for k, e in enumerate(p.events):
            if e[0] == 'store' and e[1][0] == 'fld' and e[1][1] == STAR_THIS:
                st[e[1][2]] = (k, e[2])
            if e[0] == 'call' and e[1].endswith('::pop'):
                popped = k
            if e[0] == 'cond' and popped is not None and 'empty' in str(e[1]):
                empty = e[2]
        for m in members:
            ck.ob('restored', sample=m)
            if m not in st:
                ck.violation('popInput does not restore %s' % m, at(pop), '%s of the outer input is not restored' % m)
                continue
            k, v = st[m]
            v = strip_casts(v)
            if v[0] in ('int', 'null', 'str', 'float'):
                ck.violation('popInput resets %s' % m, at(pop), '%s of the outer input is lost' % m)
                continue
            if v[0] != 'fld':
                ck.undecided(at(pop), 'value of %s' % m)
                continue
            if v[2] in saved and saved[v[2]] != m:
                ck.violation('popInput restores %s' % m, at(pop), '%s is restored from the saved %s' % (m, saved[v[2]]))
            if popped is not None and k > popped and 'top' in str(v):
                ck.violation('popInput restores %s late' % m, at(pop), '%s is restored from the wrong input' % m)
        if popped is None:
            ck.violation('popInput does not pop', at(pop), 'the input stays on the stack')
        buf = [n for n, t in flds.items() if 'RibInputBuffer' in t]
        for m in buf:
            ck.ob('buffer', sample=m)
            if m not in st:
                ck.violation('popInput buffer', at(pop), 'reading continues in the input that was removed')
            else:
                k, v = st[m]
                if popped is not None and k < popped and v[0] != 'null':
                    ck.violation('popInput buffer early', at(pop), 'the buffer of the input being removed stays in use')
                if empty is False and v[0] in ('null', 'int'):
                    ck.violation('popInput buffer outer', at(pop), 'the outer input is not resumed')
    ck.need('restored', 5)


PARSER = 'Aqsis::RibParserImpl'
XQ = 'Aqsis::XqException'


class LoopPolicy(Policy):
    sym_unroll = 2
    max_paths = 20000

    def __init__(self, prog, entry):
        self.prog, self.entry = prog, entry

    def inline(self, w, fn, call):
        return fn['file'].endswith('ribparser.cpp') and not fn['f'].startswith(PARSER + '::handle')

    def fail(self, w, st, what, ok, types, line):
        out = []
        s = st.fork()
        w.emit(s, ('ok', what, line))
        out.append((s, ok))
        for t in types:
            s = st.fork()
            w.emit(s, ('failed', what, t, line))
            out.append((s, ('!throw', t, (('exc', what),), line)))
        return out

    def ctor_hook(self, w, ctor, args, st):
        k = self.guard(ctor['c'])
        if k:
            w.emit(st, ('scoped', ctor['c'], ctor.get('l')))
            return ('guard', ctor['c'])
        return None

    def guard(self, cls):
        """a class of the file whose constructor pushes and whose destructor pops the input"""
        fs = [f for f in self.prog.funcs.values() if f['file'].endswith('ribparser.cpp') and f.get('kind') in ('ctor', 'dtor') and f['f'].rsplit('::', 1)[0] == cls]
        def has(f, name):
            out, todo = 0, [f['body']] if f.get('body') else []
            while todo:
                n = todo.pop()
                if n.get('k') == 'call' and n['f'].endswith('::' + name):
                    out += 1
                todo += list(children(n))
            return out
        c = sum(has(f, 'pushInput') for f in fs if f['kind'] == 'ctor')
        d = sum(has(f, 'popInput') for f in fs if f['kind'] == 'dtor')
        return c >= 1 and d >= 1

    def call_hook(self, w, call, o, vs, st):
        b = call['f'].rsplit('::', 1)[-1]
        if b == 'nextRequest':
            n = st.env.get(('nreq',), ('int', 0))[1]
            st.env[('nreq',)] = ('int', n + 1)
            s = st.fork()
            w.emit(s, ('eof',))
            for t in (('name', n), ('cast', 'bool', ('name', n))):
                st.env[('known', t)] = True
            return self.fail(w, st, 'nextRequest', ('name', n), [XQ, 'foreign'], call['l']) + [(s, ('null',))]
        if b in ('pushInput', 'popInput', 'streamPos'):
            w.emit(st, (b, call['l']))
            return ('pos',) if b == 'streamPos' else ('none',)
        if b == 'discardUntilRequest':
            return self.fail(w, st, 'recover', ('none',), ['foreign'], call['l'])
        if b in ('error', 'severe', 'warning', 'info', 'message', 'debug') and (call.get('c') or '').endswith('ErrorHandler'):
            w.emit(st, ('report', b, vs, call['l']))
            return self.fail(w, st, 'report', ('none',), ['foreign'], call['l'])
        return None


class LoopWalker(Walker):
    def e_icall(self, n, st, fr):
        out = []
        for s, c in self.ev(n['x'], st, fr):
            for s2, vs in self.seq(n['a'], s, fr):
                out += self.pol.fail(self, s2, 'handler', ('none',), [XQ, 'foreign'], n['l'])
        return out


def parse_stream(ck, prog):
    fn = one(prog, PARSER + '::parseStream')
    ck.fn(fn)
    ps = LoopWalker(prog, LoopPolicy(prog, fn)).run(fn)
    handled = unknown = 0
    for p in ps:
        ev = p.events
        ck.ob('request loop', sample=' '.join('%s:%s' % (e[0], e[1]) for e in ev if e[0] in ('ok', 'failed', 'report'))[:90])
        push = sum(1 for e in ev if e[0] == 'pushInput')
        pop = sum(1 for e in ev if e[0] == 'popInput')
        scoped = sum(1 for e in ev if e[0] == 'scoped')
        how = 'an exception (%s fails)' % [e for e in ev if e[0] == 'failed'][-1][1] if p.end[0] == 'throw' else 'the end of the stream'
        if push + scoped != 1:
            ck.violation('parseStream push', at(fn), 'the stream is pushed %d times' % (push + scoped))
        if push != pop:
            ck.violation('parseStream pop after %s' % how, at(fn), 'left by %s the input is popped %d times' % (how, pop))
        # between requests
        i = 0
        pend = None      # failure that has not been answered yet
        reports = rec = 0
        eof = foreign = False
        cur, nreq = None, 0
        def settle(nxt):
            if pend is None:
                return
            if reports != 1:
                ck.violation('%s failure reported %d times' % (pend, reports), at(fn), 'a request that fails in %s is reported %d times' % (pend, reports))
            if rec != 1 and reports == 1:
                ck.violation('%s failure recovery' % pend, at(fn), 'after a failure in %s recovery runs %d times before the next request' % (pend, rec))
        for e in ev:
            if e[0] == 'eof' or (e[0] in ('ok', 'failed') and e[1] == 'nextRequest'):
                settle(e)
                if eof:
                    ck.violation('parseStream after end', at(fn), 'requests are read after the end of the stream')
                pend, reports, rec = None, 0, 0
                cur = ('name', nreq) if e[0] == 'ok' else None
                nreq += 1
                if e[0] == 'eof':
                    eof = True
            if e[0] == 'ok' and e[1] == 'handler':
                handled += 1
            if e[0] == 'failed' and e[1] in ('nextRequest', 'handler') and e[2] == XQ:
                pend = e[1]
            if e[0] == 'failed' and e[2] == 'foreign':
                pend, foreign = None, True
            if e[0] == 'catch' and pend is None and not foreign:
                pend = 'unknown request'
                unknown += 1
            if e[0] == 'report':
                if pend is None:
                    ck.violation('parseStream report without failure', at(fn, e[3]), 'an error is reported although nothing failed')
                reports += 1
                if e[1] not in ('error', 'severe'):
                    ck.violation('parseStream severity', at(fn, e[3]), 'a malformed request is reported as %s' % e[1])
                if not any(t == ('pos',) for t in terms(e[2])):
                    ck.violation('parseStream position', at(fn, e[3]), 'the report does not say where the error is')
                if cur is not None and not any(t == cur for t in terms(e[2])):
                    ck.violation('parseStream request name', at(fn, e[3]), 'the report does not say which request is wrong')
                if not any(t[0] == 'exc' or t[0] == 'r' and t[1].endswith('::what') for t in terms(e[2])):
                    ck.violation('parseStream reason', at(fn, e[3]), 'the report does not say what is wrong')
            if e[0] in ('ok', 'failed') and e[1] == 'recover':
                rec += 1
                if pend is not None and not reports:
                    ck.violation('parseStream order', at(fn, e[2] if e[0] == 'ok' else e[3]), 'tokens are skipped before the error and its position are reported')
        if p.end[0] == 'ret' or p.end == 'next' or p.end[0] == 'next':
            settle(None)
        if p.end[0] == 'throw' and p.end[1] not in ('foreign',):
            ck.violation('parseStream lets out %s' % p.end[1], at(fn), 'a malformed request ends the parse')
        if p.end[0] != 'throw' and not eof:
            ck.violation('parseStream stops early', at(fn), 'parsing stops before the end of the stream')
        if p.end[0] != 'throw' and any(e[0] == 'failed' and e[2] == 'foreign' for e in ev):
            ck.undecided(at(fn), 'foreign exceptions end inside the parser')
    if not handled:
        raise Broken('no request handler is ever called')
    if not unknown:
        ck.violation('parseStream unknown request', at(fn), 'an unknown request is not reported')
