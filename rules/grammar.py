"""The actions of the shading language grammar and scanner as functions of
their own: every production of parser.yy and every pattern of scanner.ll gets a
pseudo function whose inputs are the values of the right-hand side and whose
outputs are the value of the left-hand side and the changed compiler state."""
import json, os, re
from engine import facts

GEN = os.path.join('libs', 'slcomp', 'parse')


def walk(n, k):
    st = [n]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            if n.get('k') == k:
                yield n
            st.extend(n.values())
        elif isinstance(n, list):
            st.extend(n)


def cases(sw):
    """switch body -> {value: [statements]}"""
    out, cur = {}, None
    for s in sw['b']['s']:
        while s.get('k') in ('case', 'default'):
            cur = []
            if s['k'] == 'case':
                out[s['v'].get('v', s['v'].get('cv'))] = cur
            s = s['s']
            if not s:
                break
        if not s or s.get('k') == 'break':
            cur = None
            continue
        if cur is not None:
            cur.append(s)
    return out


def productions():
    """case number -> 'lhs: rhs' as bison prints it"""
    txt = open(os.path.join(facts.CMAKE, GEN, 'parser.cpp'), errors='replace').read()
    res, seen = {}, {}
    for m in re.finditer(r'^  case (\d+): /\* (.*?)  ?\*/$', txt, re.M):
        k = m.group(2).strip()
        seen[k] = seen.get(k, 0) + 1
        res[int(m.group(1))] = k if seen[k] == 1 else '%s #%d' % (k, seen[k])
    return res


def rename(n, m, ty):
    if isinstance(n, list):
        return [rename(x, m, ty) for x in n]
    if not isinstance(n, dict):
        return n
    if n.get('k') == 'ref' and n.get('dk') == 'local' and n.get('n') in m:
        i = m[n['n']]
        return dict(n, dk='param', i=i, pi=i)
    return {k: rename(v, m, ty) for k, v in n.items()}


TOKEN = re.compile(r'^[A-Z][A-Z_]*$')


def tokens(n):
    """token codes by name: their numbers are bison's business"""
    if isinstance(n, list):
        return [tokens(x) for x in n]
    if not isinstance(n, dict):
        return n
    if n.get('k') == 'ref' and n.get('dk') == 'enum' and TOKEN.match(n.get('q', '')):
        return dict(k='str', v='token ' + n['q'])
    if n.get('k') == 'cast' and isinstance(n.get('x'), dict) and n['x'].get('dk') == 'enum' and TOKEN.match(n['x'].get('q', '')):
        return dict(k='str', v='token ' + n['x']['q'])
    return {k: tokens(v) for k, v in n.items()}


def rhslen(prod):
    r = prod.split(':', 1)[1].strip() if not prod.startswith("':'") else prod
    r = re.sub(r' #\d+$', '', r)
    return 0 if r == '%empty' else len(r.split(' '))


def add(p):
    """puts the pseudo functions into the program; gives them"""
    out = []
    parse = [f for f in p.funcs.values() if f['f'] == 'yyparse' and f.get('body')]
    lex = [f for f in p.funcs.values() if f['f'] == 'yylex' and f.get('body')]
    if not parse or not lex:
        raise facts.Broken('no generated parser')
    parse, lex = parse[0], lex[0]
    prods = productions()
    sw = max(walk(parse['body'], 'switch'), key=lambda s: len(s['b']['s']))
    vt = next(r['t'] for r in walk(parse['body'], 'ref') if r.get('n') == 'yyval')
    pt = next(r['t'] for r in walk(parse['body'], 'ref') if r.get('n') == 'yyvsp')
    big = 10 ** 6
    for c, body in sorted(cases(sw).items()):
        k = prods.get(c)
        if k is None:
            continue
        n = rhslen(k)
        m = {'yyvsp': big, 'yyval': big + 1}
        ps = [dict(n='yyvsp', i=big, t=pt), dict(n='yyval', i=big + 1, t=p._t(p.type(vt) + ' &'))]
        pre = []
        if n:
            ref = lambda nm, t: dict(k='ref', n=nm, t=t, dk='param', i=m[nm], pi=m[nm])
            pre = [dict(k='asg', op='=', t=vt, l=body[0].get('l', 0) if body else 0, a=ref('yyval', vt),
                        b=dict(k='idx', t=vt, l=0, a=ref('yyvsp', pt), b=dict(k='int', v=1 - n)))]
        f = dict(f='action of ' + k, n='action', id='!act:' + k, file='libs/slcomp/parse/parser.yy', line=c, end=c, ret=p._t('void'),
                 kind='func', p=ps, unit=parse['unit'], targs=[], body=dict(k='block', l=0, s=pre + rename(body, m, None)))
        if body:
            f['line'] = body[0].get('l', 0)
        p.funcs[f['id']] = f
        out.append(f)
    sw = max(walk(lex['body'], 'switch'), key=lambda s: len(s['b']['s']))
    pats = patterns()
    for f in p.funcs.values():
        if f.get('body') and f['file'].endswith('slcomp/parse/scanner.cpp'):
            f['body'] = tokens(f['body'])
    lex['body'] = tokens(lex['body'])
    sw = max(walk(lex['body'], 'switch'), key=lambda s: len(s['b']['s']))
    for c, body in sorted(cases(sw).items()):
        if not 0 < c <= len(pats):
            continue
        k = pats[c - 1]
        f = dict(f='scanner action of ' + k, n='action', id='!lex:' + k, file='libs/slcomp/parse/scanner.ll', line=body[0].get('l', 0) if body else 0, end=0,
                 ret=lex['ret'], kind='func', p=[], unit=lex['unit'], targs=[], body=dict(k='block', l=0, s=body))
        p.funcs[f['id']] = f
        out.append(f)
    return out


def rules_ll():
    """the pattern lines of scanner.ll in order"""
    txt = open(os.path.join(facts.REPO, 'libs/slcomp/parse/scanner.ll'), errors='replace').read().replace('\r', '')
    defs, rules, _ = re.split(r'^%%[ \t]*$', txt, flags=re.M)[:3]
    macros = dict(re.findall(r'^(\w+)[ \t]+(\S.*?)[ \t]*$', re.sub(r'%\{.*?%\}', '', defs, flags=re.S), re.M))
    res, depth = [], 0
    for l in rules.split('\n'):
        if depth == 0:
            if not l.strip() or l[0] in ' \t':
                continue
            # the pattern ends at the first blank outside quotes and brackets
            q = b = False
            i = 0
            while i < len(l):
                ch = l[i]
                if ch == '\\':
                    i += 2
                    continue
                if q:
                    q = ch != '"'
                elif b:
                    b = ch != ']'
                elif ch == '"':
                    q = True
                elif ch == '[':
                    b = True
                elif ch in ' \t':
                    break
                i += 1
            res.append(l[:i])
            l = l[i:]
        l = re.sub(r"'(\\.|[^\\'])'|\"(\\.|[^\\\"])*\"|//.*", '', l)
        depth += l.count('{') - l.count('}')
    return macros, res


def patterns():
    seen, out = {}, []
    for k in rules_ll()[1]:
        seen[k] = seen.get(k, 0) + 1
        out.append(k if seen[k] == 1 else '%s #%d' % (k, seen[k]))
    return out


# --------------------------------------------------------------- automaton
def automaton():
    """LALR tables of the current parser.yy as bison reports them"""
    import subprocess, tempfile, xml.etree.ElementTree as ET
    with tempfile.TemporaryDirectory() as t:
        r = subprocess.run(['bison', '--xml=' + t + '/g.xml', '-o', t + '/g.cpp', os.path.join(facts.REPO, 'libs/slcomp/parse/parser.yy')],
                           capture_output=True, text=True)
        if r.returncode or not os.path.exists(t + '/g.xml'):
            raise facts.Broken('bison: ' + r.stderr[-500:])
        x = ET.parse(t + '/g.xml').getroot()
    rules, seen = [], {}
    for r in x.find('grammar/rules'):
        lhs = r.find('lhs').text
        rhs = [s.text for s in r.find('rhs').findall('symbol')]
        k = '%s: %s' % (lhs, ' '.join(rhs) or '%empty')
        seen[k] = seen.get(k, 0) + 1
        rules.append((lhs, rhs, k if seen[k] == 1 else '%s #%d' % (k, seen[k])))
    states = []
    for s in x.find('automaton'):
        a = s.find('actions')
        sh, go, red = {}, {}, {}
        for t in a.find('transitions'):
            (sh if t.get('type') == 'shift' else go)[t.get('symbol')] = int(t.get('state'))
        for t in a.find('reductions'):
            if t.get('enabled') != 'false':
                red.setdefault(t.get('symbol'), -1 if t.get('rule') == 'accept' else int(t.get('rule')))
        states.append((sh, go, red))
    return dict(rules=rules, states=states)


def nonterminals(g):
    return set(r[0] for r in g['rules'])


def parse(g, toks, cls):
    """events of the parse, or None if it is rejected; cls: production -> class
    of its action ('' none)"""
    st, vals, ev = [0], [], []
    toks = list(toks) + ['$end']
    i = 0
    for _ in range(20000):
        sh, go, red = g['states'][st[-1]]
        t = toks[i] if i < len(toks) else '$end'
        if t in sh:
            st.append(sh[t])
            vals.append(i)
            i += 1
            if t == '$end':
                return ev
            continue
        r = red.get(t, red.get('$default'))
        if r is None:
            return None
        if r == -1:
            return ev
        lhs, rhs, k = g['rules'][r]
        n = len(rhs)
        args = tuple(vals[len(vals) - n:]) if n else ()
        c = cls(k)
        if c is None:
            raise KeyError(k)
        if c == '':
            v = args[0] if args else ('-',)
        else:
            v = ('e', len(ev))
            ev.append((c, args))
        if n:
            del st[-n:]
            del vals[-n:]
        vals.append(v)
        st.append(g['states'][st[-1]][1][lhs])
    return None


def sentences(g, rng, per=30, size=60):
    """sentences of the grammar, each production used in some of them"""
    nt = {}
    for i, (l, rhs, k) in enumerate(g['rules']):
        nt.setdefault(l, []).append(i)
    short, use = {}, {}
    for _ in range(60):
        for l, rs in nt.items():
            for i in rs:
                n = 0
                for s in g['rules'][i][1]:
                    n += short.get(s, 10 ** 6) if s in nt else 1
                if n < short.get(l, 10 ** 6):
                    short[l] = n
                    use[l] = i
    # how to reach a nonterminal from the start
    start = g['rules'][0][0]
    up = {}
    todo = [start]
    while todo:
        l = todo.pop(0)
        for i in nt[l]:
            for j, s in enumerate(g['rules'][i][1]):
                if s in nt and s != start:
                    if s not in up:
                        up[s] = []
                        todo.append(s)
                    up[s].append((l, i, j))

    def expand(s, budget):
        if s not in nt:
            return [s]
        rs = [i for i in nt[s] if sum(short.get(x, 1) if x in nt else 1 for x in g['rules'][i][1]) <= budget]
        i = rng.choice(rs) if rs else use[s]
        out = []
        rhs = g['rules'][i][1]
        rest = budget - sum(short.get(x, 1) if x in nt else 1 for x in rhs)
        for x in rhs:
            if x in nt:
                b = short[x] + (rng.randrange(rest + 1) if rest > 0 else 0)
                y = expand(x, b)
                rest -= max(0, len(y) - short[x])
                out += y
            else:
                out.append(x)
        return out

    def embed(l, body):
        n = 0
        while l != start and n < 200:
            n += 1
            ways = up.get(l) or []
            if not ways:
                return None
            # prefer the first way found (towards the start) after a few steps
            l2, i, j = rng.choice(ways) if n < 6 else ways[0]
            out = []
            for q, s in enumerate(g['rules'][i][1]):
                out += body if q == j else expand(s, short.get(s, 1) + rng.randrange(4))
            body, l = out, l2
        return [t for t in body if t != '$end'] if l == start else None
    for i, (l, rhs, k) in enumerate(g['rules']):
        for _ in range(per):
            body = []
            for s in rhs:
                body += expand(s, short.get(s, 1) + rng.randrange(12))
            b = embed(l, body)
            if b is not None and len(b) <= 4 * size:
                yield i, b


# ----------------------------------------------------------------- scanner
def regex(pat, macros):
    out, i = '', 0
    while i < len(pat):
        c = pat[i]
        if c == '"':
            j = i + 1
            lit = ''
            while pat[j] != '"':
                if pat[j] == '\\':
                    j += 1
                lit += pat[j]
                j += 1
            out += re.escape(lit)
            i = j + 1
        elif c == '{' and re.match(r'\{\w+\}', pat[i:]) and not pat[i + 1].isdigit():
            m = re.match(r'\{(\w+)\}', pat[i:]).group(1)
            out += '(?:%s)' % regex(macros[m], macros)
            i += len(m) + 2
        elif c == '[':
            j = i + 1
            cls = '['
            while pat[j] != ']':
                if pat[j] == '\\':
                    cls += pat[j:j + 2] if pat[j + 1] in 'nrtfvx\\]^-[0' else re.escape(pat[j + 1])
                    j += 2
                else:
                    cls += '\\[' if pat[j] == '[' else pat[j]
                    j += 1
            out += cls + ']'
            i = j + 1
        elif c == '\\':
            out += pat[i:i + 2] if pat[i + 1] in 'nrtfvx0\\' or not pat[i + 1].isalnum() else re.escape(pat[i + 1])
            i += 2
        elif c == '(' :
            out += '(?:'
            i += 1
        else:
            out += c
            i += 1
    return out


def scan(rules, text, cls):
    """longest match, first rule first; [(class, text)]"""
    i, out = 0, []
    while i < len(text):
        best = None
        for rx, k in rules:
            m = rx.match(text, i)
            if m and m.end() > i and (best is None or m.end() > best[0]):
                best = (m.end(), k)
        if best is None:
            out.append(('echo', text[i]))
            i += 1
            continue
        c = cls(best[1])
        if c is None:
            raise KeyError(best[1])
        out.append((c, text[i:best[0]]))
        i = best[0]
    return out


def lexemes(rng):
    words = ('break continue else float point vector normal string void matrix color for if return while uniform varying output extern atmosphere surface volume '
             'displacement imager attribute option rendererinfo incident opposite transformation light lightsource illuminate illuminance solar gather texture '
             'environment bump shadow occlusion textureinfo rayinfo x foo _a A1 f1 e5 Kd').split()
    nums = ['0', '1', '42', '007', '0x1F', '0Xff', '1.', '.5', '1.5', '1e5', '1E-3', '2.5e+10', '.5e1', '3.e2', '1f', '2.5F', '10u', '10L', "'a'", "'\\n'", '1e', '1.5.2', '1..2']
    ops = list(';{},:=()[].&!~-+*/%<>^|?') + ['+=', '-=', '*=', '/=', '&&', '||', '<=', '>=', '==', '!=', '++', '--', '->', '<<', '>>', '@', '$', '`']
    ws = [' ', '\t', '\n', '\r\n', '\r', '\f']
    strs = ['""', '"a b"', '"a\\"b"', '"\\\\"', '"a\\nb"', '"x" "y"', '"unterminated', '"line\nbreak"']
    hashes = ['# 12 "file.sl"\n', '#line 3 "a.sl"\n', '#pragma annotation foo\n', '# pragma x\n', '#\n', '#h12\n', '#12\n']
    allx = words + nums + ops + ws + strs + hashes
    for x in allx:
        yield x
        yield x + ' '
        for y in ('', 'x', '1', '.', '=', '"', ' '):
            yield x + y
            yield y + x
    for w in words:
        yield w.upper()
        yield w + 's'
        yield w[:-1]
    for _ in range(3000):
        yield ''.join(rng.choice(allx) + rng.choice(['', ' ', '', '\n']) for _ in range(rng.randrange(2, 7)))


# ------------------------------------------------------------------- rule
def canon(d):
    """identity of a frozen graph"""
    return json.dumps({k: d[k] for k in d if k != 'level'}, sort_keys=True)


def check(ck, spec, tables, acts, pats0, verdict, dumps, seed, per):
    """grammar and scanner tables against the reference.  verdict: key of a
    pseudo function -> identical | equal | differs | unknown; dumps(): key ->
    frozen form of the current graph"""
    import random
    A = lambda k: 'action of %s(YYSTYPE *, YYSTYPE &)' % k
    L = lambda k: 'scanner action of %s()' % k
    first = {}
    for k in sorted(spec):
        first.setdefault(canon(spec[k]), k)
    can = {k: first[canon(spec[k])] if spec[k]['out'] else '' for k in spec}
    cur = automaton()
    old = dict(rules=[tuple(r) for r in tables['rules']], states=tables['states'])
    same = [list(map(list, [[r[0]], r[1], [r[2]]])) for r in cur['rules']] == [list(map(list, [[r[0]], r[1], [r[2]]])) for r in old['rules']] and \
        [[dict(x) for x in s] for s in cur['states']] == [[dict(x) for x in s] for s in old['states']]
    same = same and sorted(productions().values()) == sorted(acts)
    known = set(r[2] for r in old['rules'])

    def oldcls(k):
        return can.get(A(k), '')
    extra = {}

    def newcls(k, f=A, d=''):
        q = f(k)
        if q in spec:
            v = verdict.get(q)
            if v in ('identical', 'equal', 'differs'):     # a differing action is reported as such
                return can[q]
            if q not in verdict and f is A:
                return ''
            return None
        ds = dumps()
        if q not in ds:
            return d
        if q not in extra:
            c = ds[q]
            extra[q] = None if c is None else '' if not c['out'] else first.get(canon(c))
            if c is not None and extra[q] is None and f is A and k in known and k not in acts:
                extra[q] = 'new action of ' + k
        return extra[q]
    if same:
        for r in cur['rules']:
            ck.ob('production and its place in the parse tables', 1, r[2])
    else:
        rng = random.Random(seed)
        n = 0
        bad = {}
        for src, g in ((old, old), (cur, cur)):
            for i, s in sentences(src, rng, per):
                try:
                    a, b = parse(old, s, oldcls), parse(cur, s, newcls)
                except KeyError as e:
                    ck.undecided('libs/slcomp/parse/parser.yy', 'production %s has an action the reference does not know' % e)
                    continue
                n += 1
                if (a is None) != (b is None):
                    bad.setdefault('accept' if a is None else 'reject', (src['rules'][i][2], s))
                elif a != b:
                    bad.setdefault('tree', (src['rules'][i][2], s))
        ck.ob('sentence parsed as before', n, 'sentences of the reference grammar and of the current one')
        for w, (k, s) in sorted(bad.items()):
            ck.violation('grammar %s %s' % (w, k), 'libs/slcomp/parse/parser.yy', {
                'accept': 'accepts what the language does not allow', 'reject': 'rejects a sentence of the language',
                'tree': 'gives a sentence another meaning (other tree or other order of actions)'}[w] + ': ' + ' '.join(s)[:300])
    m, ps = rules_ll()
    cp = [(regex(p, m), k) for p, k in zip(ps, patterns())]
    if [list(x) for x in cp] == [list(x) for x in pats0]:
        for x in cp:
            ck.ob('pattern and its place in the scanner', 1, x[1])
    else:
        rng = random.Random(seed)
        o = [(re.compile(x), k) for x, k in pats0]
        c = [(re.compile(x), k) for x, k in cp]
        n, bad = 0, None
        for t in lexemes(rng):
            try:
                a = scan(o, t, lambda k: can.get(L(k), ''))
                b = scan(c, t, lambda k: newcls(k, L))
            except KeyError as e:
                ck.undecided('libs/slcomp/parse/scanner.ll', 'pattern %s has an action the reference does not know' % e)
                continue
            n += 1
            # patterns without effect may be cut differently
            a, b = [x for x in a if x[0]], [x for x in b if x[0]]
            if a != b and bad is None:
                bad = t
        ck.ob('text cut into the same tokens', n, 'lexemes of the language and their combinations')
        if bad is not None:
            ck.violation('scanner', 'libs/slcomp/parse/scanner.ll', 'cuts %r into other tokens than the language' % bad)
