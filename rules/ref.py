"""Reference-model rules: every judged function's value graph (engine/vgraph.py,
built from /repo's current source) against the graph confirmed for this
property (rules/ref_<group>.json.gz).

The graph of a function maps its inputs to everything a caller can see: the
result, the objects it changes, the calls it makes in order, and the conditions
under which it raises an error.  Private helpers, helpers in headers and helpers
of the same file are expanded, so they are judged through what they do for
their callers, not by their shape.  Two graphs are compared by random
interpretation (engine/vinterp.py)."""
import gzip, hashlib, json, multiprocessing as mp, os, re, time
from engine import facts, vgraph as G, vinterp as V
from engine.facts import Broken

CANDS = set()
START = time.time()
HERE = os.path.dirname(os.path.abspath(__file__))
from rules.refgroups import GROUPS


def path(g):
    return os.path.join(HERE, 'ref_%s.json.gz' % g)


def key(p, f):
    k = '%s(%s)%s' % (f['f'], ', '.join(p.type(x['t']) for x in f['p']), ' const' if f.get('const') else '')
    if f.get('targs'):
        k += '<%s>' % ','.join(f['targs'])
    if f.get('intern'):
        k += ' in ' + f['file']
    return k


def entry(p, f):
    """can code outside this file or class call it?"""
    if f.get('intern'):
        return False
    if f.get('virt'):
        return True
    d = p.mdecl.get(f['id'])
    if d and d[1].get('acc', 0) == 2 and f.get('kind') != 'ctor':
        return False
    return True


def candidates(p, cfg):
    rx = re.compile(cfg['files'])
    ex = re.compile(cfg['exclude']) if cfg.get('exclude') else None
    nx = re.compile(cfg['not']) if cfg.get('not') else None
    out = {}
    for f in sorted(p.funcs.values(), key=lambda f: (f['file'], f['line'], f['id'])):
        if not f.get('body') or not rx.search(f['file']) or ex and ex.search(f['file']):
            continue
        if nx and nx.search(f['f']):
            continue
        out.setdefault(key(p, f), f)
    return out


def builder(p, f, cfg, level=1, entries=(), seconds=30):
    """level 1: helpers in headers and in the same file are expanded; 2: but
    not the judged functions of the same file; 3: nor those in headers; 4: no
    function the reference knows"""
    far = re.compile(cfg['inline']) if cfg.get('inline') else None
    stop = re.compile(cfg['stop']) if cfg.get('stop') else None

    def inl(fn):
        if fn.get('kind') == 'dtor' or stop and stop.search(fn['f']):
            return False
        if level > 3 and key(p, fn) in CANDS:
            return False
        if level > 1 and (level > 2 or not fn['file'].endswith('.h')) and key(p, fn) in entries:
            return False
        return fn['file'].endswith('.h') or fn['file'] == f['file'] or bool(far and far.search(fn['file']))
    b = G.Builder(p, inl, dyn=f.get('c'), seconds=seconds)
    b.streams = bool(cfg.get('streams'))
    return b


def fingerprint(p, f):
    """a function's text, without lines and numbering of types"""
    def go(n):
        if isinstance(n, list):
            return [go(x) for x in n]
        if not isinstance(n, dict):
            return n
        return {k: (p.type(v) if k in ('t', 'ft', 'ot') and isinstance(v, int) else go(v)) for k, v in n.items() if k != 'l'}
    x = go([f.get('body'), f.get('inits')])
    return hashlib.sha1(json.dumps(x, sort_keys=True).encode()).hexdigest()[:16]


def callers(p, ids):
    """for every helper, the functions whose text names it"""
    out = {i: {} for i in ids}
    for f in p.funcs.values():
        if not f.get('body'):
            continue
        found = set()

        def go(n):
            if isinstance(n, list):
                for x in n:
                    go(x)
            elif isinstance(n, dict):
                i = n.get('id')
                if isinstance(i, str) and i in out:
                    found.add(i)
                for x in n.values():
                    if isinstance(x, (list, dict)):
                        go(x)
        go([f['body'], f.get('inits')])
        found.discard(f['id'])
        if found:
            h = fingerprint(p, f)
            for i in found:
                out[i][key(p, f)] = h
    return out


def _build(fid):
    f = P.funcs[fid]
    G.reset()
    b = None
    try:
        for level in (1, 2, 3, 4):
            G.reset()
            b = builder(P, f, CFG, level, ENTRIES, 20)
            try:
                g = b.run(f)
                break
            except (G.Unsupported, RecursionError):
                if level == 4:
                    raise
        G._budget[0] = 10**9
        r = V.compare(g, g, 12, invariant=CFG.get('inv'))
        if r[0] == 'unknown':
            r = V.compare(g, g, 160, invariant=CFG.get('inv'), seconds=20)
        if r[0] == 'unknown':
            return fid, None, r[1], [], []
        w = V.words(list(g['out'].values()) + list(g['objs'].values()))
        d = G.dump(g)
        d['level'] = level
        return fid, json.dumps(d), '', sorted(b.expanded), sorted(w)
    except (G.Unsupported, RecursionError) as e:
        return fid, None, str(e)[:120], [], []
    except Exception as e:
        return fid, None, 'internal: %r' % e, [], []


def load(cfg):
    p = facts.load(cfg['units'])
    if cfg.get('pseudo'):
        from rules import grammar
        grammar.add(p)
    return p


def freeze(group):
    """writes the reference of a group from the current tree (used once, after reading)"""
    global P, CFG, ENTRIES, CANDS
    cfg = CFG = GROUPS[group]
    P = load(cfg)
    cand = candidates(P, cfg)
    ids = [f['id'] for f in cand.values()]
    CANDS = set(cand)
    ENTRIES = set(k for k, f in cand.items() if entry(P, f))
    with mp.Pool(8) as pool:
        res = {r[0]: r for r in pool.imap_unordered(_build, ids, 4)}
    exp = set()
    for k, f in cand.items():
        r = res[f['id']]
        if r[1] is not None:
            exp |= set(x for x in r[3] if x != f['id'])
    spec, vocab, bad, helpers = {}, set(), [], {}
    for k, f in cand.items():
        r = res[f['id']]
        if r[1] is None:
            bad.append((k, r[2]))
            continue
        if not entry(P, f) and f['id'] in exp:
            vocab |= set(r[4])
            d = json.loads(r[1])
            if d['out'] and len(r[1]) < 400000:
                helpers[k] = d
            continue
        d = json.loads(r[1])
        if not d['out'] and f['id'][0] != '!':
            continue
        vocab |= set(r[4])
        spec[k] = d
    cs = callers(P, set(cand[k]['id'] for k in helpers))
    helpers = {k: dict(d, callers=cs[cand[k]['id']]) for k, d in helpers.items() if cs[cand[k]['id']]}
    more = {}
    if cfg.get('pseudo'):
        from rules import grammar
        m, ps = grammar.rules_ll()
        more = dict(tables=grammar.automaton(), acts=sorted(grammar.productions().values()), patterns=[(grammar.regex(x, m), k) for x, k in zip(ps, grammar.patterns())])
    with gzip.GzipFile(path(group), 'wb', mtime=0) as z:
        z.write(json.dumps(dict(more, spec=spec, helpers=helpers, vocab=sorted(vocab), bad=sorted(b[0] for b in bad), entries=sorted(ENTRIES), cands=sorted(cand) if any(d['level'] == 4 for d in spec.values()) else []), sort_keys=True).encode())
    return cand, spec, bad


def _judge(k):
    f = CAND[k]
    G.reset()
    b = builder(P, f, CFG, SPEC[k].get('level', 1), ENTRIES, CFG.get('seconds', 40))
    try:
        new = b.run(f)
        G._budget[0] = 10**9
        old = G.undump(SPEC[k])
        if old['out'].keys() == new['out'].keys() and old['objs'].keys() == new['objs'].keys() and old['cls'] == new['cls'] \
                and all(old['out'][o] is new['out'][o] for o in old['out']) and all(old['objs'][o] is new['objs'][o] for o in old['objs']):
            return k, 'identical', len(new['out']), '', len(b.expanded)
        # more assignments cost time only where a function has changed; many changed functions share it
        sec = CFG.get('cmp') or max(4, min(30, (400 - (time.time() - START)) / 10))
        r = V.compare(old, new, CFG['n'], invariant=CFG.get('inv'), known_members=VOCAB, seconds=sec)
        if r[0] == 'same':
            return k, 'equal', r[1], '', len(b.expanded)
        if r[0] == 'unknown':
            return k, 'unknown', 0, r[1], 0
        return k, 'differs', r[1], r[2], 0
    except (G.Unsupported, RecursionError) as e:
        return k, 'unknown', 0, str(e)[:120], 0
    except Exception as e:
        return k, 'unknown', 0, 'internal: %r' % e, 0


def steady(d):
    """helpers (private or of one file) are judged on their own only as long as
    nobody touched the functions that call them; otherwise work may have moved
    between the two, and the callers alone are judged"""
    hs = {k: h for k, h in d.get('helpers', {}).items() if k in CAND}
    cs = callers(P, set(CAND[k]['id'] for k in hs))
    return {k: h for k, h in hs.items() if cs[CAND[k]['id']] == h['callers']}


PLAIN = {'return': 'its result', '!throw': 'the condition under which it raises an error', 'objects': 'an object it changes',
         'this': 'the object it is called on', 'end': 'when it ends'}


def plain(o):
    if o in PLAIN:
        return PLAIN[o]
    if o.startswith('calls:'):
        return 'the calls it makes (%s)' % o[6:]
    if o.startswith('arg'):
        return 'what it leaves in its argument %d' % (int(o[3:]) + 1) if o[3:].isdigit() else o
    return o


def run(ck, group, what, assumptions=()):
    global P, CFG, SPEC, CAND, VOCAB, ENTRIES, CANDS
    cfg = CFG = dict(GROUPS[group])
    cfg['n'] = 20000 if os.environ.get('VERIF_TIER') == 'thorough' else 4000
    if cfg['n'] > 4000:
        cfg['cmp'] = 120
    P = load(cfg)
    ck.units = len(P.units)
    d = json.loads(gzip.open(path(group)).read())
    SPEC, VOCAB, ENTRIES = d['spec'], set(d['vocab']), set(d['entries'])
    CANDS = set(d.get('cands', ()))
    CAND = candidates(P, cfg)
    keys = [k for k in SPEC if k in CAND]
    if len(keys) * 2 < len(SPEC):
        raise Broken('only %d of %d functions of the reference exist' % (len(keys), len(SPEC)))
    for k in SPEC:
        if k not in CAND:
            ck.undecided(k, 'no longer there; its callers are judged instead')
    n = {}
    verdict = {}
    hs = steady(d)
    SPEC = dict(SPEC, **hs)
    nspec = len(SPEC) - len(hs)
    with mp.Pool(min(8, os.cpu_count() or 4)) as pool:
        for k, st, a, why, ne in pool.imap_unordered(_judge, keys + sorted(hs), 4):
            f = CAND[k]
            w = '%s:%d' % (f['file'], f['line'])
            if k in hs and st == 'unknown':
                continue
            n[st] = n.get(st, 0) + 1
            verdict[k] = st
            if st == 'unknown':
                ck.undecided(w, '%s: %s' % (k, why))
                continue
            ck.fn(f)
            ck.ob('value graph agrees with the reference', 1, k)
            if st == 'differs':
                ck.violation(k, w, '%s computes %s differently: %s' % (f['f'], plain(a), why))
    if cfg.get('pseudo'):
        from rules import grammar
        memo = {}

        def dumps():
            if not memo:
                memo['!'] = None
                for k, f in CAND.items():
                    if k not in d['spec'] and f['id'][0] == '!':
                        r = _build(f['id'])
                        memo[k] = json.loads(r[1]) if r[1] else None
            return memo
        grammar.check(ck, d['spec'], d['tables'], d['acts'], d['patterns'], verdict, dumps, int(os.environ.get('VERIF_SEED', '1')), 200 if cfg['n'] > 4000 else 60)
    if not ck.obl:
        raise Broken('no function could be judged')
    ck.need('value graph agrees with the reference', nspec // 2)
    ck.extra['graphs'] = n
    ck.extra['helpers_judged_alone'] = len(hs)
    ck.extra['functions_outside_reach'] = len(d['bad'])
    return ck.finish(what + ' Rule: the value graph built from the current source of every judged function (result, changed objects, calls in order, error conditions; helpers expanded) '
                     'has the same value as the reference graph under every assignment of its inputs; decided by identity of hash-consed graphs, else by random interpretation.',
                     ['Functions outside the value-graph language (listed in DESIGN.md) are not judged.',
                      'Calls that leave the expanded files are uninterpreted functions of their arguments.',
                      'Real-number reading of floating-point arithmetic: changes within rounding are not reported.'] + list(assumptions))


def also(ck, group, files, funcs=None):
    """the part of a group's reference that anchors another property; judged
    besides that property's own rules"""
    global P, CFG, SPEC, CAND, VOCAB, ENTRIES, CANDS
    cfg = CFG = dict(GROUPS[group])
    cfg['n'] = 20000 if os.environ.get('VERIF_TIER') == 'thorough' else 4000
    if cfg['n'] > 4000:
        cfg['cmp'] = 120
    P = load(cfg)
    d = json.loads(gzip.open(path(group)).read())
    SPEC, VOCAB, ENTRIES = d['spec'], set(d['vocab']), set(d['entries'])
    CANDS = set(d.get('cands', ()))
    CAND = candidates(P, cfg)
    rx = re.compile(files)
    fx = re.compile(funcs) if funcs else None
    SPEC = dict(SPEC, **steady(d))
    keys = [k for k in SPEC if k in CAND and rx.search(CAND[k]['file']) and (not fx or fx.search(CAND[k]['f']))]
    with mp.Pool(min(8, os.cpu_count() or 4)) as pool:
        for k, st, a, why, ne in pool.imap_unordered(_judge, keys, 4):
            f = CAND[k]
            w = '%s:%d' % (f['file'], f['line'])
            if st == 'unknown':
                ck.undecided(w, '%s: %s' % (k, why))
                continue
            ck.fn(f)
            ck.ob('value graph of an anchor function agrees with the reference', 1, k)
            if st == 'differs':
                ck.violation(k, w, '%s computes %s differently: %s' % (f['f'], plain(a), why))
