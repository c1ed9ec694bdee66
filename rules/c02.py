"""C02: requests are accepted exactly in the scopes the interface allows."""
from .validator import *

NO_ATTR = {'Transform', 'If'}
IRRELEVANT = {'If', 'Resource'}
MUST_ATTR = {'Frame', 'World', 'Attribute', 'Solid', 'Object', 'Archive'}


def run(ck):
    v = V(ck)
    ri = v.ri
    SC = dict(SCOPES)
    en = {x.rsplit('::', 1)[-1]: val for x, val in enum_values(v).items()}
    for k in SC:
        if 'Scope_' + k in en:
            SC[k] = en['Scope_' + k]
    if len(set(SC.values())) != len(SC):
        ck.violation('scope codes', v.file, 'two scopes share one code')
    archive = SC['Archive']
    pairs = {}
    for req in sorted(ri.req):
        fn, ps = v.paths(req)
        if ps is None:
            continue
        if req == 'ArchiveRecord':
            allowed = set(SC)
        else:
            sp = SPEC.get(req)
            if sp is None:
                raise Broken('request %s is not in the specification' % req)
            allowed = set(sp['scopes']) | {'Any'} if sp['scopes'] else set(SC)
        begin = req[:-5] if req.endswith('Begin') and req[:-5] not in IRRELEVANT else None
        end = req[:-3] if req.endswith('End') and req[:-3] not in IRRELEVANT else None
        for s, code in SC.items():
            ck.ob('scope-verdict', sample='%s at %s scope: %s' % (req, s, 'accepted' if s in allowed else 'rejected'))
            feas = 0
            for size1 in (False, True):
                for attr1 in (False, True):
                    accepted = False
                    for pth in ps:
                        r = v.run_scope(pth, code, size1, attr1)
                        if r is None:
                            continue
                        feas += 1
                        ops, aops, by_scope = r
                        calls = requests_made(ri, pth)
                        if pth.end[0] == 'throw':
                            if calls:
                                ck.violation('%s forwards then throws' % req, at(fn), 'the request is passed on and rejected on one path')
                            if s in allowed and by_scope:
                                ck.violation('%s rejected at %s' % (req, s), at(fn), '%s is rejected at %s scope, where the interface allows it' % (req, s))
                            continue
                        if pth.end[0] != 'ret':
                            continue
                        if not calls:
                            if s in allowed:
                                ck.violation('%s dropped' % req, at(fn), 'a path at %s scope neither rejects the request nor passes it on' % s)
                            continue
                        accepted = True
                        if s not in allowed:
                            ck.violation('%s accepted at %s' % (req, s), at(fn, calls[0][3]), '%s is passed on at %s scope, where the interface forbids it' % (req, s))
                            continue
                        if len(calls) != 1 or calls[0][0] != req or calls[0][1] != NEXT:
                            ck.violation('%s forward' % req, at(fn, calls[0][3]), 'an accepted request is passed on as %s' % ', '.join(c[0] for c in calls))
                        elif tuple(strip_copy(a) for a in calls[0][2]) != identity_args(fn):
                            ck.violation('%s forward arguments' % req, at(fn, calls[0][3]), 'an accepted request is passed on with different arguments (%s)' % ', '.join(show(a, names(fn)) for a in calls[0][2]))
                        # scope stack
                        want = []
                        if begin and not (code == archive and begin != 'Archive'):
                            want = [('push', SC[begin])]
                        if end and not size1 and not (code == archive and end != 'Archive'):
                            want = [('pop',)]
                        got = [o[:-1] for o in ops]
                        ck.ob('scope-effect')
                        if got != want:
                            ck.violation('%s scope effect' % req, at(fn, ops[0][-1] if ops else None),
                                         'at %s scope%s the scope stack sees %s, wanted %s' % (s, ' (outermost)' if size1 else '', got or 'nothing', want or 'nothing'))
                        # attribute stack
                        pairs.setdefault(req, set()).add((tuple(aops), attr1))
                    if s in allowed and not accepted and feas:
                        ck.violation('%s never accepted at %s' % (req, s), at(fn), 'no path passes %s on at %s scope' % (req, s))
    # basis steps follow attribute scopes
    for req in sorted(ri.req):
        if req not in pairs:
            continue
        fn = v.paths(req)[0]
        ck.ob('attribute-scope')
        eff = pairs[req]
        blk = req[:-5] if req.endswith('Begin') else req[:-3] if req.endswith('End') else None
        if blk and (blk + 'Begin') in ri.req and (blk + 'End') in ri.req:
            if req.endswith('Begin'):
                kinds = {a for a, _ in eff}
                if len(kinds) != 1 or next(iter(kinds)) not in ((), ('push',)):
                    ck.violation('%s attribute effect' % req, at(fn), 'attribute stack sees %s' % sorted(kinds))
                    continue
                pushes = kinds == {('push',)}
                if pushes and blk in NO_ATTR or not pushes and blk in MUST_ATTR:
                    ck.violation('%s attribute effect' % req, at(fn), '%s the attribute state' % ('saves' if pushes else 'does not save'))
                other = pairs.get(blk + 'End', set())
                pops = {a for a, one in other if not one} == {('pop',)}
                none = {a for a, one in other} == {()}
                if pushes and not pops or not pushes and not none:
                    ck.violation('%sEnd attribute effect' % blk, at(v.paths(blk + 'End')[0]),
                                 '%sBegin %s the attribute state but %sEnd %s it' % (blk, 'saves' if pushes else 'does not save', blk, 'does not restore' if not pops else 'restores'))
                if any(a for a, one in other if one):
                    ck.violation('%sEnd attribute underflow' % blk, at(v.paths(blk + 'End')[0]), 'the outermost attribute state is popped')
        elif any(a for a, _ in eff):
            ck.violation('%s attribute effect' % req, at(fn), 'saves or restores attribute state outside a block request')
    # Basis stores the steps
    fn, ps = v.paths('Basis')
    for pth in ps or ():
        if pth.end[0] != 'ret' or not requests_made(ri, pth):
            continue
        ck.ob('basis-steps')
        got = {}
        for e in pth.events:
            if e[0] == 'store' and e[1][0] == 'fld' and e[1][1][0] == 'r' and e[1][1][2] == v.attr_f:
                got[e[1][2]] = strip_casts(e[2])
            if e[0] == 'store' and e[1][0] == 'r' and e[1][2] == v.attr_f and e[2][0] == 'ctor':
                for nme, val in zip(('ustep', 'vstep'), e[2][2]):
                    got[nme] = strip_casts(val)
        ix = {p['n']: i for i, p in enumerate(fn['p'])}
        if got != {'ustep': ('P', 1), 'vstep': ('P', 3)}:
            ck.violation('Basis steps', at(fn), 'the steps remembered for the current attributes are %s' % {k: show(x, names(fn)) for k, x in got.items()})
    # initial state
    for f in v.prog.methods_of(CLS):
        if f['kind'] != 'ctor' or f.get('copyctor') or len(f['p']) != 1:
            continue
        ck.fn(f)
        for pth in Walker(v.prog, LocalPolicy(ri, CLS, {f['file']})).run(f):
            ck.ob('initial-scope')
            relaxed = None
            for e in pth.events:
                if e[0] == 'cond' and e[1] == ('P', 0):
                    relaxed = e[2]
            push = [e for e in pth.events if e[0] == 'call' and e[2] == v.scope_f and e[1].endswith('push')]
            if len(push) == 1:
                def atom(t, relaxed=relaxed):
                    return int(relaxed) if t == ('P', 0) and relaxed is not None else None
                x = push[0][3][0]
                for rv in ((relaxed,) if relaxed is not None else (False, True)):
                    val = evalt(strip_casts(x), lambda t: int(rv) if t == ('P', 0) else None)
                    if val is not None and val != (SC['Any'] if rv else SC['BeginEnd']):
                        ck.violation('initial scope', at(f, push[0][4]), 'validation starts at scope %s' % show(x))
            else:
                ck.violation('initial scope', at(f), 'validation starts with %d scopes' % len(push))
    ck.need('scope-verdict', 1100)
    return ck.finish(
        'Each request method of the validator is summarised path by path (helpers looked through); for every scope the '
        'paths that remain feasible are selected by evaluating the conditions on the scope stack over the finite set of '
        'scopes, and the verdict (passed on / rejected), the forwarded arguments, and the effect on the scope and attribute '
        'stacks are compared with the interface description.',
        ['the downstream stage does not throw (a throwing downstream request is reported by the caller)'])


def strip_copy(t):
    return t


def enum_values(v):
    out = {}
    for q, e in v.prog.enums.items():
        if q.startswith(CLS):
            out.update((k, x) for k, x in e['c'])
    return out
