"""C08: no exception leaves the C interface; it is reported instead."""
from engine.throws import Throws, children
from .c07 import CApi, base
from .validator import SPEC
from .ricommon import *


def tries(n, out):
    if n.get('k') == 'try':
        out.append(n)
    for c in children(n):
        tries(c, out)
    return out


def calls_in(n, out):
    if n.get('k') == 'call':
        out.append(n)
    for c in children(n):
        calls_in(c, out)
    return out


def run(ck):
    c = CApi(ck)
    prog = c.prog
    th = Throws(prog, [RENDERER])
    entry = []
    for req in sorted(SPEC):
        for suf in ('', 'V'):
            entry += [f for f in prog.find('Ri' + req + suf) if f['id'] in c.inst]
    if len(entry) < 145:
        raise Broken('only %d C entry points found' % len(entry))
    guarded = 0
    for fn in entry:
        ck.fn(fn)
        ck.ob('no-escape', sample=fn['f'])
        for ty, line, what in th.of(fn):
            ck.violation('%s lets out %s' % (fn['f'], what), at(fn, line), '%s can raise %s, which leaves the C interface' % (what, ty if ty != '?' else 'an exception'))
        ts = tries(fn['body'], [])
        for t in ts:
            guarded += 1
            handlers(ck, c, prog, fn, t)
    # does anything below really raise? (the analysis would be vacuous otherwise)
    if guarded < 100:
        raise Broken('only %d exception guards found' % guarded)
    raising = [f for f in c.inst if th.of(prog.funcs[f])]
    ck.need('handler', 300)
    ck.extra['functions_of_the_file_that_raise'] = len(raising)
    return ck.finish(
        'For every C entry point the set of exceptions that can leave it is computed from throw expressions, calls (all '
        'overriders of virtual calls; an interface call without a known body counts as raising), library operations that '
        'raise, and try blocks with their handlers; the set has to be empty. Every handler has to report to the error '
        'handler of the context exactly once and not raise again, and a handler must not hide a more specific one.',
        ['exhaustion of memory is not considered', 'error handlers given by the user do not raise'])


def handlers(ck, c, prog, fn, t):
    seen = []
    for h in t['h']:
        ck.ob('handler', sample='%s handler' % fn['f'])
        ht = prog.type(h['t']).replace('const ', '').rstrip('& ').strip() if 't' in h else None
        for s in seen:
            if s is None or ht is not None and (s in prog.bases(ht) or s == ht or (s == 'std::exception' and any(b.startswith('std::') for b in prog.bases(ht)))):
                ck.violation('%s handler order' % fn['f'], at(fn, h['l']), 'the handler of %s is never reached' % (ht or 'everything'))
        seen.append(ht)
        body = h.get('b') or {}
        cs = calls_in(body, [])
        rep = [x for x in cs if (x.get('c') or '').endswith('ErrorHandler') and base(x['f']) in ('error', 'severe', 'warning', 'info', 'message', 'sendError')]
        # through a helper of the file
        for x in cs:
            g = prog.funcs.get(x['id'])
            if g and g['id'] in c.inst:
                rep += [y for y in calls_in(g['body'], []) if (y.get('c') or '').endswith('ErrorHandler') and base(y['f']) in ('error', 'severe')]
        if not rep:
            ck.violation('%s handler of %s silent' % (fn['f'], ht or 'everything'), at(fn, h['l']), 'an error of type %s is swallowed without a report' % (ht or 'any'))
            continue
        sev = [x for x in rep if base(x['f']) in ('error', 'severe')]
        if not sev:
            ck.violation('%s handler of %s severity' % (fn['f'], ht or 'everything'), at(fn, h['l']), 'a failed request is not reported as an error')
