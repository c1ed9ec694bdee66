"""C14: shader instructions keep the stack balanced and the temporaries accounted for."""
import re
from engine import facts
from engine.facts import Broken
from engine.paths import Policy, Walker, Overflow, Unsupported, STAR_THIS, show, terms, INT
from engine.views import base
from . import vm
from .c13 import at, TYPES

STACK = 'Aqsis::CqShaderStack'
DATA = 'Aqsis::IqShaderData'
STYPES = (1, 3, 4, 5, 8, 9, 11)      # float point string color normal vector matrix
UNI, VAR = 2, 3


def run(ck):
    prog = facts.load([r'^libs/shadervm/shader(vm[12]?|stack)\.cpp'])
    ck.units = len(prog.units)
    ks = dataclasses(ck, prog)
    pools(ck, prog, ks)
    entries(ck, prog)
    creators(ck, prog, ks)
    done = {}
    for nm, mid, c, ts in vm.table(prog):
        fn = vm.method(prog, mid)
        if fn is None:
            continue
        if fn['id'] in done and done[fn['id']] == c:
            continue
        done[fn['id']] = c
        ck.fn(fn)
        try:
            ops = vm.opcode_paths(prog, fn)
        except (Overflow, Unsupported) as e:
            ck.undecided(at(fn), 'cannot be summarised (%s)' % e)
            continue
        balance(ck, nm, fn, c, ops)
    ck.need('popped entries are released once', 400)
    ck.need('temporary is pushed or released once', 200)
    ck.need('temporary of a type and class comes from, and goes back to, its own pool', 20)
    return ck.finish('All paths of all opcodes (loops over a list of operands unrolled twice): entries popped and released, temporaries taken and pushed, words of the '
              'program read. The pools, variable creation and the stack primitives are evaluated for every type and class.',
              ['exceptions out of an operation are not followed (they end the shading of the grid)'])


def balance(ck, nm, fn, c, ops):
    npush = {}
    for o in ops:
        if o.path.end[0] == 'throw':
            continue
        n = len(o.pops)
        ck.ob('popped entries are released once', max(1, n), sample='%s pops %d' % (nm, n))
        rel = list(o.released)
        unknown = [x for x in rel if not (isinstance(x, tuple) and x and x[0] in ('pop', 'tmp'))]
        if unknown:
            ck.undecided(at(fn), 'releases %s' % show(unknown[0]))
            continue
        pushed = [a for b, a in o.pushed]
        passed = [x for x in pushed if isinstance(x, tuple) and x and x[0] == 'A']
        for i in range(n):
            k = rel.count(('pop', i)) + sum(1 for x in passed if x == ('A', i))
            if k == 0:
                ck.violation('%s keeps operand %d' % (fn['n'], i), at(fn, o.pops[i][2]), 'on a path of %s the entry popped here is never released: its temporary is lost' % nm)
            elif k > 1:
                ck.violation('%s releases operand %d twice' % (fn['n'], i), at(fn, o.pops[i][2]), 'on a path of %s the entry popped here is given back %d times: two later values would share it' % (nm, k))
        if len(rel) > len([x for x in rel if x[0] == 'pop' and x[1] < n]) + len([x for x in rel if x[0] == 'tmp']):
            ck.violation('%s releases more than it popped' % fn['n'], at(fn), '%s releases an entry it did not pop' % nm)
        for e in o.tmps:
            ck.ob('temporary is pushed or released once')
            k = sum(1 for a in pushed if isinstance(a, tuple) and a[:2] == ('tmp', e[1])) + sum(1 for x in rel if x[:2] == ('tmp', e[1]))
            if k != 1:
                ck.violation('%s temporary used %d times' % (fn['n'], k), at(fn, e[2]), 'on a path of %s the temporary taken here is %s' % (
                    nm, 'neither left on the stack nor given back' if k == 0 else 'left on the stack %d times' % k))
        for b, a in o.pushed:
            if isinstance(a, tuple) and a and a[0] == 'tmp' and b == 'PushV':
                ck.violation('%s pushes a temporary as variable' % fn['n'], at(fn), '%s pushes its temporary as if it were a variable: it is never given back' % nm)
            if isinstance(a, tuple) and a and a[0] != 'tmp' and a[0] != 'A' and b == 'Push':
                if any(x and x[0] == 'r' and base(x[1]) == 'GetVar' for x in terms(a)):
                    ck.violation('%s pushes a variable as temporary' % fn['n'], at(fn), '%s pushes a shader variable as a temporary: releasing it puts the variable into the pool' % nm)
        npush.setdefault(len(o.pushed), o)
        ck.ob('program words read are those of the opcode', sample='%s reads %d' % (nm, c))
        if len(o.reads) != c and not any('loop' == e[0] for e in o.path.events):
            ck.violation('%s reads %d words' % (fn['n'], len(o.reads)), at(fn), 'a path of %s reads %d words of the program, the opcode table gives it %d' % (nm, len(o.reads), c))
        if o.tmps:
            sized(ck, nm, fn, o)
        for b, a in o.pushed:
            pt = vm.pushes_type(a)
            if pt is None:
                continue
            t, cl, who = pt
            data = [i for i in range(n)]
            ck.ob('result is varying if an operand is', sample=nm)
            if cl == 'uniform' and n and not vwhole(o, data):
                ck.violation('%s uniform result' % fn['n'], at(fn), '%s always leaves a uniform result although its operands may be varying' % nm)
            elif cl == 'operands' and who != 'always':
                miss = [i for i in data if i not in who and before(o, i)]
                if miss:
                    ck.violation('%s class ignores operand %d' % (fn['n'], miss[0]), at(fn), 'the result of %s is uniform or varying without regard to operand %d' % (nm, miss[0]))
    if len(npush) > 1:
        ck.violation('%s leaves %s values' % (fn['n'], sorted(npush)), at(fn), '%s leaves %s values on the stack depending on the path taken (for instance whether any point is running)' % (
            nm, ' or '.join(str(x) for x in sorted(npush))))


def before(o, i):
    return True


def vwhole(o, data):
    """a condition of the path established that the operands are not varying"""
    for e in o.path.events:
        if e[0] == 'cond' and any(x and x[0] == 'r' and base(x[1]) == 'Size' for x in terms(e[1])):
            return True
        if e[0] == 'cond' and any(x and x[0] == 'V' for x in terms(e[1])):
            return True
    return False


def sized(ck, nm, fn, o):
    """the temporary is given the size of the grid before it is used"""
    first = {}
    for f, ob, a, l in o.calls:
        b = base(f)
        tm = None
        if isinstance(ob, tuple):
            tm = next((x for x in terms(ob) if x and x[0] == 'tmp'), None)
        for t in ([tm] if tm else []) + [x for x in a if isinstance(x, tuple) and x and x[0] == 'tmp']:
            if t[1] not in first:
                first[t[1]] = (b, a, l)
    for k, (b, a, l) in first.items():
        ck.ob('temporary is sized before use')
        if b != 'SetSize':
            ck.violation('%s temporary not sized' % fn['n'], at(fn, l), '%s uses its temporary (%s) before giving it the number of points of the grid; it still has the size of its last use' % (nm, b))
        elif a and 'm_shadingPointCount' not in show(a[0]) and 'shadingPointCount' not in show(a[0]):
            if a[0][0] == 'int':
                ck.violation('%s temporary size' % fn['n'], at(fn, l), '%s gives its temporary the size %s instead of the number of points of the grid' % (nm, show(a[0])))
            else:
                ck.undecided(at(fn, l), 'temporary sized with %s' % show(a[0]))


class Plain(Policy):
    correlate = True
    max_paths = 600

    def __init__(self, consts=()):
        self.consts = dict(consts)

    def inline(self, w, fn, call):
        return not (fn['n'] in ('GetNextTemp', 'Release', 'Push', 'Pop') or fn.get('kind') in ('ctor', 'dtor')) and '::Clone' not in fn['f']

    def call_hook(self, w, call, obj, args, st):
        b = base(call['f'])
        if b in self.consts and DATA in call['f']:
            return INT(self.consts[b])
        return None


def dataclasses(ck, prog):
    """{class: (type, variable class)} of the concrete shader variables"""
    rec = prog.classes.get(DATA)
    if not rec:
        raise Broken('the shader data interface was not found')
    m = {x['n']: x['id'] for x in rec['methods']}
    out = {}
    for c in prog.classes:
        if not re.search(r'::CqShaderVariable(Uniform|Varying)\w+$', c):
            continue
        v = []
        for n in ('Type', 'Class'):
            fn = prog.funcs.get(prog.resolve_virtual(m[n], c))
            if fn is None:
                break
            ends = {p.end for p in Walker(prog, Plain()).run(fn)}
            e = ends.pop() if len(ends) == 1 else None
            v.append(e[1][1] if e and e[0] == 'ret' and e[1] and e[1][0] == 'int' else None)
        if len(v) == 2:
            out[c] = tuple(v)
    if len(out) < 14:
        raise Broken('only %d shader variable classes found' % len(out))
    seen = {}
    for c, k in sorted(out.items()):
        ck.ob('variable classes report their own type and class', sample='%s %s' % (c, k))
        if None in k:
            ck.undecided(c, 'type or class not readable')
        elif k in seen:
            ck.violation('%s reports %s' % (c, k), c, '%s and %s both report type %s and class %s' % (seen[k], c, TYPES.get(k[0]), {2: 'uniform', 3: 'varying'}.get(k[1], k[1])))
        seen[k] = c
    return out


def news(p):
    return [e[1][1] for e in p.events if e[0] == 'new' and isinstance(e[1], tuple) and e[1][0] == 'new']


def pools(ck, prog, ks):
    get = one(prog, STACK + '::GetNextTemp')
    rel = one(prog, STACK + '::Release')
    for t in STYPES:
        for c in (UNI, VAR):
            want = next((k for k, v in ks.items() if v == (t, c)), None)
            word = '%s %s' % ({2: 'uniform', 3: 'varying'}[c], TYPES[t])
            try:
                gp = Walker(prog, Plain()).run(get, args=[INT(t), INT(c)])
                rp = Walker(prog, Plain({'Type': t, 'Class': c})).run(rel)
            except (Overflow, Unsupported) as e:
                ck.undecided(at(get), 'cannot be summarised (%s)' % e)
                continue
            used = set()
            for p in gp:
                ck.ob('temporary of a type and class comes from, and goes back to, its own pool', sample=word)
                if p.end[0] == 'throw':
                    continue
                r = p.end[1]
                n = news(p)
                took = pool_ops(p, ('front', 'back', 'pop_front', 'pop_back', 'begin', 'erase'))
                fr = [x for x in took if x[0] in ('front', 'back')]
                po = [x for x in took if x[0] in ('pop_front', 'pop_back')]
                if n:
                    if want and n[-1] != want:
                        ck.violation('GetNextTemp %s creates %s' % (word, n[-1]), at(get), 'for a %s temporary a %s is created' % (word, n[-1]))
                elif fr:
                    used.add(fr[0][1])
                    if [x[1] for x in po] != [fr[0][1]] or ends(po[0][0]) != fr[0][0]:
                        ck.violation('GetNextTemp %s keeps the entry' % word, at(get), 'the %s temporary handed out is not the one taken out of its pool (%s), so it is handed out again or another is lost' % (
                            word, ', '.join('%s.%s' % (x[1], x[0]) for x in took)))
                    el = fr[0][2]
                    if want and el and el != want:
                        ck.violation('GetNextTemp %s from %s' % (word, fr[0][1]), at(get), 'a %s temporary is taken from the pool of %s' % (word, el))
                elif r is None or r == ('null',) or (r[0] == 'int' and r[1] == 0):
                    ck.violation('GetNextTemp %s nothing' % word, at(get), 'no temporary is handed out for %s' % word)
                else:
                    ck.undecided(at(get), 'for %s returns %s' % (word, show(r)[:60]))
            for p in rp:
                if any(e[0] == 'cond' and 'm_IsTemp' in show(e[1]) and cond_false(e) for e in p.events):
                    if pool_ops(p, ('push_back', 'push_front', 'insert')):
                        ck.violation('Release of a variable', at(rel), 'an entry that is not a temporary is put into a pool')
                    continue
                if not any(e[0] == 'cond' and 'm_IsTemp' in show(e[1]) for e in p.events):
                    ck.violation('Release does not ask', at(rel), 'an entry is put into a pool without regard to whether it is a temporary')
                    continue
                put = pool_ops(p, ('push_back', 'push_front', 'insert'))
                ck.ob('temporary of a type and class comes from, and goes back to, its own pool')
                if len(put) != 1:
                    ck.violation('Release %s %d times' % (word, len(put)), at(rel), 'releasing a %s temporary puts it into %d pools' % (word, len(put)))
                    continue
                if used and put[0][1] not in used:
                    ck.violation('Release %s into %s' % (word, put[0][1]), at(rel), 'a released %s temporary goes into %s, temporaries of its kind are taken from %s' % (word, put[0][1], ', '.join(sorted(used))))


def ends(b):
    return 'front' if b == 'pop_front' else 'back'


def cond_false(e):
    """the condition term m_IsTemp is false on this path"""
    t, v = e[1], e[2]
    if t and t[0] == 'un' and t[1] == '!':
        return v is True
    return v is False


def pool_ops(p, names):
    out = []
    for e in p.events:
        if e[0] == 'call' and base(e[1]) in names and e[2] is not None and 'Pool' in show(e[2]):
            m = re.search(r'<(\w+(?:::\w+)*) \*', e[1])
            out.append((base(e[1]), show(e[2]).rsplit('::', 1)[-1], m.group(1) if m else None))
    return out


def one(prog, q):
    f = prog.find(q)
    if not f:
        raise Broken('%s not found' % q)
    return f[0]


def creators(ck, prog, ks):
    for name, cpos, rule in ((vm.VM + '::CreateVariable', None, 'variable'), (vm.VM + '::CreateVariableArray', 3, 'array')):
        fn = one(prog, name)
        ck.fn(fn)
        st = next((k for k, p in enumerate(fn['p']) if 'EqStorage' in prog.type(p['t'])), None)
        for t in STYPES:
            for c in (UNI, VAR):
                want = next((k for k, v in ks.items() if v == (t, c)), None)
                word = '%s %s' % ({2: 'uniform', 3: 'varying'}[c], TYPES[t])
                args = [INT(t), INT(c)] + [('P', k) for k in range(2, len(fn['p']))]
                try:
                    ps = Walker(prog, Plain()).run(fn, args=args)
                except (Overflow, Unsupported) as e:
                    ck.undecided(at(fn), 'cannot be summarised (%s)' % e)
                    continue
                for p in ps:
                    ck.ob('variables are created with the declared type and class', sample='%s %s' % (rule, word))
                    n = [x for x in news(p) if x in ks]
                    if not n:
                        ck.violation('%s %s nothing' % (rule, word), at(fn), 'no %s is created for a declared %s' % (rule, word))
                    elif want and n[0] != want:
                        ck.violation('%s %s is %s' % (rule, word, n[0]), at(fn), 'a %s declared %s is created as %s' % (rule, word, n[0]))
                    for e in p.events:
                        if e[0] == 'ctor' and e[1] in ks and len(e[2]) > 1 and st is not None and e[2][1] != ('P', st) and e[2][1][0] == 'int':
                            ck.violation('%s %s storage' % (rule, word), at(fn, e[3]), 'a %s declared %s is created with a fixed storage' % (rule, word))


def entries(ck, prog):
    """Push, PushV, Pop, Dup, Drop"""
    for n, temp in (('Push', 1), ('PushV', 0)):
        fn = one(prog, STACK + '::' + n)
        ck.fn(fn)
        try:
            ps = Walker(prog, Plain()).run(fn)
        except (Overflow, Unsupported) as e:
            ck.undecided(at(fn), str(e))
            continue
        for p in ps:
            ck.ob('stack primitive', sample=n)
            d = [e for e in p.events if e[0] == 'store' and e[1][0] == 'fld' and e[1][2] == 'm_Data']
            f = [e for e in p.events if e[0] == 'store' and e[1][0] == 'fld' and e[1][2] == 'm_IsTemp']
            i = [e for e in p.events if e[0] == 'store' and e[1] == ('fld', STAR_THIS, 'm_iTop')]
            top = ('fld', STAR_THIS, 'm_iTop')
            if not (len(d) == 1 and len(f) == 1 and len(i) == 1):
                ck.undecided(at(fn), 'not of the form: entry, flag, top')
                continue
            if d[0][2] != ('P', 0):
                ck.violation('%s stores %s' % (n, show(d[0][2])), at(fn, d[0][3]), '%s stores something else than its argument' % n)
            if f[0][2][0] == 'int' and f[0][2][1] != temp:
                ck.violation('%s marks %d' % (n, f[0][2][1]), at(fn, f[0][3]), '%s marks the entry as %s' % (n, 'a temporary' if f[0][2][1] else 'not a temporary'))
            if i[0][2] != ('bin', '+', top, ('int', 1)):
                ck.violation('%s top' % n, at(fn, i[0][3]), '%s sets the top of the stack to %s' % (n, show(i[0][2])))
            for e in (d[0], f[0]):
                ix = [x for x in terms(e[1]) if x == top]
                bad = [x for x in terms(e[1]) if x and x[0] == 'bin' and top in x[2:]]
                if bad or not ix:
                    ck.violation('%s slot' % n, at(fn, e[3]), '%s writes the slot %s, not the slot at the top' % (n, show(e[1])))
            # the slot exists
            grow = [e for e in p.events if e[0] == 'cond' and 'size()' in show(e[1])]
            res = [e for e in p.events if e[0] == 'call' and base(e[1]) in ('resize', 'push_back')]
            fits = any(holds_fit(e) for e in grow)
            if not fits and not res:
                ck.violation('%s does not grow' % n, at(fn), '%s writes past the end of the stack when it is full' % n)
    fn = one(prog, STACK + '::Pop')
    ck.fn(fn)
    try:
        ps = Walker(prog, Plain()).run(fn)
    except (Overflow, Unsupported) as e:
        ck.undecided(at(fn), str(e))
        return
    top = ('fld', STAR_THIS, 'm_iTop')
    for p in ps:
        empty = any(e[0] == 'cond' and e[1] == top and e[2] is False for e in p.events) or any(e[0] == 'cond' and e[1][0] == 'bin' and top in e[1][2:] and e[1][1] in ('==', '<=') and e[2] is True for e in p.events)
        ck.ob('stack primitive', sample='Pop')
        i = [e for e in p.events if e[0] == 'store' and e[1] == top]
        if empty:
            continue
        if [e[2] for e in i] != [('bin', '-', top, ('int', 1))]:
            ck.violation('Pop top', at(fn), 'Pop does not take exactly one entry off the stack')
        r = p.end[1]
        if r is None or ('bin', '-', top, ('int', 1)) not in list(terms(r)):
            if r is not None and top in list(terms(r)):
                ck.violation('Pop returns %s' % show(r), at(fn), 'Pop returns %s, not the entry on top' % show(r))
            else:
                ck.undecided(at(fn), 'Pop returns %s' % (show(r) if r else None))
        vals = [e[2] for e in p.events if e[0] == 'store' and e[1] == ('P', 0)]
        for v in vals:
            ck.ob('popping a varying entry makes the instruction varying')
            ts = list(terms(v))
            sz = any(x and x[0] == 'r' and base(x[1]) == 'Size' for x in ts)
            keep = ('P', 0) in ts and v[0] == 'bin' and v[1] in ('||', '|')
            if not sz and not any(x and x[0] == 'r' for x in ts):
                ck.violation('Pop flag', at(fn), 'Pop sets the varying flag to %s, whatever the entry is' % show(v))
            elif not keep and v[0] == 'bin' and v[1] in ('>', '&&', '&', '!=', '=='):
                ck.violation('Pop flag forgets', at(fn), 'Pop sets the varying flag to %s: a varying operand popped earlier is forgotten' % show(v))
        if not vals and not any(e[0] == 'cond' and e[1] != top for e in p.events):
            ck.violation('Pop flag not set', at(fn), 'Pop does not tell whether the entry is varying')


def holds_fit(e):
    t, v = e[1], e[2]
    if t[0] != 'bin':
        return False
    a, b = show(t[2]), show(t[3])
    op = t[1]
    if v is False:
        op = {'>=': '<', '<': '>=', '>': '<=', '<=': '>', '==': '!=', '!=': '=='}.get(op)
    if 'size()' in b and 'm_iTop' in a:
        return op == '<' or op == '!='
    if 'size()' in a and 'm_iTop' in b:
        return op == '>' or op == '!='
    return False
