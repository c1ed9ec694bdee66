"""C13: every built-in of the shading language is executed by the operation of
its name, on its own operands, in order, with a result of its own type."""
import json, os, re
from engine import facts
from engine.facts import Broken
from engine.paths import Overflow, Unsupported, show
from . import vm

SPEC = json.load(open(os.path.join(os.path.dirname(__file__), 'spec_vm.json')))
TYPES = {1: 'float', 2: 'integer', 3: 'point', 4: 'string', 5: 'color', 6: 'triple', 7: 'hpoint', 8: 'normal', 9: 'vector', 10: 'void', 11: 'matrix'}
STATE = {'RS_PUSH': 'PushState', 'RS_POP': 'PopState', 'RS_GET': 'GetCurrentState', 'RS_INVERSE': 'InvertRunningState', 'S_CLEAR': 'ClearCurrentState',
         'RS_BREAK': 'RunningStatesBreak'}


def at(fn, l=None):
    return '%s:%s %s' % (fn['file'], l or fn.get('line', 0), fn['f'])


def arity(ps):
    """(operands, takes a list of further operands)"""
    var = ps.endswith('*')
    q = re.sub(r'\[.\]', 'a', ps.rstrip('*'))
    return len(q) + (1 if var else 0), var


def agree(have, want):
    """compare two canonical argument lists: True, False, or None if not comparable"""
    if len(have) != len(want):
        return False
    unknown = False
    for h, w in zip(have, want):
        if h == w:
            continue
        if h == '*' or w == '*':
            unknown = True
            continue
        return False
    return None if unknown else True


def run(ck):
    prog = facts.load([r'^libs/shadervm/shadervm[12]?\.cpp', r'^libs/slcomp/parse/funcdef\.cpp'])
    ck.units = len(prog.units)
    tab = vm.table(prog)
    names = {}
    for nm, mid, c, ts in tab:
        if nm in names and names[nm][0] != mid:
            ck.violation('opcode %s twice' % nm, 'libs/shadervm/shadervm.cpp', 'the opcode table names %s twice, with different methods' % nm)
        names[nm] = (mid, c, ts)
    if len(names) < 300:
        raise Broken('the opcode table has only %d entries' % len(names))
    sums = {}
    for nm, (mid, c, ts) in sorted(names.items()):
        fn = vm.method(prog, mid)
        if fn is None:
            ck.undecided(nm, 'the method of the opcode has no body in the program')
            continue
        ck.fn(fn)
        key = fn['id']
        if key not in sums:
            try:
                ops = vm.opcode_paths(prog, fn)
                sums[key] = (fn, ops, vm.summary(ops))
            except (Overflow, Unsupported) as e:
                sums[key] = (fn, None, str(e))
        names[nm] += (key,)
    for nm, want in sorted(SPEC['ops'].items()):
        if nm not in names:
            ck.violation('opcode %s missing' % nm, 'libs/shadervm/shadervm.cpp', 'compiled shaders use the opcode %s, the opcode table does not have it' % nm)
            continue
        ck.ob('opcode is in the table with its operand types', sample=nm)
        mid, c, ts = names[nm][:3]
        if c != len(want['operands']) or ts[:c] != want['operands']:
            ck.violation('opcode %s operands' % nm, 'libs/shadervm/shadervm.cpp', 'the program operands of %s are %s, compiled shaders have %s' % (nm, ts[:c], want['operands']))
        if len(names[nm]) < 4:
            continue
        fn, ops, got = sums[names[nm][3]]
        if ops is None:
            ck.undecided(at(fn), 'cannot be summarised (%s)' % got)
            continue
        opcode(ck, nm, want, fn, ops, got)
    builtins(ck, prog, names, sums)
    ck.need('opcode is in the table with its operand types', 300)
    ck.need('opcode applies its operation to its operands in order', 250)
    ck.need('built-in and opcode agree on the operands', 200)
    return ck.finish('Every entry of the opcode table is compared with the instruction set of compiled shaders; for every opcode all paths (loops over a list of further '
              'operands unrolled twice) are summarised into: operands taken, operation applied and to which operands, type of the result. Every entry of the table '
              'of built-in functions is compared with the opcode it names.',
              ['what an operation computes for one value is not decided'])


def opcode(ck, nm, want, fn, ops, got):
    ck.ob('opcode takes its operands', sample='%s %d' % (nm, got['fixed']))
    if got['fixed'] != want['fixed'] or got['var'] != want['var']:
        ck.violation('%s takes %d%s' % (nm, got['fixed'], '+' if got['var'] else ''), at(fn),
                     'the opcode %s takes %d%s operands off the stack, its instruction has %d%s' % (
                         nm, got['fixed'], ' or more' if got['var'] else '', want['fixed'], ' or more' if want['var'] else ''))
        return
    if nm in STATE:
        for o in ops:
            st = [(vm.base(f), a) for f, ob, a, l in o.calls if vm.base(f) in STATE.values()]
            ck.ob('state opcode makes its state change')
            if [x[0] for x in st] != [STATE[nm]]:
                ck.violation('%s state' % nm, at(fn), 'the opcode %s makes %s, not exactly one %s' % (nm, [x[0] for x in st], STATE[nm]))
            elif nm == 'RS_BREAK':
                a = st[0][1]
                if a and show(a[0]).find('m_intVal') < 0:
                    ck.undecided(at(fn), 'depth of the break is %s' % show(a[0]))
    wants = [[(b, tuple(a)) for b, a in c] for c in want['calls']]
    for o in ops:
        if o.running is False:
            continue
        have = [(b, tuple(vm.canon(x) for x in a)) for b, a, l in vm.env_calls(o)]
        if not have and not any(wants):
            continue
        ck.ob('opcode applies its operation to its operands in order', sample='%s: %s' % (nm, have[:1]))
        verdicts = []
        for w in wants:
            if [b for b, _ in have] != [b for b, _ in w]:
                verdicts.append(False)
                continue
            vs = [agree(h[1], x[1]) for h, x in zip(have, w)]
            verdicts.append(False if False in vs else None if None in vs else True)
        if any(v is not False for v in verdicts):
            continue
        sh = ', '.join('%s(%s)' % (b, ', '.join(a)) for b, a in have) or 'nothing'
        ws = ' or '.join(', '.join('%s(%s)' % (b, ', '.join(a)) for b, a in w) or 'nothing' for w in wants)
        ck.violation('%s applies %s' % (nm, sh), at(fn), 'the opcode %s applies %s; its instruction stands for %s (A0 is the operand on top of the stack)' % (nm, sh, ws))
        break
    wres = sorted(want['result'])
    if got['result'] != wres:
        for r in got['result']:
            if r in wres or any(len(r) == len(w) and all(x == y or (x[:2] == y[:2] and x[2] == 'varying' and y[2] == 'operands') for x, y in zip(r, w)) for w in wres):
                continue
            if any(x[1] is None or x[2] == '?' for x in r) and any(len(r) == len(w) for w in wres):
                if all(not mismatch(r, w) for w in wres if len(w) == len(r)):
                    ck.undecided(at(fn), 'type of the result of %s not readable' % nm)
                    continue
            ck.violation('%s result %s' % (nm, res(r)), at(fn), 'the opcode %s leaves %s on the stack; its instruction leaves %s' % (nm, res(r), ' or '.join(res(w) for w in wres)))
            break
    ck.ob('opcode leaves the result of its type', sample=nm)


def mismatch(r, w):
    for x, y in zip(r, w):
        if x[1] is not None and y[1] is not None and x[1] != y[1]:
            return True
    return False


def res(r):
    if not r:
        return 'nothing'
    return ', '.join(('a variable' if x[0] == 'PushV' else 'a %s result of type %s' % (
        {'operands': 'value-dependent', None: ''}.get(x[2], x[2]), TYPES.get(x[1], x[1] if x[1] is not None else 'of its variable'))) for x in r)


def builtins(ck, prog, names, sums):
    fd = vm.funcdefs(prog)
    where = 'libs/slcomp/parse/funcdef.cpp'
    have = {}
    for k, (sl, op, ps, rt) in enumerate(fd):
        have.setdefault((sl, ps, rt), []).append((op, k))
    frozen = {}
    for sl, op, ps, rt in SPEC['funcs']:
        frozen.setdefault((sl, ps, rt), []).append(op)
    for (sl, ps, rt), ops in sorted(frozen.items()):
        ck.ob('built-in is declared', sample='%s(%s)' % (sl, ps))
        if (sl, ps, rt) not in have:
            ck.violation('built-in %s(%s) missing' % (sl, ps), where, 'the shading language has %s %s(%s), the table of built-in functions does not' % (TYPES.get(rt, rt), sl, ps))
            continue
        if [o for o, _ in have[(sl, ps, rt)]] != ops:
            ck.violation('built-in %s(%s) opcode' % (sl, ps), where, '%s(%s) is compiled to %s, it is %s' % (sl, ps, have[(sl, ps, rt)][0][0], ops[0]))
    # among the forms of one name, the first that fits is chosen
    order = {}
    for sl, op, ps, rt in SPEC['funcs']:
        order.setdefault(sl, []).append((ps, rt))
    now = {}
    for sl, op, ps, rt in fd:
        now.setdefault(sl, []).append((ps, rt))
    for sl, w in sorted(order.items()):
        n = [x for x in now.get(sl, []) if x in w]
        if len(n) == len(w) and n != w:
            ck.violation('built-in %s order' % sl, where, 'the forms of %s are listed in another order, so that another form is chosen where two fit' % sl)
    for sl, op, ps, rt in fd:
        if op not in names:
            ck.violation('built-in %s without opcode' % sl, where, '%s(%s) is compiled to %s, which the virtual machine does not know' % (sl, ps, op))
            continue
        if len(names[op]) < 4:
            continue
        fn, ops, got = sums[names[op][3]]
        if ops is None:
            continue
        n, var = arity(ps)
        ck.ob('built-in and opcode agree on the operands', sample='%s(%s) = %s' % (sl, ps, op))
        if (got['fixed'], got['var']) != (n, var):
            ck.violation('built-in %s takes %d%s' % (op, got['fixed'], '+' if got['var'] else ''), at(fn),
                         '%s(%s) leaves %d%s values on the stack, the opcode %s takes %d%s' % (sl, ps, n, ' or more' if var else '', op, got['fixed'], ' or more' if got['var'] else ''))
        pu = {len(o.pushed) for o in ops}
        if pu != {0 if rt == 10 else 1}:
            ck.violation('built-in %s leaves %s' % (op, sorted(pu)), at(fn), '%s(%s) has result %s, the opcode %s leaves %s values' % (sl, ps, TYPES.get(rt, rt), op, sorted(pu)))
