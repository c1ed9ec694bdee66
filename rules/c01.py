"""C01: filters pass requests on untouched."""
from engine import facts
from engine.paths import Walker, STAR_THIS, show, INT, Overflow, Unsupported, terms
from engine.facts import Broken
from .ricommon import *

SCOPE_END = {'FrameEnd', 'WorldEnd', 'IfEnd', 'AttributeEnd', 'TransformEnd', 'ResourceEnd', 'SolidEnd', 'ObjectEnd',
             'MotionEnd', 'ArchiveEnd'}


def run(ck):
    prog = facts.load([r'^libs/riutil/'])
    ck.units = len(prog.units)
    ri = Ri(prog)

    # the downstream object: what setNextFilter stores is what nextFilter yields
    setn = prog.find('Aqsis::Ri::Filter::setNextFilter')
    getn = prog.find('Aqsis::Ri::Filter::nextFilter')
    if not setn or not getn:
        raise Broken('Ri::Filter has no setNextFilter/nextFilter')
    setn, getn = setn[0], getn[0]
    w = Walker(prog, FwdPolicy(ri, 'Aqsis::Ri::Filter'))
    stored = set()
    for pth in w.run(setn):
        st = [e for e in pth.events if e[0] == 'store']
        ck.ob('next-filter-link', sample='%s stores its argument' % setn['f'])
        if len(st) != 1 or st[0][2] not in (('addr', ('P', 0)),):
            ck.violation('setNextFilter', at(setn), 'does not store exactly the given filter')
        else:
            stored.add(st[0][1])
    nxt = set()
    for pth in w.run(getn):
        nxt.add(pth.end[1] if pth.end[0] == 'ret' else None)
    ck.ob('next-filter-link')
    if len(stored) == 1 and nxt != {('deref', next(iter(stored)))}:
        ck.violation('nextFilter', at(getn), 'does not return the filter that setNextFilter stored')
    NXT = next(iter(nxt)) if len(nxt) == 1 else NEXT

    def summary(cls, req):
        fn = ri.impl(cls, req)
        if fn is None:
            raise Broken('no body for %s::%s' % (cls, req))
        ck.fn(fn)
        try:
            return fn, Walker(prog, FwdPolicy(ri, cls)).run(fn)
        except (Overflow, Unsupported) as e:
            raise Broken('%s: cannot be summarised (%s)' % (fn['f'], e))

    def check_args(cls, req, fn, call, rule):
        r, tgt, args, line = call
        ck.site((fn['file'], line, r))
        if r != req:
            ck.violation('%s::%s calls %s' % (cls, req, r), at(fn, line), 'request %s is passed on as %s' % (req, r))
            return
        want = identity_args(fn)
        if tuple(args) != want:
            bad = [i for i in range(len(want)) if i >= len(args) or args[i] != want[i]]
            ck.violation('%s::%s argument %d' % (cls, req, bad[0] if bad else len(want)), at(fn, line),
                         'request %s is passed on with %s instead of its own argument' % (
                             req, ', '.join(show(a, names(fn)) for a in args)))

    # -- transparent filters
    for cls in ('Aqsis::PassthroughFilter', 'Aqsis::IgnoreArchiveFilter'):
        if cls not in prog.classes:
            raise Broken('class %s not found' % cls)
        for req in sorted(ri.req):
            fn, ps = summary(cls, req)
            ck.ob('pass-through', sample='%s::%s' % (cls, req))
            drop = cls.endswith('IgnoreArchiveFilter') and req == 'ReadArchive'
            for pth in ps:
                calls = requests_made(ri, pth)
                if drop:
                    if calls:
                        ck.violation('%s::%s forwards' % (cls, req), at(fn, calls[0][3]), 'archive reads must be ignored by this filter')
                    continue
                if pth.end[0] != 'ret' or len(calls) != 1:
                    ck.violation('%s::%s count' % (cls, req), at(fn),
                                 '%d downstream requests on a path (conditions: %s), exactly one wanted' % (len(calls), conds(pth, fn)))
                    continue
                if calls[0][1] != NXT:
                    ck.violation('%s::%s target' % (cls, req), at(fn, calls[0][3]), 'request goes to %s, not to the next filter' % show(calls[0][1]))
                if any(e[0] == 'loop' for e in pth.events):
                    if in_loop(pth, calls[0][0], ri):
                        ck.violation('%s::%s loop' % (cls, req), at(fn), 'request is passed on from inside a loop')
                check_args(cls, req, fn, calls[0], 'pass-through')

    # -- tee
    cls = 'Aqsis::TeeFilter'
    if cls not in prog.classes:
        raise Broken('class %s not found' % cls)
    # the branch is what the constructor was given
    branch = None
    for f in prog.methods_of(cls):
        if f['kind'] == 'ctor' and not f.get('copyctor'):
            for ini in f['inits']:
                if ini['x'] and ini['x'].get('k') == 'ref' and ini['x'].get('dk') == 'param':
                    branch = ini['m']
            for pth in Walker(prog, FwdPolicy(ri, cls)).run(f):
                for e in pth.events:
                    if e[0] == 'store' and e[2] in (('P', 0), ('addr', ('P', 0))):
                        branch = e[1][2]
    if branch is None:
        raise Broken('TeeFilter: cannot find where the branch is kept')
    BR = {('fld', STAR_THIS, branch), ('deref', ('fld', STAR_THIS, branch))}
    for req in sorted(ri.req):
        fn, ps = summary(cls, req)
        ck.ob('tee', sample='%s::%s' % (cls, req))
        for pth in ps:
            calls = requests_made(ri, pth)
            b = [c for c in calls if c[1] in BR]
            n = [c for c in calls if c[1] == NXT]
            if pth.end[0] != 'ret' or len(b) != 1 or len(n) != 1 or len(calls) != 2 or any(e[0] == 'loop' for e in pth.events):
                ck.violation('%s::%s count' % (cls, req), at(fn),
                             'branch gets %d and next filter %d requests on a path, one each wanted' % (len(b), len(n)))
                continue
            for c in calls:
                check_args(cls, req, fn, c, 'tee')
            first_next = calls[0][1] == NXT
            if first_next != (req in SCOPE_END):
                ck.violation('%s::%s order' % (cls, req), at(fn, calls[0][3]),
                             'documented order is branch first, and next filter first for scope ends')

    # -- on/off filters
    seta = prog.find('Aqsis::OnOffFilter::setActive')
    isa = prog.find('Aqsis::OnOffFilter::isActive')
    if not seta or not isa:
        raise Broken('OnOffFilter has no setActive/isActive')
    flag = None
    ck.ob('on-off-flag', sample='setActive/isActive use one flag')
    for pth in Walker(prog, FwdPolicy(ri, 'Aqsis::OnOffFilter')).run(seta[0]):
        st = [e for e in pth.events if e[0] == 'store']
        if len(st) == 1 and strip_casts(st[0][2]) == ('P', 0):
            flag = st[0][1]
        else:
            ck.violation('OnOffFilter::setActive', at(seta[0]), 'does not store the requested state')
    for pth in Walker(prog, FwdPolicy(ri, 'Aqsis::OnOffFilter')).run(isa[0]):
        if flag is not None and pth.end != ('ret', flag):
            ck.violation('OnOffFilter::isActive', at(isa[0]), 'does not return the stored state')
    if flag is None:
        flag = ('fld', STAR_THIS, 'm_isActive')

    def active(pth):
        """value of the flag on the path: True/False/None"""
        v = None
        for e in pth.events:
            if e[0] == 'cond' and e[1] == flag:
                v = e[2]
        return v
    for cls in ('Aqsis::OnOffFilter', 'Aqsis::FrameDropFilter'):
        if cls not in prog.classes:
            raise Broken('class %s not found' % cls)
        for req in sorted(ri.req):
            if cls.endswith('FrameDropFilter') and req in ('FrameBegin', 'FrameEnd'):
                continue
            fn, ps = summary(cls, req)
            ck.ob('on-off', sample='%s::%s' % (cls, req))
            for pth in ps:
                calls = requests_made(ri, pth)
                a = active(pth)
                want = 1 if a else 0
                if a is None:
                    ck.violation('%s::%s ignores flag' % (cls, req), at(fn), 'a path does not look at the on/off state')
                    continue
                if len(calls) != want or pth.end[0] != 'ret' or (calls and calls[0][1] != NXT) or any(e[0] == 'loop' for e in pth.events):
                    ck.violation('%s::%s count' % (cls, req), at(fn),
                                 'passes %d requests on while the filter is %s' % (len(calls), 'on' if a else 'off'))
                    continue
                if any(e[0] == 'store' for e in pth.events):
                    ck.violation('%s::%s state' % (cls, req), at(fn), 'changes filter state')
                for c in calls:
                    check_args(cls, req, fn, c, 'on-off')
    # frame drop: FrameBegin decides by membership, FrameEnd switches on again
    cls = 'Aqsis::FrameDropFilter'
    fn, ps = summary(cls, 'FrameBegin')
    ck.ob('frame-drop', 2, sample='FrameBegin/FrameEnd')
    for pth in ps:
        calls = requests_made(ri, pth)
        val = pth.env.get(flag)
        mem = membership(pth, val)
        if mem is None:
            ck.violation('FrameDropFilter::FrameBegin state', at(fn), 'the on/off state is not set from membership of the frame number in the wanted set (%s)' % show(val))
            continue
        if len(calls) != (1 if mem else 0) or (calls and (calls[0][1] != NXT)):
            ck.violation('FrameDropFilter::FrameBegin forward', at(fn), 'passes %d requests on for a %s frame' % (len(calls), 'wanted' if mem else 'dropped'))
        for c in calls:
            check_args(cls, 'FrameBegin', fn, c, 'frame-drop')
    fn, ps = summary(cls, 'FrameEnd')
    for pth in ps:
        calls = requests_made(ri, pth)
        a = active(pth)
        if len(calls) != (1 if a else 0) or (calls and calls[0][1] != NXT):
            ck.violation('FrameDropFilter::FrameEnd forward', at(fn), 'passes %d requests on while %s' % (len(calls), 'on' if a else 'off'))
        if pth.env.get(flag) != INT(1):
            ck.violation('FrameDropFilter::FrameEnd state', at(fn), 'does not switch the filter on again after a frame')
        for c in calls:
            check_args(cls, 'FrameEnd', fn, c, 'frame-drop')
        ev = [e for e in pth.events if e[0] in ('store', 'call')]
        if calls and ev and ev[0][0] == 'store':
            pass
    frame_list(ck, prog, ri)

    # -- factory: names map to the filters they name
    ck.need('pass-through', 218)
    ck.need('tee', 109)
    ck.need('on-off', 216)
    return ck.finish(
        'Every request method of the transparent filters (pass-through, archive-ignoring, tee, on/off, frame-drop) is '
        'summarised path by path with copy propagation, looking through helper functions; on each path the calls made '
        'on the next stage are compared with the rule "same request, once, every argument its own parameter".',
        ['functions without a body in the repository (boost, std) do not call back into the request interface',
         'calls that throw are not continued'])


def conds(pth, fn):
    return ', '.join(('' if e[2] else 'not ') + show(e[1], names(fn)) for e in pth.events if e[0] == 'cond') or 'none'


def in_loop(pth, req, ri):
    d = 0
    for e in pth.events:
        if e[0] == 'loop':
            d += 1
        elif e[0] == 'endloop':
            d -= 1
        elif e[0] == 'call' and d > 0:
            return True
    return False


def is_member_test(t):
    """set.find(P0) != set.end() / set.count(P0) -> True, == -> False"""
    t = strip_casts(t)
    if t[0] == 'r' and t[1].endswith('operator!=') or t[0] == 'r' and t[1].endswith('operator=='):
        xs = [x for x in ([t[2]] if t[2] else []) + list(t[3])]
        f = [x for x in xs if x[0] == 'r' and x[1].endswith('::find') and x[3] == (('P', 0),)]
        e = [x for x in xs if x[0] == 'r' and x[1].endswith('::end')]
        if len(f) == 1 and len(e) == 1 and f[0][2] == e[0][2]:
            return t[1].endswith('!=')
    if t[0] == 'r' and (t[1].endswith('::count') or t[1].endswith('::contains')) and t[3] == (('P', 0),):
        return True
    if t[0] == 'un' and t[1] == '!':
        v = is_member_test(t[2])
        return None if v is None else not v
    if t[0] == 'bin' and t[1] in ('!=', '>') and t[3] == INT(0):
        return is_member_test(t[2])
    if t[0] == 'bin' and t[1] == '==' and t[3] == INT(0):
        v = is_member_test(t[2])
        return None if v is None else not v
    return None


def membership(pth, val):
    """is the frame wanted on this path, given the state stored?  None: the
    stored state is not the membership"""
    if val is None:
        return None
    mem = None
    for e in pth.events:
        if e[0] == 'cond':
            m = is_member_test(e[1])
            if m is not None:
                mem = m == e[2]
    v = strip_casts(val)
    if v[0] == 'int':
        return mem if mem is not None and bool(v[1]) == mem else None
    m = is_member_test(v)
    if m is not True:
        if m is False:
            return None
        return None
    return mem


def frame_list(ck, prog, ri):
    """the frame-drop filter's list is what it is constructed with, and a
    range f1-f2 contributes every number from the smaller to the larger"""
    cls = 'Aqsis::FrameDropFilter'
    pf = [f for f in prog.funcs.values() if f['file'].endswith('framedrop_filter.cpp') and f['kind'] == 'func']
    n = 0
    for f in pf:
        class P(FwdPolicy):
            def event(self, e):
                return e[0] in ('cond', 'loop', 'endloop') or (e[0] == 'call' and e[1].split('::')[-1] in ('push_back', 'insert'))
        w = Walker(prog, P(ri, None))
        w.pol.inline = lambda *a: False
        try:
            ps = w.run(f)
        except (Overflow, Unsupported):
            continue
        for pth in ps:
            depth = 0
            cond = None
            for e in pth.events:
                if e[0] == 'cond':
                    cond = e
                if e[0] == 'call':
                    a = e[3][0] if e[3] else None
                    if a and a[0] == 'iv':
                        init, step = a[1], a[2]
                        names_ = [x[1].split('::')[-1] for x in terms(init) if x and x[0] == 'r']
                        bound = None
                        for c in pth.events:
                            if c[0] == 'cond' and c[1][0] == 'bin' and c[1][2] == a:
                                bound = (c[1][1] if c[2] else '!' + c[1][1], c[1][3])
                        n += 1
                        ck.ob('frame-range', sample=show(a))
                        ok = step == 1 and init[0] == 'r' and init[1] == 'std::min' and bound and bound[0] == '<=' and \
                            bound[1][0] == 'r' and bound[1][1] == 'std::max' and sorted(init[3], key=repr) == sorted(bound[1][3], key=repr)
                        if not ok and step == 1 and bound and bound[0] in ('<=', '<', '!=') and init[0] == 'r' and init[1] == 'std::min':
                            ck.violation('frame range', at(f, e[4]), 'a frame range does not contribute every frame from the smaller to the larger bound')
