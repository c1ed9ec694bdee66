"""Abstract interpretation of shading operations over a grid of two points:
which points run and which operands are varying is enumerated, values are opaque."""
from engine import facts
from engine.paths import Policy, Walker, STAR_THIS, show, terms, INT
from engine.views import base

DATA = 'Aqsis::IqShaderData'
ENV = 'Aqsis::CqShaderExecEnv'
GET = {'GetFloat', 'GetPoint', 'GetColor', 'GetNormal', 'GetVector', 'GetMatrix', 'GetString', 'GetBool', 'GetValue'}
SET = {'SetFloat', 'SetPoint', 'SetColor', 'SetNormal', 'SetVector', 'SetMatrix', 'SetString', 'SetBool', 'SetValue', 'SetValueFromVariable'}
UNI, VAR = 2, 3


class Scenario(Policy):
    correlate = True
    max_paths = 1500
    unroll = 6

    def __init__(self, varying, running, points=2):
        self.varying, self.running, self.points = varying, running, points

    def is_varying(self, o):
        if o and o[0] == 'deref' and o[1] and o[1][0] == 'P':
            return self.varying.get(o[1][1], self.varying.get('*', True))
        return self.varying.get('*', True)

    def snap(self, st, e):
        if e[0] == 'cond':
            return ('cond', settle(e[1], st.env)) + e[2:]
        if e[0] == 'set':
            return e[:2] + (settle(e[2], st.env),) + e[3:]
        if e[0] == 'store':
            return e[:2] + (settle(e[2], st.env),) + e[3:]
        return e

    def inline(self, w, fn, call):
        return fn.get('kind') not in ('ctor', 'dtor') and fn['file'].startswith('libs/shadervm/') and not fn['n'].startswith('SO_')

    def call_hook(self, w, call, obj, args, st):
        f, b = call['f'], base(call['f'])
        if b == 'shadingPointCount':
            return INT(self.points)
        if f.endswith('CqBitVector::Value') and args and args[0][0] == 'int' and obj is not None and 'CurrentState' not in show(obj):
            i = args[0][1]
            w.emit(st, ('asked', i))
            return INT(self.running[i]) if 0 <= i < self.points else None
        if b in ('max', 'min') and len(args) == 2 and all(a[0] == 'int' for a in args):
            return INT((max if b == 'max' else min)(args[0][1], args[1][1]))
        if f.startswith(DATA) or 'CqShaderVariable' in f:
            if b == 'Class':
                return INT(VAR if self.is_varying(obj) else UNI)
            if b == 'Size':
                return INT(self.points if self.is_varying(obj) else 1)
            if b in GET and args:
                i = args[1] if len(args) > 1 else INT(0)
                v = ('val', key(obj), i)
                if args[0][0] != 'int':
                    st.env[args[0]] = v
                w.emit(st, ('get', key(obj), i, call.get('l'), typed(b, call)))
                return ('void',)
            if b.endswith('Ptr') and b.startswith('Get') and args:
                if args[0][0] != 'int':
                    st.env[args[0]] = ('ptr', key(obj))
                w.emit(st, ('get', key(obj), None, call.get('l'), typed(b, call)))
                return ('void',)
            if b in SET and args:
                i = args[1] if len(args) > 1 else None
                w.emit(st, ('set', key(obj), args[0], i, call.get('l')))
                return ('void',)
        return None


def typed(b, call):
    if not b.startswith('GetValue'):
        return b.replace('Ptr', '')
    m = (call.get('id') or '').rsplit('GetValue', 1)[-1]
    for n, g in (('CqBasicVec3', 'GetVector'), ('CqVector3D', 'GetVector'), ('CqBasicColor', 'GetColor'), ('CqMatrix', 'GetMatrix'), ('CqString', 'GetString')):
        if n in m:
            return g
    m = m.replace('Ptr', '')
    return 'GetFloat' if m.startswith(('ERf', 'ERPf')) else 'GetBool' if m.startswith(('ERb', 'ERPb')) else 'GetValue'


def settle(t, env, depth=0, memo=None):
    """replace locals by what they hold and element accesses by values"""
    if not isinstance(t, tuple) or depth > 60:
        return t
    memo = {} if memo is None else memo
    k = (id(t), depth > 50)
    if k in memo:
        return memo[k][1]
    q = point_of(t)
    if q:
        r = ('val', q[0], INT(q[1]))
    elif t and t[0] == 'L' and t in env and env[t] != t:
        r = settle(env[t], env, depth + 1, memo)
    else:
        r = tuple(settle(x, env, depth + 1, memo) if isinstance(x, tuple) else x for x in t)
    memo[k] = (t, r)
    return r


def key(o):
    if o and o[0] == 'deref' and o[1] and o[1][0] == 'P':
        return o[1][1]
    return show(o) if o is not None else '?'


def data_params(prog, fn):
    return [k for k, p in enumerate(fn['p']) if prog.type(p['t']).replace('const ', '').rstrip('&').strip() in ('Aqsis::IqShaderData *', 'IqShaderData *')]


def run(prog, fn, varying, running):
    return Walker(prog, Scenario(varying, running)).run(fn)


def point_of(lv):
    """(operand, point) an element access through a data pointer denotes, or None"""
    if not (isinstance(lv, tuple) and lv):
        return None
    if lv[0] == 'deref':
        k, n = offset(lv[1])
        return (k, n) if k is not None else None
    if lv[0] == 'idx':
        k, n = offset(lv[1])
        if k is not None and isinstance(lv[2], tuple) and lv[2][0] == 'int':
            return k, n + lv[2][1]
    return None


def offset(t):
    if t[0] == 'ptr':
        return t[1], 0
    if t[0] == 'bin' and t[1] == '+' and t[3][0] == 'int':
        k, n = offset(t[2])
        return k, (n + t[3][1]) if k is not None else 0
    if t[0] == 'cast':
        return offset(t[2])
    return None, 0


def writes(p):
    """[(operand, value, point or None, line)] in order"""
    out = []
    for e in p.events:
        if e[0] == 'set':
            i = e[3]
            out.append((e[1], norm(e[2]), i[1] if i is not None and i[0] == 'int' else ('all' if i is None else '?'), e[4]))
        elif e[0] == 'store':
            q = point_of(e[1])
            if q:
                out.append((q[0], norm(e[2]), q[1], e[3]))
            elif any(x and x[0] == 'ptr' for x in terms(e[1])):
                k = next(x[1] for x in terms(e[1]) if x and x[0] == 'ptr')
                out.append((k, norm(e[2]), '?', e[3]))
    return out


def norm(t):
    """element accesses through pointers become values"""
    if not isinstance(t, tuple):
        return t
    q = point_of(t)
    if q:
        return ('val', q[0], INT(q[1]))
    return tuple(norm(x) for x in t)


def used(t):
    """{(operand, point)} whose values a term depends on"""
    return {(x[1], x[2][1] if x[2][0] == 'int' else '?') for x in terms(t) if x and x[0] == 'val'}
