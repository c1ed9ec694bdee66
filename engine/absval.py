"""Evaluation of condition terms over a finite assignment of their atoms, and
polynomial normal form of integer expressions."""


def evalt(t, atom):
    """value of a term (int) when atom(t) supplies the atoms; None if unknown"""
    v = atom(t)
    if v is not None:
        return v
    k = t[0]
    if k == 'int':
        return t[1]
    if k == 'null':
        return 0
    if k == 'cast':
        v = evalt(t[2], atom)
        return None if v is None else (int(bool(v)) if t[1] == 'bool' else v)
    if k == 'un':
        v = evalt(t[2], atom)
        if v is None:
            return None
        return {'!': int(not v), '-': -v, '~': ~v, '+': v}.get(t[1])
    if k == '?':
        c = evalt(t[1], atom)
        if c is None:
            a, b = evalt(t[2], atom), evalt(t[3], atom)
            return a if a == b else None
        return evalt(t[2] if c else t[3], atom)
    if k == 'bin':
        a = evalt(t[2], atom)
        op = t[1]
        if op == '&&':
            if a == 0:
                return 0
            b = evalt(t[3], atom)
            if b == 0:
                return 0
            return None if a is None or b is None else int(bool(a and b))
        if op == '||':
            if a:
                return 1
            b = evalt(t[3], atom)
            if b:
                return 1
            return None if a is None or b is None else 0
        b = evalt(t[3], atom)
        if a is None or b is None:
            return None
        try:
            return {'+': lambda: a + b, '-': lambda: a - b, '*': lambda: a * b, '&': lambda: a & b, '|': lambda: a | b,
                    '^': lambda: a ^ b, '<': lambda: int(a < b), '>': lambda: int(a > b), '<=': lambda: int(a <= b),
                    '>=': lambda: int(a >= b), '==': lambda: int(a == b), '!=': lambda: int(a != b),
                    '/': lambda: int(a / b), '%': lambda: a - b * int(a / b), '<<': lambda: a << b,
                    '>>': lambda: a >> b}[op]()
        except (KeyError, ZeroDivisionError):
            return None
    return None


def poly(t, leaf=None):
    """normal form of a term over + - *: sorted tuple of (monomial, coefficient);
    everything else is an atom.  leaf maps an atom to its canonical form"""
    out = {}
    for m, c in _poly(t, leaf).items():
        if c:
            out[m] = c
    return tuple(sorted(out.items(), key=repr))


def _poly(t, leaf):
    if t[0] == 'cast':
        if t[1] in ('int', 'unsigned int', 'long', 'unsigned long', 'size_t', 'TqInt', 'RtInt', 'TqUint') or t[1].endswith('int') or t[1].endswith('long'):
            return _poly(t[2], leaf)
    if t[0] == 'int':
        return {(): t[1]}
    if t[0] == 'un' and t[1] == '-':
        return {m: -c for m, c in _poly(t[2], leaf).items()}
    if t[0] == 'un' and t[1] == '+':
        return _poly(t[2], leaf)
    if t[0] == 'bin' and t[1] in '+-*':
        a, b = _poly(t[2], leaf), _poly(t[3], leaf)
        out = {}
        if t[1] == '*':
            for m1, c1 in a.items():
                for m2, c2 in b.items():
                    m = tuple(sorted(m1 + m2, key=repr))
                    out[m] = out.get(m, 0) + c1 * c2
        else:
            s = 1 if t[1] == '+' else -1
            out = dict(a)
            for m, c in b.items():
                out[m] = out.get(m, 0) + s * c
        return out
    a = leaf(t) if leaf else t
    return {(a,): 1}
