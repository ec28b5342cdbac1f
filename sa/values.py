"""Abstract values (plain tuples, tag first) and linear-term canonicalisation.

('c', typename, v)        a known constant
('s', ...)                an unknown value with an identity
('o', op, a1, a2, ...)    an uninterpreted pure term
('r', oid)                a heap object (instance, list, set, dict)
('t', (v, ...))           a tuple of known length
('f', fid, frame)         a repository function (frame: closure frame or None)
('b', self, fid)          a bound method
('k', cid)                a repository class
('x', dotted)             something outside the repository (module, builtin)
('xm', recv, name)        a method of a value that is not a repository object
('co', target, args, kw)  a coroutine that was created and not awaited yet
('lin', k, ((t, c), ...)) linear form k + sum c*t over integer/real terms
"""

from fractions import Fraction
from functools import lru_cache


def C(v):
    return ('c', type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def S(*n):
    return ('s',) + n


def O(op, *a):
    return ('o', op) + a


def T(items):
    return ('t', tuple(items))


def R(oid):
    return ('r', oid)


def is_c(v):
    return v[0] == 'c'


def num(v):
    return v[0] == 'c' and v[1] in ('int', 'float', 'bool')


class Exc:
    """An exception in flight: kind is ('cls', dotted) or ('any', dotted base)."""
    __slots__ = ('kind', 'val', 'line', 'tag')

    def __init__(self, kind, val=None, line=0, tag=None):
        self.kind = kind
        self.val = val if val is not None else S('exc', kind[1], line)
        self.line = line
        self.tag = tag

    def key(self):
        return ('exc', self.kind, self.val, self.tag)

    def __repr__(self):
        return "Exc(%s %s)" % self.kind


ANY_EXC = ('any', 'builtins.Exception')
ANY_BASE = ('any', 'builtins.BaseException')


def subst(v, old, new):
    if v == old:
        return new
    if isinstance(v, tuple):
        ch = False
        out = []
        for x in v:
            if isinstance(x, tuple):
                y = subst(x, old, new)
                if y is not x:
                    ch = True
                out.append(y)
            elif isinstance(x, frozenset):
                y = frozenset(subst(e, old, new) if isinstance(e, tuple) else e for e in x)
                if y != x:
                    ch = True
                    out.append(y)
                else:
                    out.append(x)
            else:
                out.append(x)
        return tuple(out) if ch else v
    return v


def mentions(v, x):
    if v == x:
        return True
    if isinstance(v, tuple):
        for e in v:
            if isinstance(e, (tuple, frozenset)) and mentions(e, x):
                return True
    elif isinstance(v, frozenset):
        for e in v:
            if mentions(e, x):
                return True
    return False


def leaves(v, out):
    """Collect symbols and heap references of a value."""
    if isinstance(v, tuple):
        if v and v[0] in ('s', 'r'):
            out.add(v)
            if v[0] == 's':
                return
        for e in v:
            if isinstance(e, (tuple, frozenset)):
                leaves(e, out)
    elif isinstance(v, frozenset):
        for e in v:
            leaves(e, out)


def depth(v):
    if isinstance(v, tuple) and v:
        if v[0] in ('s', 'c', 'r'):
            return 1
        return 1 + max([depth(e) for e in v if isinstance(e, tuple)] or [0])
    return 0


# -- linear forms ---------------------------------------------------------

def to_lin(v):
    """(k, {term: coef}) or None when v is not numeric-looking."""
    if num(v):
        if isinstance(v[2], float) and (v[2] != v[2] or v[2] in (float('inf'), float('-inf'))):
            return None
        return Fraction(v[2]), {}
    if v[0] == 'lin':
        return v[1], dict(v[2])
    if v[0] in ('s', 'o'):
        return Fraction(0), {v: Fraction(1)}
    return None


def from_lin(k, d):
    d = {t: c for t, c in d.items() if c != 0}
    if not d:
        return C(int(k)) if k.denominator == 1 else C(float(k))
    if k == 0 and len(d) == 1:
        (t, c), = d.items()
        if c == 1:
            return t
    return ('lin', k, tuple(sorted(d.items(), key=repr)))


@lru_cache(maxsize=200000)
def lin_add(a, b, sign=1):
    x, y = to_lin(a), to_lin(b)
    if x is None or y is None:
        return None
    d = dict(x[1])
    for t, c in y[1].items():
        d[t] = d.get(t, 0) + sign * c
    return from_lin(x[0] + sign * y[0], d)


@lru_cache(maxsize=50000)
def lin_mul(a, b):
    x, y = to_lin(a), to_lin(b)
    if x is None or y is None:
        return None
    if not x[1]:
        return from_lin(x[0] * y[0], {t: c * x[0] for t, c in y[1].items()})
    if not y[1]:
        return from_lin(x[0] * y[0], {t: c * y[0] for t, c in x[1].items()})
    return None


def show(v):
    """Human-readable rendering of a value for reports."""
    if not isinstance(v, tuple) or not v:
        return repr(v)
    t = v[0]
    if t == 'c':
        return repr(v[2])
    if t == 's':
        n = v[1:]
        if n and n[0] == 'init':
            return "%s.%s" % (n[1], n[2])
        if n and n[0] == 'p':
            return str(n[1])
        if n and n[0] == 'old':
            return 'earlier ' + show(n[1]) if isinstance(n[1], tuple) else 'earlier'
        return '<%s>' % ' '.join(str(x) if not isinstance(x, tuple) else '..' for x in n[:1] + n[2:])
    if t == 'o':
        if v[1] == 'attr':
            return "%s.%s" % (show(v[2]), v[3] if len(v) > 3 else '')
        return "%s(%s)" % (v[1], ", ".join(show(x) if isinstance(x, tuple) else str(x) for x in v[2:]))
    if t == 'r':
        return '&%s' % (v[1],) if not isinstance(v[1], tuple) else '&obj'
    if t == 't':
        return '(%s)' % ", ".join(show(x) for x in v[1])
    if t in ('f', 'k', 'x'):
        return str(v[1]).split(':')[-1]
    if t == 'b':
        return "%s.%s" % (show(v[1]), v[2].split('.')[-1])
    if t == 'xm':
        return "%s.%s" % (show(v[1]), v[2])
    if t == 'co':
        return 'coroutine %s' % show(v[1])
    if t == 'lin':
        return " + ".join([str(v[1])] + ["%s*%s" % (c, show(x)) for x, c in v[2]])
    return repr(v)
