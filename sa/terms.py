"""Meaning of abstract terms on one element of a finite abstract domain.

A routine is summarised once from its source: for every path the conditions it took and the
value it gives, as terms over the parameters. `compare` confronts such a summary with the
documented result, domain element by domain element. Terms that are not understood make a
path undecided, never a violation."""

from .values import is_c, NONE, Exc
from .state import Obj


class Unknown(Exception):
    pass


STR = {'strip', 'rstrip', 'lstrip', 'lower', 'upper', 'replace', 'startswith', 'endswith', 'isdigit', 'isdecimal', 'isnumeric',
       'isalpha', 'isalnum', 'isspace', 'find', 'rfind', 'index', 'count', 'split', 'rsplit', 'splitlines', 'partition', 'rpartition', 'title',
       'capitalize', 'casefold', 'removeprefix', 'removesuffix', 'isidentifier', 'zfill', 'ljust', 'rjust', 'join', 'swapcase',
       'isupper', 'islower', 'expandtabs'}


def value(t, env, st=None):
    k = t[0]
    if k == 'c':
        return t[2]
    if t in env:
        return env[t]
    if k == 't':
        return tuple(value(x, env, st) for x in t[1])
    if k == 'lin':
        tot = t[1]
        for x, c in t[2]:
            v = value(x, env, st)
            if isinstance(v, bool) or not isinstance(v, (int, float)):
                raise Unknown
            tot = tot + c * v
        return int(tot) if tot == int(tot) else float(tot)
    if k == 'r' and st is not None and t[1] in st.heap:
        o = st.heap[t[1]]
        if o.kind in ('list', 'set'):
            out = []
            for s in o.data[0]:
                if s[0] != 'I':
                    raise Unknown
                out.append(value(s[1], env, st))
            if o.data[1] != len(out) or o.data[2] != len(out):
                raise Unknown
            return out if o.kind == 'list' else set(out)
        if o.kind == 'dict' and not o.data[1]:
            return {value(a, env, st): value(b, env, st) for a, b in o.data[0]}
        raise Unknown
    if k != 'o':
        raise Unknown
    op, a = t[1], t[2:]
    if op == 'not':
        return not value(a[0], env, st)
    if op == 'truth':
        return bool(value(a[0], env, st))
    try:
        if op == '==':
            x, y = value(a[0], env, st), value(a[1], env, st)
            return x == y and (x is None) == (y is None) and isinstance(x, bool) == isinstance(y, bool) or x == y
        if op == '<':
            return value(a[0], env, st) < value(a[1], env, st)
        if op == 'in':
            return value(a[0], env, st) in value(a[1], env, st)
        if op == 'cdict':
            return {value(k, env, st): value(v, env, st) for k, v in a}
        if op == 'get' and len(a) in (2, 3):
            d = value(a[0], env, st)
            if not isinstance(d, dict):
                raise Unknown
            return d.get(*[value(x, env, st) for x in a[1:]])
        if op == 'cat':
            return ''.join(value(x, env, st) for x in a)
        if op == 'str':
            return str(value(a[0], env, st))
        if op == 'repr':
            return repr(value(a[0], env, st))
        if op == 'len':
            return len(value(a[0], env, st))
        if op in ('rep', '*'):
            return value(a[0], env, st) * value(a[1], env, st)
        if op == '+':
            return value(a[0], env, st) + value(a[1], env, st)
        if op == '-':
            return value(a[0], env, st) - value(a[1], env, st)
        if op == '%':
            return value(a[0], env, st) % value(a[1], env, st)
        if op == '//':
            return value(a[0], env, st) // value(a[1], env, st)
        if op == 'neg':
            return -value(a[0], env, st)
        if op == 'abs':
            return abs(value(a[0], env, st))
        if op == 'int':
            return int(*[value(x, env, st) for x in a])
        if op == 'float':
            return float(value(a[0], env, st))
        if op in ('min', 'max'):
            return (min if op == 'min' else max)(*[value(x, env, st) for x in a])
        if op == 'slice':
            v = value(a[0], env, st)
            lo, hi = value(a[1], env, st), value(a[2], env, st)
            return v[lo:hi]
        if op == 'item':
            return value(a[0], env, st)[value(a[1], env, st)]
        if op == 'ord':
            return ord(value(a[0], env, st))
        if op == 'chr':
            return chr(value(a[0], env, st))
        if op == 'fails':
            try:
                {'int': int, 'float': float}[value(a[0], env, st)](value(a[1], env, st))
                return False
            except (ValueError, TypeError, OverflowError):
                return True
        if op in ('range', 'round'):
            return {'range': range, 'round': round}[op](*[value(x, env, st) for x in a])
        if op == 'bool':
            return bool(value(a[0], env, st))
        if op == 'isinst':
            v = value(a[0], env, st)
            n = a[1] if isinstance(a[1], str) else a[1][1] if a[1][0] in 'xk' else None
            n = (n or '').split('.')[-1]
            ty = {'str': str, 'int': int, 'float': float, 'bool': bool, 'list': list, 'dict': dict, 'set': set, 'tuple': tuple}.get(n)
            if ty is None:
                raise Unknown
            return isinstance(v, ty)
        if op in STR:
            v = value(a[0], env, st)
            if isinstance(v, str):
                return getattr(v, op)(*[value(x, env, st) for x in a[1:]])
    except Unknown:
        raise
    except Exception:
        raise Unknown
    raise Unknown


def holds(st, env):
    """True / False / None: do the conditions of a path hold for the element?"""
    sure = True
    for atom, t in st.facts.items():
        try:
            if atom[0] == 'eqc':
                v = value(atom[1], env, st) == value(t, env, st)
                if not v:
                    return False
            else:
                v = value(atom, env, st)
                if bool(v) != bool(t):
                    return False
        except Unknown:
            sure = False
    return True if sure else None


def compare(outs, domain, env_of, want, same=None):
    """outs: [(State, value | Exc)] of one routine. Yields (element, State, got, wanted) for each definite
    difference; counts are returned through the generator's final value."""
    stats = {'elements': 0, 'undecided': 0}
    diffs = []
    for w in domain:
        env = env_of(w)
        exp = want(w)
        stats['elements'] += 1
        decided = False
        for s, v in outs:
            h = holds(s, env)
            if h is False:
                continue
            if isinstance(v, Exc):
                if h and v.kind[0] == 'cls':
                    diffs.append((w, s, 'exception ' + v.kind[1].split('.')[-1], exp))
                    decided = True
                continue
            try:
                got = value(v, env, s)
            except Unknown:
                continue
            ok = same(got, exp) if same else got == exp and type(got) == type(exp)
            if ok:
                decided = True
            elif h:
                diffs.append((w, s, got, exp))
                decided = True
        if not decided:
            stats['undecided'] += 1
    return diffs, stats
