"""Abstract state: frames, heap, facts, client monitor; fact lookup/assume."""

from fractions import Fraction
from .values import (C, S, O, R, NONE, TRUE, FALSE, is_c, num, to_lin, from_lin,
                     lin_add, subst, mentions, leaves)

ELEM = S('ELEM')
EMPTY = {}


class Obj:
    """Immutable heap object.
    inst: data = {attr: V};  list/set: data = (segs, lo, hi)
    dict: data = (entries, open)"""
    __slots__ = ('kind', 'cls', 'data', '_k')

    def __init__(self, kind, cls, data):
        self.kind = kind
        self.cls = cls
        self.data = data
        self._k = None

    def key(self):
        if self._k is None:
            d = self.data
            if self.kind == 'inst':
                d = frozenset(d.items())
            self._k = (self.kind, self.cls, d)
        return self._k

    def __eq__(self, o):
        return self is o or self.key() == o.key()

    def __hash__(self):
        return hash(self.key())


def seg_values(segs):
    for s in segs:
        if s[0] == 'I':
            yield s[1]


class State:
    __slots__ = ('frames', 'heap', 'facts', 'mon', 'trace', 'seen', 'pend', 'lenrefs', 'zc', 'gc_ok', 'guess')

    def __init__(self):
        self.zc = None
        self.gc_ok = None
        self.frames = {}
        self.heap = {}
        self.facts = {}
        self.mon = None
        self.trace = None
        self.seen = frozenset()
        self.pend = EMPTY
        self.lenrefs = frozenset()
        self.guess = False      # a branch was taken on something the analysis does not know

    def copy(self):
        n = State.__new__(State)
        n.frames = self.frames
        n.heap = self.heap
        n.facts = self.facts
        n.mon = self.mon
        n.trace = self.trace
        n.seen = self.seen
        n.pend = self.pend
        n.lenrefs = self.lenrefs
        n.zc = self.zc
        n.gc_ok = self.gc_ok
        n.guess = self.guess
        return n

    # functional updates (self is treated as owned by the caller) ----------
    def setvar(self, frame, name, v):
        n = self.copy()
        n.frames = dict(self.frames)
        f = dict(n.frames.get(frame, EMPTY))
        f[name] = v
        n.frames[frame] = f
        return n

    def delvars(self, frame, names):
        n = self.copy()
        n.frames = dict(self.frames)
        f = dict(n.frames.get(frame, EMPTY))
        for x in names:
            f.pop(x, None)
        n.frames[frame] = f
        return n

    def setobj(self, oid, obj):
        n = self.copy()
        n.heap = dict(self.heap)
        n.heap[oid] = obj
        return n

    def setfact(self, atom, truth):
        n = self.copy()
        n.facts = dict(self.facts)
        n.facts[atom] = truth
        return n

    def setmon(self, m):
        n = self.copy()
        n.mon = m
        return n

    def note(self, text):
        self.trace = (self.trace, text)
        return self

    def path(self, limit=40):
        out = []
        t = self.trace
        while t is not None and len(out) < limit:
            out.append(t[1])
            t = t[0]
        out.reverse()
        return out

    # -- whole-state operations --------------------------------------------
    def values(self):
        for f in self.frames.values():
            for v in f.values():
                yield v
        for o in self.heap.values():
            if o.kind == 'inst':
                for v in o.data.values():
                    yield v
            else:
                yield o.data
        if self.mon is not None:
            yield self.mon
        for v in self.pend.values():
            yield v

    def occurs(self, x):
        for oid in self.heap:
            if x[0] == 'r' and oid == x[1]:
                return True
            if isinstance(oid, tuple) and mentions(oid, x):
                return True
        for v in self.values():
            if isinstance(v, tuple) and mentions(v, x):
                return True
        for a in self.facts:
            if mentions(a, x):
                return True
        return False

    def rename(self, old, new, facts=True):
        """Replace value old by new everywhere; facts about old follow or die."""
        n = self.copy()
        fr = {}
        for k, f in n.frames.items():
            g = None
            for name, v in f.items():
                w = subst(v, old, new)
                if w is not v:
                    if g is None:
                        g = dict(f)
                    g[name] = w
            fr[k] = g if g is not None else f
        n.frames = fr
        hp = {}
        for oid, o in n.heap.items():
            if isinstance(oid, tuple) and oid[0] == 'ov':
                oid = subst(oid, old, new)
            if o.kind == 'inst':
                d = None
                for a, v in o.data.items():
                    w = subst(v, old, new)
                    if w is not v:
                        if d is None:
                            d = dict(o.data)
                        d[a] = w
                hp[oid] = o if d is None else Obj(o.kind, o.cls, d)
            else:
                w = subst(o.data, old, new)
                hp[oid] = o if w is o.data else Obj(o.kind, o.cls, w)
        n.heap = hp
        fx = {}
        for a, t in n.facts.items():
            if mentions(a, old):
                if facts:
                    b = subst(a, old, new)
                    fx[b] = t
            else:
                fx[a] = t
        n.facts = fx
        if n.mon is not None:
            n.mon = subst(n.mon, old, new)
        if n.pend:
            n.pend = {k: subst(v, old, new) for k, v in n.pend.items()}
        return n

    def drop_facts(self, x):
        n = self.copy()
        n.facts = {a: t for a, t in self.facts.items() if not mentions(a, x)}
        return n

    def gc(self, roots=()):
        """Drop unreachable heap objects and facts about unreachable values."""
        g = self.gc_ok
        if not roots and g is not None and g[0] is self.frames and g[1] is self.heap and \
                g[2] is self.facts and g[3] is self.mon and g[4] is self.pend:
            return self
        n = self._gc(roots)
        if not roots:
            n.gc_ok = (n.frames, n.heap, n.facts, n.mon, n.pend)
        return n

    def _gc(self, roots=()):
        reach = set()
        todo = []
        for f in self.frames.values():
            for v in f.values():
                leaves(v, reach)
        if self.mon is not None:
            leaves(self.mon, reach)
        for v in self.pend.values():
            leaves(v, reach)
        for r in roots:
            leaves(r, reach)
        done = set()
        todo = [x for x in reach if x[0] == 'r']
        for oid in self.heap:
            if isinstance(oid, str):      # named roots (self, parent, ...)
                todo.append(R(oid))
                reach.add(R(oid))
        ovs = [oid for oid in self.heap if isinstance(oid, tuple) and oid[0] == 'ov']
        while todo or ovs:
            if not todo:
                pick = None
                for oid in ovs:
                    l = set()
                    leaves(oid[1], l)
                    if all(x in reach or stable(x) for x in l):
                        pick = oid
                        break
                if pick is None:
                    break
                ovs.remove(pick)
                reach.add(R(pick))
                todo.append(R(pick))
                continue
            r = todo.pop()
            if r in done:
                continue
            done.add(r)
            o = self.heap.get(r[1])
            if o is None:
                continue
            sub = set()
            if o.kind == 'inst':
                for v in o.data.values():
                    leaves(v, sub)
            else:
                leaves(o.data, sub)
            for x in sub:
                if x not in reach:
                    reach.add(x)
                if x[0] == 'r' and x not in done:
                    todo.append(x)
        dead = [oid for oid in self.heap if R(oid) not in reach]
        fx = None
        for a in self.facts:
            l = set()
            leaves(a, l)
            for x in l:
                if x not in reach and not stable(x):
                    if fx is None:
                        fx = dict(self.facts)
                    del fx[a]
                    break
        if dead or fx is not None:
            n = self.copy()
            if dead:
                n.heap = {k: v for k, v in self.heap.items() if R(k) in reach}
            if fx is not None:
                n.facts = fx
            return n
        return self

    def key(self):
        fr = frozenset((k, frozenset(f.items())) for k, f in self.frames.items())
        hp = frozenset(self.heap.items())
        return (fr, hp, frozenset(self.facts.items()), self.mon,
                frozenset(self.pend.items()), self.guess)

    def shape(self):
        fr = frozenset((k, frozenset(f.items())) for k, f in self.frames.items())
        hp = frozenset(self.heap.items())
        return (fr, hp, self.mon, frozenset(self.pend.items()), self.guess)

    # -- facts ---------------------------------------------------------------
    def eqc(self, v):
        if is_c(v):
            return v
        return self.facts.get(('eqc', v))

    def known(self, atom):
        """Truth of an atom (boolean term) or None."""
        if atom[0] == 'c':
            return bool(atom[2])
        if atom[0] == 'o' and atom[1] == 'not':
            k = self.known(atom[2])
            return None if k is None else not k
        f = self.facts.get(atom)
        if f is not None:
            return f
        if atom[0] != 'o':
            return None
        op = atom[1]
        if op == '==':
            return self.known_eq(atom[2], atom[3])
        if op == '<':
            return self.known_lt(atom[2], atom[3])
        if op == 'truth':
            return self.known_truth(atom[2])
        return None

    def known_eq(self, a, b):
        f = self.facts.get(mk_eq(a, b)) if not (is_c(a) and is_c(b)) else None
        if f is not None and isinstance(f, bool):
            return f
        ea, eb = self.eqc(a), self.eqc(b)
        if ea is not None and eb is not None:
            return ea[2] == eb[2]
        if ea is not None or eb is not None:
            c, x = (ea, b) if ea is not None else (eb, a)
            if x[0] in ('r', 'f', 'b', 'k', 'x', 'co', 'xm'):
                if x[0] == 'r':
                    o = self.heap.get(x[1])
                    if o is not None and o.kind != 'inst' and c[1] in ('list',):
                        return None
                return False
            if x[0] == 't':
                return False
            if x[0] == 'o' and x[1] in BOOL_OPS and c[1] not in ('bool', 'int', 'float'):
                return False
            if x[0] == 'o' and x[1] in STR_OPS and c[1] != 'str':
                return False
            if x[0] == 'o' and x[1] == 'cat' and c[1] not in ('str', 'list', 'tuple', 'bytes'):
                return False
            if x[0] == 'o' and x[1] == 'len':
                if c[1] not in ('int', 'bool', 'float'):
                    return False
                lo, hi = self.len_bounds(x[2])
                if c[2] < lo or (hi is not None and c[2] > hi):
                    return False
            t = self.facts.get(O('truth', x))
            if t is not None and bool(c[2]) != t:
                return False
            # x == d known false for every value?  identical literal already
            # looked up above; isinstance facts:
            if c[2] is None and self.facts.get(('nonnull', x)):
                return False
            if num(c) and to_lin(x) is not None:
                z = Zone(self)
                if z.lt(c, x) is True or z.lt(x, c) is True:
                    return False
            return None
        if a == b:
            return None if unstable(a) else True
        if a[0] == 't' and b[0] == 't' and len(a) == 2 and len(b) == 2:
            if len(a[1]) != len(b[1]):
                return False
            ks = [self.known_eq(x, y) for x, y in zip(a[1], b[1])]
            return False if False in ks else True if None not in ks else None
        if a[0] == 'r' and b[0] == 'r':
            oa, ob = self.heap.get(a[1]), self.heap.get(b[1])
            if oa is not None and ob is not None and oa.kind == 'inst' and ob.kind == 'inst':
                return False
            return None
        if a[0] in ('f', 'k', 'x', 'b') and b[0] in ('f', 'k', 'x', 'b'):
            return False
        if to_lin(a) is not None and to_lin(b) is not None:
            z = Zone(self)
            if z.lt(a, b) is True or z.lt(b, a) is True:
                return False
            if z.lt(a, b) is False and z.lt(b, a) is False:
                return True
        return None

    def known_lt(self, a, b):
        ea, eb = self.eqc(a) or a, self.eqc(b) or b
        if is_c(ea) and is_c(eb):
            try:
                return ea[2] < eb[2]
            except TypeError:
                return None
        return Zone(self).lt(ea, eb)

    def len_bounds(self, v):
        if v[0] == 'r':
            o = self.heap.get(v[1])
            if o is not None and o.kind in ('list', 'set'):
                return o.data[1], o.data[2]
            if o is not None and o.kind == 'dict' and not o.data[1]:
                return len(o.data[0]), len(o.data[0])
        if v[0] == 't':
            return len(v[1]), len(v[1])
        if is_c(v) and v[1] == 'str':
            return len(v[2]), len(v[2])
        t = self.facts.get(O('truth', v))
        if t is True:
            return 1, None
        if t is False:
            return 0, 0
        return 0, None

    def known_truth(self, v):
        t = v[0]
        if t == 'c':
            return bool(v[2])
        if t == 't':
            return len(v[1]) > 0
        if t in ('f', 'b', 'k', 'co', 'xm'):
            return True
        if t == 'x':
            return True
        if t == 'r':
            o = self.heap.get(v[1])
            if o is None:
                return None
            if o.kind in ('list', 'set'):
                if o.data[1] > 0:
                    return True
                if o.data[2] == 0:
                    return False
                return None
            if o.kind == 'dict':
                if o.data[0]:
                    return True
                return None if o.data[1] else False
            return self.facts.get(O('truth', v), True)
        if t == 'o' and v[1] == 'not':
            k = self.known_truth(v[2])
            return None if k is None else not k
        if t == 'o' and v[1] in BOOL_OPS:
            return self.known(v)
        if t == 'o' and v[1] in ('reversed', 'zip', 'enumerate') and len(v) > 2:
            return True
        if t == 'o' and v[1] == 'cat' and any(self.known_truth(x) for x in v[2:]):
            return True
        if t == 'o' and v[1] == 'len':
            lo, hi = self.len_bounds(v[2])
            if lo > 0:
                return True
            if hi == 0:
                return False
        if t == 'o' and v[1] == 'cat':
            ks = [self.known_truth(x) for x in v[2:]]
            if True in ks:
                return True
            if all(k is False for k in ks):
                return False
        if t == 'o' and v[1] == 'replace' and len(v) == 5 and is_c(v[4]) and v[4][2]:
            return self.known_truth(v[2])
        e = self.eqc(v)
        if e is not None:
            return bool(e[2])
        f = self.facts.get(O('truth', v))
        if f is not None:
            return f
        if t == 'lin' or (t == 'o' and v[1] == 'len'):
            return None
        return None

    def assume(self, v, truth):
        """State refined with truth(v) == truth, or None when contradictory."""
        while v[0] == 'o' and v[1] == 'not':
            v = v[2]
            truth = not truth
        k = self.known_truth(v)
        if k is not None:
            return self if k == truth else None
        if v[0] == 'r':
            o = self.heap.get(v[1])
            if o is not None and o.kind in ('list', 'set'):
                segs, lo, hi = o.data
                if truth:
                    return self.setobj(v[1], Obj(o.kind, o.cls, (segs, max(lo, 1), hi)))
                return self.setobj(v[1], Obj(o.kind, o.cls, ((), 0, 0)))
            if o is not None and o.kind == 'dict':
                if not truth:
                    return self.setobj(v[1], Obj(o.kind, o.cls, ((), False)))
                return self
            return self.setfact(O('truth', v), truth)
        if v[0] == 'o' and v[1] == '==':
            return self.assume_eq(v[2], v[3], truth)
        if v[0] == 'o' and v[1] == '<':
            return self.assume_lt(v[2], v[3], truth)
        if v[0] == 'o' and v[1] in BOOL_OPS:
            return self.setfact(v, truth)
        if v[0] == 'o' and v[1] == 'len':
            return self.assume_len(v[2], 1 if truth else 0, None if truth else 0)
        return self.setfact(O('truth', v), truth)

    def assume_len(self, x, lo, hi):
        if x[0] == 'r':
            o = self.heap.get(x[1])
            if o is not None and o.kind in ('list', 'set'):
                segs, l0, h0 = o.data
                lo2 = max(lo, l0)
                hi2 = h0 if hi is None else (hi if h0 is None else min(hi, h0))
                if hi2 is not None and lo2 > hi2:
                    return None
                if hi2 == 0:
                    segs = ()
                return self.setobj(x[1], Obj(o.kind, o.cls, (segs, lo2, hi2)))
        if lo >= 1:
            return self.assume(x, True) if self.known_truth(x) is None else (
                self if self.known_truth(x) else None)
        if hi == 0:
            return self.assume(x, False) if self.known_truth(x) is None else (
                self if not self.known_truth(x) else None)
        return self

    def assume_eq(self, a, b, truth):
        k = self.known_eq(a, b)
        if k is not None:
            return self if k == truth else None
        if is_c(a) and not is_c(b):
            a, b = b, a
        if is_c(b) and a[0] == 'o' and a[1] == 'len' and b[1] == 'int':
            n = b[2]
            if truth:
                s = self.assume_len(a[2], n, n)
                return s if s is None else s.setfact(mk_eq(a, b), True)
            lo, hi = self.len_bounds(a[2])
            s = self
            if n == lo:
                s = self.assume_len(a[2], lo + 1, None)
            elif hi is not None and n == hi:
                s = self.assume_len(a[2], lo, hi - 1)
            return s if s is None else s.setfact(mk_eq(a, b), False)
        if is_c(b):
            if truth:
                n = self.copy()
                n.facts = dict(self.facts)
                n.facts[('eqc', a)] = b
                n.facts[mk_eq(a, b)] = True
                if not num(b) or b[1] == 'bool':
                    n.facts[O('truth', a)] = bool(b[2])
                self._derive_in(n, a, b)
                if a[0] == 'o' and a[1] in BOOL_OPS and b[1] == 'bool':
                    return n.assume(a, b[2])
                return n
            if b[1] == 'bool' and a[0] == 'o' and a[1] in BOOL_OPS:
                return self.assume(a, not b[2])
            return self.setfact(mk_eq(a, b), False)
        n = self.copy()
        n.facts = dict(self.facts)
        n.facts[mk_eq(a, b)] = truth
        if truth:
            ea, eb = self.eqc(a), self.eqc(b)
            if ea is not None:
                n.facts[('eqc', b)] = ea
            elif eb is not None:
                n.facts[('eqc', a)] = eb
            self._derive_in(n, a, b)
            self._derive_in(n, b, a)
        return n

    def _derive_in(self, n, a, b):
        # a is an element of W and a == b  ==>  b in W
        for f, t in list(self.facts.items()):
            if t is True and f[0] == 'o' and f[1] == 'in' and f[2] == a:
                n.facts[O('in', b, f[3])] = True

    def assume_lt(self, a, b, truth):
        k = self.known_lt(a, b)
        if k is not None:
            return self if k == truth else None
        s = self
        for x, y, flip in ((a, b, False), (b, a, True)):
            if x[0] == 'o' and x[1] == 'len' and is_c(y) and isinstance(y[2], int):
                n = y[2]
                if not flip:       # len < n
                    s = s.assume_len(x[2], 0, n - 1) if truth else s.assume_len(x[2], n, None)
                else:              # n < len
                    s = s.assume_len(x[2], n + 1, None) if truth else s.assume_len(x[2], 0, n)
                if s is None:
                    return None
        return s.setfact(O('<', a, b), truth)


BOOL_OPS = frozenset(['==', '<', 'in', 'isinst', 'truth', 'not', 'startswith', 'endswith',
                      'isnumeric', 'isdigit', 'isdecimal', 'isspace', 'hasattr', 'callable',
                      'iscoro', 'issub', 'isalpha', 'isalnum', 'match', 'pred'])
STR_OPS = frozenset(['str', 'strip', 'rstrip', 'lstrip', 'lower', 'upper', 'fmt', 'join',
                     'replace', 'repr'])


def stable(x):
    """Symbols that denote one value for the whole analysis (initial values)."""
    return x[0] == 's' and len(x) > 1 and x[1] in ('init', 'p', 'glob', 'ELEM', 'const')


def unstable(v):
    if isinstance(v, tuple):
        if v and v[0] == 's' and len(v) > 1 and v[1] in ('old', 'wid', 'ELEM'):
            return True
        if v and v[0] == 'r' and isinstance(v[1], tuple) and v[1] and v[1][0] == 'old':
            return True
        for e in v:
            if isinstance(e, tuple) and unstable(e):
                return True
    return False


def mk_eq(a, b):
    if repr(b) < repr(a):
        a, b = b, a
    return O('==', a, b)


class Zone:
    """Difference-bound reasoning over the '<' / equality facts of a state."""

    def __init__(self, st):
        self.st = st

    def edges(self, extra):
        st = self.st
        z = st.zc
        if z is None or z[0] is not st.facts or z[1] is not st.heap:
            z = (st.facts, st.heap, self._edges((), True))
            st.zc = z
        base, terms = z[2]
        return base + self._edges(extra, False)

    def _edges(self, extra, facts):
        # edge (x, y, k, strict): x - y <= k (or < k)
        E = []
        terms = set()

        def add(a, b, strict):
            # a - b < 0 (strict) or <= 0
            d = lin_add(a, b, -1)
            if d is None:
                return
            l = to_lin(d)
            if l is None:
                return
            k, m = l
            for t in m:
                terms.add(t)
            items = list(m.items())
            if len(items) == 1:
                t, c = items[0]
                if c > 0:
                    E.append((t, None, -k / c, strict))
                else:
                    E.append((None, t, -k / -c, strict))
            elif len(items) == 2:
                (t1, c1), (t2, c2) = items
                if c1 == -c2:
                    if c1 > 0:
                        E.append((t1, t2, -k / c1, strict))
                    else:
                        E.append((t2, t1, -k / c2, strict))
        for f, t in (self.st.facts.items() if facts else ()):
            if f[0] == 'o' and f[1] == '<':
                if t:
                    add(f[2], f[3], True)
                else:
                    add(f[3], f[2], False)
            elif f[0] == 'eqc' and num(t):
                add(f[1], t, False)
                add(t, f[1], False)
            elif f[0] == 'o' and f[1] == '==' and t is True:
                if to_lin(f[2]) is not None and to_lin(f[3]) is not None and not (is_c(f[2]) and not num(f[2])):
                    add(f[2], f[3], False)
                    add(f[3], f[2], False)
        for x in extra:
            l = to_lin(x)
            if l:
                terms.update(l[1])
        todo = list(terms)
        seen = set()
        while todo:
            t = todo.pop()
            if t in seen:
                continue
            seen.add(t)
            if t[0] == 'o' and t[1] in ('min', 'max'):
                for a in t[2:]:
                    if t[1] == 'min':
                        add(t, a, False)
                    else:
                        add(a, t, False)
                    l = to_lin(a)
                    if l:
                        todo += list(l[1])
            elif t[0] == 'o' and t[1] == 'len':
                lo, hi = self.st.len_bounds(t[2])
                add(C(lo), t, False)
                if hi is not None:
                    add(t, C(hi), False)
        return (E, terms) if facts else E

    def lt(self, a, b):
        """Is a < b entailed (True), refuted (False: b <= a), or open (None)?"""
        d = lin_add(a, b, -1)
        if d is None:
            return None
        l = to_lin(d)
        k, m = l
        if not m:
            return k < 0
        items = list(m.items())
        if len(items) == 1:
            t, c = items[0]
            if c > 0:
                q = (t, None, -k / c)
            else:
                q = (None, t, -k / -c)
        elif len(items) == 2 and items[0][1] == -items[1][1]:
            (t1, c1), (t2, c2) = items
            if c1 > 0:
                q = (t1, t2, -k / c1)
            else:
                q = (t2, t1, -k / c2)
        else:
            return None
        E = self.edges((a, b))
        x, y, kk = q
        # want: x - y < kk
        w = self.short(E, x, y)
        if w is not None and (w[0] < kk or (w[0] == kk and w[1])):
            return True
        # want: x - y >= kk, i.e. y - x <= -kk
        w = self.short(E, y, x)
        if w is not None and w[0] <= -kk:
            return False
        return None

    def short(self, E, x, y):
        """Tightest bound on x - y: (k, strict)."""
        best = {x: (Fraction(0), False)}
        for _ in range(12):
            ch = False
            for a, b, k, s in E:
                if a in best:
                    w = best[a][0] + k
                    st = best[a][1] or s
                    cur = best.get(b)
                    if cur is None or w < cur[0] or (w == cur[0] and st and not cur[1]):
                        best[b] = (w, st)
                        ch = True
            if not ch:
                break
        if y in best and (y != x):
            return best[y]
        return None
