"""Path-sensitive dataflow over the syntax tree (property simulation).

Each program point carries a set of abstract states; states are merged by a
join when they agree on the client's monitor value, loops are iterated to a
fixpoint over widened head states, calls to repository functions are analysed
in the callee (context = call string).  No path is handed to a solver and no
code of the repository runs."""

import ast
import time

from .values import (C, S, O, R, T, NONE, TRUE, FALSE, is_c, num, Exc, ANY_EXC, ANY_BASE,
                     subst, mentions, leaves, depth, lin_add, lin_mul, show, to_lin)
from .state import State, Obj, ELEM, BOOL_OPS, STR_OPS, mk_eq, unstable, stable
from .live import Liveness


STARTED = time.time()


class Budget(Exception):
    pass


class Ctx:
    __slots__ = ('fi', 'frame', 'parent', 'cid', 'outer', 'yield_cb', 'selfcls', 'depth', 'selfv')

    def __init__(self, fi, cid, parent, outer=None, selfv=None):
        self.fi = fi
        self.cid = cid
        self.frame = cid
        self.parent = parent
        self.outer = outer
        self.yield_cb = None
        self.selfv = selfv
        self.depth = (parent.depth + 1) if parent else 0


class Target:
    """What a call resolves to."""
    __slots__ = ('kind', 'name', 'fi', 'recv', 'val')

    def __init__(self, kind, name, fi=None, recv=None, val=None):
        self.kind = kind      # 'func' | 'ext' | 'meth' | 'sym' | 'class'
        self.name = name
        self.fi = fi
        self.recv = recv
        self.val = val

    def __repr__(self):
        return "%s:%s" % (self.kind, self.name)


class Client:
    merge_limit = 24
    max_depth = 14
    recursion = 2            # activations of one function below each other that are followed
    inline_external_self = False

    loop_join = False        # one state per monitor state at loop heads
    unroll = 0               # rounds of a loop kept apart before widening
    closed_objects = False   # objects made during the analysis have no attributes but those assigned
    distinct = 0             # objects of one allocation site kept apart
    mark_ops = frozenset()   # facts about heap objects that survive in collections
    unify = False            # lists held by one variable are joined even when they come from different places
    any_order = False        # a sorted list keeps its elements in any order: the client does not look at the order
    items_limit = 8          # known elements a loop goes through one by one

    def loop_key(self, st):
        return st.mon

    def is_opaque(self, eng, st, ctx, tgt):
        return False

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        return None

    def on_await(self, eng, st, ctx, v, node):
        return None

    def on_enter(self, eng, st, ctx, cm, node):
        """Entering a context manager of a library: [(state, value or Exc)], or None"""
        return None

    def on_leave(self, eng, st, ctx, cm, node):
        return st

    def may_raise(self, eng, st, ctx, tgt, node):
        return []

    def on_setattr(self, eng, st, ctx, obj, attr, val, node):
        return st

    def on_setitem(self, eng, st, ctx, obj, key, val, node):
        return st

    def on_getitem(self, eng, st, ctx, obj, key, node):
        return None

    def on_contains(self, eng, st, ctx, item, coll, node):
        return None

    def on_mutate(self, eng, st, ctx, oid, how, args, node):
        return st

    def on_return(self, eng, st, ctx, fi, val, node):
        return st

    def on_branch(self, eng, st, ctx, node, val, truth):
        return st

    def init_attr(self, eng, st, oid, cls, attr):
        return None

    def on_iter(self, eng, st, ctx, itv, elem, node):
        return st

    def func_attr(self, eng, st, v, fi, name):
        """attribute of a function or class that is a value -> (state, value) or None"""
        return None


def declared(v):
    """Is this about nothing but the unknowns the caller declared ('p') and constants?"""
    if v[0] == 's':
        parts = [x for x in v[2:] if isinstance(x, tuple)]
        return v[1] in ('p', 'glob') or v[1] not in ('@', 'old', 'maybe-unbound') and bool(parts) and all(declared(x) for x in parts)
    if v[0] == 't':
        return all(declared(x) for x in v[1])
    if v[0] == 'o':
        if v[1] in ('==', 'is'):
            return all(x[0] == 'r' or declared(x) for x in v[2:])
        return all(declared(x) for x in v[2:] if isinstance(x, tuple))
    if v[0] == 'lin':
        return all(declared(t) for t, c in v[2])
    return v[0] in ('c', 'k', 'x', 'f')


def own(fi):
    return fi.qual


class EngineCore:
    def __init__(self, repo, client, budget=400000):
        self.incomplete = []
        self.deadline = min(time.time() + 240, STARTED + 660)
        self.repo = repo
        self.client = client
        self.reports = {}
        self.cids = {}
        self.frame_ctx = {}
        self.live_cache = {}
        self.steps = 0
        self.budget = budget
        self.functions = set()
        self.callsites = set()
        self.branches = 0
        self.strict = False     # report only what does not depend on a guess
        self.exact = False      # a join that forgets conditions counts as a guess
        self.suspects = 0
        self.joins = 0
        self.states = 0

    # -- reporting -------------------------------------------------------
    def report(self, rule, where, construct, msg, st=None):
        if self.strict and st is not None and st.guess:
            # what happens on this path may not happen at all
            self.suspects += 1
            return
        k = (rule, where, construct)
        if k not in self.reports:
            self.reports[k] = {'rule': rule, 'where': where, 'construct': construct, 'message': msg,
                               'path': st.path() if st is not None else []}

    def loc(self, ctx, node):
        return "%s:%d" % (ctx.fi.module.path, getattr(node, 'lineno', ctx.fi.node.lineno))

    def src(self, node):
        try:
            s = ast.unparse(node)
        except Exception:
            s = '?'
        s = ' '.join(s.split())
        return s if len(s) <= 90 else s[:87] + '...'

    # -- contexts / fresh names -------------------------------------------
    def cid_of(self, *key):
        if key not in self.cids:
            self.cids[key] = len(self.cids)
        return self.cids[key]

    def fresh(self, st, ctx, node, tag):
        name = S('@', tag, ctx.cid, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        if name in st.seen and self.client.distinct:
            for i in range(1, self.client.distinct):
                n2 = name + (i,)
                if n2 not in st.seen or not st.occurs(n2):
                    name = n2
                    break
        if name in st.seen and st.occurs(name):
            old = S('old', name)
            if st.occurs(old):
                st = st.drop_facts(old)
                st = st.rename(name, old, facts=False)
            else:
                st = st.rename(name, old)
        if name not in st.seen:
            st = st.copy()
            st.seen = st.seen | {name}
        return st, name

    def alloc(self, st, ctx, node, kind, cls, data, tag=''):
        oid = (ctx.cid, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0), kind, tag)
        if oid in st.heap and self.client.distinct:
            for i in range(1, self.client.distinct):
                if oid + (i,) not in st.heap:
                    oid = oid + (i,)
                    break
        if oid in st.heap:
            if st.occurs_ref(oid) if hasattr(st, 'occurs_ref') else st.occurs(R(oid)):
                old = ('old', oid)
                if old in st.heap:
                    oo, on = st.heap[old], st.heap[oid]
                    st = st.rename(R(oid), R(old), facts=False)
                    st = st.drop_facts(R(old))
                    h = dict(st.heap)
                    h[old] = self.join_obj(oo, on)
                    del h[oid]
                    st = st.copy()
                    st.heap = h
                else:
                    o = st.heap[oid]
                    st = st.rename(R(oid), R(old))
                    h = dict(st.heap)
                    o = h.pop(oid)
                    h[old] = o
                    st = st.copy()
                    st.heap = h
        st = st.setobj(oid, Obj(kind, cls, data))
        return st, R(oid)

    def new_list(self, st, ctx, node, items=(), kind='list', tag=''):
        items = tuple(items)
        return self.alloc(st, ctx, node, kind, None, (tuple(('I', v) for v in items), len(items) if kind == 'list' else min(1, len(items)), len(items)), tag)

    # -- branching --------------------------------------------------------
    def branch(self, st, v, ctx, node):
        """-> [(state, bool)]"""
        k = st.known_truth(v)
        if k is not None:
            st = self.client.on_branch(self, st, ctx, node, v, k)
            return [(st, k)] if st is not None else []
        self.branches += 1
        out = []
        for t in (True, False):
            s = st.assume(v, t)
            if s is not None:
                s = s.copy() if s is st else s
                if self.strict and not s.guess and not declared(v):
                    s.guess = True
                s.note("%s: %s is %s" % (self.loc(ctx, node), self.src(node), t))
                s = self.client.on_branch(self, s, ctx, node, v, t)
                if s is not None:
                    out.append((s, t))
        return out

    # -- join / reduce ------------------------------------------------------
    def reduce(self, states, limit=None):
        """states: [State] -> fewer states."""
        if len(states) <= 1:
            return states
        limit = limit or self.client.merge_limit
        seen = {}
        for s in states:
            s = s.gc()
            k = s.key()
            if k not in seen:
                seen[k] = s
        out = list(seen.values())
        if len(out) <= limit:
            return out
        self.joins += 1
        if self.exact:
            sure = [s for s in out if not s.guess]
            rest = [s for s in out if s.guess]
            if len(sure) <= 4 * limit:
                # what is a guess anyway is joined first
                rest = self._group(rest, lambda s: s.shape())
                if len(rest) > limit // 4:
                    rest = self._group(rest, self.client.loop_key)
                return sure + rest
        out = self._group(out, lambda s: s.shape())
        if len(out) <= limit:
            return out
        out = self._group(out, self._sig)
        if len(out) <= limit * 2:
            return out
        return self._group(out, self.client.loop_key)

    def _sig(self, s):
        sig = []
        for k, f in s.frames.items():
            for n, v in f.items():
                if is_c(v):
                    sig.append((k, n, v))
        for oid, o in s.heap.items():
            if o.kind == 'inst':
                for a, v in o.data.items():
                    if is_c(v):
                        sig.append((oid, a, v))
            elif o.kind == 'list':
                sig.append((oid, o.data[1] > 0, o.data[2] == 0))
        return (s.mon, frozenset(sig))

    def _group(self, states, keyf):
        g = {}
        for s in states:
            g.setdefault(keyf(s), []).append(s)
        out = []
        for ss in g.values():
            a = ss[0]
            for b in ss[1:]:
                a = self.join(a, b)
            out.append(a)
        return out

    def join_seg_lists(self, a, b):
        """Join two list payloads."""
        if a == b:
            return a
        lo = min(a[1], b[1])
        hi = None if (a[2] is None or b[2] is None) else max(a[2], b[2])
        if a[0] == b[0]:
            return (a[0], lo, hi)
        stars = [x for x in a[0] + b[0]]
        return (self.collapse_segs(stars, None), lo, hi)

    def collapse_segs(self, segs, st):
        if not segs:
            return ()
        props = None
        srcs = set()
        for s in segs:
            if s[0] == '*':
                p = s[1]
                srcs.add(s[2])
            else:
                v = s[1]
                if v[0] == 'r' and v[1] and v[1][0] == 'old':
                    p = frozenset()
                else:
                    p = self.props_of(v, st)
                srcs.add(None)
            props = p if props is None else props & p
        src = srcs.pop() if len(srcs) == 1 else None
        return (('*', props, src),)

    def props_of(self, v, st):
        out = set()
        if is_c(v):
            out.add((('eqc', ELEM), v))
            return frozenset(out)
        if v[0] == 'r':
            # element is itself a heap object: remember only its identity class, and what the client marks
            if st is not None and self.client.mark_ops:
                for a, t in st.facts.items():
                    if a[0] == 'o' and a[1] in self.client.mark_ops and a[2] == v and len(a) == 3:
                        out.add((O(a[1], ELEM), t))
            return frozenset(out)
        if st is not None:
            for a, t in st.facts.items():
                if mentions(a, v):
                    b = subst(a, v, ELEM)
                    ls = set()
                    leaves(b, ls)
                    if all(stable(x) or x[0] == 'r' and isinstance(x[1], str) for x in ls):
                        out.add((b, t))
        if v[0] == 't':
            out.add((('tuplen', ELEM), C(len(v[1]))))
        if v[0] == 'o' and v[1] in STR_OPS:
            out.add((O('isinst', ELEM, 'str'), True))
        return frozenset(out)

    def join_obj(self, a, b):
        if a == b:
            return a
        if a.kind != b.kind:
            return Obj('list', None, ((('*', frozenset(), None),), 0, None)) if 'inst' not in (a.kind, b.kind) else a
        if a.kind in ('list', 'set'):
            return Obj(a.kind, a.cls, self.join_seg_lists(a.data, b.data))
        if a.kind == 'dict':
            if a.data == b.data:
                return a
            ea, eb = dict(a.data[0]), dict(b.data[0])
            ent = tuple((k, v) for k, v in a.data[0] if eb.get(k) == v)
            return Obj('dict', None, (ent, True))
        d = {}
        for k, v in a.data.items():
            w = b.data.get(k)
            if w == v:
                d[k] = v
            elif w is not None:
                d[k] = S('old', ('join', k))
        return Obj('inst', a.cls if a.cls == b.cls else None, d)

    def unified(self, a, b):
        """b with the lists its variables hold named as in a, where that is possible"""
        for k, fa in a.frames.items():
            fb = b.frames.get(k)
            if fb is None:
                continue
            for name, v in fa.items():
                w = fb.get(name)
                if w is None or v == w or v[0] != 'r' or w[0] != 'r' or v[1] in b.heap:
                    continue
                o, p = a.heap.get(v[1]), b.heap.get(w[1])
                if o is None or p is None or o.kind != p.kind or o.kind not in ('list', 'set'):
                    continue
                h = dict(b.heap)
                b = b.rename(w, v).copy()
                h = dict(b.heap)
                h[v[1]] = h.pop(w[1])
                b.heap = h
                fb = b.frames[k]
        return b

    def join(self, a, b):
        """Least precise state covering a and b (same monitor)."""
        self.joins += 1
        if self.client.unify:
            b = self.unified(a, b)
        pairs = {}
        n = a.copy()
        counter = [0]

        def jv(x, y, tag):
            if x == y:
                return x
            if (x, y) in pairs:
                return pairs[(x, y)]
            if x[0] == 't' and y[0] == 't' and len(x[1]) == len(y[1]):
                return T(jv(p, q, tag + (i,)) for i, (p, q) in enumerate(zip(x[1], y[1])))
            s = S('@', 'join') + tag
            used = set(pairs.values())
            while s in used:
                s = s + ('+',)
            pairs[(x, y)] = s
            return s
        fr = {}
        for k in a.frames:
            fa, fb = a.frames[k], b.frames.get(k)
            if fb is None:
                fr[k] = fa
                continue
            f = {}
            for name, v in fa.items():
                w = fb.get(name)
                if w is None:
                    if name.startswith('$'):
                        continue
                    w = S('maybe-unbound', k, name)
                f[name] = jv(v, w, (k, name))
            for name, w in fb.items():
                if name not in fa and not name.startswith('$'):
                    f[name] = jv(S('maybe-unbound', k, name), w, (k, name))
            fr[k] = f
        for k in b.frames:
            if k not in fr:
                fr[k] = b.frames[k]
        hp = {}
        for oid, o in a.heap.items():
            p = b.heap.get(oid)
            if p is None or p == o:
                hp[oid] = o
            elif o.kind == 'inst' and p.kind == 'inst':
                d = {}
                for at in set(o.data) | set(p.data):
                    v, w = o.data.get(at), p.data.get(at)
                    if v is None:
                        v = S('init', oid, at)
                    if w is None:
                        w = S('init', oid, at)
                    d[at] = jv(v, w, (oid, at))
                hp[oid] = Obj('inst', o.cls, d)
            elif o.kind == p.kind and o.kind in ('list', 'set'):
                da, db = o.data, p.data
                if len(da[0]) == len(db[0]) and all(x[0] == 'I' and y[0] == 'I' for x, y in zip(da[0], db[0])):
                    segs = tuple(('I', jv(x[1], y[1], (oid, i))) for i, (x, y) in enumerate(zip(da[0], db[0])))
                    lo = min(da[1], db[1])
                    hi = None if (da[2] is None or db[2] is None) else max(da[2], db[2])
                    hp[oid] = Obj(o.kind, o.cls, (segs, lo, hi))
                else:
                    ca = (self.collapse_segs(da[0], a), da[1], da[2])
                    cb = (self.collapse_segs(db[0], b), db[1], db[2])
                    hp[oid] = Obj(o.kind, o.cls, self.join_seg_lists(ca, cb))
            else:
                hp[oid] = self.join_obj(o, p)
        for oid, p in b.heap.items():
            if oid not in hp:
                hp[oid] = p
        pend = {}
        for k in set(a.pend) | set(b.pend):
            if k in a.pend and k in b.pend:
                pend[k] = jv(a.pend[k], b.pend[k], ('pend', k))
            else:
                pend[k] = a.pend.get(k) or b.pend.get(k)
        n.pend = pend
        # facts: intersection, plus facts that agree after pairing
        fx = {}
        for at, t in a.facts.items():
            if b.facts.get(at) == t:
                fx[at] = t
        if pairs:
            fa = self._pair_facts(a, {x: s for (x, y), s in pairs.items()})
            fb = self._pair_facts(b, {y: s for (x, y), s in pairs.items()})
            for at, t in fa.items():
                if fb.get(at) == t:
                    fx[at] = t
            for (x, y), s in pairs.items():
                tx, ty = a.known_truth(x), b.known_truth(y)
                if tx is not None and tx == ty:
                    fx[O('truth', s)] = tx
                if (is_c(x) and x[2] is not None or x[0] in 'rtfbk') and (is_c(y) and y[2] is not None or y[0] in 'rtfbk'):
                    fx[mk_eq(s, NONE)] = False
        n.frames = fr
        n.heap = hp
        n.facts = fx
        n.seen = a.seen | b.seen
        n.lenrefs = a.lenrefs | b.lenrefs
        n.guess = a.guess or b.guess or self.exact and (len(fx) < len(a.facts) or len(fx) < len(b.facts))
        return n

    def _pair_facts(self, st, m):
        out = {}
        for at, t in st.facts.items():
            for x, s in m.items():
                if not is_c(x) and mentions(at, x):
                    out[subst(at, x, s)] = t
        for x, s in m.items():
            e = st.eqc(x)
            if e is not None:
                out[('eqc', s)] = e
        return out

    # -- widening at loop heads --------------------------------------------
    def widen(self, first, st, ctx, node, live=None):
        """Collapse what grew since the loop was first entered."""
        ch = {}
        for oid, o in st.heap.items():
            if o.kind in ('list', 'set'):
                f = first.heap.get(oid)
                if f is None or f.data != o.data:
                    segs = o.data[0]
                    ns = self.collapse_segs(segs, st)
                    lo, hi = o.data[1], o.data[2]
                    if f is not None:
                        if f.data[0]:
                            ns = self.collapse_segs(f.data[0] + segs, st) if f.data[0] != segs else ns
                        lo = min(lo, max(f.data[1], 1)) if lo != f.data[1] else lo
                        if hi != f.data[2]:
                            hi = None
                    else:
                        lo = min(lo, 1)
                        if hi is not None and hi > 1:
                            hi = None
                    d = (ns, lo, hi)
                    if d != o.data:
                        ch[oid] = Obj(o.kind, o.cls, d)
        if ch:
            n = st.copy()
            n.heap = dict(st.heap)
            n.heap.update(ch)
            for oid in ch:
                if R(oid) and any(mentions(a, O('len', R(oid))) for a in n.facts):
                    n.facts = {a: t for a, t in n.facts.items() if not mentions(a, O('len', R(oid)))}
            st = n
        fr = None
        for k, f in st.frames.items():
            f0 = first.frames.get(k, {})
            for name, v in f.items():
                if name.startswith('$p'):
                    continue
                w = f0.get(name)
                if w is None or w == v:
                    if depth(v) > 12:
                        st = self.setw(st, k, name, S('wid', k, name))
                    continue
                if (num(v) and v[1] != 'bool' and (w is not None)) or v[0] == 'lin' or \
                        (v[0] == 'o' and depth(v) > depth(w) + 2) or depth(v) > 12:
                    st = self.setw(st, k, name, S('wid', k, name))
        for oid, o in list(st.heap.items()):
            if o.kind != 'inst':
                continue
            f = first.heap.get(oid)
            for a, v in o.data.items():
                w = f.data.get(a) if f is not None else None
                if w == v:
                    continue
                if w is None:
                    if f is None:
                        continue
                    w = S('init', oid, a)
                if (num(v) and v[1] != 'bool') or v[0] == 'lin' or depth(v) > depth(w) + 2:
                    d = dict(st.heap[oid].data)
                    d[a] = S('wid', oid, a)
                    st = st.drop_facts(S('wid', oid, a))
                    st = st.setobj(oid, Obj('inst', o.cls, d))
        return st

    def setw(self, st, frame, name, s):
        st = st.drop_facts(s)
        return st.setvar(frame, name, s)

    # -- liveness -------------------------------------------------------------
    def liveness(self, fi):
        l = self.live_cache.get(fi.fid)
        if l is None:
            l = self.live_cache[fi.fid] = Liveness(fi)
        return l

    def trim(self, st, ctx, live):
        f = st.frames.get(ctx.frame)
        if not f:
            return st
        L = self.liveness(ctx.fi)
        dead = [n for n in f if n not in live and n not in L.always and not n.startswith('$')]
        if dead:
            return st.delvars(ctx.frame, dead)
        return st

    # ========================= statements ====================================
    def exec_block(self, stmts, states, ctx):
        """states: [State] -> [(State, out)]; out None means fallthrough."""
        done = []
        cur = states
        L = self.liveness(ctx.fi)
        for s in stmts:
            nxt = []
            if self.client.loop_join and len(cur) > 1 and isinstance(s, (ast.While, ast.For, ast.AsyncFor)):
                cur = self._group([x.gc() for x in cur], self.client.loop_key)
            for st in cur:
                self.steps += 1
                if self.steps > self.budget or self.steps % 64 == 0 and time.time() > self.deadline:
                    raise Budget("step budget exhausted in %s" % ctx.fi.fid)
                for st2, out in self.exec_stmt(s, st, ctx):
                    if out is None:
                        live = L.out.get(id(s))
                        if live is not None:
                            st2 = self.trim(st2, ctx, live)
                        nxt.append(st2)
                    else:
                        done.append((st2, out))
            cur = self.reduce(nxt)
            if not cur:
                break
        res = [(st, None) for st in cur] + done
        if len(res) > self.client.merge_limit * 2:
            res = self.reduce_outs(res)
        return res

    def reduce_outs(self, res):
        g = {}
        for st, out in res:
            k = out.key() if isinstance(out, Exc) else out
            if isinstance(out, Exc):
                k = ('exc', out.kind, out.tag)
            elif isinstance(out, tuple) and out[0] == 'ret' and not is_c(out[1]):
                k = ('ret',) if out[1][0] not in ('t',) else ('ret', 't')
            g.setdefault(k, []).append((st, out))
        fin = []
        for k, lst in g.items():
            if len(lst) == 1:
                fin += lst
                continue
            out = lst[0][1]
            if isinstance(out, tuple) and out[0] == 'ret' and not is_c(out[1]):
                sts = [s.setvar('$ret', 'v', o[1]) for s, o in lst]
                for s in self.reduce(sts):
                    v = s.frames['$ret']['v']
                    s = s.copy()
                    s.frames = {a: b for a, b in s.frames.items() if a != '$ret'}
                    fin.append((s, ('ret', v)))
            elif isinstance(out, Exc):
                sts = [s.setvar('$ret', 'v', o.val) for s, o in lst]
                for s in self.reduce(sts):
                    v = s.frames['$ret']['v']
                    s = s.copy()
                    s.frames = {a: b for a, b in s.frames.items() if a != '$ret'}
                    fin.append((s, Exc(out.kind, v, out.line, out.tag)))
            else:
                for s in self.reduce([s for s, _ in lst]):
                    fin.append((s, out))
        return fin

    def exec_stmt(self, s, st, ctx):
        m = getattr(self, 'x_' + type(s).__name__, None)
        if m is None:
            return [(st, None)]
        return m(s, st, ctx)

    def x_Pass(self, s, st, ctx):
        return [(st, None)]

    x_Global = x_Nonlocal = x_Pass

    def x_Expr(self, s, st, ctx):
        if isinstance(s.value, ast.Constant):
            return [(st, None)]
        return [(a, v if isinstance(v, Exc) else None) for a, v in self.ev(s.value, st, ctx)]

    def x_Return(self, s, st, ctx):
        if s.value is None:
            return [(st, ('ret', NONE))]
        out = []
        for a, v in self.ev(s.value, st, ctx):
            if isinstance(v, Exc):
                out.append((a, v))
            else:
                a = self.client.on_return(self, a, ctx, ctx.fi, v, s)
                if a is not None:
                    out.append((a, ('ret', v)))
        return out

    def x_Break(self, s, st, ctx):
        return [(st, 'brk')]

    def x_Continue(self, s, st, ctx):
        return [(st, 'cont')]

    def x_Assert(self, s, st, ctx):
        out = []
        for a, v in self.ev(s.test, st, ctx):
            if isinstance(v, Exc):
                out.append((a, v))
                continue
            k = a.known_truth(v)
            if k is False:
                out.append((a, Exc(('cls', 'builtins.AssertionError'), None, s.lineno)))
            else:
                b = a.assume(v, True)
                out.append((b if b is not None else a, None))
        return out

    def x_Raise(self, s, st, ctx):
        if s.exc is None:
            f = st.frames.get(ctx.frame, {})
            cur = f.get('$exc')
            if cur is not None:
                e = self.exc_from(cur)
                return [(st, e)]
            return [(st, Exc(ANY_BASE, None, s.lineno))]
        out = []
        for a, v in self.ev(s.exc, st, ctx):
            if isinstance(v, Exc):
                out.append((a, v))
            else:
                out.append((a, self.to_exc(a, v, s)))
        return out

    def exc_from(self, packed):
        # ('t', (val, C(kind0), C(kind1), tag))
        val, k0, k1, tag = packed[1]
        return Exc((k0[2], k1[2]), val, 0, tag[2])

    def pack_exc(self, e):
        return T((e.val, C(e.kind[0]), C(e.kind[1]), C(e.tag)))

    def to_exc(self, st, v, node):
        if v[0] == 'r':
            o = st.heap.get(v[1])
            if o is not None and o.kind == 'inst' and o.cls:
                return Exc(('cls', o.cls), v, node.lineno)
        if v[0] == 'k':
            return Exc(('cls', v[1]), None, node.lineno)
        if v[0] == 'x':
            return Exc(('cls', v[1]), None, node.lineno)
        if v[0] == 'o' and v[1] == 'newexc':
            return Exc(('cls', v[2][2]), v, node.lineno)
        for f in st.frames.values():
            e = f.get('$exc')
            if e is not None and e[1][0] == v:
                return self.exc_from(e)
        if v[0] == 's' and len(v) > 2 and v[1] == 'exc':
            return Exc(('any', v[2]) if not isinstance(v[2], tuple) else ANY_EXC, v, node.lineno)
        return Exc(ANY_EXC, v, node.lineno)

    def x_Assign(self, s, st, ctx):
        out = []
        for a, v in self.ev(s.value, st, ctx):
            if isinstance(v, Exc):
                out.append((a, v))
                continue
            cur = [(a, None)]
            for t in s.targets:
                nxt = []
                for b, o in cur:
                    if o is not None:
                        nxt.append((b, o))
                    else:
                        nxt += self.assign(t, v, b, ctx)
                cur = nxt
            out += cur
        return out

    def x_AnnAssign(self, s, st, ctx):
        if s.value is None:
            return [(st, None)]
        out = []
        for a, v in self.ev(s.value, st, ctx):
            if isinstance(v, Exc):
                out.append((a, v))
            else:
                out += self.assign(s.target, v, a, ctx)
        return out

    def x_AugAssign(self, s, st, ctx):
        load = self.as_load(s.target)
        out = []
        for a, cur in self.ev(load, st, ctx):
            if isinstance(cur, Exc):
                out.append((a, cur))
                continue
            for b, v in self.ev(s.value, a, ctx):
                if isinstance(v, Exc):
                    out.append((b, v))
                    continue
                o = b.heap.get(cur[1]) if cur[0] == 'r' else None
                if o is not None and o.kind == 'list' and isinstance(s.op, ast.Add):
                    b = self.list_extend(b, cur[1], v, ctx, s)
                    b = self.client.on_mutate(self, b, ctx, cur[1], 'extend', (v,), s)
                    out += self.assign(s.target, cur, b, ctx)
                    continue
                for c, r in self.binop(s.op, cur, v, b, ctx, s):
                    if isinstance(r, Exc):
                        out.append((c, r))
                    else:
                        out += self.assign(s.target, r, c, ctx)
        return out

    _loads = {}

    def as_load(self, t):
        k = id(t)
        if k in self._loads:
            return self._loads[k][1]
        n = ast.copy_location(type(t)(**{f: (ast.Load() if f == 'ctx' else getattr(t, f)) for f in t._fields}), t)
        self._loads[k] = (t, n)
        return n

    def assign(self, t, v, st, ctx):
        if isinstance(t, ast.Name):
            c = self.frame_for_store(t.id, ctx)
            return [(st.setvar(c, t.id, v), None)]
        if isinstance(t, ast.Starred):
            return self.assign(t.value, v, st, ctx)
        if isinstance(t, (ast.Tuple, ast.List)):
            return self.unpack(t, v, st, ctx)
        if isinstance(t, ast.Attribute):
            out = []
            for a, ov in self.ev(t.value, st, ctx):
                if isinstance(ov, Exc):
                    out.append((a, ov))
                else:
                    out += self.set_attr(a, ov, t.attr, v, ctx, t)
            return out
        if isinstance(t, ast.Subscript):
            out = []
            for a, ov in self.ev(t.value, st, ctx):
                if isinstance(ov, Exc):
                    out.append((a, ov))
                    continue
                for b, k in self.ev(t.slice, a, ctx):
                    if isinstance(k, Exc):
                        out.append((b, k))
                    else:
                        out += self.set_item(b, ov, k, v, ctx, t)
            return out
        return [(st, None)]

    def frame_for_store(self, name, ctx):
        c = ctx
        while c is not None:
            if name in c.fi.locals:
                return c.frame
            if name in c.fi.nonlocals:
                c = c.outer
                continue
            return ctx.frame
        return ctx.frame

    def unpack(self, t, v, st, ctx):
        elts = t.elts
        n = len(elts)
        star = [i for i, e in enumerate(elts) if isinstance(e, ast.Starred)]
        vals = None
        if v[0] == 't':
            vals = list(v[1])
        elif v[0] == 'r':
            o = st.heap.get(v[1])
            if o is not None and o.kind == 'list' and all(x[0] == 'I' for x in o.data[0]) and len(o.data[0]) == o.data[1]:
                vals = [x[1] for x in o.data[0]]
        if vals is not None and star:
            i = star[0]
            if len(vals) >= n - 1:
                mid = vals[i:len(vals) - (n - 1 - i)]
                st, lv = self.new_list(st, ctx, t, mid, tag='unp')
                vals = vals[:i] + [lv] + vals[len(vals) - (n - 1 - i):]
        if vals is not None:
            if len(vals) != n:
                return [(st, Exc(('cls', 'builtins.ValueError'), None, t.lineno))]
            cur = [(st, None)]
            for e, x in zip(elts, vals):
                nxt = []
                for a, o in cur:
                    nxt += [(a, o)] if o is not None else self.assign(e, x, a, ctx)
                cur = nxt
            return cur
        cur = [(st, None)]
        for i, e in enumerate(elts):
            nxt = []
            for a, o in cur:
                if o is not None:
                    nxt.append((a, o))
                    continue
                x = O('item', v, C(i)) if v[0] in ('s', 'o') and depth(v) < 8 else None
                if x is None:
                    a, x = self.fresh(a, ctx, e, 'unp')
                nxt += self.assign(e, x, a, ctx)
            cur = nxt
        return cur

    def x_Delete(self, s, st, ctx):
        cur = [(st, None)]
        for t in s.targets:
            nxt = []
            for a, o in cur:
                if o is not None:
                    nxt.append((a, o))
                    continue
                if isinstance(t, ast.Name):
                    nxt.append((a.delvars(ctx.frame, [t.id]), None))
                elif isinstance(t, ast.Subscript):
                    for b, ov in self.ev(t.value, a, ctx):
                        if isinstance(ov, Exc):
                            nxt.append((b, ov))
                            continue
                        for c, k in self.ev(t.slice, b, ctx):
                            if isinstance(k, Exc):
                                nxt.append((c, k))
                            else:
                                nxt += self.del_item(c, ov, k, ctx, t)
                else:
                    nxt.append((a, None))
            cur = nxt
        return cur

    def x_If(self, s, st, ctx):
        tr, fa, out = [], [], []
        for a, t in self.cond(s.test, st, ctx):
            if isinstance(t, Exc):
                out.append((a, t))
            elif t:
                tr.append(a)
            else:
                fa.append(a)
        if tr:
            out += self.exec_block(s.body, self.reduce(tr), ctx)
        if fa:
            if s.orelse:
                out += self.exec_block(s.orelse, self.reduce(fa), ctx)
            else:
                out += [(a, None) for a in fa]
        return out

    def x_While(self, s, st, ctx):
        def head(a):
            return self.cond(s.test, a, ctx)

        def body(a):
            return self.exec_block(s.body, [a], ctx)
        return self.fixpoint(s, st, ctx, head, body, s.orelse)

    def fixpoint(self, node, st, ctx, head, body, orelse, head_live=True):
        """head(state) -> [(state, True=iterate / False=leave / Exc)]"""
        L = self.liveness(ctx.fi).head.get(id(node)) if head_live else None
        if L is not None:
            st = self.trim(st, ctx, L)
        first = st
        exits, out = [], []
        acc = {self.client.loop_key(st): st}
        seen = set()
        work = [st]
        rounds = 0
        while work:
            rounds += 1
            if rounds > 40:
                work = self._group(work, lambda q: q.mon)
                if rounds > 80:
                    raise Budget("loop at %s does not stabilise" % self.loc(ctx, node))
            nxt = []
            for a in work:
                a = a.gc()
                k = a.key()
                if k in seen:
                    continue
                seen.add(k)
                self.states += 1
                for b, t in head(a):
                    if isinstance(t, Exc):
                        out.append((b, t))
                    elif not t:
                        exits.append(b)
                    else:
                        for c, o in body(b):
                            if o is None or o == 'cont':
                                if L is not None:
                                    c = self.trim(c, ctx, L)
                                if rounds > self.client.unroll:
                                    c = self.widen(first, c, ctx, node)
                                nxt.append(c)
                            elif o == 'brk':
                                out.append((c, 'BRK'))
                            else:
                                out.append((c, o))
            if self.client.loop_join:
                work = []
                for c in self._group([x.gc() for x in nxt], self.client.loop_key):
                    q = self.client.loop_key(c)
                    c = self.join(acc[q], c) if q in acc else c
                    acc[q] = c
                    work.append(c)
            else:
                work = self.reduce(nxt)
        exits = self.reduce(exits)
        res = []
        if exits:
            if orelse:
                res += self.exec_block(orelse, exits, ctx)
            else:
                res += [(a, None) for a in exits]
        fin = []
        for a, o in out:
            fin.append((a, None if o == 'BRK' else o))
        res += fin
        if len(res) > self.client.merge_limit:
            res = self.reduce_outs(res)
        return res

    def x_For(self, s, st, ctx):
        def body(a, elem):
            out = []
            for b, o in self.assign(s.target, elem, a, ctx):
                if o is not None:
                    out.append((b, o))
                else:
                    out += self.exec_block(s.body, [b], ctx)
            return out
        res = []
        for a, v in self.ev(s.iter, st, ctx):
            if isinstance(v, Exc):
                res.append((a, v))
            else:
                res += self.loop_over(v, a, ctx, s, body, s.orelse)
        return res

    x_AsyncFor = x_For

    def iter_items(self, st, v):
        """Known element list of a value, or None."""
        if v[0] == 't':
            return list(v[1])
        if v[0] == 'o' and v[1] == 'cdict':
            return [k for k, _ in v[2:]]
        if v[0] == 'o' and v[1] == 'reversed' and len(v) == 3:
            r = self.iter_items(st, v[2])
            return r[::-1] if r is not None else None
        if is_c(v) and isinstance(v[2], str) and len(v[2]) <= 8:
            return [C(c) for c in v[2]]
        if is_c(v) and isinstance(v[2], (tuple, list)) and len(v[2]) <= 8:
            return [C(c) for c in v[2]]
        if v[0] == 'r':
            o = st.heap.get(v[1])
            if o is not None and o.kind in ('list', 'set') and all(x[0] == 'I' for x in o.data[0]):
                if o.kind == 'set' or len(o.data[0]) == o.data[1]:
                    return [x[1] for x in o.data[0]]
            if o is not None and o.kind == 'dict' and not o.data[1]:
                return [k for k, _ in o.data[0]]
        return None

    def elem_of(self, st, ctx, node, v, tag='el'):
        """An arbitrary element of collection v."""
        st, e = self.fresh(st, ctx, node, tag)
        if v[0] == 'r':
            o = st.heap.get(v[1])
            if o is not None and o.kind in ('list', 'set'):
                segs = self.collapse_segs(o.data[0], st)
                if segs:
                    _, props, src = segs[0]
                    if props:
                        n = st.copy()
                        n.facts = dict(st.facts)
                        for a, t in props:
                            if a == ('eqc', ELEM):
                                return st, t
                            n.facts[subst(a, ELEM, e)] = t
                        st = n
                    if src is not None:
                        st = st.setfact(O('in', e, src), True)
        elif v[0] in ('s', 'o'):
            st = st.setfact(O('in', e, v), True)
        return st, e

    def listing(self, st, v):
        """Every element of an iterable in order, where all are known, or None."""
        if v[0] != 'o':
            return self.iter_items(st, v)
        if v[1] == 'enumerate':
            items = self.listing(st, v[2])
            k = v[3] if len(v) > 3 else C(0)
            if items is None or not is_c(k):
                return None
            return [T((C(i + k[2]), x)) for i, x in enumerate(items)]
        if v[1] == 'zip':
            cols = [self.listing(st, c) for c in v[2:]]
            return None if None in cols else [T(x) for x in zip(*cols)]
        if v[1] in ('iter', 'reversed') and len(v) == 3:
            items = self.listing(st, v[2])
            return items[::-1] if items is not None and v[1] == 'reversed' else items
        if v[1] == 'sorted':
            return self.listing(st, v[2])
        if v[1] in ('items', 'values') and v[2][0] == 'r':
            o = st.heap.get(v[2][1])
            if o is not None and o.kind == 'dict' and not o.data[1]:
                return [T((k, x)) if v[1] == 'items' else x for k, x in o.data[0]]
        return self.iter_items(st, v)

    def arbitrary(self, st, ctx, node, v, tag='el'):
        """An arbitrary element of an iterable."""
        if v[0] == 'o' and v[1] == 'enumerate':
            st, e = self.arbitrary(st, ctx, node, v[2], tag)
            st, i = self.fresh(st, ctx, node, 'idx')
            return st, T((i, e))
        if v[0] == 'o' and v[1] == 'zip':
            es = []
            for j, c in enumerate(v[2:]):
                st, e = self.arbitrary(st, ctx, node, c, 'el%d' % j)
                es.append(e)
            return st, T(es)
        if v[0] == 'o' and v[1] in ('reversed', 'sorted', 'iter'):
            return self.arbitrary(st, ctx, node, v[2], tag)
        if v[0] == 'o' and v[1] == 'range':
            st, e = self.fresh(st, ctx, node, 'rng')
            st = st.setfact(O('isinst', e, 'int'), True)
            args = v[2:]
            x, y = (C(0), args[0]) if len(args) == 1 else (args[0], args[1])
            b = st.assume_lt(e, x, False)
            if b is not None:
                c = b.assume_lt(e, y, True)
                if c is not None:
                    st = c
            return st, e
        if v[0] == 'o' and v[1] == 'items':
            st, k = self.elem_of(st, ctx, node, v[2], 'k')
            st, x = self.fresh(st, ctx, node, 'val')
            e = T((k, x))
        else:
            st, e = self.elem_of(st, ctx, node, v, tag)
        return self.client.on_iter(self, st, ctx, v, e, node), e

    def loop_over(self, v, st, ctx, node, body, orelse=None, elem_node=None):
        gen = self.as_generator(v)
        if gen is not None:
            return self.loop_gen(gen, st, ctx, node, body, orelse)
        inner = v
        while inner[0] == 'o' and inner[1] in ('reversed', 'sorted', 'iter', 'enumerate', 'zip'):
            inner = inner[2]
        items = self.listing(st, v)
        if items is not None and len(items) <= self.client.items_limit:
            cur = [st]
            out = []
            for it in items:
                nxt = []
                for a in cur:
                    for b, o in body(a, it):
                        if o is None or o == 'cont':
                            nxt.append(b)
                        elif o == 'brk':
                            out.append((b, 'BRK'))
                        else:
                            out.append((b, o))
                cur = self.reduce(nxt)
            res = []
            if cur:
                res += self.exec_block(orelse, cur, ctx) if orelse else [(a, None) for a in cur]
            return res + [(a, None if o == 'BRK' else o) for a, o in out]
        # unknown number of elements
        flag = '$it%d:%d' % (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        lo, hi = st.len_bounds(inner)
        if inner[0] == 'o' and inner[1] == 'range':
            lo, hi = 0, None
            args = inner[2:]
            a, b = (C(0), args[0]) if len(args) == 1 else (args[0], args[1])
            k = st.known_lt(a, b)
            if k is True:
                lo = 1
            elif k is False:
                lo, hi = 0, 0

        def head(a):
            n = a.frames.get(ctx.frame, {}).get(flag)
            out = []
            if hi == 0:
                return [(a.delvars(ctx.frame, [flag]), False)]
            if not (n == C(0) and lo > 0):
                out.append((a.delvars(ctx.frame, [flag]), False))
            out.append((a, True))
            return out

        def bd(a):
            a = a.setvar(ctx.frame, flag, C('n'))
            a, e = self.arbitrary(a, ctx, node, v)
            return body(a, e)
        st = st.setvar(ctx.frame, flag, C(0))
        # keep the iterated value alive
        hold = flag + 'v'
        st = st.setvar(ctx.frame, hold, v)
        res = self.fixpoint(node, st, ctx, head, bd, orelse)
        return [(a.delvars(ctx.frame, [flag, hold]), o) for a, o in res]

    # -- generators -----------------------------------------------------------
    def as_generator(self, v):
        if v[0] == 'gen':
            return v
        return None

    def loop_gen(self, gen, st, ctx, node, body, orelse):
        """Run a repository generator, its yields executing the loop body."""
        _, tgt, args, kwargs = gen
        slot = ('g', ctx.cid, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        saved = {}

        def cb(a, val):
            out = []
            for b, o in body(a, val):
                if o is None or o == 'cont':
                    out.append((b, NONE))
                else:
                    # leave the loop: unwind the generator with a private marker
                    key = 'm%d' % len(saved)
                    saved[key] = o
                    out.append((b, Exc(('cls', 'builtins.GeneratorExit'), None, 0, (slot, key))))
            return out
        res = []
        for a, v in self.run_function(tgt, args, kwargs, st, ctx, node, yield_cb=cb):
            if isinstance(v, Exc):
                if v.tag and isinstance(v.tag, tuple) and v.tag[0] == slot:
                    o = saved[v.tag[1]]
                    res.append((a, None if o == 'brk' else o))
                else:
                    res.append((a, v))
            else:
                if orelse:
                    res += self.exec_block(orelse, [a], ctx)
                else:
                    res.append((a, None))
        return res

    # -- try / with -------------------------------------------------------------
    def x_Try(self, s, st, ctx):
        res = self.exec_block(s.body, [st], ctx)
        out = []
        okstates = []
        for a, o in res:
            if o is None:
                okstates.append(a)
            elif isinstance(o, Exc):
                out += self.handle(s, a, o, ctx)
            else:
                out.append((a, o))
        if okstates:
            if s.orelse:
                out += self.exec_block(s.orelse, okstates, ctx)
            else:
                out += [(a, None) for a in okstates]
        if len(out) > self.client.merge_limit:
            out = self.reduce_outs(out)
        if not s.finalbody:
            return out
        fin = []
        for a, o in out:
            slot = '$fin%d' % s.lineno
            if isinstance(o, tuple) and o[0] == 'ret':
                a = a.setvar(ctx.frame, slot, o[1])
            elif isinstance(o, Exc):
                a = a.setvar(ctx.frame, slot, o.val)
            for b, p in self.exec_block(s.finalbody, [a], ctx):
                if p is not None:
                    fin.append((b, p))
                    continue
                if isinstance(o, tuple) and o[0] == 'ret':
                    v = b.frames.get(ctx.frame, {}).get(slot, o[1])
                    fin.append((b.delvars(ctx.frame, [slot]), ('ret', v)))
                elif isinstance(o, Exc):
                    v = b.frames.get(ctx.frame, {}).get(slot, o.val)
                    fin.append((b.delvars(ctx.frame, [slot]), Exc(o.kind, v, o.line, o.tag)))
                else:
                    fin.append((b, o))
        return fin

    x_TryStar = x_Try

    def handle(self, s, st, e, ctx):
        """Route an exception through the handlers of one try statement."""
        out = []
        pending = [(st, e)]
        for h in s.handlers:
            nxt = []
            for a, x in pending:
                for kind in self.catches(h, x, ctx):
                    if kind[0] == 'no':
                        nxt.append((a, kind[1]))
                    else:
                        ee = kind[1]
                        b = a
                        slot = '$exc'
                        prev = b.frames.get(ctx.frame, {}).get(slot)
                        b = b.setvar(ctx.frame, slot, self.pack_exc(ee))
                        if h.name and ee.kind[0] == 'cls' and ee.val[0] == 's':
                            b = b.setfact(O('isinst', ee.val, ee.kind[1]), True)
                        if h.name:
                            b = b.setvar(ctx.frame, h.name, ee.val)
                        b = b.copy().note("%s: except %s" % (self.loc(ctx, h), self.src(h.type) if h.type else ''))
                        for c, o in self.exec_block(h.body, [b], ctx):
                            c = c.delvars(ctx.frame, [slot])
                            if prev is not None:
                                c = c.setvar(ctx.frame, slot, prev)
                            out.append((c, o))
            pending = nxt
        return out + pending

    def catches(self, h, e, ctx):
        """-> list of ('yes', Exc) / ('no', Exc)"""
        if h.type is None:
            return [('yes', e)]
        types = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
        names = []
        for t in types:
            names += self.exc_names(t, ctx)
        if e.tag and isinstance(e.tag, tuple) and e.kind == ('cls', 'builtins.GeneratorExit'):
            if 'builtins.BaseException' in names or 'builtins.GeneratorExit' in names:
                return [('yes', e)]
            return [('no', e)]
        kind, cls = e.kind
        for n in names:
            if self.repo.is_exc_subclass(cls, n):
                return [('yes', e)]
        if kind == 'any':
            for n in names:
                if n == '?' or self.repo.is_exc_subclass(n, cls):
                    return [('yes', Exc(('any' if n != '?' else 'any', n if n != '?' else cls), e.val, e.line, e.tag)),
                            ('no', e)]
        else:
            if '?' in names:
                return [('yes', e), ('no', e)]
        return [('no', e)]

    def exc_names(self, t, ctx):
        if isinstance(t, ast.Name):
            r = self.repo.resolve_global(ctx.fi.module, t.id)
            if r is None:
                return ['?']
            if r[0] in ('k', 'x'):
                return [r[1]]
            if r[0] == 'v':
                n = r[2]
                if isinstance(n, ast.Tuple):
                    o = []
                    for e in n.elts:
                        o += self.exc_names(e, ctx)
                    return o
            return ['?']
        if isinstance(t, ast.Attribute):
            d = ast.unparse(t)
            parts = d.split('.')
            r = self.repo.resolve_global(ctx.fi.module, parts[0])
            if r and r[0] == 'x':
                full = '.'.join([r[1]] + parts[1:])
                if full in self.repo.classes:
                    return [full]
                return [full]
            return ['?']
        return ['?']

    def x_With(self, s, st, ctx):
        return self.with_items(s, list(s.items), st, ctx)

    x_AsyncWith = x_With

    def with_items(self, s, items, st, ctx):
        if not items:
            return self.exec_block(s.body, [st], ctx)
        it, rest = items[0], items[1:]
        out = []
        for a, cm in self.ev(it.context_expr, st, ctx):
            if isinstance(cm, Exc):
                out.append((a, cm))
                continue

            def inner(b, val):
                r = []
                if it.optional_vars is not None:
                    for c, o in self.assign(it.optional_vars, val, b, ctx):
                        if o is not None:
                            r.append((c, o))
                        else:
                            r += self.with_items(s, rest, c, ctx)
                else:
                    r += self.with_items(s, rest, b, ctx)
                return r
            out += self.with_cm(cm, a, ctx, s, inner)
        return out

    def with_cm(self, cm, st, ctx, node, inner):
        if cm[0] == 'gen':           # @contextmanager generator of the repository
            slot = ('w', ctx.cid, node.lineno, node.col_offset)
            _, tgt, args, kwargs = cm
            outs = {}

            def cb(a, val):
                r = []
                for b, o in inner(a, val):
                    if o is None:
                        r.append((b.setvar(ctx.frame, '$w%d' % node.lineno, C('ok')), NONE))
                    elif isinstance(o, Exc):
                        r.append((b, o))
                    else:
                        key = 'w%d' % len(outs)
                        outs[key] = o
                        r.append((b.setvar(ctx.frame, '$w%d' % node.lineno, C(key)), NONE))
                return r
            res = []
            for a, v in self.run_function(tgt, args, kwargs, st, ctx, node, yield_cb=cb):
                k = a.frames.get(ctx.frame, {}).get('$w%d' % node.lineno)
                a = a.delvars(ctx.frame, ['$w%d' % node.lineno])
                if isinstance(v, Exc):
                    res.append((a, v))
                elif k is not None and k[2] in outs:
                    res.append((a, outs[k[2]]))
                else:
                    res.append((a, None))
            return res
        o = st.heap.get(cm[1]) if cm[0] == 'r' else None
        if o is not None and o.kind == 'inst' and o.cls and o.cls in self.repo.classes:
            for en, ex in (('__enter__', '__exit__'), ('__aenter__', '__aexit__')):
                m = self.repo.find_member(o.cls, en)
                x = self.repo.find_member(o.cls, ex)
                if m and x:
                    res = []
                    for a, val in self.call_method(st, cm, en, [], {}, ctx, node, run=True):
                        if isinstance(val, Exc):
                            res.append((a, val))
                            continue
                        for b, oo in inner(a, val):
                            if isinstance(oo, Exc):
                                ex_args = [S('exctype'), oo.val, S('tb')]
                                b = b.setfact(O('truth', ex_args[0]), True)
                                for c, r in self.call_method(b, cm, ex, ex_args, {}, ctx, node, run=True):
                                    if isinstance(r, Exc):
                                        res.append((c, r))
                                    else:
                                        for d, t in self.branch(c, r, ctx, node):
                                            res.append((d, None if t else oo))
                            else:
                                for c, r in self.call_method(b, cm, ex, [NONE, NONE, NONE], {}, ctx, node, run=True):
                                    res.append((c, r if isinstance(r, Exc) else oo))
                    return res
        if cm[0] == 'o' and cm[1] == 'suppress':
            res = []
            for a, oo in inner(st, NONE):
                if isinstance(oo, Exc):
                    names = [x[1] for x in cm[2:] if x[0] in ('x', 'k')]
                    if any(self.repo.is_exc_subclass(oo.kind[1], n) for n in names):
                        res.append((a, None))
                    elif oo.kind[0] == 'any' and any(self.repo.is_exc_subclass(n, oo.kind[1]) for n in names):
                        res.append((a, None))
                        res.append((a, oo))
                    else:
                        res.append((a, oo))
                else:
                    res.append((a, oo))
            return res
        own = self.client.on_enter(self, st, ctx, cm, node)
        if own is not None:
            res = []
            for a, val in own:
                if isinstance(val, Exc):
                    res.append((a, val))
                else:
                    res += [(self.client.on_leave(self, b, ctx, cm, node), oo) for b, oo in inner(a, val)]
            return res
        val = O('entered', cm)
        return inner(st, val)

    def x_FunctionDef(self, s, st, ctx):
        fid = self.repo.node_func.get(id(s))
        return [(st.setvar(ctx.frame, s.name, ('f', fid, ctx.frame)), None)]

    x_AsyncFunctionDef = x_FunctionDef

    def x_ClassDef(self, s, st, ctx):
        return [(st.setvar(ctx.frame, s.name, S('localclass', s.name)), None)]

    def x_Import(self, s, st, ctx):
        out = st
        res = []
        for a in s.names:
            out = out.setvar(ctx.frame, (a.asname or a.name).split('.')[0], ('x', a.name if a.asname else a.name.split('.')[0]))
        mods = [a.name for a in s.names]
        tgt = Target('import', mods[0])
        for k in self.client.may_raise(self, st, ctx, tgt, s):
            res.append((st, Exc(k, None, s.lineno)))
        return res + [(out, None)]

    def x_ImportFrom(self, s, st, ctx):
        for a in s.names:
            mod = self.repo.modules.get(s.module or '')
            v = ('x', "%s.%s" % (s.module, a.name))
            if mod is not None:
                v = self.global_value(mod, a.name)
            st = st.setvar(ctx.frame, a.asname or a.name, v)
        return [(st, None)]

    def x_Match(self, s, st, ctx):
        out = []
        for a, v in self.ev(s.subject, st, ctx):
            if isinstance(v, Exc):
                out.append((a, v))
                continue
            pend = [a]
            for c in s.cases:
                nxt = []
                for b in pend:
                    for d, t in self.match_pat(c.pattern, v, b, ctx):
                        if not t:
                            nxt.append(d)
                            continue
                        gs = [(d, True)]
                        if c.guard is not None:
                            gs = self.cond(c.guard, d, ctx)
                        for e, g in gs:
                            if isinstance(g, Exc):
                                out.append((e, g))
                            elif g:
                                out += self.exec_block(c.body, [e], ctx)
                            else:
                                nxt.append(e)
                pend = nxt
            out += [(b, None) for b in pend]
        return out

    def match_pat(self, p, v, st, ctx):
        if isinstance(p, ast.MatchValue):
            out = []
            for a, x in self.ev(p.value, st, ctx):
                out += self.branch(a, self.mk_cmp_eq(a, v, x), ctx, p)
            return out
        if isinstance(p, ast.MatchSingleton):
            return self.branch(st, self.mk_cmp_eq(st, v, C(p.value)), ctx, p)
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    st = st.setvar(ctx.frame, p.name, v)
                return [(st, True)]
            out = []
            for a, t in self.match_pat(p.pattern, v, st, ctx):
                if t and p.name:
                    a = a.setvar(ctx.frame, p.name, v)
                out.append((a, t))
            return out
        if isinstance(p, ast.MatchOr):
            out, pend = [], [st]
            for q in p.patterns:
                nxt = []
                for a in pend:
                    for b, t in self.match_pat(q, v, a, ctx):
                        if t:
                            out.append((b, True))
                        else:
                            nxt.append(b)
                pend = nxt
            return out + [(a, False) for a in pend]
        st, u = self.fresh(st, ctx, p, 'pat')
        return self.branch(st, u, ctx, p)
