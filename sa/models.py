"""Models of builtins, library functions and methods of builtin values."""

import ast
import string

from .values import (C, S, O, R, T, NONE, TRUE, FALSE, is_c, num, Exc, ANY_EXC, depth)
from .state import Obj, BOOL_OPS, STR_OPS
from .engine import Target
from .exprs import Engine, PURE_METHODS, BOOL_METHODS, FOLD_STR
from .repo import EXC_PARENT

BT = frozenset(['str', 'int', 'float', 'list', 'dict', 'tuple', 'set', 'bytes', 'frozenset', 'type'])
MUTATORS = frozenset(['append', 'extend', 'insert', 'pop', 'remove', 'clear', 'sort', 'reverse', 'add',
                      'discard', 'update', 'setdefault', 'popitem', 'appendleft', 'popleft'])
PASS_THROUGH = frozenset(['asyncio.shield', 'typing.cast'])
RUN_NOW = frozenset(['asyncio.create_task', 'asyncio.ensure_future', 'asyncio.wait_for', 'asyncio.run',
                     'asyncio.shield', 'asyncio.gather'])
PURE_EXT = ('os.path.', 're.escape', 'shlex.quote', 'inspect.', 'operator.')


class Analyzer(Engine):

    # -- helpers ---------------------------------------------------------------
    def ext_raises(self, dotted, st, ctx, node, args=()):
        out = []
        for k in self.client.may_raise(self, st, ctx, Target('ext', dotted, val=tuple(args)), node):
            s = st.copy().note("%s: %s raises %s" % (self.loc(ctx, node), self.src(node), k[1].split('.')[-1]))
            out.append((s, Exc(k, None, getattr(node, 'lineno', 0))))
        return out

    def kind_of(self, st, v):
        """Concrete builtin type name / repository class of a value, or None."""
        e = st.eqc(v)
        if e is not None:
            return e[1]
        t = v[0]
        if t == 't':
            return 'tuple'
        if t == 'lin':
            return 'int'
        if t == 'r':
            o = st.heap.get(v[1])
            if o is None:
                return None
            return o.cls if o.kind == 'inst' else o.kind
        if t in ('f', 'b'):
            return 'function'
        if t == 'k':
            return 'type'
        if t == 'o':
            if v[1] in STR_OPS or v[1] == 'cat':
                return 'str'
            if v[1] in ('len', 'int', 'index', 'find', 'count'):
                return 'int'
            if v[1] in BOOL_OPS:
                return 'bool'
            if v[1] == 'newexc':
                return v[2][2]
        for a, tr in st.facts.items():
            if tr is True and a[0] == 'o' and a[1] == 'isinst' and a[2] == v:
                return a[3]
        return None

    def isinst(self, st, v, cn):
        """TRUE/FALSE/atom for isinstance(v, class named cn)."""
        k = self.kind_of(st, v)
        atom = O('isinst', v, cn)
        if st.facts.get(atom) is not None:
            return C(st.facts[atom])
        if k is None:
            return atom
        if k == cn or cn == 'object':
            return TRUE
        if k in EXC_PARENT or k in self.repo.classes and self.repo.is_exc_subclass(k, 'builtins.BaseException'):
            if self.repo.is_exc_subclass(k, cn if '.' in cn else 'builtins.' + cn):
                return TRUE
            if cn in BT or v[0] == 's' and (cn in self.repo.classes or cn in EXC_PARENT or 'builtins.' + cn in EXC_PARENT):
                return FALSE
            return atom
        if k == 'bool':
            return C(cn == 'int')
        if k == 'NoneType':
            return FALSE
        if k in self.repo.classes:
            if cn in self.repo.mro(k) or 'builtins.' + cn in self.repo.mro(k):
                return TRUE
            if v[0] == 'r' and not isinstance(v[1], str) and cn in self.repo.classes:
                return FALSE            # made here: of exactly this class
            if any(b not in self.repo.classes for b in self.repo.mro(k)) or cn in self.repo.classes and k in self.repo.mro(cn):
                return atom
            return FALSE
        if k in EXC_PARENT:
            if self.repo.is_exc_subclass(k, cn if '.' in cn else 'builtins.' + cn):
                return TRUE
            return FALSE if cn in BT or cn in self.repo.classes else atom
        if k in BT or k == 'function':
            if cn in BT or cn in self.repo.classes:
                return FALSE
        return atom

    def class_names(self, v, st):
        """Names for the second argument of isinstance, or None."""
        if v[0] == 't':
            out = []
            for x in v[1]:
                n = self.class_names(x, st)
                if n is None:
                    return None
                out += n
            return out
        if v[0] == 'k':
            return [v[1]]
        if v[0] == 'x':
            return [v[1][9:] if v[1].startswith('builtins.') else v[1]]
        return None

    def any_of(self, atoms, st, ctx, node):
        out = []
        cur = st
        for a in atoms:
            nxt = None
            for b, t in self.branch(cur, a, ctx, node):
                if t:
                    out.append((b, TRUE))
                else:
                    nxt = b
            if nxt is None:
                return out
            cur = nxt
        return out + [(cur, FALSE)]

    # -- builtins and library ------------------------------------------------------
    def call_ext(self, dotted, args, kwargs, st, ctx, node):
        tgt = Target('ext', dotted)
        r = self.client.on_call(self, st, ctx, tgt, args, kwargs, node)
        if r is not None:
            return r
        if dotted in EXC_PARENT or dotted == 'builtins.BaseException':
            return [(st, O('newexc', C(dotted), *args))]
        if not any(a[0] == 'star' for a in args):
            m = getattr(self, 'b_' + dotted.replace('.', '_'), None)
            if m is not None:
                try:
                    r = m(st, ctx, node, *args, **kwargs)
                except TypeError:
                    r = None
                if r is not None:
                    return r
        if dotted in RUN_NOW:
            return self.run_now(dotted, args, st, ctx, node)
        if dotted.startswith(PURE_EXT) and not kwargs:
            return self.ext_raises(dotted, st, ctx, node, args) + [(st, O(dotted, *args))]
        return self.opaque(tgt, args, kwargs, st, ctx, node)

    def run_now(self, dotted, args, st, ctx, node):
        exc = self.ext_raises(dotted, st, ctx, node, args)
        cur = [(st, NONE)]
        for a in args:
            if a[0] != 'co':
                continue
            nxt = []
            for s, v in cur:
                if isinstance(v, Exc):
                    nxt.append((s, v))
                else:
                    nxt += self.do_await(a, s, ctx, node)
            cur = nxt
        if not any(a[0] == 'co' for a in args):
            s, v = self.fresh(st, ctx, node, 'ret')
            return exc + [(s, v)]
        return exc + cur

    def b_builtins_len(self, st, ctx, node, v):
        e = st.eqc(v)
        if e is not None:
            if isinstance(e[2], str):
                return [(st, C(len(e[2])))]
            return [(st, Exc(('cls', 'builtins.TypeError'), None, node.lineno))]
        lo, hi = st.len_bounds(v)
        if lo == hi:
            return [(st, C(lo))]
        if v[0] == 'r':
            o = st.heap.get(v[1])
            if o is not None and o.kind == 'inst' and o.cls in self.repo.classes:
                m = self.repo.find_member(o.cls, '__len__')
                if m and m[0] == 'method':
                    return self.invoke(('b', v, m[1]), [], {}, st, ctx, node)
        exc = self.ext_raises('builtins.len', st, ctx, node, (v,))
        return exc + [(st, O('len', v))]

    def b_builtins_isinstance(self, st, ctx, node, v, k):
        names = self.class_names(k, st)
        if names is None:
            return [(st, O('isinst', v, k))]
        if len(names) == 1:
            return [(st, self.isinst(st, v, names[0]))]
        rs = [self.isinst(st, v, n) for n in names]
        if any(x == TRUE for x in rs):
            return [(st, TRUE)]
        rs = [x for x in rs if x != FALSE]
        if not rs:
            return [(st, FALSE)]
        return self.any_of(rs, st, ctx, node)

    def b_builtins_issubclass(self, st, ctx, node, v, k):
        names = self.class_names(k, st)
        if names and v[0] == 'k':
            if any(n in self.repo.mro(v[1]) for n in names):
                return [(st, TRUE)]
            if all(b in self.repo.classes or b == 'object' for b in self.repo.mro(v[1])):
                return [(st, FALSE)]
        return self.ext_raises('builtins.issubclass', st, ctx, node, (v, k)) + \
            [(st, self.lookup(st, O('issub', v, k)))]

    def b_builtins_type(self, st, ctx, node, v):
        if v[0] == 'r':
            o = st.heap.get(v[1])
            if o is not None and o.kind == 'inst' and o.cls:
                return [(st, ('k', o.cls))]
            if o is not None and o.kind in ('list', 'set', 'dict'):
                return [(st, ('x', 'builtins.' + o.kind))]
        e = st.eqc(v)
        if e is not None and e[1] in ('bool', 'int', 'float', 'str', 'bytes', 'NoneType'):
            return [(st, ('x', 'builtins.' + e[1]))]
        if v[0] == 't':
            return [(st, ('x', 'builtins.tuple'))]
        if v[0] == 'o' and v[1] in BOOL_OPS:
            return [(st, ('x', 'builtins.bool'))]
        return [(st, O('type', v))]

    def b_builtins_hasattr(self, st, ctx, node, v, n):
        if is_c(n) and v[0] == 'r':
            o = st.heap.get(v[1])
            if o is not None and o.kind == 'inst':
                if n[2] in o.data or (o.cls in self.repo.classes and self.repo.find_member(o.cls, n[2])):
                    return [(st, TRUE)]
                if self.client.closed_objects and isinstance(v[1], tuple) and 'inst' in v[1] and o.cls in self.repo.classes and \
                        not self.repo.find_member(o.cls, '__getattr__') and all(c in self.repo.classes for c in self.repo.mro(o.cls)):
                    return [(st, FALSE)]
        if v[0] in ('s', 'o'):
            ov = st.heap.get(('ov', v))
            if ov is not None and is_c(n) and n[2] in ov.data:
                return [(st, TRUE)]
        return [(st, self.lookup(st, O('hasattr', v, n)))]

    def b_builtins_getattr(self, st, ctx, node, v, n, *d):
        e = st.eqc(n)
        if e is None or not isinstance(e[2], str):
            exc = self.ext_raises('builtins.getattr', st, ctx, node, (v, n)) if not d else []
            val = O('getattr', v, n)
            if d:
                h = O('hasattr', v, n)
                out = []
                for a, t in self.branch(st, self.lookup(st, h), ctx, node):
                    out.append((a, val if t else d[0]))
                return out
            return exc + [(st, val)]
        if not d:
            return self.get_attr(st, v, e[2], ctx, node)
        out = []
        for a, h in self.b_builtins_hasattr(st, ctx, node, v, e):
            for b, t in self.branch(a, h, ctx, node):
                if t:
                    out += [(c, d[0] if isinstance(x, Exc) and x.kind == ('cls', 'builtins.AttributeError') else x)
                            for c, x in self.get_attr(b, v, e[2], ctx, node)]
                else:
                    out.append((b, d[0]))
        return out

    def b_builtins_globals(self, st, ctx, node):
        return [(st, O('globals', C(ctx.fi.module.name)))]

    def global_named(self, coll, k):
        """value of a name of a module asked for by text, False when the module has none, None when not known"""
        mod = self.repo.modules.get(coll[2][2])
        if mod is None or not (is_c(k) and isinstance(k[2], str)):
            return None
        if k[2] not in mod.names:
            return None if k[2].startswith('__') or any(isinstance(n, ast.ImportFrom) and n.names[0].name == '*' for n in ast.walk(mod.tree)) else False
        return self.global_value(mod, k[2])

    def b_builtins_setattr(self, st, ctx, node, v, n, x):
        e = st.eqc(n)
        if e is None:
            st = st.copy()
            st.guess = True     # which attribute is written is not known
            return [(st, NONE)]
        return [(a, o if isinstance(o, Exc) else NONE) for a, o in self.set_attr(st, v, e[2], x, ctx, node)]

    def b_builtins_str(self, st, ctx, node, *a):
        if not a:
            return [(st, C(''))]
        v = a[0]
        if len(a) > 1:
            return [(st, O('str', *a))]
        if v[0] == 'r':
            o = st.heap.get(v[1])
            if o is not None and o.kind == 'inst' and o.cls in self.repo.classes:
                m = self.repo.find_member(o.cls, '__str__')
                if m and m[0] == 'method':
                    return self.invoke(('b', v, m[1]), [], {}, st, ctx, node)
        return [(st, self.to_str(st, v))]

    def b_builtins_repr(self, st, ctx, node, v):
        return [(st, C(repr(v[2])) if is_c(v) else O('repr', v))]

    def conv(self, f, name, st, ctx, node, a):
        if not a:
            return [(st, C(f()))]
        es = [st.eqc(x) for x in a]
        if all(e is not None for e in es):
            try:
                return [(st, C(f(*[e[2] for e in es])))]
            except ValueError:
                return [(st, Exc(('cls', 'builtins.ValueError'), None, node.lineno))]
            except TypeError:
                return [(st, Exc(('cls', 'builtins.TypeError'), None, node.lineno))]
        v = a[0]
        if v[0] == 'o' and (v[1] in ('len',) or v[1] == name):
            return [(st, v)]
        if name == 'int' and v[0] == 'o' and v[1] == 'str' and self.kind_of(st, v[2]) == 'int':
            return [(st, v[2])]
        exc = self.ext_raises('builtins.' + name, st, ctx, node, a)
        return exc + [(st, O(name, *a))]

    def b_builtins_int(self, st, ctx, node, *a):
        return self.conv(int, 'int', st, ctx, node, a)

    def b_builtins_float(self, st, ctx, node, *a):
        return self.conv(float, 'float', st, ctx, node, a)

    def b_builtins_bool(self, st, ctx, node, *a):
        if not a:
            return [(st, FALSE)]
        v = a[0]
        k = st.known_truth(v)
        if k is not None and v[0] != 'r':
            return [(st, C(k))]
        if v[0] == 'o' and v[1] in BOOL_OPS:
            return [(st, v)]
        if v[0] == 'r':
            return [(b, t if isinstance(t, Exc) else C(t)) for b, t in self.branch_obj(st, v, ctx, node)]
        return [(st, O('truth', v))]

    def consume(self, kind, st, ctx, node, a, tag):
        st, r = self.new_list(st, ctx, node, [], kind, tag=tag)
        if not a:
            return [(st, r)]
        v = a[0]
        if self.as_generator(v) is not None or v[0] == 'o' and v[1] in ('enumerate', 'zip', 'range', 'reversed', 'items', 'values'):
            slot = '$cn%d:%d' % (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
            st = st.setvar(ctx.frame, slot, r)

            def body(b, e):
                l = b.frames[ctx.frame][slot]
                return [(self.list_append(b, l[1], e), None)]
            out = []
            for b, o in self.loop_over(v, st, ctx, node, body):
                l = b.frames[ctx.frame][slot]
                b = b.delvars(ctx.frame, [slot])
                out.append((b, o if isinstance(o, Exc) else l))
            return out
        return [(self.list_extend(st, r[1], v, ctx, node), r)]

    def b_builtins_list(self, st, ctx, node, *a):
        return self.consume('list', st, ctx, node, a, 'list')

    def b_builtins_set(self, st, ctx, node, *a):
        items = self.iter_items(st, a[0]) if len(a) == 1 else None
        if items is not None:
            kept = []
            for x in items:
                if not any(st.known_eq(x, y) is True for y in kept):
                    kept.append(x)
            if len(kept) < len(items):
                st, r = self.new_list(st, ctx, node, kept, 'set', tag='set')
                return [(st, r)]
        return self.consume('set', st, ctx, node, a, 'set')

    b_builtins_frozenset = b_builtins_set

    def b_builtins_tuple(self, st, ctx, node, *a):
        if not a:
            return [(st, T(()))]
        items = self.iter_items(st, a[0])
        if items is not None:
            return [(st, T(items))]
        return self.consume('list', st, ctx, node, a, 'tuple')

    def b_builtins_sorted(self, st, ctx, node, v, **kw):
        items = self.iter_items(st, v) if not kw or set(kw) == {'reverse'} and is_c(kw['reverse']) else None
        if items is not None:
            down = bool(kw and kw['reverse'][2])
            vals = [x if is_c(x) else st.eqc(x) for x in items]
            if all(x is not None for x in vals):
                try:
                    done = sorted(vals, key=lambda x: x[2], reverse=down)
                except TypeError:
                    done = None
                if done is not None:
                    st, l = self.new_list(st, ctx, node, done, tag='sorted')
                    return [(st, l)]
            if len(items) == 2 and all(self.is_num(x) or st.facts.get(O('isinst', x, 'int')) for x in items):
                (_, lo), = self.minmax('min', st, ctx, node, items, {})
                (_, hi), = self.minmax('max', st, ctx, node, items, {})
                st, l = self.new_list(st, ctx, node, [hi, lo] if down else [lo, hi], tag='sorted')
                return [(st, l)]
        if v[0] == 'r' or self.as_generator(v) is not None:
            out = []
            for a, r in self.consume('list', st, ctx, node, [v], 'sorted'):
                if not isinstance(r, Exc) and not self.client.any_order:
                    o = a.heap[r[1]]
                    if o.data[1] != 1 or o.data[2] != 1:
                        a = a.setobj(r[1], Obj('list', None, (self.collapse_segs(o.data[0], a), o.data[1], o.data[2])))
                out.append((a, r))
            return out
        return [(st, O('sorted', v))]

    def b_builtins_reversed(self, st, ctx, node, v):
        return [(st, O('reversed', v))]

    def b_builtins_dict(self, st, ctx, node, *a, **kw):
        ent, op = (), False
        if a:
            o = st.heap.get(a[0][1]) if a[0][0] == 'r' else None
            if o is not None and o.kind == 'dict':
                ent, op = o.data
            else:
                op = True
        for k, v in kw.items():
            if k == '**':
                op = True
            else:
                ent = ent + ((C(k), v),)
        st, r = self.alloc(st, ctx, node, 'dict', None, (ent, op), 'dict')
        return [(st, r)]

    def minmax(self, name, st, ctx, node, a, kw):
        if kw or len(a) < 2:
            if len(a) == 1 and not kw:
                items = self.iter_items(st, a[0])
                if items and len(items) > 1:
                    return self.minmax(name, st, ctx, node, items, {})
                if items and len(items) == 1:
                    return [(st, items[0])]
            st, s = self.fresh(st, ctx, node, name)
            return [(st, s)]
        vals = [st.eqc(x) if st.eqc(x) is not None and num(st.eqc(x)) else x for x in a]
        best = []
        for v in vals:
            drop = False
            keep = []
            for b in best:
                k = st.known_lt(v, b)        # v < b
                k2 = st.known_lt(b, v)
                if name == 'min':
                    if k2 is True or k is False:      # b <= v
                        drop = True
                        keep.append(b)
                    elif k is True or k2 is False:
                        pass                           # v <= b: b goes
                    else:
                        keep.append(b)
                else:
                    if k is True or k2 is False:       # v <= b
                        drop = True
                        keep.append(b)
                    elif k2 is True or k is False:
                        pass
                    else:
                        keep.append(b)
            best = keep
            if not drop:
                best.append(v)
        if len(best) == 1:
            return [(st, best[0])]
        return [(st, O(name, *sorted(best, key=repr)))]

    def b_builtins_min(self, st, ctx, node, *a, **kw):
        return self.minmax('min', st, ctx, node, a, kw)

    def b_builtins_max(self, st, ctx, node, *a, **kw):
        return self.minmax('max', st, ctx, node, a, kw)

    def quant(self, is_any, st, ctx, node, v):
        slot = '$qa%d:%d' % (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        st = st.setvar(ctx.frame, slot, C(not is_any))

        def body(a, e):
            out = []
            for b, t in self.branch_obj(a, e, ctx, node):
                if isinstance(t, Exc):
                    out.append((b, t))
                elif t == is_any:
                    out.append((b.setvar(ctx.frame, slot, C(is_any)), 'brk'))
                else:
                    out.append((b, None))
            return out
        out = []
        for a, o in self.loop_over(v, st, ctx, node, body):
            r = a.frames[ctx.frame][slot]
            a = a.delvars(ctx.frame, [slot])
            out.append((a, o if isinstance(o, Exc) else r))
        return out

    def b_builtins_any(self, st, ctx, node, v):
        return self.quant(True, st, ctx, node, v)

    def b_builtins_all(self, st, ctx, node, v):
        return self.quant(False, st, ctx, node, v)

    def b_builtins_sum(self, st, ctx, node, v, *a):
        items = self.iter_items(st, v)
        if items is not None and not a and all(num(x) for x in items):
            return [(st, C(sum(x[2] for x in items)))]
        st, s = self.fresh(st, ctx, node, 'sum')
        return [(st, s)]

    def b_builtins_abs(self, st, ctx, node, v):
        return [(st, C(abs(v[2])) if num(v) else O('abs', v))]

    def b_builtins_round(self, st, ctx, node, *a):
        return [(st, O('round', *a))]

    def b_builtins_enumerate(self, st, ctx, node, v, *a, **kw):
        s = a or ((kw['start'],) if 'start' in kw else ())
        return [(st, O('enumerate', v, *s))]

    def b_builtins_zip(self, st, ctx, node, *a, **kw):
        return [(st, O('zip', *a))]

    def b_builtins_range(self, st, ctx, node, *a):
        es = [st.eqc(x) for x in a]
        if all(e is not None and isinstance(e[2], int) for e in es):
            r = range(*[e[2] for e in es])
            if len(r) <= max(8, self.client.items_limit):
                return [(st, T(C(i) for i in r))]
        return [(st, O('range', *[e if e is not None else x for e, x in zip(es, a)]))]

    def mapf(self, f, v, st, ctx, node, keep):
        st, r = self.new_list(st, ctx, node, [], 'list', tag='map')
        slot = '$mp%d:%d' % (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        st = st.setvar(ctx.frame, slot, r)

        def body(b, e):
            out = []
            if keep and f == NONE:
                rs = [(b, e)]
            else:
                rs = self.invoke(f, [e], {}, b, ctx, node)
            for c, x in rs:
                if isinstance(x, Exc):
                    out.append((c, x))
                elif keep:
                    for d, t in self.branch_obj(c, x, ctx, node):
                        if isinstance(t, Exc):
                            out.append((d, t))
                        elif t:
                            out.append((self.list_append(d, d.frames[ctx.frame][slot][1], e), None))
                        else:
                            out.append((d, None))
                else:
                    out.append((self.list_append(c, c.frames[ctx.frame][slot][1], x), None))
            return out
        out = []
        for b, o in self.loop_over(v, st, ctx, node, body):
            l = b.frames[ctx.frame][slot]
            b = b.delvars(ctx.frame, [slot])
            out.append((b, o if isinstance(o, Exc) else l))
        return out

    def b_builtins_map(self, st, ctx, node, f, v):
        return self.mapf(f, v, st, ctx, node, False)

    def b_builtins_filter(self, st, ctx, node, f, v):
        return self.mapf(f, v, st, ctx, node, True)

    def b_builtins_iter(self, st, ctx, node, v):
        return [(st, v if v[0] == 'gen' else O('iter', v))]

    def b_builtins_next(self, st, ctx, node, v, *d):
        slot = '$nx%d:%d' % (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        st = st.setvar(ctx.frame, slot, d[0] if d else S('stop'))

        def body(a, e):
            return [(a.setvar(ctx.frame, slot, e), 'brk')]
        out = []
        for a, o in self.loop_over(v, st, ctx, node, body):
            r = a.frames[ctx.frame][slot]
            a = a.delvars(ctx.frame, [slot])
            if isinstance(o, Exc):
                out.append((a, o))
            elif r == S('stop'):
                out.append((a, Exc(('cls', 'builtins.StopIteration'), None, node.lineno)))
            else:
                out.append((a, r))
        return out

    def b_builtins_callable(self, st, ctx, node, v):
        if v[0] in ('f', 'b', 'k', 'xm'):
            return [(st, TRUE)]
        e = st.eqc(v)
        if e is not None or v[0] == 't':
            return [(st, FALSE)]
        return [(st, self.lookup(st, O('callable', v)))]

    def b_builtins_print(self, st, ctx, node, *a, **kw):
        return self.ext_raises('builtins.print', st, ctx, node, a) + [(st, NONE)]

    def b_builtins_ord(self, st, ctx, node, v):
        return [(st, C(ord(v[2])) if is_c(v) and isinstance(v[2], str) and len(v[2]) == 1 else O('ord', v))]

    def b_builtins_chr(self, st, ctx, node, v):
        return [(st, C(chr(v[2])) if num(v) else O('chr', v))]

    def b_builtins_id(self, st, ctx, node, v):
        return [(st, O('id', v))]

    def b_builtins_vars(self, st, ctx, node, v):
        return [(st, O('vars', v))]

    def iscoro(self, st, v):
        f = v
        while f[0] == 'o' and f[1] == 'partial':
            f = f[2]
        if f[0] in ('f', 'b'):
            return C(self.repo.funcs[f[1] if f[0] == 'f' else f[2]].is_async)
        if f[0] in ('k', 'c', 't'):
            return FALSE
        return self.lookup(st, O('iscoro', v))

    def b_asyncio_iscoroutinefunction(self, st, ctx, node, v):
        return [(st, self.iscoro(st, v))]

    b_inspect_iscoroutinefunction = b_asyncio_iscoroutinefunction

    def b_asyncio_iscoroutine(self, st, ctx, node, v):
        if v[0] == 'co':
            return [(st, TRUE)]
        if v[0] in ('c', 't', 'k', 'f', 'b'):
            return [(st, FALSE)]
        return [(st, self.lookup(st, O('isaw', v)))]

    b_inspect_isawaitable = b_asyncio_iscoroutine
    b_inspect_iscoroutine = b_asyncio_iscoroutine

    def b_contextlib_suppress(self, st, ctx, node, *a):
        return [(st, O('suppress', *a))]

    def b_functools_partial(self, st, ctx, node, f, *a, **kw):
        if kw:
            return [(st, ('partial', f, tuple(a), tuple(sorted(kw.items()))))]
        return [(st, O('partial', f, *a))]

    def b_copy_copy(self, st, ctx, node, v):
        if is_c(v) or v[0] in ('t', 'f', 'k'):
            return [(st, v)]
        if v[0] == 'r':
            o = st.heap.get(v[1])
            if o is not None and o.kind != 'inst':
                st, r = self.alloc(st, ctx, node, o.kind, o.cls, o.data, 'copy')
                return [(st, r)]
        return None

    def b_typing_cast(self, st, ctx, node, t, v):
        return [(st, v)]

    # -- methods of builtin values ---------------------------------------------------
    def call_xm(self, recv, name, args, kwargs, st, ctx, node):
        tgt = Target('meth', name, recv=recv)
        r = self.client.on_call(self, st, ctx, tgt, args, kwargs, node)
        if r is not None:
            return r
        star = any(a[0] == 'star' for a in args)
        if recv[0] == 'r':
            o = st.heap.get(recv[1])
            if o is not None and o.kind in ('list', 'set', 'dict') and not star:
                if name in MUTATORS:
                    st = self.client.on_mutate(self, st, ctx, recv[1], name, tuple(args), node)
                    if st is None:
                        return []
                m = getattr(self, 'm_%s_%s' % (o.kind, name), None) or getattr(self, 'm_any_' + name, None)
                if m is not None:
                    try:
                        r = m(st, ctx, node, recv, *args, **kwargs)
                    except TypeError:
                        r = None
                    if r is not None:
                        return r
                if name in MUTATORS:
                    st = self.mutated(st, recv[1])
                    if o.kind == 'dict':
                        st = st.setobj(recv[1], Obj('dict', None, ((), True)))
                    else:
                        st = st.setobj(recv[1], Obj(o.kind, None, ((('*', frozenset(), None),), 0, None)))
                st, s = self.fresh(st, ctx, node, 'ret')
                return [(st, s)]
        e = st.eqc(recv)
        if e is not None and isinstance(e[2], str):
            r = self.fold_str(st, ctx, node, e, name, args, kwargs)
            if r is not None:
                return r
            recv = e
        if name in ('run_until_complete', 'create_task') and args and args[0][0] == 'co':
            return self.run_now('asyncio.' + name, args, st, ctx, node)
        if recv[0] == 't' and name == 'index' and args:
            for i, x in enumerate(recv[1]):
                if st.known_eq(x, args[0]) is True:
                    return [(st, C(i))]
        if recv[0] == 'o' and recv[1] == 'cdict':
            if name == 'get' and args:
                ks = [(x, st.known_eq(k, args[0])) for k, x in recv[2:]]
                for x, q in ks:
                    if q is True:
                        return [(st, x)]
                if all(q is False for _, q in ks):
                    return [(st, args[1] if len(args) > 1 else NONE)]
            if name == 'keys':
                return [(st, T(k for k, _ in recv[2:]))]
            if name == 'values':
                return [(st, T(x for _, x in recv[2:]))]
            if name == 'items':
                return [(st, T(T((k, x)) for k, x in recv[2:]))]
        if name == 'get' and args and not star and recv[0] in ('s', 'o'):
            k = st.known(O('in', args[0], recv))
            if k is True:
                return [(st, O('item', recv, args[0]))]
            if k is False:
                return [(st, args[1] if len(args) > 1 else NONE)]
            return [(st, O('get', recv, *args))]
        if name in MUTATORS and recv[0] in ('s', 'o'):
            st = st.drop_facts(O('len', recv))
            n = st.copy()
            n.facts = {a: t for a, t in st.facts.items()
                       if not (a[0] == 'o' and a[1] in ('in', 'truth') and a[-1] == recv)}
            st = n
            if name in ('append', 'add', 'insert') and args:
                st = st.setfact(O('truth', recv), True).setfact(O('in', args[-1], recv), True)
            return self.opaque(tgt, args, kwargs, st, ctx, node)
        if name in BOOL_METHODS:
            return self.ext_raises('str.' + name, st, ctx, node, (recv,)) + \
                [(st, self.lookup(st, O(name, recv, *args)))]
        if name == 'join' and args and is_c(recv):
            items = self.iter_items(st, args[0])
            if items is not None:
                o = st.heap.get(args[0][1]) if args[0][0] == 'r' else None
                if o is not None and o.kind == 'set' and len(set(items)) > 1:
                    return [(st, O('join', O('unordered', T(items)), recv))]
                parts = []
                for i, x in enumerate(items):
                    if i:
                        parts.append(recv)
                    parts.append(x)
                return [(st, self.cat(parts))]
        if name in PURE_METHODS and depth(recv) < 9 and not star:
            exc = self.ext_raises('str.' + name, st, ctx, node, (recv,))
            return exc + [(st, O(name, recv, *args))]
        return self.opaque(tgt, args, kwargs, st, ctx, node)

    def format_parts(self, st, template, args, kwargs):
        """The parts of a text made by str.format, or None when a field is not a plain one."""
        parts = []
        n = 0
        try:
            for text, field, spec, conv in string.Formatter().parse(template):
                if text:
                    parts.append(C(text))
                if field is None:
                    continue
                if spec or conv not in (None, 's'):
                    return None
                if field == '':
                    field = str(n)
                    n += 1
                if field.isdigit():
                    if int(field) >= len(args):
                        return None
                    v = args[int(field)]
                elif field in kwargs:
                    v = kwargs[field]
                else:
                    return None
                parts.append(self.to_str(st, v))
        except ValueError:
            return None
        return parts

    def fold_str(self, st, ctx, node, e, name, args, kwargs):
        es = [st.eqc(a) for a in args]
        if name == 'join' and args:
            return None
        if kwargs or any(x is None for x in es) or any(x[1] not in ('str', 'int', 'NoneType') for x in es):
            if name == 'format' and '**' not in kwargs and not any(x[0] == 'star' for x in args):
                parts = self.format_parts(st, e[2], args, kwargs)
                if parts is not None:
                    return [(st, self.cat(parts))]
            return None
        if name not in FOLD_STR and name != 'format':
            return None
        try:
            r = getattr(e[2], name)(*[x[2] for x in es])
        except (ValueError, IndexError, KeyError):
            return [(st, Exc(('cls', 'builtins.ValueError'), None, node.lineno))]
        except Exception:
            return None
        if isinstance(r, list):
            st, l = self.new_list(st, ctx, node, [C(x) for x in r], tag='split')
            return [(st, l)]
        return [(st, self.lift(r))]

    # lists
    def m_list_append(self, st, ctx, node, l, v):
        return [(self.list_append(st, l[1], v), NONE)]

    m_set_add = m_list_append

    def m_list_extend(self, st, ctx, node, l, v):
        g = self.as_generator(v)
        if g is None and not (v[0] == 'o' and v[1] in ('enumerate', 'zip', 'range', 'items', 'values')):
            return [(self.list_extend(st, l[1], v, ctx, node), NONE)]
        slot = '$ex%d:%d' % (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        st = st.setvar(ctx.frame, slot, l)

        def body(b, e):
            return [(self.list_append(b, b.frames[ctx.frame][slot][1], e), None)]
        return [(a.delvars(ctx.frame, [slot]), o if isinstance(o, Exc) else NONE)
                for a, o in self.loop_over(v, st, ctx, node, body)]

    def m_set_update(self, st, ctx, node, l, *vs):
        for v in vs:
            st = self.list_extend(st, l[1], v, ctx, node)
        return [(st, NONE)]

    def m_set_union(self, st, ctx, node, l, *vs):
        st, r = self.new_list(st, ctx, node, [], 'set', tag='union')
        for v in (l,) + vs:
            st = self.list_extend(st, r[1], R(('old', r[1])) if v == r else v, ctx, node)
        return [(st, r)]

    def m_set_copy(self, st, ctx, node, l):
        return self.m_set_union(st, ctx, node, l)

    def m_list_insert(self, st, ctx, node, l, i, v):
        st = self.mutated(st, l[1])
        segs, lo, hi = st.heap[l[1]].data
        new = ('I', v)
        if i == C(0):
            segs = (new,) + segs
        elif is_c(i) and all(s[0] == 'I' for s in segs) and len(segs) == lo and isinstance(i[2], int):
            q = list(segs)
            q.insert(i[2], new)
            segs = tuple(q)
        elif i == O('len', l):
            segs = segs + (new,)
        else:
            segs = self.collapse_segs(segs + (new,), st)
        if len(segs) > 8:
            segs = self.collapse_segs(segs, st)
        return [(st.setobj(l[1], Obj('list', None, (segs, lo + 1, None if hi is None else hi + 1))), NONE)]

    def m_list_pop(self, st, ctx, node, l, i=C(-1)):
        i = st.eqc(i) or i
        return self.list_pop(st, l[1], i, ctx, node)

    def m_list_clear(self, st, ctx, node, l):
        st = self.mutated(st, l[1])
        return [(st.setobj(l[1], Obj(st.heap[l[1]].kind, None, ((), 0, 0))), NONE)]

    m_set_clear = m_list_clear

    def m_list_copy(self, st, ctx, node, l):
        o = st.heap[l[1]]
        st, r = self.alloc(st, ctx, node, o.kind, None, o.data, 'copy')
        return [(st, r)]

    m_set_copy = m_list_copy
    m_dict_copy = m_list_copy

    def m_list_remove(self, st, ctx, node, l, v):
        o = st.heap[l[1]]
        segs, lo, hi = o.data
        for i, s in enumerate(segs):
            if s[0] == 'I':
                k = st.known_eq(s[1], v)
                if k is True and all(x[0] == 'I' and st.known_eq(x[1], v) is False for x in segs[:i]):
                    st = self.mutated(st, l[1])
                    return [(st.setobj(l[1], Obj('list', None, (segs[:i] + segs[i + 1:], max(0, lo - 1), None if hi is None else hi - 1))), NONE)]
        exc = self.ext_raises('list.remove', st, ctx, node, (l, v))
        st = self.mutated(st, l[1])
        return exc + [(st.setobj(l[1], Obj('list', None, (self.collapse_segs(segs, st), max(0, lo - 1), None if hi is None else max(0, hi - 1)))), NONE)]

    def m_set_discard(self, st, ctx, node, l, v):
        o = st.heap[l[1]]
        segs, lo, hi = o.data
        st = self.mutated(st, l[1])
        return [(st.setobj(l[1], Obj('set', None, (self.collapse_segs(segs, st), max(0, lo - 1), hi))), NONE)]

    m_set_remove = m_set_discard

    def m_list_sort(self, st, ctx, node, l, **kw):
        o = st.heap[l[1]]
        st = self.mutated(st, l[1])
        if self.client.any_order:
            return [(st, NONE)]
        return [(st.setobj(l[1], Obj('list', None, (self.collapse_segs(o.data[0], st), o.data[1], o.data[2]))), NONE)]

    def m_list_reverse(self, st, ctx, node, l):
        o = st.heap[l[1]]
        st = self.mutated(st, l[1])
        return [(st.setobj(l[1], Obj('list', None, (tuple(reversed(o.data[0])), o.data[1], o.data[2]))), NONE)]

    def m_list_index(self, st, ctx, node, l, v):
        exc = self.ext_raises('list.index', st, ctx, node, (l, v))
        return exc + [(st, O('index', l, v))]

    def m_list_count(self, st, ctx, node, l, v):
        return [(st, O('count', l, v))]

    # dicts
    def m_dict_get(self, st, ctx, node, d, k, *df):
        ents, op = st.heap[d[1]].data
        ks = [(x, st.known_eq(kk, k)) for kk, x in ents]
        for x, q in ks:
            if q is True:
                return [(st, x)]
        df = df[0] if df else NONE
        if not op and all(q is False for _, q in ks):
            return [(st, df)]
        if not op:
            out = []
            cur = st
            for kk, x in ents:
                nxt = None
                for a, t in self.branch(cur, self.mk_cmp_eq(cur, kk, k), ctx, node):
                    if t:
                        out.append((a, x))
                    else:
                        nxt = a
                if nxt is None:
                    return out
                cur = nxt
            return out + [(cur, df)]
        out = []
        for a, t in self.branch(st, self.lookup(st, O('in', k, d)), ctx, node):
            if t:
                out += self.get_item(a, d, k, ctx, node)
            else:
                out.append((a, df))
        return out

    def m_dict_keys(self, st, ctx, node, d):
        ents, op = st.heap[d[1]].data
        return [(st, O('keys', d) if op else T(k for k, _ in ents))]

    def m_dict_values(self, st, ctx, node, d):
        return [(st, O('values', d))]

    def m_dict_items(self, st, ctx, node, d):
        return [(st, O('items', d))]

    def m_dict_setdefault(self, st, ctx, node, d, k, v=NONE):
        ents, op = st.heap[d[1]].data
        ks = [(x, st.known_eq(kk, k)) for kk, x in ents]
        for x, q in ks:
            if q is True:
                return [(st, x)]
        if not op and all(q is False for _, q in ks):
            return [(a, v) for a, _ in self.set_item(st, d, k, v, ctx, node)]
        st, s = self.fresh(st, ctx, node, 'sd')
        st = st.setobj(d[1], Obj('dict', None, (ents, True)))
        return [(st, s)]

    def m_dict_pop(self, st, ctx, node, d, k, *df):
        ents, op = st.heap[d[1]].data
        ks = [(i, x, st.known_eq(kk, k)) for i, (kk, x) in enumerate(ents)]
        st2 = self.mutated(st, d[1])
        for i, x, q in ks:
            if q is True:
                return [(st2.setobj(d[1], Obj('dict', None, (ents[:i] + ents[i + 1:], op))), x)]
        if not op and all(q is False for _, _, q in ks):
            if df:
                return [(st, df[0])]
            return [(st, Exc(('cls', 'builtins.KeyError'), None, node.lineno))]
        st2 = st2.setobj(d[1], Obj('dict', None, ((), True)))
        st2, s = self.fresh(st2, ctx, node, 'dpop')
        return [(st2, s)] + ([(st2, df[0])] if df else [])

    def m_dict_update(self, st, ctx, node, d, *a, **kw):
        ents, op = st.heap[d[1]].data
        st = self.mutated(st, d[1])
        add = []
        for v in a:
            o = st.heap.get(v[1]) if v[0] == 'r' else None
            if o is not None and o.kind == 'dict' and not o.data[1]:
                add += list(o.data[0])
            else:
                return [(st.setobj(d[1], Obj('dict', None, ((), True))), NONE)]
        for k, v in kw.items():
            if k == '**':
                return [(st.setobj(d[1], Obj('dict', None, ((), True))), NONE)]
            add.append((C(k), v))
        cur = [(st, None)]
        for k, v in add:
            nxt = []
            for s, _ in cur:
                nxt += self.set_item(s, d, k, v, ctx, node)
            cur = nxt
        return [(s, NONE) for s, _ in cur]

    def m_dict_clear(self, st, ctx, node, d):
        st = self.mutated(st, d[1])
        return [(st.setobj(d[1], Obj('dict', None, ((), False))), NONE)]
