"""Expression evaluation and calls."""

import ast

from .values import (C, S, O, R, T, NONE, TRUE, FALSE, is_c, num, Exc, ANY_EXC, ANY_BASE,
                     subst, mentions, leaves, depth, lin_add, lin_mul, show, to_lin)
from .state import State, Obj, ELEM, BOOL_OPS, STR_OPS, mk_eq, unstable, stable
from .engine import EngineCore, Ctx, Target, Budget, Client

PURE_METHODS = frozenset(['strip', 'lstrip', 'rstrip', 'lower', 'upper', 'startswith', 'endswith',
                          'isnumeric', 'isdigit', 'isdecimal', 'isspace', 'isalpha', 'isalnum',
                          'format', 'replace', 'split', 'join', 'find', 'rfind', 'rindex',
                          'index', 'count', 'title', 'partition', 'rpartition', 'splitlines',
                          'removesuffix', 'removeprefix', 'casefold', 'encode', 'decode', 'keys',
                          'values', 'items', 'zfill', 'ljust', 'rjust', 'rsplit'])
BOOL_METHODS = frozenset(['startswith', 'endswith', 'isnumeric', 'isdigit', 'isdecimal', 'isspace',
                          'isalpha', 'isalnum'])
FOLD_STR = PURE_METHODS - {'keys', 'values', 'items', 'format', 'join'}


def percent_parts(text, items):
    """'a%sb' % (x,) -> [C('a'), x, C('b')] when only plain %s is used."""
    if items is None:
        return None
    out, buf, i, k = [], '', 0, 0
    while i < len(text):
        if text[i] != '%':
            buf += text[i]
            i += 1
        elif text[i:i + 2] == '%%':
            buf += '%'
            i += 2
        elif text[i:i + 2] == '%s' and k < len(items):
            out += [C(buf), items[k]]
            buf, k, i = '', k + 1, i + 2
        else:
            return None
    return out + [C(buf)] if k == len(items) else None



class Engine(EngineCore):

    # -- conditions -----------------------------------------------------------
    def cond(self, n, st, ctx):
        if isinstance(n, ast.BoolOp):
            is_and = isinstance(n.op, ast.And)
            out = []
            cur = [st]
            for i, e in enumerate(n.values):
                nxt = []
                for a in cur:
                    for b, t in self.cond(e, a, ctx):
                        if isinstance(t, Exc):
                            out.append((b, t))
                        elif t == is_and:
                            nxt.append(b)
                        else:
                            out.append((b, t))
                cur = nxt
            return out + [(a, is_and) for a in cur]
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            return [(a, t if isinstance(t, Exc) else (not t)) for a, t in self.cond(n.operand, st, ctx)]
        out = []
        for a, v in self.ev(n, st, ctx):
            if isinstance(v, Exc):
                out.append((a, v))
            else:
                out += self.branch_obj(a, v, ctx, n)
        return out

    def branch_obj(self, st, v, ctx, node):
        v = self.text_of(st, v)
        if v[0] == 'r':
            o = st.heap.get(v[1])
            if o is not None and o.kind == 'inst' and o.cls in self.repo.classes:
                m = self.repo.find_member(o.cls, '__bool__') or self.repo.find_member(o.cls, '__len__')
                if m and m[0] == 'method':
                    out = []
                    for a, r in self.invoke(('b', v, m[1]), [], {}, st, ctx, node):
                        if isinstance(r, Exc):
                            out.append((a, r))
                        else:
                            out += self.branch(a, r, ctx, node)
                    return out
        return self.branch(st, v, ctx, node)

    # -- expressions ------------------------------------------------------------
    def ev(self, n, st, ctx):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            st, v = self.fresh(st, ctx, n, 'expr')
            return [(st, v)]
        return m(n, st, ctx)

    @staticmethod
    def plain(n):
        """Evaluating n runs no call and allocates nothing."""
        if isinstance(n, (ast.Constant, ast.Name)):
            return True
        return False

    def ev_list(self, nodes, st, ctx):
        """Evaluate several expressions -> [(st, [V]) | (st, Exc)]"""
        cur = [(st, [])]
        for i, n in enumerate(nodes):
            nxt = []
            # values already computed are parked in the frame while a later
            # operand runs code (it may rename or collect what they refer to)
            park = i > 0 and not self.plain(n)
            for a, vs in cur:
                if isinstance(vs, Exc):
                    nxt.append((a, vs))
                    continue
                slot = None
                if park and any(v[0] not in ('c', 'f', 'k', 'x') for v in vs):
                    slot = '$p%d:%d' % (getattr(n, 'lineno', 0), getattr(n, 'col_offset', 0))
                    a = a.setvar(ctx.frame, slot, ('t', tuple(vs)))
                for b, v in self.ev(n.value if isinstance(n, ast.Starred) else n, a, ctx):
                    ws = vs
                    if slot is not None:
                        pv = b.frames.get(ctx.frame, {}).get(slot, ('t', tuple(vs)))
                        if pv[0] == 't':
                            ws = list(pv[1])
                        else:
                            # joined states held different values
                            ws = []
                            for j in range(len(vs)):
                                b, x = self.fresh(b, ctx, n, 'parked%d' % j)
                                ws.append(x)
                        b = b.delvars(ctx.frame, [slot])
                    if isinstance(v, Exc):
                        nxt.append((b, v))
                    elif isinstance(n, ast.Starred):
                        items = self.iter_items(b, v)
                        if items is not None:
                            nxt.append((b, ws + items))
                        else:
                            nxt.append((b, ws + [('star', v)]))
                    else:
                        nxt.append((b, ws + [v]))
            cur = nxt
        return cur

    def e_Constant(self, n, st, ctx):
        return [(st, C(n.value))]

    def e_Name(self, n, st, ctx):
        c = ctx
        while c is not None:
            if n.id in c.fi.locals or n.id in st.frames.get(c.frame, {}):
                f = st.frames.get(c.frame, {})
                if n.id in f:
                    return [(st, f[n.id])]
                if c is ctx:
                    # read of a local that may be unbound
                    return self.unbound(n, st, ctx)
                return [(st, S('unb', n.id))]
            c = c.outer
        return [(st, self.global_value(ctx.fi.module, n.id))]

    def unbound(self, n, st, ctx):
        return [(st, Exc(('cls', 'builtins.UnboundLocalError'), None, n.lineno))]

    def global_value(self, mod, name):
        r = self.repo.resolve_global(mod, name)
        if r is None:
            return S('glob', mod.name, name)
        if r[0] == 'f':
            return ('f', r[1], None)
        if r[0] in ('k', 'x'):
            return r if r[0] == 'k' else ('x', r[1])
        if r[0] == 'v':
            m, node, nm = r[1], r[2], r[3]
            v = self.literal(node)
            if v is not None:
                return v
            if isinstance(node, (ast.Name, ast.Attribute)) and isinstance(node, ast.Name) and node.id != nm:
                return self.global_value(m, node.id)
            return S('glob', m.name, nm)
        return S('glob', mod.name, name)

    def literal(self, node):
        try:
            v = ast.literal_eval(node)
        except Exception:
            if isinstance(node, ast.Call) and isinstance(node.func, ast.Name) and \
                    node.func.id in ('frozenset', 'tuple', 'set') and len(node.args) == 1:
                return self.literal(node.args[0])
            return None
        return self.lift(v)

    def lift(self, v):
        if isinstance(v, (list, tuple)):
            return T(self.lift(x) for x in v)
        if isinstance(v, (set, frozenset)):
            return T(self.lift(x) for x in sorted(v, key=repr))
        if isinstance(v, dict):
            return ('o', 'cdict') + tuple((self.lift(k), self.lift(x)) for k, x in v.items())
        return C(v)

    def e_Tuple(self, n, st, ctx):
        out = []
        for a, vs in self.ev_list(n.elts, st, ctx):
            if isinstance(vs, Exc):
                out.append((a, vs))
            elif any(v[0] == 'star' for v in vs):
                a, s = self.fresh(a, ctx, n, 'tup')
                out.append((a, s))
            else:
                out.append((a, T(vs)))
        return out

    def e_List(self, n, st, ctx, kind='list'):
        out = []
        for a, vs in self.ev_list(n.elts, st, ctx):
            if isinstance(vs, Exc):
                out.append((a, vs))
                continue
            a, r = self.new_list(a, ctx, n, [], kind)
            for v in vs:
                if v[0] == 'star':
                    a = self.list_extend(a, r[1], v[1], ctx, n)
                else:
                    a = self.list_append(a, r[1], v)
            out.append((a, r))
        return out

    def e_Set(self, n, st, ctx):
        return self.e_List(n, st, ctx, 'set')

    def e_Dict(self, n, st, ctx):
        cur = [(st, [])]
        for k, v in zip(n.keys, n.values):
            nxt = []
            for a, ent in cur:
                if isinstance(ent, Exc):
                    nxt.append((a, ent))
                    continue
                if k is None:
                    for b, x in self.ev(v, a, ctx):
                        nxt.append((b, x if isinstance(x, Exc) else ent + [('**', x)]))
                    continue
                for b, kv in self.ev(k, a, ctx):
                    if isinstance(kv, Exc):
                        nxt.append((b, kv))
                        continue
                    for c, x in self.ev(v, b, ctx):
                        nxt.append((c, x if isinstance(x, Exc) else ent + [(kv, x)]))
            cur = nxt
        out = []
        for a, ent in cur:
            if isinstance(ent, Exc):
                out.append((a, ent))
                continue
            op = any(k == '**' for k, _ in ent)
            a, r = self.alloc(a, ctx, n, 'dict', None, (tuple((k, v) for k, v in ent if k != '**'), op))
            out.append((a, r))
        return out

    def e_JoinedStr(self, n, st, ctx):
        cur = [(st, [])]
        for p in n.values:
            nxt = []
            for a, vs in cur:
                if isinstance(vs, Exc):
                    nxt.append((a, vs))
                elif isinstance(p, ast.Constant):
                    nxt.append((a, vs + [C(p.value)]))
                else:
                    for b, v in self.ev(p.value, a, ctx):
                        nxt.append((b, v if isinstance(v, Exc) else vs + [self.to_str(b, v) if p.format_spec is None else O('fmt', v)]))
            cur = nxt
        out = []
        for a, vs in cur:
            out.append((a, vs if isinstance(vs, Exc) else self.cat(vs)))
        return out

    def to_str(self, st, v):
        if is_c(v):
            return C(str(v[2]))
        e = st.eqc(v)
        if e is not None:
            return C(str(e[2]))
        if self.is_str(st, v):
            return v
        return O('str', v)

    def is_str(self, st, v):
        if is_c(v):
            return v[1] == 'str'
        if v[0] == 'o' and (v[1] in STR_OPS or v[1] == 'cat'):
            return True
        e = st.eqc(v)
        if e is not None:
            return e[1] == 'str'
        return st.facts.get(O('isinst', v, 'str')) is True

    def cat(self, parts):
        flat = []
        for p in parts:
            if p[0] == 'o' and p[1] == 'cat':
                flat += list(p[2:])
            else:
                flat.append(p)
        out = []
        for p in flat:
            if is_c(p) and p[1] == 'str':
                if p[2] == '':
                    continue
                if out and is_c(out[-1]):
                    out[-1] = C(out[-1][2] + p[2])
                    continue
            out.append(p)
        if not out:
            return C('')
        if len(out) == 1:
            return out[0]
        return O('cat', *out)

    def e_FormattedValue(self, n, st, ctx):
        return self.ev(n.value, st, ctx)

    def e_NamedExpr(self, n, st, ctx):
        out = []
        for a, v in self.ev(n.value, st, ctx):
            if isinstance(v, Exc):
                out.append((a, v))
            else:
                for b, o in self.assign(n.target, v, a, ctx):
                    out.append((b, o if o is not None else v))
        return out

    def e_IfExp(self, n, st, ctx):
        out = []
        for a, t in self.cond(n.test, st, ctx):
            if isinstance(t, Exc):
                out.append((a, t))
            else:
                out += self.ev(n.body if t else n.orelse, a, ctx)
        return out

    def e_BoolOp(self, n, st, ctx):
        is_and = isinstance(n.op, ast.And)
        out = []
        cur = [st]
        for i, e in enumerate(n.values):
            nxt = []
            last = i == len(n.values) - 1
            for a in cur:
                for b, v in self.ev(e, a, ctx):
                    if isinstance(v, Exc) or last:
                        out.append((b, v))
                        continue
                    for c, t in self.branch_obj(b, v, ctx, e):
                        if isinstance(t, Exc):
                            out.append((c, t))
                        elif t == is_and:
                            nxt.append(c)
                        else:
                            if v[0] == 'o' and v[1] in BOOL_OPS:
                                v2 = C(t)
                            elif v[0] in ('s', 'o') and c.eqc(v) is not None:
                                v2 = c.eqc(v)
                            else:
                                v2 = v
                            out.append((c, v2))
            cur = nxt
        return out

    def e_UnaryOp(self, n, st, ctx):
        out = []
        for a, v in self.ev(n.operand, st, ctx):
            if isinstance(v, Exc):
                out.append((a, v))
                continue
            if isinstance(n.op, ast.Not):
                k = a.known_truth(v)
                if k is not None:
                    out.append((a, C(not k)))
                elif v[0] == 'o' and v[1] == 'not':
                    out.append((a, v[2]))
                elif v[0] == 'o' and v[1] in BOOL_OPS:
                    out.append((a, O('not', v)))
                elif v[0] == 'r':
                    for b, t in self.branch_obj(a, v, ctx, n):
                        out.append((b, t if isinstance(t, Exc) else C(not t)))
                else:
                    out.append((a, O('not', v)))
            elif isinstance(n.op, ast.USub):
                if num(v):
                    out.append((a, C(-v[2])))
                else:
                    e = a.eqc(v)
                    if e is not None and num(e):
                        out.append((a, C(-e[2])))
                        continue
                    r = lin_mul(C(-1), v)
                    out.append((a, r if r is not None else O('neg', v)))
            else:
                out.append((a, v if isinstance(n.op, ast.UAdd) else O('inv', v)))
        return out

    OPN = {ast.Sub: '-', ast.Mult: '*', ast.Div: '/', ast.FloorDiv: '//', ast.Mod: '%', ast.Pow: '**',
           ast.BitOr: '|', ast.BitAnd: '&', ast.BitXor: '^', ast.LShift: '<<', ast.RShift: '>>', ast.Add: '+',
           ast.MatMult: '@'}

    def e_BinOp(self, n, st, ctx):
        out = []
        for a, vs in self.ev_list([n.left, n.right], st, ctx):
            if isinstance(vs, Exc):
                out.append((a, vs))
            else:
                out += self.binop(n.op, vs[0], vs[1], a, ctx, n)
        return out

    def binop(self, op, x, y, st, ctx, node):
        ex, ey = st.eqc(x), st.eqc(y)
        name = self.OPN.get(type(op), '?')
        if ex is not None and num(ex):
            x = ex
        if ey is not None and num(ey):
            y = ey
        if is_c(x) and is_c(y):
            try:
                f = {'+': lambda p, q: p + q, '-': lambda p, q: p - q, '*': lambda p, q: p * q,
                     '//': lambda p, q: p // q, '%': lambda p, q: p % q}.get(name)
                if f is not None:
                    r = f(x[2], y[2])
                    if not isinstance(r, str) or len(r) < 500:
                        return [(st, C(r) if not isinstance(r, tuple) else self.lift(r))]
            except TypeError:
                return [(st, Exc(('cls', 'builtins.TypeError'), None, node.lineno))]
            except Exception:
                pass
        exc = []
        for k in self.client.may_raise(self, st, ctx, Target('op', name, val=(x, y)), node):
            exc.append((st, Exc(k, None, node.lineno)))
        if name == '+':
            if x[0] == 't' and y[0] == 't':
                return [(st, T(x[1] + y[1]))]
            ox = st.heap.get(x[1]) if x[0] == 'r' else None
            oy = st.heap.get(y[1]) if y[0] == 'r' else None
            if ox is not None and ox.kind == 'list' or oy is not None and oy.kind == 'list':
                st, r = self.new_list(st, ctx, node, [], tag='plus')
                x, y = (R(('old', r[1])) if z == r else z for z in (x, y))
                st = self.list_extend(st, r[1], x, ctx, node)
                st = self.list_extend(st, r[1], y, ctx, node)
                return [(st, r)]
            if self.is_str(st, x) or self.is_str(st, y):
                return exc + [(st, self.cat([x, y]))]
            if x[0] == 'lin' or y[0] == 'lin' or num(x) or num(y) or self.is_num(x) and self.is_num(y):
                r = lin_add(x, y)
                if r is not None:
                    return exc + [(st, r)]
            return exc + [(st, O('+', x, y))]
        if name == '-':
            for z in (x, y):
                if z[0] == 'r':
                    o = st.heap.get(z[1])
                    if o is not None and o.kind == 'set':
                        st, r = self.alloc(st, ctx, node, 'set', None, (self.collapse_segs(o.data[0], st) if z is x else (('*', frozenset(), None),), 0, None), 'diff')
                        return [(st, r)]
            r = lin_add(x, y, -1)
            if r is not None:
                return exc + [(st, r)]
        if name == '*':
            if self.is_str(st, x) or self.is_str(st, y):
                return exc + [(st, O('rep', x, y))]
            if x[0] == 'r' or y[0] == 'r':
                st, s = self.fresh(st, ctx, node, 'mul')
                return exc + [(st, s)]
            r = lin_mul(x, y)
            if r is not None:
                return exc + [(st, r)]
        if name in ('|', '&') and x[0] == 'o' and x[1] in BOOL_OPS and y[0] == 'o' and y[1] in BOOL_OPS:
            out = []
            for a, t in self.branch(st, x, ctx, node):
                if name == '|' and t or name == '&' and not t:
                    out.append((a, C(t)))
                else:
                    out.append((a, y))
            return out
        if name == '|' and (x[0] == 'r' or y[0] == 'r'):
            st, r = self.new_list(st, ctx, node, [], 'set', tag='or')
            st = self.list_extend(st, r[1], x, ctx, node)
            st = self.list_extend(st, r[1], y, ctx, node)
            return [(st, r)]
        if name == '%' and is_c(x) and self.is_str(st, x):
            items = y[1] if y[0] == 't' else (y,) if is_c(y) or y[0] == 'lin' or self.is_str(st, y) else None
            parts = percent_parts(x[2], items)
            if parts is not None:
                return exc + [(st, self.cat([p if i % 2 == 0 else self.to_str(st, p) for i, p in enumerate(parts)]))]
        if name == '%' and self.is_str(st, x):
            return exc + [(st, O('fmt', x, y))]
        if depth(x) + depth(y) > 20:
            st, s = self.fresh(st, ctx, node, 'bin')
            return exc + [(st, s)]
        return exc + [(st, O(name, x, y))]

    def is_num(self, v):
        return num(v) or v[0] == 'lin' or (v[0] == 'o' and v[1] in ('len', 'int', 'float', 'min', 'max', 'index'))

    # -- comparisons --------------------------------------------------------
    def e_Compare(self, n, st, ctx):
        if len(n.ops) == 1:
            out = []
            for a, vs in self.ev_list([n.left, n.comparators[0]], st, ctx):
                if isinstance(vs, Exc):
                    out.append((a, vs))
                else:
                    out += self.compare(n.ops[0], vs[0], vs[1], a, ctx, n)
            return out
        out = []
        cur = [(a, v) for a, v in self.ev(n.left, st, ctx)]
        for i, (op, cm) in enumerate(zip(n.ops, n.comparators)):
            nxt = []
            for a, l in cur:
                if isinstance(l, Exc):
                    out.append((a, l))
                    continue
                for b, r in self.ev(cm, a, ctx):
                    if isinstance(r, Exc):
                        out.append((b, r))
                        continue
                    for c, v in self.compare(op, l, r, b, ctx, n):
                        if isinstance(v, Exc) or i == len(n.ops) - 1:
                            out.append((c, v))
                            continue
                        for d, t in self.branch(c, v, ctx, n):
                            if t:
                                nxt.append((d, r))
                            else:
                                out.append((d, FALSE))
            cur = nxt
        return out

    def mk_cmp_eq(self, st, x, y):
        k = st.known_eq(x, y)
        if k is not None:
            return C(k)
        if x[0] == 't' and y[0] == 't':
            if len(x[1]) != len(y[1]):
                return FALSE
            ks = [st.known_eq(p, q) for p, q in zip(x[1], y[1])]
            if any(q is False for q in ks):
                return FALSE
            if all(q is True for q in ks):
                return TRUE
        for p, q in ((x, y), (y, x)):
            if p[0] == 'o' and p[1] in BOOL_OPS and is_c(q) and q[1] == 'bool':
                return p if q[2] else O('not', p)
        return mk_eq(x, y)

    def text_of(self, st, v):
        """The text an instance of a text class stands for."""
        if v[0] == 'r':
            o = st.heap.get(v[1])
            if o is not None and o.kind == 'inst' and '$str' in o.data:
                return o.data['$str']
        return v

    def compare(self, op, x, y, st, ctx, node):
        if isinstance(op, (ast.Eq, ast.NotEq, ast.In, ast.NotIn, ast.Lt, ast.Gt, ast.LtE, ast.GtE)):
            x, y = self.text_of(st, x), self.text_of(st, y)
        if isinstance(op, (ast.Eq, ast.Is)):
            return self.eq_values(st, x, y, ctx, node, False)
        if isinstance(op, (ast.NotEq, ast.IsNot)):
            return self.eq_values(st, x, y, ctx, node, True)
        if isinstance(op, (ast.In, ast.NotIn)):
            neg = isinstance(op, ast.NotIn)
            return [(a, v if isinstance(v, Exc) else (self.neg(v) if neg else v))
                    for a, v in self.contains(x, y, st, ctx, node)]
        if isinstance(op, ast.Lt):
            a, b, neg = x, y, False
        elif isinstance(op, ast.Gt):
            a, b, neg = y, x, False
        elif isinstance(op, ast.LtE):
            a, b, neg = y, x, True
        else:
            a, b, neg = x, y, True
        exc = [(st, Exc(k, None, node.lineno))
               for k in self.client.may_raise(self, st, ctx, Target('op', '<', val=(x, y)), node)]
        a = st.eqc(a) or a
        b = st.eqc(b) or b
        k = st.known_lt(a, b)
        if k is not None:
            return exc + [(st, C(k != neg))]
        v = O('<', a, b)
        return exc + [(st, O('not', v) if neg else v)]

    def eq_values(self, st, x, y, ctx, node, neg):
        # min/max style instance __eq__ is treated as identity
        v = self.mk_cmp_eq(st, x, y)
        return [(st, self.neg(v) if neg else v)]

    def neg(self, v):
        if is_c(v):
            return C(not v[2])
        if v[0] == 'o' and v[1] == 'not':
            return v[2]
        return O('not', v)

    def contains(self, x, y, st, ctx, node):
        r = self.client.on_contains(self, st, ctx, x, y, node)
        if r is not None:
            return r
        if is_c(y) and y[1] == 'str':
            e = st.eqc(x)
            if e is not None and isinstance(e[2], str):
                return [(st, C(e[2] in y[2]))]
            return [(st, self.lookup(st, O('in', x, y)))]
        items = None
        if y[0] == 'o' and y[1] == 'globals':
            g = self.global_named(y, st.eqc(x) or x)
            return [(st, C(bool(g)) if g is not None else self.lookup(st, O('in', x, y)))]
        if y[0] == 'o' and y[1] in ('keys', 'sorted', 'iter') and y[2][0] in ('r', 's', 'o', 't'):
            return self.contains(x, y[2], st, ctx, node)
        if y[0] == 'o' and y[1] == 'cdict':
            items = [k for k, _ in y[2:]]
        else:
            items = self.iter_items(st, y)
        if items is not None and len(items) <= 40:
            items = [self.text_of(st, i) for i in items]
            ks = [st.known_eq(x, i) for i in items]
            if any(k is True for k in ks):
                return [(st, TRUE)]
            open_ = [i for i, k in zip(items, ks) if k is None]
            if not open_:
                return [(st, FALSE)]
            if len(open_) > 8:
                return [(st, self.lookup(st, O('in', x, T(items))))]
            out = []
            cur = st
            for i in open_:
                q = self.mk_cmp_eq(cur, x, i)
                nxt = None
                for b, t in self.branch(cur, q, ctx, node):
                    if t:
                        out.append((b, TRUE))
                    else:
                        nxt = b
                if nxt is None:
                    cur = None
                    break
                cur = nxt
            if cur is not None:
                out.append((cur, FALSE))
            return out
        if y[0] == 'r':
            o = st.heap.get(y[1])
            if o is not None and o.kind in ('list', 'set') and o.data[2] == 0:
                return [(st, FALSE)]
            if o is not None and o.kind == 'dict':
                for k, _ in o.data[0]:
                    if st.known_eq(k, x) is True:
                        return [(st, TRUE)]
            if o is not None and o.kind in ('list', 'set'):
                for s in o.data[0]:
                    if s[0] == 'I' and st.known_eq(s[1], x) is True:
                        return [(st, TRUE)]
        return [(st, self.lookup(st, O('in', x, y)))]

    def lookup(self, st, atom):
        k = st.known(atom)
        return atom if k is None else C(k)

    # -- attributes -----------------------------------------------------------
    def e_Attribute(self, n, st, ctx):
        out = []
        for a, v in self.ev(n.value, st, ctx):
            if isinstance(v, Exc):
                out.append((a, v))
            else:
                out += self.get_attr(a, v, n.attr, ctx, n)
        return out

    def get_attr(self, st, v, name, ctx, node):
        t = v[0]
        if t == 'super':
            selfv, cid, after = v[1], v[2], v[3]
            m = self.repo.find_member(cid, name, after=after)
            return self.member_value(st, selfv, m, name, ctx, node)
        if t == 'r':
            o = st.heap.get(v[1])
            if o is None:
                return [(st, O('attr', v, name))]
            if o.kind == 'inst':
                if name in o.data:
                    m0 = self.repo.find_member(o.cls, name) if o.cls in self.repo.classes else None
                    if not (m0 and m0[0] == 'prop'):
                        return [(st, o.data[name])]
                m = self.repo.find_member(o.cls, name) if o.cls in self.repo.classes else None
                if m is not None:
                    return self.member_value(st, v, m, name, ctx, node)
                if name == '__class__':
                    return [(st, ('k', o.cls))]
                if name == '__doc__' and o.cls in self.repo.classes:
                    return self.get_attr(st, ('k', o.cls), name, ctx, node)
                if '$str' in o.data and not name.startswith('_'):
                    return self.get_attr(st, o.data['$str'], name, ctx, node)
                iv = self.client.init_attr(self, st, v[1], o.cls, name)
                if iv is not None:
                    if isinstance(iv, tuple) and iv and isinstance(iv[0], State):
                        st, iv = iv
                        o = st.heap[v[1]]
                    d = dict(o.data)
                    d[name] = iv
                    st = st.setobj(v[1], Obj('inst', o.cls, d))
                    return [(st, iv)]
                return [(st, S('init', v[1], name))]
            return [(st, ('xm', v, name))]
        if t == 'k':
            m = self.repo.find_member(v[1], name)
            if name == '__name__':
                return [(st, C(v[1].split('.')[-1]))]
            if v[1] in self.repo.classes:
                r = self.client.func_attr(self, st, v, self.repo.classes[v[1]], name)
                if r is not None:
                    return [r]
            if m is None:
                return [(st, O('attr', v, name))]
            if m[0] == 'method':
                fi = self.repo.funcs[m[1]]
                if fi.kind == 'classmethod':
                    return [(st, ('b', v, m[1]))]
                return [(st, ('f', m[1], None))]
            if m[0] == 'attr':
                lv = self.literal(m[2])
                return [(st, lv if lv is not None else S('const', v[1], name))]
            return [(st, O('attr', v, name))]
        if t == 'x':
            mod = self.repo.modules.get(v[1])
            if mod is not None:
                return [(st, self.global_value(mod, name))]
            if v[1] + '.' + name in self.repo.modules:
                return [(st, ('x', v[1] + '.' + name))]
            return [(st, ('x', v[1] + '.' + name))]
        if t in ('s', 'o', 'lin'):
            ov = st.heap.get(('ov', v))
            if ov is not None and name in ov.data:
                return [(st, ov.data[name])]
            if st.eqc(v) == NONE:
                return [(st, Exc(('cls', 'builtins.AttributeError'), None, getattr(node, 'lineno', 0)))]
            exc = [(st, Exc(k, None, node.lineno))
                   for k in self.client.may_raise(self, st, ctx, Target('attr', name, recv=v), node)]
            iv = self.client.init_attr(self, st, v, None, name)
            if iv is not None:
                return exc + [(st, iv)]
            return exc + [(st, O('attr', v, name) if depth(v) < 9 else S('deep', name))]
        if is_c(v):
            if v[2] is None:
                return [(st, Exc(('cls', 'builtins.AttributeError'), None, getattr(node, 'lineno', 0)))]
            return [(st, ('xm', v, name))]
        if t in ('f', 'b'):
            fi = self.repo.funcs[v[1] if t == 'f' else v[2]]
            r = self.client.func_attr(self, st, v, fi, name)
            if r is not None:
                return [r]
            if name == '__name__':
                return [(st, C(fi.name))]
            return [(st, O('attr', v, name))]
        return [(st, ('xm', v, name))]

    def member_value(self, st, selfv, m, name, ctx, node):
        if m is None:
            return [(st, O('attr', selfv, name))]
        if m[0] == 'prop':
            g = m[1].get('get')
            if g is None:
                return [(st, O('attr', selfv, name))]
            return self.invoke(('b', selfv, g), [], {}, st, ctx, node)
        if m[0] == 'method':
            fi = self.repo.funcs[m[1]]
            if fi.kind == 'static':
                return [(st, ('f', m[1], None))]
            return [(st, ('b', selfv, m[1]))]
        lv = self.literal(m[2])
        if lv is not None:
            return [(st, lv)]
        if isinstance(m[2], ast.Name):
            return [(st, self.global_value(m[1], m[2].id))]
        return [(st, S('const', m[3], name))]

    def set_attr(self, st, ov, name, v, ctx, node):
        if ov[0] == 'r':
            o = st.heap.get(ov[1])
            if o is not None and o.kind == 'inst':
                m = self.repo.find_member(o.cls, name) if o.cls in self.repo.classes else None
                if m is not None and m[0] == 'prop' and 'set' in m[1]:
                    out = []
                    for a, r in self.invoke(('b', ov, m[1]['set']), [v], {}, st, ctx, node):
                        out.append((a, r if isinstance(r, Exc) else None))
                    return out
                st = self.client.on_setattr(self, st, ctx, ov, name, v, node)
                if st is None:
                    return []
                o = st.heap.get(ov[1])
                d = dict(o.data)
                if isinstance(ov[1], tuple) and ov[1][0] == 'old' and d.get(name) != v:
                    v = S('old', ('weak', name))
                d[name] = v
                return [(st.setobj(ov[1], Obj('inst', o.cls, d)), None)]
            return [(st, None)]
        st = self.client.on_setattr(self, st, ctx, ov, name, v, node)
        if st is None:
            return []
        if ov[0] in ('s', 'o'):
            oid = ('ov', ov)
            o = st.heap.get(oid)
            d = dict(o.data) if o is not None else {}
            d[name] = v
            st = st.setobj(oid, Obj('inst', None, d))
        return [(st, None)]

    # -- subscripts ------------------------------------------------------------
    def e_Subscript(self, n, st, ctx):
        out = []
        for a, v in self.ev(n.value, st, ctx):
            if isinstance(v, Exc):
                out.append((a, v))
                continue
            if isinstance(n.slice, ast.Slice):
                sl = n.slice
                nodes = [sl.lower or ast.Constant(value=None), sl.upper or ast.Constant(value=None),
                         sl.step or ast.Constant(value=None)]
                for b, vs in self.ev_list(nodes, a, ctx):
                    if isinstance(vs, Exc):
                        out.append((b, vs))
                    else:
                        out.append(self.slice(b, v, vs, ctx, n))
                continue
            for b, k in self.ev(n.slice, a, ctx):
                if isinstance(k, Exc):
                    out.append((b, k))
                else:
                    out += self.get_item(b, v, k, ctx, n)
        return out

    def slice(self, st, v, vs, ctx, node):
        lo, hi, step = vs
        v = st.eqc(v) or v
        if all(is_c(x) for x in vs):
            sl = slice(lo[2], hi[2], step[2])
            if is_c(v) and isinstance(v[2], str):
                return st, C(v[2][sl])
            if v[0] == 't':
                return st, T(v[1][sl])
            items = self.iter_items(st, v) if v[0] == 'r' else None
            if items is not None:
                st, r = self.new_list(st, ctx, node, items[sl], tag='slice')
                return st, r
        if v[0] == 'r':
            o = st.heap.get(v[1])
            if o is not None and o.kind == 'list':
                if lo == C(0):
                    lo = NONE
                full = lo == NONE and hi == NONE and (step == NONE)
                segs = o.data[0] if full else self.collapse_segs(o.data[0], st)
                return self.alloc(st, ctx, node, 'list', None,
                                  (segs, o.data[1] if full else 0, o.data[2]), 'slice')
        # s[:len(s)-k] == s[:-k] ; s[:0]...
        if lo == C(0):
            lo = NONE
        if hi[0] == 'lin' and len(hi[2]) == 1 and hi[2][0] == (O('len', v), 1) and hi[1] < 0:
            hi = C(int(hi[1]))
        return st, O('slice', v, lo, hi) if step in (NONE, C(1)) else O('slice3', v, lo, hi, step)

    def get_item(self, st, v, k, ctx, node):
        r = self.client.on_getitem(self, st, ctx, v, k, node)
        if r is not None:
            return r
        line = getattr(node, 'lineno', 0)
        k = st.eqc(k) or k
        v = st.eqc(v) or v
        if v[0] == 'o' and v[1] == 'globals':
            g = self.global_named(v, k)
            if g is False:
                return [(st, Exc(('cls', 'builtins.KeyError'), None, line))]
            if g is not None:
                return [(st, g)]
        if v[0] == 't':
            if is_c(k) and isinstance(k[2], int):
                try:
                    return [(st, v[1][k[2]])]
                except IndexError:
                    return [(st, Exc(('cls', 'builtins.IndexError'), None, line))]
            st, e = self.fresh(st, ctx, node, 'item')
            return [(st, e)]
        if v[0] == 'o' and v[1] == 'cdict':
            ks = [(kk, x, st.known_eq(kk, k)) for kk, x in v[2:]]
            for kk, x, q in ks:
                if q is True:
                    return [(st, x)]
            if all(q is False for _, _, q in ks):
                return [(st, Exc(('cls', 'builtins.KeyError'), None, line))]
            return [(st, O('item', v, k))]
        if is_c(v) and isinstance(v[2], str) and is_c(k) and isinstance(k[2], int):
            try:
                return [(st, C(v[2][k[2]]))]
            except IndexError:
                return [(st, Exc(('cls', 'builtins.IndexError'), None, line))]
        if v[0] == 'r':
            o = st.heap.get(v[1])
            if o is not None and o.kind == 'list':
                segs, lo, hi = o.data
                if hi == 0:
                    return [(st, Exc(('cls', 'builtins.IndexError'), None, line))]
                if is_c(k) and isinstance(k[2], int):
                    i = k[2]
                    if i >= 0 and i < len(segs) and all(s[0] == 'I' for s in segs[:i + 1]) :
                        return [(st, segs[i][1])]
                    if i < 0 and -i <= len(segs) and all(s[0] == 'I' for s in segs[i:]):
                        return [(st, segs[i][1])]
                    if all(s[0] == 'I' for s in segs) and len(segs) == lo and not (-len(segs) <= i < len(segs)):
                        return [(st, Exc(('cls', 'builtins.IndexError'), None, line))]
                st, e = self.elem_of(st, ctx, node, v, 'item')
                return [(st, e)]
            if o is not None and o.kind == 'dict':
                ents, op = o.data
                ks = [(kk, x, st.known_eq(kk, k)) for kk, x in ents]
                for kk, x, q in ks:
                    if q is True:
                        return [(st, x)]
                if not op and all(q is False for _, _, q in ks):
                    return [(st, Exc(('cls', 'builtins.KeyError'), None, line))]
                if depth(k) < 8 and not unstable(k):
                    return [(st, O('item', v, k))]
                st, e = self.fresh(st, ctx, node, 'dget')
                return [(st, e)]
            if o is not None and o.kind == 'inst' and o.cls in self.repo.classes:
                m = self.repo.find_member(o.cls, '__getitem__')
                if m and m[0] == 'method':
                    return self.invoke(('b', v, m[1]), [k], {}, st, ctx, node)
        exc = [(st, Exc(kk, None, line))
               for kk in self.client.may_raise(self, st, ctx, Target('item', '[]', recv=v, val=k), node)]
        if depth(v) > 9 or depth(k) > 9:
            st, e = self.fresh(st, ctx, node, 'item')
            return exc + [(st, e)]
        return exc + [(st, O('item', v, k))]

    def set_item(self, st, ov, k, v, ctx, node):
        st = self.client.on_setitem(self, st, ctx, ov, k, v, node)
        if st is None:
            return []
        if ov[0] == 'r':
            o = st.heap.get(ov[1])
            if o is not None and o.kind == 'dict':
                ents, op = o.data
                out, hit = [], False
                for kk, x in ents:
                    q = st.known_eq(kk, k)
                    if q is True:
                        out.append((kk, v))
                        hit = True
                    elif q is False:
                        out.append((kk, x))
                    else:
                        op = True       # may have been overwritten
                if not hit:
                    out.append((k, v))
                if len(out) > 12:
                    out, op = [], True
                st = self.mutated(st, ov[1])
                return [(st.setobj(ov[1], Obj('dict', None, (tuple(out), op))), None)]
            if o is not None and o.kind == 'list':
                segs, lo, hi = o.data
                st = self.mutated(st, ov[1])
                if is_c(k) and isinstance(k[2], int) and all(s[0] == 'I' for s in segs) and -len(segs) <= k[2] < len(segs):
                    l = list(segs)
                    l[k[2]] = ('I', v)
                    return [(st.setobj(ov[1], Obj('list', None, (tuple(l), lo, hi))), None)]
                ns = self.collapse_segs(segs + (('I', v),), st)
                return [(st.setobj(ov[1], Obj('list', None, (ns, lo, hi))), None)]
            if o is not None and o.kind == 'inst' and o.cls in self.repo.classes:
                m = self.repo.find_member(o.cls, '__setitem__')
                if m and m[0] == 'method':
                    return [(a, r if isinstance(r, Exc) else None)
                            for a, r in self.invoke(('b', ov, m[1]), [k, v], {}, st, ctx, node)]
        if ov[0] in ('s', 'o'):
            st = st.drop_facts(O('in', k, ov))
            st = st.setfact(O('in', k, ov), True)
        return [(st, None)]

    def del_item(self, st, ov, k, ctx, node):
        if ov[0] == 'r':
            st = self.client.on_mutate(self, st, ctx, ov[1], 'del', (k,), node)
            if st is None:
                return []
            o = st.heap.get(ov[1])
            if o is not None and o.kind == 'dict':
                ents, op = o.data
                out = []
                for kk, x in ents:
                    q = st.known_eq(kk, k)
                    if q is True:
                        continue
                    if q is None:
                        op = True
                    out.append((kk, x))
                st = self.mutated(st, ov[1])
                return [(st.setobj(ov[1], Obj('dict', None, (tuple(out), op))), None)]
            if o is not None and o.kind == 'list':
                if is_c(k) and isinstance(k[2], int):
                    return [(a, None) for a, _ in self.list_pop(st, ov[1], k, ctx, node)]
                segs, lo, hi = o.data
                st = self.mutated(st, ov[1])
                return [(st.setobj(ov[1], Obj('list', None, (self.collapse_segs(segs, st), max(0, lo - 1), hi))), None)]
        return [(st, None)]

    # -- lists -----------------------------------------------------------------
    def mutated(self, st, oid):
        r = R(oid)
        if any(mentions(a, r) for a in st.facts):
            n = st.copy()
            n.facts = {a: t for a, t in st.facts.items()
                       if not (mentions(a, O('len', r)) or (a[0] == 'o' and a[1] in ('in', 'truth') and mentions(a, r)))}
            st = n
        lr = O('len', r)
        for v in st.values():
            if isinstance(v, tuple) and mentions(v, lr):
                st = st.rename(lr, S('oldlen', oid), facts=False)
                break
        return st

    def same_member(self, st, a, b):
        """Are these one member of a set? None when not known."""
        if a == b:
            return st.known_eq(a, b)
        a, b = self.text_of(st, a), self.text_of(st, b)
        for x in (a, b):
            o = st.heap.get(x[1]) if x[0] == 'r' else None
            if o is not None and o.kind == 'inst' and o.cls in self.repo.classes and self.repo.find_member(o.cls, '__eq__') is not None:
                return None
        return st.known_eq(a, b)

    def list_append(self, st, oid, v):
        if st.heap[oid].kind == 'set' and not self.client.mark_ops:
            segs, lo, hi = st.heap[oid].data
            if all(x[0] == 'I' for x in segs):
                ks = [self.same_member(st, v, x[1]) for x in segs]
                if True in ks:
                    return st
                if None not in ks and lo == hi == len(segs) < self.client.items_limit:
                    st = self.mutated(st, oid)
                    return st.setobj(oid, Obj('set', st.heap[oid].cls, (segs + (('I', v),), lo + 1, hi + 1)))
        st = self.mutated(st, oid)
        o = st.heap[oid]
        segs, lo, hi = o.data
        marks = self.props_of(v, st) if v[0] == 'r' and self.client.mark_ops else None
        segs = segs + ((('*', marks, None),) if marks else (('I', v),))
        if len(segs) > self.client.items_limit:
            segs = self.collapse_segs(segs, st)
        if o.kind == 'set':
            return st.setobj(oid, Obj(o.kind, o.cls, (segs, max(lo, 1), None if hi is None else hi + 1)))
        return st.setobj(oid, Obj(o.kind, o.cls, (segs, lo + 1, None if hi is None else hi + 1)))

    def list_extend(self, st, oid, v, ctx, node):
        items = self.iter_items(st, v)
        if items is not None and len(items) <= self.client.items_limit:
            for i in items:
                st = self.list_append(st, oid, i)
            return st
        st = self.mutated(st, oid)
        o = st.heap[oid]
        segs, lo, hi = o.data
        add = (('*', frozenset(), v if v[0] in ('s', 'o') and v[0] != 'gen' else None),)
        alo, ahi = st.len_bounds(v) if v[0] in ('r', 's', 'o') else (0, None)
        if v[0] == 'r':
            ov = st.heap.get(v[1])
            if ov is not None and ov.kind in ('list', 'set'):
                add = ov.data[0] if ov.kind == 'list' else self.collapse_segs(ov.data[0], st)
        segs = segs + tuple(add)
        if len(segs) > self.client.items_limit - 2:
            segs = self.collapse_segs(segs, st)
        nlo = lo + alo if o.kind == 'list' else max(lo, alo)
        return st.setobj(oid, Obj(o.kind, o.cls, (segs, nlo, None if hi is None or ahi is None else hi + ahi)))

    def list_pop(self, st, oid, k, ctx, node):
        o = st.heap[oid]
        segs, lo, hi = o.data
        line = getattr(node, 'lineno', 0)
        if hi == 0:
            return [(st, Exc(('cls', 'builtins.IndexError'), None, line))]
        out = []
        if lo == 0 and self.client.may_raise(self, st, ctx, Target('pop', 'pop', recv=R(oid)), node):
            out.append((st, Exc(('cls', 'builtins.IndexError'), None, line)))
        i = k[2] if is_c(k) else None
        nhi = None if hi is None else hi - 1
        nlo = max(0, lo - 1)
        if i in (0, -1) and segs:
            s = segs[i]
            if s[0] == 'I':
                rest = segs[1:] if i == 0 else segs[:-1]
                st = self.mutated(st, oid)
                return out + [(st.setobj(oid, Obj(o.kind, o.cls, (rest, nlo, nhi))), s[1])]
            # head/tail is an unknown stretch: it may be empty when exact items follow
            others = [x for x in segs if x[0] == 'I']
            st2, e = self.elem_of(st, ctx, node, ('r', oid), 'pop')
            if others:
                tmp = Obj(o.kind, o.cls, ((s,), 0, None))
                st2, e = self.elem_of(st.setobj(oid, tmp), ctx, node, ('r', oid), 'pop')
            st2 = self.mutated(st2, oid)
            out.append((st2.setobj(oid, Obj(o.kind, o.cls, (segs, nlo, nhi))), e))
            if others:
                # the unknown stretch is empty
                rest = tuple(x for x in (segs[1:] if i == 0 else segs[:-1]))
                x = rest[i]
                if x[0] == 'I':
                    st3 = self.mutated(st, oid)
                    rest2 = rest[1:] if i == 0 else rest[:-1]
                    out.append((st3.setobj(oid, Obj(o.kind, o.cls, (rest2, nlo, nhi))), x[1]))
            return out
        if i is not None and all(s[0] == 'I' for s in segs) and -len(segs) <= i < len(segs):
            l = list(segs)
            x = l.pop(i)
            st = self.mutated(st, oid)
            return out + [(st.setobj(oid, Obj(o.kind, o.cls, (tuple(l), nlo, nhi))), x[1])]
        st, e = self.elem_of(st, ctx, node, ('r', oid), 'pop')
        st = self.mutated(st, oid)
        return out + [(st.setobj(oid, Obj(o.kind, o.cls, (self.collapse_segs(segs, st), nlo, nhi))), e)]

    # -- comprehensions -----------------------------------------------------------
    def comp(self, n, gens, st, ctx, emit):
        """Run nested comprehension loops; emit(st) -> [(st, out)] for each combination."""
        if not gens:
            return emit(st)
        g, rest = gens[0], gens[1:]
        out = []
        for a, v in self.ev(g.iter, st, ctx):
            if isinstance(v, Exc):
                out.append((a, v))
                continue

            def body(b, elem):
                r = []
                for c, o in self.assign(g.target, elem, b, ctx):
                    cur = [(c, True)]
                    for cnd in g.ifs:
                        nxt = []
                        for d, t in cur:
                            if t is True:
                                nxt += self.cond(cnd, d, ctx)
                            else:
                                nxt.append((d, t))
                        cur = nxt
                    for d, t in cur:
                        if isinstance(t, Exc):
                            r.append((d, t))
                        elif t:
                            r += self.comp(n, rest, d, ctx, emit)
                        else:
                            r.append((d, None))
                return r
            out += self.loop_over(v, a, ctx, g.iter, body)
        return out

    def comp_wrap(self, n, st, ctx, run):
        names = set()
        for g in n.generators:
            for x in ast.walk(g.target):
                if isinstance(x, ast.Name):
                    names.add(x.id)
        saved = {k: st.frames.get(ctx.frame, {}).get(k) for k in names}
        out = []
        for a, v in run(st):
            back = [k for k, x in saved.items() if x is None]
            a = a.delvars(ctx.frame, back)
            for k, x in saved.items():
                if x is not None:
                    a = a.setvar(ctx.frame, k, x)
            out.append((a, v))
        return out

    def e_ListComp(self, n, st, ctx, kind='list'):
        def run(st):
            st, r = self.new_list(st, ctx, n, [], kind, tag='comp')
            slot = '$lc%d:%d' % (n.lineno, n.col_offset)
            st = st.setvar(ctx.frame, slot, r)

            def emit(a):
                out = []
                for b, v in self.ev(n.elt, a, ctx):
                    if isinstance(v, Exc):
                        out.append((b, v))
                    else:
                        l = b.frames[ctx.frame][slot]
                        out.append((self.list_append(b, l[1], v), None))
                return out
            out = []
            for a, o in self.comp(n, n.generators, st, ctx, emit):
                l = a.frames[ctx.frame][slot]
                a = a.delvars(ctx.frame, [slot])
                out.append((a, o if isinstance(o, Exc) else l))
            return out
        r = self.comp_map(n, st, ctx, kind)
        if r is not None:
            return r
        return self.comp_wrap(n, st, ctx, run)

    def comp_map(self, n, st, ctx, kind):
        return None

    def e_SetComp(self, n, st, ctx):
        return self.e_ListComp(n, st, ctx, 'set')

    def e_GeneratorExp(self, n, st, ctx):
        # consumed eagerly (any/all/sum/join/list consumers handle laziness themselves)
        return self.e_ListComp(n, st, ctx, 'list')

    def e_DictComp(self, n, st, ctx):
        def run(st):
            st, r = self.alloc(st, ctx, n, 'dict', None, ((), False), 'comp')
            slot = '$dc%d:%d' % (n.lineno, n.col_offset)
            st = st.setvar(ctx.frame, slot, r)

            def emit(a):
                out = []
                for b, vs in self.ev_list([n.key, n.value], a, ctx):
                    if isinstance(vs, Exc):
                        out.append((b, vs))
                    else:
                        d = b.frames[ctx.frame][slot]
                        ob = b.heap[d[1]]
                        if len(ob.data[0]) < 6 and is_c(vs[0]):
                            out += self.set_item(b, d, vs[0], vs[1], ctx, n)
                        else:
                            out.append((b.setobj(d[1], Obj('dict', None, ((), True))), None))
                return out
            out = []
            for a, o in self.comp(n, n.generators, st, ctx, emit):
                l = a.frames[ctx.frame][slot]
                a = a.delvars(ctx.frame, [slot])
                out.append((a, o if isinstance(o, Exc) else l))
            return out
        return self.comp_wrap(n, st, ctx, run)

    def any_all(self, n, st, ctx, is_any):
        """any()/all() over a generator expression, with short circuit."""
        g = n.generators
        if is_any and len(g) == 1 and not g[0].ifs and isinstance(g[0].target, ast.Name) and \
                isinstance(n.elt, ast.Compare) and len(n.elt.ops) == 1 and \
                isinstance(n.elt.ops[0], (ast.Eq, ast.Is)):
            l, r = n.elt.left, n.elt.comparators[0]
            other = None
            if isinstance(l, ast.Name) and l.id == g[0].target.id:
                other = r
            elif isinstance(r, ast.Name) and r.id == g[0].target.id:
                other = l
            if other is not None and not any(isinstance(x, ast.Name) and x.id == g[0].target.id for x in ast.walk(other)):
                out = []
                for a, vs in self.ev_list([other, g[0].iter], st, ctx):
                    if isinstance(vs, Exc):
                        out.append((a, vs))
                    else:
                        out += self.contains(vs[0], vs[1], a, ctx, n)
                return out

        def run(st):
            slot = '$aa%d:%d' % (n.lineno, n.col_offset)
            st = st.setvar(ctx.frame, slot, C(not is_any))

            def emit(a):
                out = []
                for b, t in self.cond(n.elt, a, ctx):
                    if isinstance(t, Exc):
                        out.append((b, t))
                    elif t == is_any:
                        out.append((b.setvar(ctx.frame, slot, C(is_any)), 'brk'))
                    else:
                        out.append((b, None))
                return out
            out = []
            for a, o in self.comp(n, g, st, ctx, emit):
                v = a.frames[ctx.frame][slot]
                a = a.delvars(ctx.frame, [slot])
                out.append((a, o if isinstance(o, Exc) else v))
            return out
        return self.comp_wrap(n, st, ctx, run)

    # -- functions as values -------------------------------------------------------
    def e_Lambda(self, n, st, ctx):
        return [(st, ('f', self.repo.node_func.get(id(n)), ctx.frame))]

    def e_Starred(self, n, st, ctx):
        return self.ev(n.value, st, ctx)

    def e_Yield(self, n, st, ctx):
        c = ctx
        out = []
        vals = self.ev(n.value, st, ctx) if n.value is not None else [(st, NONE)]
        for a, v in vals:
            if isinstance(v, Exc):
                out.append((a, v))
            elif ctx.yield_cb is not None:
                out += ctx.yield_cb(a, v)
            else:
                a, s = self.fresh(a, ctx, n, 'yield')
                out.append((a, s))
        return out

    def e_YieldFrom(self, n, st, ctx):
        out = []
        for a, v in self.ev(n.value, st, ctx):
            if isinstance(v, Exc):
                out.append((a, v))
                continue

            def body(b, e):
                if ctx.yield_cb is None:
                    return [(b, None)]
                return [(c, o if isinstance(o, Exc) else None) for c, o in ctx.yield_cb(b, e)]
            for b, o in self.loop_over(v, a, ctx, n, body):
                out.append((b, o if isinstance(o, Exc) else NONE))
        return out

    def e_Await(self, n, st, ctx):
        out = []
        for a, v in self.ev(n.value, st, ctx):
            if isinstance(v, Exc):
                out.append((a, v))
            else:
                out += self.do_await(v, a, ctx, n)
        return out

    def do_await(self, v, st, ctx, node):
        if v[0] == 'co':
            return self.invoke(v[1], list(v[2]), dict(v[3]), st, ctx, node, run=True)
        if v[0] == 't' and len(v) > 1:
            return [(st, v)]
        r = self.client.on_await(self, st, ctx, v, node)
        if r is not None:
            return r
        exc = [(st, Exc(k, None, node.lineno))
               for k in self.client.may_raise(self, st, ctx, Target('await', 'await', recv=v), node)]
        return exc + [(st, v)]

    # -- calls ------------------------------------------------------------------
    def e_Call(self, n, st, ctx):
        f = n.func
        # super()
        if isinstance(f, ast.Name) and f.id == 'super' and not n.args:
            c = ctx
            while c is not None and c.selfv is None:
                c = c.outer
            if c is not None and c.fi.cls is not None:
                sv = c.selfv
                o = st.heap.get(sv[1]) if sv[0] == 'r' else None
                cid = o.cls if o is not None and o.cls else (sv[1] if sv[0] == 'k' else c.fi.cls.cid)
                return [(st, ('super', sv, cid, c.fi.cls.cid))]
            return [(st, S('super'))]
        if isinstance(f, ast.Name) and f.id in ('any', 'all') and len(n.args) == 1 and \
                isinstance(n.args[0], (ast.GeneratorExp, ast.ListComp)) and \
                self.global_value(ctx.fi.module, f.id) == ('x', 'builtins.' + f.id) and f.id not in ctx.fi.locals:
            return self.any_all(n.args[0], st, ctx, f.id == 'any')
        out = []
        for a, fv in self.callee(f, st, ctx):
            if isinstance(fv, Exc):
                out.append((a, fv))
                continue
            slot = None
            if fv[0] in ('b', 'xm', 's', 'o', 'r', 'partial') and not all(
                    self.plain(x) for x in n.args + [k.value for k in n.keywords]):
                slot = '$fn%d:%d' % (n.lineno, n.col_offset)
                a = a.setvar(ctx.frame, slot, fv)
            for b, args, kwargs in self.ev_args(n, a, ctx):
                fv2 = fv
                if slot is not None:
                    fv2 = b.frames.get(ctx.frame, {}).get(slot, fv)
                    b = b.delvars(ctx.frame, [slot])
                if isinstance(args, Exc):
                    out.append((b, args))
                else:
                    out += self.invoke(fv2, args, kwargs, b, ctx, n)
        if len(out) > self.client.merge_limit:
            out = self.reduce_vals(out)
        return out

    def reduce_vals(self, res):
        o = self.reduce_outs([(a, v if isinstance(v, Exc) else ('ret', v)) for a, v in res])
        return [(a, v if isinstance(v, Exc) else v[1]) for a, v in o]

    def callee(self, f, st, ctx):
        if isinstance(f, ast.Attribute):
            out = []
            for a, v in self.ev(f.value, st, ctx):
                if isinstance(v, Exc):
                    out.append((a, v))
                elif v[0] in ('s', 'o', 'lin', 'gen', 't', 'co', 'xm'):
                    ov = a.heap.get(('ov', v))
                    if ov is not None and f.attr in ov.data:
                        out.append((a, ov.data[f.attr]))
                    elif a.eqc(v) == NONE:
                        out.append((a, Exc(('cls', 'builtins.AttributeError'), None, f.lineno)))
                    else:
                        out.append((a, ('xm', a.eqc(v) or v, f.attr)))
                else:
                    out += self.get_attr(a, v, f.attr, ctx, f)
            return out
        return self.ev(f, st, ctx)

    def ev_args(self, n, st, ctx):
        out = []
        for a, args in self.ev_list(n.args, st, ctx):
            if isinstance(args, Exc):
                out.append((a, args, None))
                continue
            cur = [(a, args, {})]
            for k in n.keywords:
                nxt = []
                park = not self.plain(k.value)
                for b, ar, kw in cur:
                    if isinstance(ar, Exc):
                        nxt.append((b, ar, None))
                        continue
                    slot = None
                    if park:
                        slot = '$kw%d:%d' % (k.value.lineno, k.value.col_offset)
                        b = b.setvar(ctx.frame, slot, ('t', (('t', tuple(ar)), ('t', tuple(kw.values())))))
                    for c, v in self.ev(k.value, b, ctx):
                        ar2, kw2 = ar, kw
                        if slot is not None:
                            pk = c.frames.get(ctx.frame, {}).get(slot)
                            if pk is not None:
                                ar2 = list(pk[1][0][1])
                                kw2 = dict(zip(kw.keys(), pk[1][1][1]))
                            c = c.delvars(ctx.frame, [slot])
                        if isinstance(v, Exc):
                            nxt.append((c, v, None))
                            continue
                        d = dict(kw2)
                        if k.arg is None:
                            o = c.heap.get(v[1]) if v[0] == 'r' else None
                            if o is not None and o.kind == 'dict':
                                for kk, x in o.data[0]:
                                    if is_c(kk):
                                        d[kk[2]] = x
                                if o.data[1]:
                                    d['**'] = v
                            else:
                                d['**'] = v
                        else:
                            d[k.arg] = v
                        nxt.append((c, ar2, d))
                cur = nxt
            out += [(b, ar if isinstance(ar, Exc) else list(ar), kw) for b, ar, kw in cur]
        return out

    def call_method(self, st, recv, name, args, kwargs, ctx, node, run=False):
        out = []
        for a, fv in self.get_attr(st, recv, name, ctx, node):
            if isinstance(fv, Exc):
                out.append((a, fv))
                continue
            for b, r in self.invoke(fv, args, kwargs, a, ctx, node):
                if run and not isinstance(r, Exc) and r[0] == 'co':
                    out += self.do_await(r, b, ctx, node)
                else:
                    out.append((b, r))
        return out

    def invoke(self, fv, args, kwargs, st, ctx, node, run=False):
        """Call a value.  Coroutine functions yield ('co', ...) unless run."""
        k = fv[0]
        self.callsites.add((ctx.fi.module.path, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0)))
        if k in ('f', 'b'):
            fid = fv[1] if k == 'f' else fv[2]
            fi = self.repo.funcs[fid]
            if fi.is_async and not fi.is_gen and not run:
                return [(st, ('co', fv, tuple(args), tuple(sorted(kwargs.items()))))]
            tgt = Target('func', fi.qual, fi=fi, recv=fv[1] if k == 'b' else None, val=fv)
            r = self.client.on_call(self, st, ctx, tgt, args, kwargs, node)
            if r is not None:
                return r
            if self.client.is_opaque(self, st, ctx, tgt):
                return self.opaque(tgt, args, kwargs, st, ctx, node)
            if fi.is_gen:
                if any('contextmanager' in d for d in fi.decorators) or True:
                    return [(st, ('gen', fv, tuple(args), tuple(sorted(kwargs.items()))))]
            n = 0
            c = ctx
            while c is not None:
                if c.fi is fi:
                    n += 1
                c = c.parent
            if n >= self.client.recursion or ctx.depth > self.client.max_depth:
                return self.opaque(tgt, args, kwargs, st, ctx, node)
            return self.run_function(fv, args, kwargs, st, ctx, node)
        if k == 'k':
            return self.construct(fv, args, kwargs, st, ctx, node)
        if k == 'x':
            return self.call_ext(fv[1], args, kwargs, st, ctx, node)
        if k == 'xm':
            return self.call_xm(fv[1], fv[2], args, kwargs, st, ctx, node)
        if k == 'partial':
            kw = dict(fv[3])
            kw.update(kwargs)
            return self.invoke(fv[1], list(fv[2]) + list(args), kw, st, ctx, node, run)
        if k == 'o' and fv[1] == 'partial':
            return self.invoke(fv[2], list(fv[3:]) + list(args), kwargs, st, ctx, node, run)
        if k == 'r':
            o = st.heap.get(fv[1])
            if o is not None and o.kind == 'inst' and o.cls in self.repo.classes:
                m = self.repo.find_member(o.cls, '__call__')
                if m and m[0] == 'method':
                    return self.invoke(('b', fv, m[1]), args, kwargs, st, ctx, node, run)
        tgt = Target('sym', show(fv), val=fv)
        if k == 'o' and fv[1] == 'attr':
            tgt = Target('meth', fv[3], recv=fv[2], val=fv)
        r = self.client.on_call(self, st, ctx, tgt, args, kwargs, node)
        if r is not None:
            return r
        return self.opaque(tgt, args, kwargs, st, ctx, node)

    def opaque(self, tgt, args, kwargs, st, ctx, node):
        out = []
        for k in self.client.may_raise(self, st, ctx, tgt, node):
            s = st.copy().note("%s: %s raises %s" % (self.loc(ctx, node), self.src(node), k[1].split('.')[-1]))
            out.append((s, Exc(k, None, getattr(node, 'lineno', 0))))
        # escaping lists may be changed by the callee
        for v in list(args) + list(kwargs.values()):
            st = self.escape(st, v, tgt)
        st, s = self.fresh(st, ctx, node, 'ret')
        out.append((st, s))
        return out

    def escape(self, st, v, tgt):
        if v[0] == 'r' and tgt.kind not in ('ext',):
            o = st.heap.get(v[1])
            if o is not None and o.kind in ('list', 'set'):
                st = self.mutated(st, v[1])
                return st.setobj(v[1], Obj(o.kind, o.cls, ((('*', frozenset(), None),), 0, None)))
            if o is not None and o.kind == 'dict':
                return st.setobj(v[1], Obj('dict', None, ((), True)))
        return st

    def bind(self, fi, selfv, args, kwargs, st, ctx, node):
        """-> (state, {param: V}) or (state, Exc)"""
        a = fi.node.args
        params = list(fi.params)
        vals = {}
        pos = list(args)
        if fi.kind in ('method', 'classmethod') and selfv is not None:
            pos = [selfv] + pos
        i = 0
        star = None
        for p in params:
            if i < len(pos):
                if pos[i][0] == 'star':
                    star = pos[i][1]
                    st, s = self.elem_of(st, ctx, node, star, 'arg' + p)
                    vals[p] = s
                    continue
                vals[p] = pos[i]
                i += 1
        rest = pos[i:]
        if fi.vararg:
            if rest and any(x[0] == 'star' for x in rest):
                if len(rest) == 1:
                    vals[fi.vararg] = rest[0][1]
                else:
                    st, lv = self.new_list(st, ctx, node, [], tag='va')
                    for x in rest:
                        if x[0] == 'star':
                            st = self.list_extend(st, lv[1], x[1], ctx, node)
                        else:
                            st = self.list_append(st, lv[1], x)
                    vals[fi.vararg] = lv
            else:
                vals[fi.vararg] = T(rest)
        elif rest and star is None and not any(x[0] == 'star' for x in rest):
            return st, Exc(('cls', 'builtins.TypeError'), None, getattr(node, 'lineno', 0))
        extra = {}
        for kname, v in kwargs.items():
            if kname == '**':
                continue
            if kname in params or kname in fi.kwonly:
                vals[kname] = v
            elif fi.kwarg:
                extra[kname] = v
            else:
                return st, Exc(('cls', 'builtins.TypeError'), None, getattr(node, 'lineno', 0))
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults)) if a.defaults else {}
        for p, d in zip(fi.kwonly, a.kw_defaults):
            if d is not None:
                defaults[p] = d
        for p in params + fi.kwonly:
            if p not in vals:
                if '**' in kwargs:
                    vals[p] = O('item', kwargs['**'], C(p))
                elif p in defaults:
                    lv = self.literal(defaults[p])
                    if lv is None:
                        if isinstance(defaults[p], ast.Name):
                            lv = self.class_scope_value(fi, defaults[p].id)
                        else:
                            lv = S('default', fi.fid, p)
                    vals[p] = lv
                else:
                    if star is not None:
                        vals[p] = S('starv', fi.fid, p)
                        continue
                    return st, Exc(('cls', 'builtins.TypeError'), None, getattr(node, 'lineno', 0))
        if fi.kwarg:
            st, d = self.alloc(st, ctx, node, 'dict', None,
                               (tuple((C(k2), v) for k2, v in extra.items()), '**' in kwargs), 'kw' + fi.name)
            vals[fi.kwarg] = d
        return st, vals

    def class_scope_value(self, fi, name):
        if fi.cls is not None:
            m = self.repo.find_member(fi.cls.cid, name)
            if m and m[0] == 'attr':
                lv = self.literal(m[2])
                if lv is not None:
                    return lv
        return self.global_value(fi.module, name)

    def run_function(self, fv, args, kwargs, st, ctx, node, yield_cb=None):
        k = fv[0]
        fid = fv[1] if k == 'f' else fv[2]
        selfv = fv[1] if k == 'b' else None
        fi = self.repo.funcs[fid]
        self.functions.add(fi.fid)
        st, vals = self.bind(fi, selfv, list(args), dict(kwargs), st, ctx, node)
        if isinstance(vals, Exc):
            return [(st, vals)]
        cid = self.cid_of(ctx.cid, fid, getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        outer = None
        if k == 'f' and fv[2] is not None:
            outer = self.frame_ctx.get(fv[2])
        if selfv is None and fi.kind in ('method',) and fi.params and fi.params[0] in vals:
            selfv = vals[fi.params[0]]
        sub = Ctx(fi, cid, ctx, outer, selfv)
        sub.yield_cb = yield_cb
        self.frame_ctx[cid] = sub
        st = st.copy()
        st.frames = dict(st.frames)
        st.frames[cid] = vals
        if isinstance(fi.node.body, list):
            res = self.exec_block(fi.node.body, [st], sub)
        else:
            res = [(a, v if isinstance(v, Exc) else ('ret', v)) for a, v in self.ev(fi.node.body, st, sub)]
        out = []
        for a, o in res:
            if o is None:
                a2 = self.client.on_return(self, a, sub, fi, NONE, fi.node)
                if a2 is None:
                    continue
                a = a2
                v = NONE
            elif isinstance(o, Exc):
                v = o
            elif o[0] == 'ret':
                v = o[1]
            else:
                v = NONE
            if not fi.has_nested:
                a = a.copy()
                a.frames = {q: w for q, w in a.frames.items() if q != cid}
            else:
                a = a.copy()
                fr = dict(a.frames)
                keep = fr.pop(cid, {})
                cap = self.liveness(fi).always
                keep = {q: w for q, w in keep.items() if q in cap}
                if keep and self.captured(a, v, cid):
                    fr[cid] = keep
                a.frames = fr
            out.append((a, v))
        if len(out) > 1:
            out = self.dedupe_vals(out)
        return out

    def captured(self, st, v, cid):
        def has(x):
            if isinstance(x, tuple):
                if len(x) == 3 and x[0] == 'f' and x[2] == cid:
                    return True
                return any(has(e) for e in x if isinstance(e, tuple))
            return False
        if not isinstance(v, Exc) and has(v):
            return True
        return any(has(x) for x in st.values() if isinstance(x, tuple))

    def dedupe_vals(self, res):
        groups = {}
        for a, v in res:
            kk = v.key() if isinstance(v, Exc) else ('v', v)
            groups.setdefault(kk, []).append((a, v))
        out = []
        for lst in groups.values():
            if len(lst) == 1:
                out += lst
                continue
            root = lst[0][1] if not isinstance(lst[0][1], Exc) else lst[0][1].val
            # keep the returned value alive while merging
            sts = [s.setvar('$keep', 'v', root) for s, _ in lst]
            for s in self.reduce(sts):
                s = s.copy()
                s.frames = {q: w for q, w in s.frames.items() if q != '$keep'}
                out.append((s, lst[0][1]))
        if len(out) > self.client.merge_limit:
            out = self.reduce_vals(out)
        return out

    def construct(self, fv, args, kwargs, st, ctx, node):
        cid = fv[1]
        tgt = Target('class', cid.split('.')[-1], val=fv)
        r = self.client.on_call(self, st, ctx, tgt, args, kwargs, node)
        if r is not None:
            return r
        st, ref = self.alloc(st, ctx, node, 'inst', cid, {})
        m = self.repo.find_member(cid, '__init__')
        if m is None or m[0] != 'method':
            return [(st, ref)]
        slot = '$new%d:%d' % (getattr(node, 'lineno', 0), getattr(node, 'col_offset', 0))
        st = st.setvar(ctx.frame, slot, ref)
        out = []
        for a, v in self.invoke(('b', ref, m[1]), args, kwargs, st, ctx, node):
            a = a.delvars(ctx.frame, [slot])
            out.append((a, v if isinstance(v, Exc) else ref))
        return out

    # start points -----------------------------------------------------------------
    def root_ctx(self, fi):
        cid = self.cid_of('root', fi.fid)
        c = Ctx(fi, cid, None)
        self.frame_ctx[cid] = c
        return c

    def run_entry(self, fi, st, selfv=None, args=(), kwargs=None):
        """Analyse one function from a prepared state -> [(State, V|Exc)]"""
        ctx = self.root_ctx(fi)
        if fi.outer is not None:
            ctx.outer = None
        fv = ('b', selfv, fi.fid) if selfv is not None else ('f', fi.fid, None)
        try:
            if fi.is_gen:
                return self.run_function(fv, list(args), dict(kwargs or {}), st, ctx, fi.node)
            return self.invoke(fv, list(args), dict(kwargs or {}), st, ctx, fi.node, run=True)
        except (Budget, RecursionError) as e:
            # what was explored so far stands; the evidence says it is incomplete
            self.incomplete.append("%s: %s" % (fi.qual, e))
            return []
