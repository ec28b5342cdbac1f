"""Backward live-variable analysis over the statement tree of one function."""

import ast


def uses(n, out):
    if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Load, ast.Del)):
        out.add(n.id)
    for c in ast.iter_child_nodes(n):
        uses(c, out)


def defs_simple(t, out):
    if isinstance(t, ast.Name):
        out.add(t.id)
    elif isinstance(t, (ast.Tuple, ast.List)):
        for e in t.elts:
            defs_simple(e, out)
    elif isinstance(t, ast.Starred):
        defs_simple(t.value, out)


class Liveness:
    def __init__(self, fi):
        self.out = {}
        self.head = {}
        self.always = set()
        for n in ast.walk(fi.node):
            if n is not fi.node and isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda)):
                for x in ast.walk(n):
                    if isinstance(x, ast.Name):
                        self.always.add(x.id)
        body = fi.node.body
        if isinstance(body, list):
            self.block(body, frozenset(), frozenset(), frozenset(), frozenset())

    def block(self, stmts, after, brk, cont, exc):
        live = after
        for s in reversed(stmts):
            o = live | exc
            self.out[id(s)] = self.out.get(id(s), frozenset()) | o
            live = self.stmt(s, live, brk, cont, exc) | exc
        return live

    def gen(self, live, kill, nodes):
        u = set()
        for n in nodes:
            if n is not None:
                uses(n, u)
        return frozenset((live - kill) | u)

    def stmt(self, s, after, brk, cont, exc):
        if isinstance(s, ast.Assign):
            k = set()
            for t in s.targets:
                defs_simple(t, k)
            return self.gen(after, k, [s.value] + list(s.targets))
        if isinstance(s, ast.AnnAssign):
            k = set()
            defs_simple(s.target, k)
            return self.gen(after, k if s.value else set(), [s.value, s.target])
        if isinstance(s, ast.AugAssign):
            u = set()
            uses(s.value, u)
            uses(s.target, u)
            if isinstance(s.target, ast.Name):
                u.add(s.target.id)
            return frozenset(after | u)
        if isinstance(s, ast.If):
            a = self.block(s.body, after, brk, cont, exc)
            b = self.block(s.orelse, after, brk, cont, exc)
            return self.gen(a | b, set(), [s.test])
        if isinstance(s, (ast.For, ast.AsyncFor)):
            k = set()
            defs_simple(s.target, k)
            orelse = self.block(s.orelse, after, brk, cont, exc) if s.orelse else after
            head = orelse
            for _ in range(3):
                b = self.block(s.body, head, after, head, exc)
                nh = frozenset(head | (b - k))
                if nh == head:
                    break
                head = nh
            self.head[id(s)] = head | exc
            return self.gen(head, set(), [s.iter])
        if isinstance(s, ast.While):
            orelse = self.block(s.orelse, after, brk, cont, exc) if s.orelse else after
            head = self.gen(orelse, set(), [s.test])
            for _ in range(4):
                b = self.block(s.body, head, after, head, exc)
                nh = self.gen(orelse | b, set(), [s.test])
                if nh == head:
                    break
                head = nh
            self.head[id(s)] = head | exc
            return head
        if isinstance(s, (ast.Try, getattr(ast, 'TryStar', ast.Try))):
            fin = self.block(s.finalbody, after, brk, cont, exc) if s.finalbody else after
            fexc = fin | exc if s.finalbody else exc
            # break/continue/return leave through finally: be conservative
            extra = fin if s.finalbody else frozenset()
            hl = frozenset()
            for h in s.handlers:
                b = self.block(h.body, fin, brk | extra, cont | extra, fexc)
                if h.name:
                    b = b - {h.name}
                hl = hl | self.gen(b, set(), [h.type])
            orelse = self.block(s.orelse, fin, brk | extra, cont | extra, fexc) if s.orelse else fin
            return self.block(s.body, orelse, brk | extra, cont | extra, fexc | hl) | hl
        if isinstance(s, (ast.With, ast.AsyncWith)):
            b = self.block(s.body, after, brk, cont, exc)
            k = set()
            for i in s.items:
                if i.optional_vars is not None:
                    defs_simple(i.optional_vars, k)
            return self.gen(b, k, [i.context_expr for i in s.items])
        if isinstance(s, ast.Return):
            return self.gen(exc, set(), [s.value])
        if isinstance(s, ast.Raise):
            return self.gen(exc, set(), [s.exc, s.cause])
        if isinstance(s, ast.Break):
            return frozenset(brk | exc)
        if isinstance(s, ast.Continue):
            return frozenset(cont | exc)
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return self.gen(after, {s.name}, [s])
        if isinstance(s, getattr(ast, 'Match', ())):
            r = after
            for c in s.cases:
                r = r | self.block(c.body, after, brk, cont, exc)
                u = set()
                uses(c, u)
                r = r | u
            return self.gen(r, set(), [s.subject])
        return self.gen(after, set(), [s])
