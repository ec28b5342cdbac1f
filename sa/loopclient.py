"""Boundaries and havoc for analysing the interpreter loop."""

import ast

from .values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, ANY_EXC, mentions, show
from .state import Obj
from .cliclient import CliClient, RL_EOF, RL_INT, is_instance_call, is_ancestor
from .result import Anchor

USER = ('cls', 'analysis.UserError')
CANCEL = ('cls', 'asyncio.CancelledError')


def self_attrs_written(repo, cls, name, seen=None):
    """Attributes of self assigned in a method (or property setter) of the
    class, or in the methods of the same object it calls."""
    seen = set() if seen is None else seen
    out = set()
    cid = repo.cls(cls)
    m = repo.find_member(cid, name)
    if m is None or (cls, name) in seen:
        return out
    seen.add((cls, name))
    fids = [m[1]] if m[0] == 'method' else [f for k, f in m[1].items() if k == 'set'] if m[0] == 'prop' else []
    for f in fids:
        fi = repo.funcs[f]
        me = fi.params[0] if fi.params else None

        def stored(attr):
            p = repo.find_member(cid, attr)
            return self_attrs_written(repo, cls, attr, seen) if p is not None and p[0] == 'prop' else {attr}

        for n in ast.walk(fi.node):
            if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == me:
                if isinstance(n.ctx, ast.Store):
                    out |= stored(n.attr)
                else:
                    p = repo.find_member(cid, n.attr)
                    if p is not None and p[0] == 'method':
                        out |= self_attrs_written(repo, cls, n.attr, seen)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == 'setattr' and \
                    len(n.args) == 3 and isinstance(n.args[0], ast.Name) and n.args[0].id == me and \
                    isinstance(n.args[1], ast.Constant):
                out |= stored(n.args[1].value)
    return out


class LoopClient(CliClient):
    merge_limit = 10
    loop_join = True
    cancel = False           # awaits may be cancelled

    def __init__(self, repo):
        super().__init__(repo)
        self.exit_attrs = self_attrs_written(repo, 'NessaidCmd', 'exit_loop')
        self.child_attrs = self_attrs_written(repo, 'NessaidCmd', 'child_cli')
        if not self.exit_attrs:
            raise Anchor("exit_loop() assigns no attribute")
        self.child_cls = repo.cls('ChildCliExitException')
        if self.child_cls is None:
            raise Anchor("ChildCliExitException not found")
        self.hits = {}

    def is_cli(self, ci):
        return any(c is not None and c.name == 'CliInterface' for c in
                   (self.repo.classes.get(m) for m in self.repo.mro(ci.cid)))

    def hit(self, k):
        self.hits[k] = self.hits.get(k, 0) + 1

    # -- which call is what ----------------------------------------------------
    def event(self, st, ctx, tgt):
        """Name of the boundary a call crosses, or None."""
        if tgt.kind == 'func' and tgt.fi is not None and tgt.fi.name == 'match' and \
                tgt.fi.cls is not None and self.is_cli(tgt.fi.cls):
            return 'match'
        if tgt.kind == 'func' and tgt.fi is not None and tgt.fi.cls is not None:
            if tgt.fi.hook(self.repo) and not tgt.fi.name.startswith('__'):
                return 'hook'
            return None
        if tgt.kind in ('meth', 'sym'):
            if tgt.kind == 'meth' and tgt.name == 'context_loop':
                return 'child'
            if tgt.kind == 'meth' and tgt.name in ('readline', 'input') and not is_ancestor(tgt.recv):
                return 'read'
            if tgt.kind == 'meth' and tgt.name == 'parse':
                return 'parse'
            if tgt.kind == 'meth' and tgt.name == 'match' and is_ancestor(tgt.recv):
                return 'pmatch'
        return None

    def raises(self, ev):
        r = {'match': [USER, ('cls', self.child_cls)], 'hook': [USER], 'child': [('cls', self.child_cls), USER],
             'read': [RL_EOF, RL_INT, ('cls', 'builtins.EOFError'), USER], 'parse': [USER] + self.tok_exc(),
             'pmatch': [USER]}.get(ev, [])
        if self.cancel and ev in ('match', 'hook', 'child', 'read', 'pmatch'):
            r = r + [CANCEL]
        return r

    def tok_exc(self):
        c = self.repo.cls('TokenizerException')
        return [('cls', c)] if c else []

    def may_raise(self, eng, st, ctx, tgt, node):
        ev = self.event(st, ctx, tgt)
        if ev is not None:
            return self.raises(ev)
        return self.ext_may_raise(eng, st, ctx, tgt, node)

    def is_opaque(self, eng, st, ctx, tgt):
        if tgt.kind == 'func' and self.event(st, ctx, tgt) is not None:
            self.hooks.add(tgt.fi.qual)
            return True
        k = self.bkey(tgt)
        return k is not None and k in self.boundary

    boundary = frozenset([('CliInterface', 'enter_grammar'), ('CliInterface', 'exit_grammar'),
                          ('StdStreamsHolder', 'error'), ('StdStreamsHolder', 'print')])

    # -- effects of user code ------------------------------------------------------
    def havoc(self, eng, st, ctx, node, attrs):
        for a in sorted(attrs):
            st, s = eng.fresh(st, ctx, node, 'hv' + a)
            o = st.heap['self']
            d = dict(o.data)
            d[a] = s
            st = st.setobj('self', Obj('inst', o.cls, d))
        return st

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        ev = self.event(st, ctx, tgt)
        if ev is None:
            return self.other_call(eng, st, ctx, tgt, args, kwargs, node)
        self.hit(ev)
        st = self.before(eng, st, ctx, ev, tgt, args, kwargs, node)
        if st is None:
            return []
        out = []
        for a, v in eng.opaque(tgt, args, kwargs, st, ctx, node):
            if ev in ('match', 'hook', 'read'):
                # actions and hooks may ask for the loop to end or enter a context
                hold = None
                if not isinstance(v, Exc):
                    a = a.setvar(ctx.frame, '$hold', v)
                # (asking to end a loop that is already ending has no point)
                leaving = ev == 'hook' and tgt.fi.name == 'on_exit'
                at = (set() if leaving else self.exit_attrs) | (self.child_attrs if ev in ('match', 'hook') else set())
                a = self.havoc(eng, a, ctx, node, at)
                if not isinstance(v, Exc):
                    v = a.frames[ctx.frame]['$hold']
                    a = a.delvars(ctx.frame, ['$hold'])
            a = self.after(eng, a, ctx, ev, tgt, args, kwargs, v, node)
            if a is not None:
                out.append((a, v))
        return out

    def other_call(self, eng, st, ctx, tgt, args, kwargs, node):
        return None

    def before(self, eng, st, ctx, ev, tgt, args, kwargs, node):
        return st

    def after(self, eng, st, ctx, ev, tgt, args, kwargs, v, node):
        return st
