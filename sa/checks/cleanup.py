"""C05: whatever ends the loop, what it set up is undone."""

from ..values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, show
from ..loopclient import LoopClient, self_attrs_written, USER, CANCEL
from ..cliclient import start, need_method, is_instance_call
from ..result import Anchor


class Cleanup(LoopClient):
    """monitor: (grammar scopes entered, pushes on the stack, which stack)"""
    cancel = True

    def __init__(self, repo):
        super().__init__(repo)
        self.run_attrs = self_attrs_written(repo, 'NessaidCmd', 'running')
        if not self.run_attrs:
            raise Anchor("the running flag has no setter")

    def ext_may_raise(self, eng, st, ctx, tgt, node):
        if tgt.kind == 'meth' and tgt.name in ('set_completer', 'parse_and_bind', 'write', 'flush'):
            return [USER]
        return []

    def get(self, st):
        return st.mon[1] if st.mon is not None else (C(0), C(0), NONE)

    def other_call(self, eng, st, ctx, tgt, args, kwargs, node):
        g, k, w = self.get(st)
        if is_instance_call(tgt, self.repo, 'CliInterface', 'enter_grammar'):
            self.hit('enter')
            return eng.opaque(tgt, args, kwargs, st.setmon(T((C(min(g[2] + 1, 3)), k, w))), ctx, node)
        if is_instance_call(tgt, self.repo, 'CliInterface', 'exit_grammar'):
            self.hit('leave')
            if g[2] == 0:
                eng.report('leave-without-enter', eng.loc(ctx, node), ctx.fi.qual,
                           "a grammar scope is left that was not entered here", st)
            return eng.opaque(tgt, args, kwargs, st.setmon(T((C(max(g[2] - 1, 0)), k, w))), ctx, node)
        if tgt.kind == 'meth' and tgt.name == 'append' and len(args) == 1 and args[0] == R('self') and \
                tgt.recv is not None and tgt.recv[0] in 'so':
            self.hit('push')
            return eng.opaque(tgt, args, kwargs, st.setmon(T((g, C(min(k[2] + 1, 3)), tgt.recv))), ctx, node)
        if tgt.kind == 'meth' and tgt.name in ('pop', 'remove') and tgt.recv == w and w != NONE:
            if tgt.name == 'pop' and args and args[0] != C(-1):
                return None
            self.hit('pop')
            if k[2] == 0:
                eng.report('pop-without-push', eng.loc(ctx, node), ctx.fi.qual,
                           "the stack of interpreters is popped although the own entry is already gone", st)
            return eng.opaque(tgt, args, kwargs, st.setmon(T((g, C(max(k[2] - 1, 0)), w))), ctx, node)
        return None


def run(repo, res):
    res.rules = ['grammar-left', 'stack-popped', 'not-running', 'exit-request-cleared', 'leave-without-enter', 'pop-without-push']
    res.explanation = ("Typestate dataflow over the interpreter loop with an error and a cancellation possible at every wait: on "
                       "every exit the grammar scopes entered equal those left, the pushes on the interpreter stack equal the "
                       "pops, the running flag is false and so is the exit request.")
    res.assumptions = ["entering the root grammar and writing a diagnostic do not fail",
                       "cancellation is delivered at waits on the terminal, hooks, matching and nested contexts"]
    gname = S('p', 'grammarname')
    for cls, name, args in (('NessaidCmd', 'cmdloop', []), ('NessaidCli', 'cmdloop', [gname]), ('NessaidCmd', 'exec_line', [S('p', 'line')])):
        cl = Cleanup(repo)
        eng, st = start(repo, cl, cls)
        fi = need_method(repo, cls, name)
        loop = name != 'exec_line'
        for s, v in eng.run_entry(fi, st, R('self'), args):
            res.count('outcomes')
            g, k, w = cl.get(s)
            how = "after %s" % v.kind[1].split('.')[-1] if isinstance(v, Exc) else "on a normal exit"
            if g[2] != 0:
                eng.report('grammar-left', fi.where, fi.qual, "the grammar scope stays entered " + how, s)
            if k[2] != 0:
                eng.report('stack-popped', fi.where, fi.qual, "the interpreter stays on the stack of interpreters " + how, s)
            if not loop or cl.hits.get('push', 0) == 0:
                continue
            d = s.heap['self'].data
            for a in sorted(cl.run_attrs):
                t = s.known_truth(d.get(a, S('init', 'self', a)))
                if t is True:
                    eng.report('not-running', fi.where, fi.qual, "the interpreter still counts as running " + how, s)
                elif t is None:
                    res.count('undecided')
            for a in sorted(cl.exit_attrs):
                val = d.get(a, S('init', 'self', a))
                t = s.known_truth(val)
                if t is not False:
                    # an exit request may be pending: user code ran since it was last cleared
                    eng.report('exit-request-cleared', fi.where, fi.qual, "an exit request survives the loop " + how, s)
        for k, n in cl.hits.items():
            res.count('calls_' + k, n)
        res.absorb(eng)
    res.need('calls_enter', 2, 'grammar scopes entered')
    res.need('calls_leave', 2, 'grammar scopes left')
    res.need('calls_push', 1, 'pushes on the interpreter stack')
    res.need('outcomes', 3, 'loop outcomes')
