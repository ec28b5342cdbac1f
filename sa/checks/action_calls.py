"""C24: calls made by actions reach the right function, once, and their failures stay inside."""

from ..values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, ANY_EXC, show
from ..cliclient import CliClient, start, need_method, need_class, a_list, keep
from ..engine import Target
from ..state import Obj
from .token_calls import definite, CORO, RES

NAME = S('p', 'func_name')
HOOK = O('hook', NAME)
HAS = O('hasattr', R('self'), HOOK)
METHOD, BUILTIN, OTHER = S('method'), S('builtin'), S('othermethod')
SINKS = {'error', 'print', 'print_exc', 'exception', 'warning', 'write', 'log', 'print_exception'}


class Call(CliClient):
    """One call from an action; monitor: (calls of the method, calls of the built-in, failed, reported)."""
    merge_limit = 64

    def __init__(self, repo, is_async, args):
        super().__init__(repo)
        self.is_async = is_async
        self.args = args
        self.calls = 0

    def is_opaque(self, eng, st, ctx, tgt):
        return super().is_opaque(eng, st, ctx, tgt)

    def getter(self, eng, st, ctx, args, node):
        """getattr(self, name[, default])"""
        n = st.eqc(args[1]) or args[1]
        if n != HOOK:
            if n == NAME:
                return [(st, OTHER)]
            return None
        out = []
        for a, t in eng.branch(st, eng.lookup(st, HAS), ctx, node):
            if t:
                out.append((a, METHOD))
            elif len(args) > 2:
                out.append((a, args[2]))
            else:
                out.append((a, Exc(('cls', 'builtins.AttributeError'), None, node.lineno)))
        return out

    def check_args(self, eng, st, ctx, node, args, kwargs, what):
        if any(a[0] == 'star' for a in args):
            return
        if kwargs or len(args) != len(self.args):
            eng.report('arguments-in-order', eng.loc(ctx, node), ctx.fi.qual, "%s is called with %d arguments instead of %d" % (what, len(args) + len(kwargs), len(self.args)), st)
            return
        for x, want in zip(args, self.args):
            x = st.eqc(x) or x
            if x != want and (x in self.args or is_c(x) or x[0] == 't' or x in (NAME, HOOK) or x[0] == 'o' and x[1] in ('str', 'not', 'truth', 'repr')):
                eng.report('arguments-in-order', eng.loc(ctx, node), ctx.fi.qual, "%s is called with %s in the place of %s" % (what, show(x), show(want)), st)

    def bump(self, st, i):
        m = list(st.mon)
        m[i] = min(m[i] + 1, 2)
        return st.setmon(tuple(m))

    def fail(self, st, node, how):
        m = list(st.mon)
        m[2] = True
        m[3] = False
        return st.setmon(tuple(m)).copy().note("line %d: %s raises" % (node.lineno, how)), Exc(ANY_EXC, None, node.lineno)

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        last = tgt.name.split('.')[-1]
        if last == 'get_cli_hook' and len(args) == 1:
            return [(st, O('hook', args[0]))]
        if tgt.kind == 'ext' and tgt.name == 'builtins.getattr' and len(args) > 1 and args[0] == R('self'):
            return self.getter(eng, st, ctx, args, node)
        if last in SINKS and tgt.kind in ('func', 'meth', 'ext'):
            m = list(st.mon)
            m[3] = True
            return [(st.setmon(tuple(m)), NONE)]
        if tgt.val in (METHOD, OTHER):
            self.calls += 1
            if tgt.val == OTHER:
                eng.report('right-function', eng.loc(ctx, node), ctx.fi.qual, "the method called is not the one the name stands for", st)
            self.check_args(eng, st, ctx, node, args, kwargs, 'the method')
            st = self.bump(st, 0)
            if self.is_async:
                return [(st, CORO)]
            return [(st, RES), self.fail(st, node, 'the method')]
        if tgt.kind == 'func' and last == 'resolve_local_function_call':
            self.calls += 1
            x = st.eqc(args[0]) or args[0] if args else None
            if x != NAME and (x is None or definite(st, x) or x == HOOK or x in self.args):
                eng.report('right-function', eng.loc(ctx, node), ctx.fi.qual, "a built-in function is asked for by %s" % (show(x) if x else 'no name'), st)
            self.check_args(eng, st, ctx, node, args[1:], kwargs, 'the built-in function')
            st = self.bump(st, 1)
            return [(st, BUILTIN), self.fail(st, node, 'the built-in function')]
        return None

    def on_await(self, eng, st, ctx, v, node):
        if v == CORO:
            return [(st, RES), self.fail(st, node, 'the method')]
        return None

    def may_raise(self, eng, st, ctx, tgt, node):
        if tgt.kind == 'await' and tgt.recv == RES and not self.is_async and st.known_truth(O('isaw', RES)) is not True:
            eng.report('plain-not-awaited', eng.loc(ctx, node), ctx.fi.qual, "the result of a plain method is waited for", st)
        return super().may_raise(eng, st, ctx, tgt, node)


def one_call(repo, res):
    fi = need_method(repo, 'CliInterface', 'execute_binding_call')
    for local in (FALSE, TRUE):
        for is_async in (True, False):
            for n in (0, 1, 3):
                args = [S('arg', i) for i in range(n)]
                cl = Call(repo, is_async, args)
                eng, st = start(repo, cl, 'CliInterface')
                st = st.setmon((0, 0, False, False)).setfact(O('iscoro', METHOD), is_async).setfact(O('isaw', CORO), True).setfact(('nonnull', METHOD), True).setfact(O('truth', METHOD), True)
                for s, v in eng.run_entry(fi, st, R('self'), [NAME, local] + args, {}):
                    res.count('exits')
                    meth, built, failed, told = s.mon
                    has = s.facts.get(HAS)
                    if isinstance(v, Exc):
                        eng.report('failure-contained', fi.where, fi.qual,
                                   "an error leaves the call routine" + (" when the method is missing" if local == FALSE and has is False else ''), s)
                        continue
                    if local == FALSE:
                        if built:
                            eng.report('right-function', fi.where, fi.qual, "a built-in function is run although the interpreter's method was asked for", s)
                        if has is False:
                            if not told:
                                eng.report('failure-reported', fi.where, fi.qual, "a missing method is not reported", s)
                            else:
                                res.count('exits_decided')
                            continue
                        if has is None and not meth:
                            res.count('undecided')
                            continue
                    elif meth:
                        eng.report('right-function', fi.where, fi.qual, "the interpreter's method is run although a built-in function was asked for", s)
                    k = built if local == TRUE else meth
                    if k != 1:
                        eng.report('called-once', fi.where, fi.qual, "the function is called %s" % ('more than once' if k else 'not at all'), s)
                        continue
                    if failed:
                        if not told:
                            eng.report('failure-reported', fi.where, fi.qual, "a failing call is not reported", s)
                        else:
                            res.count('exits_decided')
                        continue
                    want = BUILTIN if local == TRUE else RES
                    if v == CORO or v[0] == 'co':
                        eng.report('asynchronous-awaited', fi.where, fi.qual, "the result of an asynchronous function is not waited for", s)
                    elif v == want:
                        res.count('exits_decided')
                    elif definite(s, v) or v in args or v[0] == 'o' and v[1] in ('str', 'not', 'truth'):
                        eng.report('result-used', fi.where, fi.qual, "the call answers %s, not the result of the function" % show(v), s)
                    else:
                        res.count('undecided')
                res.absorb(eng)
                res.count('function_calls', cl.calls)


class Block(CliClient):
    """The action interpreter: which calls it makes, in which order."""
    merge_limit = 64

    def __init__(self, repo):
        super().__init__(repo)
        self.seen = 0
        self.expr = {}

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        last = tgt.name.split('.')[-1]
        if last == 'evaluate' and tgt.fi is not None and len(args) == 1:
            return [(st, O('eval', args[0]))]
        if last == 'execute_binding_call':
            self.seen += 1
            n = len(st.mon)
            return [(st.setmon(st.mon + ((tuple(args), tuple(sorted(kwargs.items())), eng.loc(ctx, node), ctx.fi.qual),) if n < 5 else st.mon), O('called', C(n)))]
        return None


def call_obj(repo, st, cls, name, n):
    """An instance of a call class, made by its own constructor."""
    cid = need_class(repo, cls)
    oid = ('w', name)
    args = [S('arg', name, i) for i in range(n)]
    st = st.setobj(oid + ('args',), a_list(*args))
    return cid, oid, args, st


def judge(repo, res, eng, s, calls, want, fi):
    """calls: what was called; want: [(name, local, args)]"""
    if len(calls) != len(want):
        eng.report('called-once', fi.where, fi.qual, "an action with %d calls makes %d" % (len(want), len(calls)), s)
        return
    for (args, kw, where, qual), (name, local, wargs) in zip(calls, want):
        if any(a[0] == 'star' for a in args) or any(k == '**' for k, _ in kw):
            res.count('undecided')
            continue
        d = dict(kw)
        args = list(args)
        fn = args.pop(0) if args else d.get('func_name')
        lo = args.pop(0) if args else d.get('local_function')
        known = [n for n, _, _ in want]
        if fn is not None and fn != name and (fn in known or is_c(fn)):
            eng.report('right-function', where, qual, "%s is called where %s is named" % (show(fn), show(name)), s)
        t = s.known_truth(lo) if lo is not None else None
        if t is not None and t != local:
            eng.report('right-function', where, qual, "a call of %s is run as a call of %s" % (
                ('a built-in function', 'a method') if local else ('a method', 'a built-in function')), s)
        elif t is None:
            res.count('undecided')
        if [O('eval', a) for a in wargs] != args:
            if all(a[0] == 'o' and a[1] == 'eval' or a[0] == 's' and a[1] == 'arg' or is_c(a) for a in args):
                eng.report('arguments-in-order', where, qual, "the arguments are %s" % ', '.join(show(a) for a in args), s)
            else:
                res.count('undecided')
        else:
            res.count('calls_decided')


def prepare(repo, eng, st, calls):
    want = []
    for i, (cls, n) in enumerate(calls):
        cid, oid, args, st = call_obj(repo, st, cls, 'f%d' % i, n)
        st = keep(st.setobj(oid, Obj('inst', cid, {})), oid, oid + ('args',))
        ini = repo.find_member(cid, '__init__')
        name = S('fname', i)
        outs = eng.run_entry(repo.funcs[ini[1]], st, R(oid), [name, R(oid + ('args',))], {})
        outs = [a for a, v in outs if not isinstance(v, Exc)]
        if len(outs) != 1:
            return None, None
        st = outs[0]
        want.append((R(oid), (name, cls == 'FunctionCall', args)))
    return st, want


def interpreter(repo, res):
    x = need_class(repo, 'ExecContext')
    for calls in ([('BindingCall', 2)], [('FunctionCall', 2)], [('BindingCall', 0)], [('FunctionCall', 1)]):
        cl = Block(repo)
        eng, st = start(repo, cl, 'ExecContext', {'_interface': S('p', 'interface')})
        st = st.setmon(())
        st, want = prepare(repo, eng, st, calls)
        if st is None:
            res.count('undecided')
            continue
        fi = need_method(repo, 'ExecContext', 'resolve_argument')
        for s, v in eng.run_entry(fi, st, R('self'), [want[0][0]], {}):
            res.count('exits')
            if isinstance(v, Exc):
                continue
            judge(repo, res, eng, s, s.mon, [w for _, w in want], fi)
            if len(s.mon) == 1 and v != O('called', C(0)) and (definite(s, v) or v[0] == 'co'):
                eng.report('result-used', fi.where, fi.qual, "a call used as a value gives %s" % show(v), s)
        res.absorb(eng)
        res.count('interpreter_calls', cl.seen)
    bc = need_class(repo, 'BindingCode')
    for calls in ([('BindingCall', 2), ('FunctionCall', 1), ('BindingCall', 0)], [('FunctionCall', 2)], [('BindingCall', 1)]):
        cl = Block(repo)
        eng, st = start(repo, cl, 'ExecContext', {'_interface': S('p', 'interface')})
        st = st.setmon(())
        st = st.setobj('gs', a_list(S('grammar_context'))).setobj('es', a_list(S('element_context')))
        st = st.setobj('self', Obj('inst', x, dict(st.heap['self'].data, _grammar_stack=R('gs'), _element_stack=R('es'))))
        st, want = prepare(repo, eng, st, calls)
        if st is None:
            res.count('undecided')
            continue
        st = st.setobj(('w', 'blocks'), a_list(*[r for r, _ in want])).setobj(('w', 'code'), Obj('inst', bc, {}))
        st = keep(st, ('w', 'blocks'), ('w', 'code'))
        ini = repo.find_member(bc, '__init__')
        outs = [a for a, v in eng.run_entry(repo.funcs[ini[1]], st, R(('w', 'code')), [R(('w', 'blocks'))], {}) if not isinstance(v, Exc)]
        if len(outs) != 1:
            res.count('undecided')
            continue
        st = outs[0].setobj('codes', a_list(R(('w', 'code'))))
        fi = need_method(repo, 'ExecContext', 'execute_binding')
        for s, v in eng.run_entry(fi, st, R('self'), [R('codes')], {}):
            res.count('exits')
            if isinstance(v, Exc):
                continue
            judge(repo, res, eng, s, s.mon, [w for _, w in want], fi)
        res.absorb(eng)
        res.count('interpreter_calls', cl.seen)


def run(repo, res):
    res.rules = ['right-function', 'called-once', 'arguments-in-order', 'asynchronous-awaited', 'plain-not-awaited', 'result-used', 'failure-contained', 'failure-reported']
    res.explanation = ("All paths of the call routine for a method or a built-in function, plain or asynchronous, existing or missing, with none, one and three arguments, "
                       "where every call may raise; and all paths of the action interpreter over actions made of calls.")
    res.assumptions = ["the interpreter's reporting routine does not raise", "an exception is one that derives from Exception"]
    one_call(repo, res)
    interpreter(repo, res)
    res.need('exits_decided', 6, 'exits of the call routine understood')
    res.need('interpreter_calls', 2, 'calls made by the action interpreter')
