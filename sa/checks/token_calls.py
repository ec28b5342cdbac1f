"""C13: token routines are called properly, and their failures are contained."""

from ..values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, ANY_EXC, show
from ..cliclient import CliClient, start, const, need_method
from ..engine import Target

TOKEN, INPUT = S('p', 'token'), S('p', 'token_input')
CORO, RES = S('coro'), S('res')
WRAPPERS = (('match_token', 'match'), ('complete_token', 'complete'), ('get_token_value', 'get_value'))
IDLE = C(0)


def same_text(v, inp):
    while v[0] == 'o' and v[1] == 'str' and len(v) == 3:
        v = v[2]
    return v == inp


def definite(st, v):
    """A value that cannot be an unknown spelling of something else."""
    v = st.eqc(v) or v
    return is_c(v) or v[0] == 't' or v in (TOKEN, INPUT, CORO) or v[0] == 's' and v[1] == 'glob'


class Wrapper(CliClient):
    """One wrapper, one routine of one token; monitor: (calls, failed, awaited)."""
    merge_limit = 64

    def __init__(self, repo, routine, is_async):
        super().__init__(repo)
        self.routine = routine
        self.is_async = is_async
        self.calls = 0
        fi = repo.method('CliToken', routine)
        self.names = fi.params[1:] if fi else ['token_input', 'cli']

    def fail(self, st, node):
        n = st.mon[1][0][2]
        return st.setmon(T((C(n), TRUE))).copy().note("line %d: the token's routine raises" % node.lineno), Exc(ANY_EXC, None, node.lineno)

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        if not (tgt.kind == 'meth' and tgt.recv == TOKEN and tgt.name == self.routine):
            return None
        self.calls += 1
        n = st.mon[1][0][2]
        st = st.setmon(T((C(min(n + 1, 2)), st.mon[1][1])))
        if not any(a[0] == 'star' for a in args) and '**' not in kwargs:
            d = dict(zip(self.names, args))
            d.update(kwargs)
            x, cli = d.get(self.names[0]), d.get('cli')
            if x is None or not same_text(st.eqc(x) or x, INPUT) and (definite(st, x) or x[0] == 'o' and x[1] != 'or'):
                eng.report('input-passed', eng.loc(ctx, node), ctx.fi.qual,
                           "%s is called with %s for the input" % (self.routine, 'nothing' if x is None else show(x)), st)
            if cli is None or cli != R('self') and (definite(st, cli) or cli[0] == 'r'):
                eng.report('interpreter-passed', eng.loc(ctx, node), ctx.fi.qual,
                           "%s is called with %s for the interpreter" % (self.routine, 'nothing' if cli is None else show(cli)), st)
        if self.is_async:
            return [(st, CORO)]
        return [(st, RES), self.fail(st, node)]

    def may_raise(self, eng, st, ctx, tgt, node):
        if tgt.kind == 'await' and tgt.recv == RES and not self.is_async and st.known_truth(O('isaw', RES)) is not True:
            eng.report('plain-not-awaited', eng.loc(ctx, node), ctx.fi.qual, "the result of a plain %s routine is waited for" % self.routine, st)
        return super().may_raise(eng, st, ctx, tgt, node)

    def on_await(self, eng, st, ctx, v, node):
        if v != CORO:
            return None
        return [(st, RES), self.fail(st, node)]


def runs(repo, res, cls, name, routine, mk=Wrapper):
    fi = need_method(repo, 'CliInterface', name)
    for is_async in (True, False):
        cl = mk(repo, routine, is_async)
        eng, st = start(repo, cl, 'CliInterface')
        st = st.setfact(O('iscoro', O('attr', TOKEN, routine)), is_async).setfact(O('isaw', CORO), True)
        st = st.setmon(T((IDLE, FALSE)))
        yield fi, cl, eng, eng.run_entry(fi, st, R('self'), [TOKEN, INPUT], {}), is_async


def empty(st, v):
    if v[0] == 't':
        return len(v[1]) == 0
    if v[0] == 'r' and v[1] in st.heap and st.heap[v[1]].kind in ('list', 'set'):
        lo, hi = st.len_bounds(v)
        return True if hi == 0 else False if lo > 0 else None
    return False if is_c(v) else None


def failure_ok(repo, st, name, v):
    """Is v what stands for a failed routine?  None when not known."""
    v = st.eqc(v) or v
    if name == 'match_token':
        f = const(repo, 'tokens', 'MATCH_FAILURE')
        return v == f if definite(st, v) else st.known_eq(v, f)
    if name == 'complete_token':
        if v[0] == 'r' and v[1] in st.heap and st.heap[v[1]].kind in ('list', 'set'):
            lo, hi = st.len_bounds(v)
            return False if lo > 2 or hi is not None and hi < 2 else None
        if v[0] == 't':
            if len(v[1]) != 2:
                return False
            n, e = st.eqc(v[1][0]), empty(st, v[1][1])
            if e is False or n is not None and n[2] != 0:
                return False
            return True if e and n is not None else None
        return False if definite(st, v) else None
    if v[0] == 's' and v[1] == 'glob':
        return v[-1] == 'NullTokenValue'
    return False if definite(st, v) else None


def run(repo, res):
    res.rules = ['failure-contained', 'failure-result', 'input-passed', 'interpreter-passed', 'asynchronous-awaited', 'plain-not-awaited',
                 'result-unchanged', 'routine-called', 'called-through-wrapper']
    res.explanation = ("All paths of the three wrappers, once with an asynchronous and once with a plain routine that may return anything or raise; "
                       "and all call sites in the matcher and the result object where a token's routine could be called without a wrapper.")
    res.assumptions = ["an exception is one that derives from Exception", "asking a token whether it is cacheable does not raise"]
    for name, routine in WRAPPERS:
        for fi, cl, eng, outs, is_async in runs(repo, res, 'CliInterface', name, routine):
            kind = 'asynchronous' if is_async else 'plain'
            for s, v in outs:
                res.count('exits')
                n, failed = s.mon[1][0][2], s.mon[1][1] == TRUE
                if isinstance(v, Exc):
                    if failed:
                        eng.report('failure-contained', fi.where, fi.qual, "an error of a %s %s routine leaves %s" % (kind, routine, name), s)
                    continue
                if failed:
                    ok = failure_ok(repo, s, name, v)
                    if ok is False:
                        eng.report('failure-result', fi.where, fi.qual, "%s answers %s after the %s routine failed" % (name, show(v), routine), s)
                    res.count('undecided' if ok is None else 'exits_decided')
                    continue
                if v == CORO:
                    eng.report('asynchronous-awaited', fi.where, fi.qual, "the result of an asynchronous %s routine is not waited for" % routine, s)
                elif v == RES:
                    res.count('exits_decided')
                elif n and (definite(s, v) or v[0] == 'o' and v[1] in ('str', 'list', 'not', 'truth')):
                    eng.report('result-unchanged', fi.where, fi.qual, "%s answers %s, not the result of the %s routine" % (name, show(v), routine), s)
                elif not n and name != 'get_token_value' and definite(s, v):
                    eng.report('routine-called', fi.where, fi.qual, "%s answers %s without asking the token" % (name, show(v)), s)
                elif not n and name == 'get_token_value' and definite(s, v):
                    eng.report('routine-called', fi.where, fi.qual, "%s answers %s without asking the token" % (name, show(v)), s)
                else:
                    res.count('undecided' if n else 'exits_without_call')
            res.absorb(eng)
            res.count('routine_calls', cl.calls)
    res.need('routine_calls', 3, 'calls of token routines')
    res.need('exits_decided', 6, 'exits of the wrappers understood')
    direct(repo, res)


class Direct(CliClient):
    """Routines of tokens outside the wrappers."""
    merge_limit = 12
    loop_join = True
    unify = True
    boundary = frozenset([('CliInterface', n) for n in ('match_token', 'complete_token', 'get_token_value', 'check_orderless_set_elements',
                                                        'execute_success_sequence')])

    def __init__(self, repo):
        super().__init__(repo)
        self.sites = set()
        self.wrapped = set()

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        if tgt.kind == 'func' and tgt.fi is not None and tgt.fi.name == 'get_token' and tgt.fi.cls is not None and tgt.fi.cls.name == 'CliInterface':
            return [(st, S('tok'))]
        if tgt.kind == 'func' and tgt.fi is not None and tgt.fi.name in dict(WRAPPERS):
            self.wrapped.add(eng.loc(ctx, node))
        if tgt.kind == 'meth' and tgt.name in dict((b, a) for a, b in WRAPPERS) and tgt.recv[0] in ('s', 'o') and \
                (tgt.recv == S('tok') or R('self') in args or R('self') in kwargs.values()):
            self.sites.add(eng.loc(ctx, node))
            s2 = st.setmon(C('failed')).copy().note("%s: the token's routine raises" % eng.loc(ctx, node))
            return [(st, S('tokres')), (s2, Exc(ANY_EXC, None, node.lineno, None))]
        return None


def direct(repo, res):
    for cls, name, args, kw in (('CliInterface', 'match', [S('p', 'tok_list')], {'dry_run': S('p', 'dry_run'), 'last_token_complete': S('p', 'ltc'),
                                                                              'arglist': S('p', 'arglist')}),):
        cl = Direct(repo)
        eng, st = start(repo, cl, cls)
        fi = need_method(repo, cls, name)
        for s, v in eng.run_entry(fi, st, R('self'), args, kw):
            if isinstance(v, Exc) and s.mon == C('failed'):
                eng.report('called-through-wrapper', fi.where, fi.qual,
                           "an error of a token's routine that is called directly leaves %s" % name, s)
        res.absorb(eng)
        res.count('direct_sites', len(cl.sites))
        res.count('wrapper_call_sites', len(cl.wrapped))
    res.need('wrapper_call_sites', 1, 'calls of the wrappers in the matcher')
