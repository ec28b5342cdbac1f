"""C03: a one-shot command line ends in status 0 exactly when it was executed."""

from ..values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, ANY_EXC, show
from ..cliclient import CliClient, start, entry, const, need_method, need_class, is_instance_call


class Status(CliClient):
    def __init__(self, repo):
        super().__init__(repo)
        self.ok = const(repo, 'tokens', 'MATCH_SUCCESS')
        self.matches = 0

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        if tgt.kind == 'class' and tgt.name in ('NessaidCmd', 'NessaidCli'):
            st, ref = eng.alloc(st, ctx, node, 'inst', tgt.val[1], {})
            return [(st, ref)]
        if is_instance_call(tgt, self.repo, 'CliInterface', 'match'):
            self.matches += 1
            out = eng.opaque(tgt, args, kwargs, st, ctx, node)
            # monitor: the response of the line's own match
            return [(a if isinstance(v, Exc) else a.setmon(('t', (v,))), v) for a, v in out]
        return None

    boundary = CliClient.boundary | {('CliInterface', 'enter_grammar')}
    boundary_raises = {('CliInterface', 'match'): [ANY_EXC], ('CliInterface', 'enter_grammar'): [ANY_EXC]}

    def ext_may_raise(self, eng, st, ctx, tgt, node):
        # tokenizer and readline access can fail
        if tgt.kind == 'meth' and tgt.name in ('parse', 'set_completer', 'parse_and_bind'):
            return [ANY_EXC]
        return []


def executed(cl, st):
    """Was a command executed?  True / False / None (not known on this path)."""
    if st.mon is None:
        return False
    res = O('attr', st.mon[1][0], 'result')
    return st.known_eq(res, cl.ok)


def judge(cl, eng, res, fi, results):
    for st, v in results:
        res.count('outcomes')
        if isinstance(v, Exc):
            if eng.repo.is_exc_subclass(v.kind[1], 'builtins.Exception'):
                eng.report('status-not-exception', fi.where, fi.qual,
                           "an exception (%s) escapes instead of a status" % v.kind[1].split('.')[-1], st)
            continue
        for s, z in ((st.assume_eq(v, C(0), True), True), (st.assume_eq(v, C(0), False), False)):
            if s is None:
                continue
            if not is_c(v) and s.eqc(v) is None and not z:
                if v[0] in ('s',):
                    continue
            ex = executed(cl, s)
            definite = is_c(v) or v[0] in ('r', 't')
            if not definite:
                res.count('undecided_outcomes')
                continue
            if v == NONE and ex is not True:
                eng.report('status-is-a-number', fi.where, fi.qual,
                           "no status (None, which a process exit reads as success) is returned "
                           "on a path where no command was executed", s)
            if z and ex is not True:
                eng.report('zero-only-when-executed', fi.where, fi.qual,
                           "status 0 is returned on a path where no command was executed", s)
            if not z and ex is True:
                eng.report('executed-means-zero', fi.where, fi.qual,
                           "status %s is returned although the command was executed" % show(v), s)


def run(repo, res):
    res.rules = ['zero-only-when-executed', 'executed-means-zero', 'status-not-exception']
    res.explanation = ("Typestate dataflow over the one-shot entry points: every path's returned status is "
                       "compared with what the path knows about the match response.")
    res.assumptions = ["the match routine reports execution truthfully (decided by C02)",
                       "writing a diagnostic does not itself raise"]
    res.rules.append('status-is-a-number')
    line = S('p', 'line')
    for cls, name, args in (('NessaidCmd', 'exec_line', [line]), ('NessaidCli', 'exec_line', [line]),
                            ('NessaidCmd', 'exec_args', [line]), ('NessaidCli', 'exec_args', [line]),
                            ('NessaidCmd', 'execute_line', [line]), ('NessaidCmd', 'execute_args', [line])):
        fi = repo.method(cls, name)
        if fi is None:
            if name in ('exec_line', 'exec_args'):
                need_method(repo, cls, name)
            continue
        cl = Status(repo)
        eng, st = start(repo, cl, cls)
        if fi.kind == 'classmethod':
            out = eng.run_entry(fi, st, ('k', need_class(repo, cls)), args)
        else:
            out = eng.run_entry(fi, st, R('self'), args)
        judge(cl, eng, res, fi, out)
        res.count('entry_points')
        res.count('match_calls', cl.matches)
        res.absorb(eng)
    res.need('match_calls', 4, 'calls of the match routine')
    res.need('entry_points', 4, 'one-shot entry points')
