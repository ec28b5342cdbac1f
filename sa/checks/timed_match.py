"""C40: timing and profiling never change what a line does."""

from ..values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, show
from ..cliclient import CliClient, start, need_method, is_instance_call
from .parent_fallback import PARAMS, different, flag_attr

PROFILER = {'cProfile.Profile', '_lsprof.Profiler'}
VALUE_ERROR = ('cls', 'builtins.ValueError')
TYPE_ERROR = ('cls', 'builtins.TypeError')
# matches made, value, raised, busy (another profiler runs), profilers running, ever run, written
START = (C(0), NONE, FALSE, NONE, C(0), FALSE, FALSE)
N, VALUE, RAISED, BUSY, RUNNING, EVER, WRITTEN = range(7)


def get(st, i):
    return (st.mon[1] if st.mon is not None else START)[i]


def put(st, i, v):
    m = list(st.mon[1] if st.mon is not None else START)
    m[i] = v
    return st.setmon(T(tuple(m)))


def is_profiler(v):
    return v is not None and v[0] == 's' and v[1] == 'profiler'


class Timed(CliClient):
    def __init__(self, repo, during):
        super().__init__(repo)
        self.during = during
        self.made = 0
        self.calls = 0

    def enable(self, st):
        """Only one profiler can run in an interpreter"""
        out = []
        if get(st, BUSY) != FALSE:
            out.append((put(st, BUSY, TRUE), Exc(VALUE_ERROR, None, 0, 'busy')))
        if get(st, BUSY) != TRUE:
            n = get(st, RUNNING)[2]
            b = put(st, BUSY, FALSE)
            if n:
                return [(b, Exc(VALUE_ERROR, None, 0, 'busy'))]
            out.append((put(put(b, RUNNING, C(1)), EVER, TRUE), NONE))
        return out

    def disable(self, st):
        return put(st, RUNNING, C(0))

    def on_enter(self, eng, st, ctx, cm, node):
        if is_profiler(cm):
            return [(a, v if isinstance(v, Exc) else cm) for a, v in self.enable(st)]
        return None

    def on_leave(self, eng, st, ctx, cm, node):
        return self.disable(st) if is_profiler(cm) else st

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        last = tgt.name.split('.')[-1]
        if is_instance_call(tgt, self.repo, 'CliInterface', 'match'):
            self.calls += 1
            names = tgt.fi.params[1:]
            d = dict(zip(names, args))
            d.update(kwargs)
            n = get(st, N)[2]
            for p in PARAMS:
                if different(st, d.get(p), S('p', p)):
                    eng.report('same-line', eng.loc(ctx, node), ctx.fi.qual, "matching gets another value for %s" % p, st)
                elif p not in d and p != 'arglist' and st.known_truth(S('p', p)) is not False or p == 'arglist' and p not in d:
                    eng.report('same-line', eng.loc(ctx, node), ctx.fi.qual, "matching does not get %s" % p, st)
            if n:
                eng.report('once', eng.loc(ctx, node), ctx.fi.qual, "the line is matched a second time", st)
                return None
            out = []
            for a, v in eng.opaque(tgt, args, kwargs, st, ctx, node):
                a = put(a, N, C(n + 1))
                if isinstance(v, Exc):
                    out.append((put(a, RAISED, TRUE), v))
                    continue
                a = put(a, VALUE, v)
                a = a.assume_eq(v, NONE, False) or a
                a = a.assume(v, True) or a
                if self.during:
                    name, val = self.during
                    out += [(b, v) for b, w in eng.call_method(a, R('self'), name, [val], {}, ctx, node, run=True) if not isinstance(w, Exc)]
                else:
                    out.append((a, v))
            return out
        if tgt.kind == 'ext' and tgt.name in PROFILER:
            self.made += 1
            v = S('profiler', node.lineno)
            st = st.assume_eq(v, NONE, False) or st
            return [(st.assume(v, True) or st, v)]
        if is_profiler(tgt.recv):
            if last in ('enable', '__enter__'):
                return [(a, v if isinstance(v, Exc) else tgt.recv if last == '__enter__' else v) for a, v in self.enable(st)]
            if last in ('disable', '__exit__', 'create_stats'):
                return [(self.disable(st), NONE)]
        if last == 'enter_context' and args and is_profiler(args[0]):
            return [(a, v if isinstance(v, Exc) else args[0]) for a, v in self.enable(st)]
        if tgt.kind == 'ext' and tgt.name == 'pstats.Stats' and args and is_profiler(args[0]) and get(st, EVER) != TRUE:
            return [(st, Exc(TYPE_ERROR, None, node.lineno, 'nothing profiled'))]
        if tgt.kind == 'ext' and tgt.name == 'builtins.print' or last in ('print_stats', 'write', 'print', 'error'):
            return [(a, v) for a, v in eng.opaque(tgt, args, kwargs, put(st, WRITTEN, TRUE), ctx, node)]
        return None


def run(repo, res):
    res.rules = ['once: the line is matched once', 'same-line: with what was given', 'result: what matching gave comes back, and its failure leaves as it is',
                 'profiler: a profiler that cannot be started, because another one runs, does not keep the line from being matched; one that was started is stopped',
                 'quiet: nothing is written when both are off, nor for trial matches', 'shown: what is switched on is shown']
    res.explanation = ("The command class's matching routine is followed from the state its own switches leave, for every setting of timing and profiling, trial and real matching, and a switch thrown by the line itself; "
                       "the engine's matching returns or raises, a profiler starts or refuses. What is matched, how often, what comes back and whether anything is written is judged at each path's end.")
    res.assumptions = ["writing to the output does not raise", "a profiler refuses to start exactly when another one runs"]
    fi = need_method(repo, 'NessaidCmd', 'match')
    switches = {'timing': 'do__timing', 'profiling': 'do__profile'}
    for m in switches.values():
        need_method(repo, 'NessaidCmd', m)
    none = {a: FALSE for a in flag_attr(repo)}
    for timing in (FALSE, TRUE):
        for profiling in (FALSE, TRUE):
            for during in (None, ('do__timing', TRUE), ('do__timing', FALSE), ('do__profile', TRUE), ('do__profile', FALSE)):
                for dry in (FALSE, TRUE):
                    if dry == TRUE and during:
                        continue
                    cl = Timed(repo, during)
                    eng, st = start(repo, cl, 'NessaidCmd', none)
                    states = [st]
                    for name, val in (('do__timing', timing), ('do__profile', profiling)):
                        states = [b for a in states for b, v in eng.run_entry(need_method(repo, 'NessaidCmd', name), a, R('self'), [val]) if not isinstance(v, Exc)]
                    for st in states:
                        st = st.setmon(T(START))
                        st = st.assume(S('p', 'dry_run'), dry == TRUE)
                        for s, v in eng.run_entry(fi, st, R('self'), [], {p: S('p', p) for p in fi.params[1:] if p in PARAMS}):
                            judge(eng, res, fi, s, v, timing == TRUE, profiling == TRUE, during, dry == TRUE)
                    res.count('matches', cl.calls)
                    res.count('profilers', cl.made)
                    res.count('settings')
                    res.absorb(eng)
    res.need('ends', 10, 'ends of the matching routine')
    res.need('matches', 4, 'calls of the matching of the engine')


def judge(eng, res, fi, s, v, timing, profiling, during, dry):
    res.count('ends')
    here = "timing %s, profiling %s%s%s" % ('on' if timing else 'off', 'on' if profiling else 'off', ', trial' if dry else '',
                                            ', switched by the line' if during else '')

    def bad(rule, msg):
        eng.report(rule, fi.where, fi.qual, "%s (%s)" % (msg, here), s)
    made, raised = get(s, N)[2], get(s, RAISED) == TRUE
    if isinstance(v, Exc):
        if not raised:
            if v.tag == 'busy' or get(s, BUSY) == TRUE:
                bad('profiler', "the line %s when another profiler runs: %s leaves" % ('is not matched' if not made else 'has no result', v.kind[1].split('.')[-1]))
            elif v.kind[0] == 'cls':
                bad('result', "%s leaves although matching succeeded" % v.kind[1].split('.')[-1] if made else "%s leaves before the line is matched" % v.kind[1].split('.')[-1])
            return
        if v.kind[0] == 'cls':
            bad('result', "a failure of matching leaves as %s" % v.kind[1].split('.')[-1])
    else:
        if raised:
            bad('result', "a failure of matching is kept back")
            return
        if not made:
            bad('once', "the line is not matched")
            return
        if v != get(s, VALUE) and (is_c(v) or s.known_eq(v, get(s, VALUE)) is False):
            bad('result', "%s comes back instead of what matching gave" % show(v))
    if get(s, RUNNING)[2]:
        bad('profiler', "the profiler is left running")
    if raised:
        return
    wrote = get(s, WRITTEN) == TRUE
    line = s.known_truth(S('p', 'tok_list'))
    off = (('do__timing', FALSE), ('do__profile', FALSE))
    if wrote and (dry or line is False or not (timing or profiling) and during in (None,) + off):
        bad('quiet', "something is written")
    if not wrote and not dry and line is True and not during and (timing or profiling and get(s, BUSY) == FALSE):
        bad('shown', "nothing is shown")
