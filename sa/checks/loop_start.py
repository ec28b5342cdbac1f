"""C42: an interpreter's loop is started once at a time, stays until it has ended, and interrupts go to the innermost context."""

from ..values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, show
from ..state import Obj
from ..cliclient import CliClient, start, need_method, need_class

INTERRUPT = ('cls', 'builtins.KeyboardInterrupt')
SCHEDULE = {'create_task', 'ensure_future'}
DRIVE = {'run_until_complete', 'run_forever'}
# loops started, state of driving: none, over, interrupted, handled; is the event loop running already; interrupts seen
START = (C(0), C('none'), NONE, C(0))
LOOPS, DRIVEN, ASYNC, SEEN = range(4)


def get(st, i):
    return (st.mon[1] if st.mon is not None else START)[i]


def put(st, i, v):
    m = list(st.mon[1] if st.mon is not None else START)
    m[i] = v
    return st.setmon(T(tuple(m)))


def coroutine(v):
    """Name of the method a coroutine object runs"""
    if v[0] == 'co' and v[1][0] in ('b', 'f'):
        fid = v[1][2] if v[1][0] == 'b' else v[1][1]
        return fid.split(':')[-1].split('.')[-1], dict(v[3]) if len(v) > 3 else {}, v[2]
    return None, {}, ()


class Starter(CliClient):
    loop_join = False
    merge_limit = 64

    def __init__(self, repo):
        super().__init__(repo)
        self.started = 0
        self.drives = 0

    def running(self, eng, st, ctx, node):
        outs = [v for s, v in eng.get_attr(st, R('self'), 'running', ctx, node) if not isinstance(v, Exc)]
        return outs[0] if len(outs) == 1 else None

    def set_running(self, eng, st, val, ctx, node):
        outs = [s for s, x in eng.set_attr(st, R('self'), 'running', val, ctx, node) if x is None]
        return outs[0] if len(outs) == 1 else st

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        last = tgt.name.split('.')[-1]
        here = eng.loc(ctx, node)
        if last in SCHEDULE and args and args[0][0] == 'co':
            name, kw, pos = coroutine(args[0])
            if name in ('cmdloop', 'context_loop'):
                self.started += 1
                n = get(st, LOOPS)[2]
                if n:
                    eng.report('once', here, ctx.fi.qual, "the interpreter loop is started a second time", st)
                intro = kw.get('intro', pos[-1] if pos else None)
                if intro != S('p', 'intro') and (intro is None or is_c(intro)):
                    eng.report('started', here, ctx.fi.qual, "the introduction does not reach the loop", st)
                st = put(st, LOOPS, C(min(n + 1, 2)))
            return [(st, S('@', 'task', node.lineno))]
        if last == 'is_running' and not args:
            known = get(st, ASYNC)
            if known != NONE:
                return [(st, known)]
            return [(put(st, ASYNC, v), v) for v in (TRUE, FALSE)]
        if last in DRIVE:
            self.drives += 1
            if get(st, ASYNC) == TRUE:
                eng.report('drive', here, ctx.fi.qual, "an event loop that runs already is run", st)
            if get(st, DRIVEN) == C('interrupted') and self.running(eng, st, ctx, node) == TRUE:
                eng.report('interrupt', here, ctx.fi.qual, "the event loop is run again without the interrupt having been handed on", st)
            if not get(st, LOOPS)[2]:
                eng.report('started', here, ctx.fi.qual, "the event loop is run before the interpreter loop is started", st)
            over = self.set_running(eng, put(st, DRIVEN, C('over')), FALSE, ctx, node)
            out = [(over, NONE)]
            n = get(st, SEEN)[2]
            if n < 3:
                hit = put(put(st, DRIVEN, C('interrupted')), SEEN, C(n + 1))
                out += [(hit, Exc(INTERRUPT, None, node.lineno)), (self.set_running(eng, hit, FALSE, ctx, node), Exc(INTERRUPT, None, node.lineno))]
            return out
        if last == 'handle_external_keyboard_interrupt':
            done = put(st, DRIVEN, C('handled'))
            n = get(st, SEEN)[2]
            out = [(done, NONE)]
            if n < 3:
                out.append((put(put(st, SEEN, C(n + 1)), DRIVEN, C('interrupted')), Exc(INTERRUPT, None, node.lineno)))
            return out
        return None


def started(repo, res, cls):
    fi = need_method(repo, cls, 'run')
    refusal = need_class(repo, 'CliAlreadyRunning')
    for running in (FALSE, TRUE):
        cl = Starter(repo)
        eng, st = start(repo, cl, cls)
        ctx = eng.root_ctx(fi)
        st = cl.set_running(eng, st, running, ctx, fi.node)
        if cl.running(eng, st, ctx, fi.node) != running:
            res.count('undecided')
            continue
        st = st.setmon(T(START))
        for s, v in eng.run_entry(fi, st, R('self'), [], {p: S('p', p) for p in fi.params[1:]}):
            res.count('ends')

            def bad(rule, msg):
                eng.report(rule, fi.where, fi.qual, msg, s)
            n = get(s, LOOPS)[2]
            now = cl.running(eng, s, ctx, fi.node)
            if running == TRUE:
                if n:
                    bad('once', "a running interpreter is started again")
                elif not isinstance(v, Exc):
                    bad('refused', "starting a running interpreter is not refused")
                elif v.kind[0] == 'cls' and v.kind[1] != refusal:
                    bad('refused', "starting a running interpreter is refused with %s" % v.kind[1].split('.')[-1])
                elif now == FALSE:
                    bad('refused', "the running interpreter is marked as not running")
                continue
            if isinstance(v, Exc):
                if v.kind == INTERRUPT:
                    bad('interrupt', "an interrupt ends the call although the interpreter is running" if now == TRUE else "an interrupt leaves the call")
                elif v.kind[0] == 'cls':
                    bad('started', "%s leaves when the interpreter is started" % v.kind[1].split('.')[-1])
                continue
            if not n:
                bad('started', "the interpreter loop is not started")
            elif get(s, ASYNC) == TRUE:
                if now == FALSE:
                    bad('once', "an interpreter started in a running event loop is not marked as running, so a second start is not refused")
            elif now == TRUE:
                bad('stays', "the call returns while the interpreter is running" + (" (after an interrupt)" if get(s, SEEN)[2] else ''))
        res.count('starts', cl.started)
        res.count('drives', cl.drives)
        res.absorb(eng)


class Interrupts(CliClient):
    recursion = 16
    boundary = frozenset()

    def is_opaque(self, eng, st, ctx, tgt):
        return tgt.name.split('.')[-1] != HANDLER and super().is_opaque(eng, st, ctx, tgt)

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        if tgt.name.split('.')[-1] == HANDLER and tgt.recv is not None:
            seen = st.mon[1] if st.mon is not None else ()
            st = st.setmon(T(seen + (tgt.recv,)))
            if tgt.recv[0] != 'r':
                return [(st, NONE)]
            return eng.run_function(('b', tgt.recv, tgt.fi.fid), args, kwargs, st, ctx, node)
        return None


HANDLER = 'handle_external_keyboard_interrupt'


def handed_on(repo, res, cls):
    """A chain of interpreters that share a terminal: the innermost is asked, and the terminal hears of it once"""
    fi = need_method(repo, cls, HANDLER)
    cid = need_class(repo, cls)
    for depth in (1, 2, 3):
        cl = Interrupts(repo)
        eng, st = start(repo, cl, cls)
        ctx = eng.root_ctx(fi)
        chain = ['self'] + ['context%d' % i for i in range(1, depth)]
        for i, o in enumerate(chain):
            st = st.setobj(o, Obj('inst', cid, {'_readline': S('rl'), '_parent': R(chain[i - 1]) if i else NONE}))
            st = st.setvar('$held', o, R(o))
        ok = True
        for i, o in enumerate(chain):
            val = R(chain[i + 1]) if i + 1 < depth else NONE
            for name, v in (('running', TRUE), ('child_cli', val)):
                outs = [s for s, x in eng.set_attr(st, R(o), name, v, ctx, fi.node) if x is None]
                ok = ok and len(outs) == 1
                st = outs[0] if outs else st
        for i, o in enumerate(chain):
            for name, v in (('child_cli', R(chain[i + 1]) if i + 1 < depth else NONE), ('readline', S('rl')), ('parent', R(chain[i - 1]) if i else NONE)):
                ok = ok and [x for s, x in eng.get_attr(st, R(o), name, ctx, fi.node)] == [v]
        st = st.assume(S('rl'), True) or st
        st = st.assume_eq(S('rl'), NONE, False) or st
        if not ok:
            res.count('undecided')
            continue
        for s, v in eng.run_entry(fi, st, R('self'), [], {}):
            if isinstance(v, Exc):
                continue
            res.count('interrupts')
            seen = s.mon[1] if s.mon is not None else ()
            here = "%d nested contexts" % (depth - 1) if depth > 1 else "no nested context"
            n = seen.count(S('rl'))
            if depth > 1 and R(chain[-1]) not in seen:
                eng.report('innermost', fi.where, fi.qual, "the innermost context does not get the interrupt (%s)" % here, s)
            elif n != 1:
                eng.report('innermost', fi.where, fi.qual, "the terminal gets an interrupt %d times (%s)" % (n, here), s)
        res.absorb(eng)


def run(repo, res):
    res.rules = ['once: one loop at a time', 'refused: a running interpreter refuses another start and is left alone', 'started: a start starts the loop, with its introduction',
                 'stays: the call stays until the loop has ended', 'drive: an event loop that runs already is not run', 'interrupt: interrupts from outside do not end the call and are handed on',
                 'innermost: an interrupt goes to the innermost context, and there to the terminal']
    res.explanation = ("The routine that starts an interpreter is followed, for both interpreter classes, running or not, in an event loop that runs or not, with interrupts arriving while the event loop runs and while "
                       "an interrupt is handled; starts, runs of the event loop and the running mark are a typestate judged at each path's end.")
    res.assumptions = ["running the event loop ends when the interpreter has ended, or with an interrupt", "up to three interrupts"]
    for cls in ('NessaidCli', 'NessaidCmd'):
        started(repo, res, cls)
        handed_on(repo, res, cls)
    res.need('starts', 1, 'starts of the loop')
    res.need('drives', 1, 'runs of the event loop')
    res.need('interrupts', 1, 'interrupts handed on')
