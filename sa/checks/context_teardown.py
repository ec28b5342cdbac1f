"""C07: leaving a nested context gives everything back to its parent."""

from ..values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, show
from ..state import Obj
from ..loopclient import LoopClient, USER, CANCEL
from ..cliclient import CliClient, start, need_method, need_class, is_instance_call
from ..result import Anchor

KID = S('@', 'kid')


class Contexts(LoopClient):
    """monitor: (active context is: none, maybe, left, entered; exception that hands a line over; exit notifications)
    left: the context that just ended; entered: a new one, entered by a line handed over"""
    cancel = True

    def get(self, st):
        return st.mon[1] if st.mon is not None else (C('maybe'), NONE, C(0))

    def child_now(self, st):
        d = st.heap['self'].data
        for a in sorted(self.child_attrs):
            return d.get(a, S('init', 'self', a))
        return NONE

    def before(self, eng, st, ctx, ev, tgt, args, kwargs, node):
        act, exc, n = self.get(st)
        here = eng.loc(ctx, node)
        if ev == 'hook' and tgt.fi.name == 'on_exit':
            self.hit('notified')
            if n != C(0):
                eng.report('notified-once', here, ctx.fi.qual, "the exit notification is given more than once", st)
            return st.setmon(T((act, exc, C(min(n[2] + 1, 2)))))
        if ev in ('read', 'child'):
            what = 'when the next line is read' if ev == 'read' else 'and is run again'
            if act == C('left'):
                eng.report('forgotten', here, ctx.fi.qual, "the context that was left is still the active one " + what, st)
            if exc != NONE:
                eng.report('handed-over-line-matched', here, ctx.fi.qual,
                           "the loop goes on although the line handed over was not matched", st)
            if ev == 'read' and act == C('entered'):
                eng.report('entered-context-runs', here, ctx.fi.qual,
                           "a context entered by a line handed over is not run before the next line is read", st)
            if ev == 'child' and tgt.recv[0] in 'so':
                # one name for the context that runs now
                if st.occurs(KID):
                    st = st.rename(KID, S('@', 'kid', 'earlier'), facts=False)
                st = st.rename(tgt.recv, KID)
            return st.setmon(T((C('maybe'), NONE, n)))
        if ev == 'match' and exc != NONE:
            self.hit('rematch')
            toks = args[0] if args else kwargs.get('tok_list')
            want = None
            for q, val in eng.get_attr(st, exc, 'token_list', ctx, node):
                want = val
            if toks is None or toks != want and self.surely_other(st, toks, want):
                eng.report('handed-over-line-matched', here, ctx.fi.qual,
                           "the line matched by the parent is not the one handed over", st)
            dry = kwargs.get('dry_run', args[1] if len(args) > 1 else FALSE)
            if dry == TRUE:
                eng.report('handed-over-line-matched', here, ctx.fi.qual,
                           "the line handed over is only tried, not executed", st)
            return st.setvar(ctx.frame, '$kid', self.child_now(st))
        return st

    def surely_other(self, st, a, b):
        if st.known_eq(a, b) is False:
            return True
        if is_c(a) or a[0] == 'o' and a[1] == 'attr' and b[0] == 'o' and a[3] != b[3]:
            return True
        if a[0] == 'o' and a[1] in ('slice', '+'):
            return True
        if a[0] == 'r' and a[1] in st.heap and st.heap[a[1]].kind == 'list':
            segs, lo, hi = st.heap[a[1]].data
            # a fresh list: fine when it copies the tokens, not when it holds something else
            from ..values import mentions
            return hi == 0 or not mentions(segs, b)
        if a[0] == 's':
            return True
        return False

    def setchild(self, st, v):
        for a in self.child_attrs:
            o = st.heap['self']
            d = dict(o.data)
            d[a] = v
            st = st.setobj('self', Obj('inst', o.cls, d))
        return st

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        out = super().on_call(eng, st, ctx, tgt, args, kwargs, node)
        if out is None:
            return None
        res = []
        for a, v in out:
            kid = a.frames.get(ctx.frame, {}).get('$kid')
            if kid is None:
                res.append((a, v))
                continue
            # the parent matched a line handed over: its actions enter a new context or not
            a = a.delvars(ctx.frame, ['$kid'])
            act, exc, n = self.get(a)
            new = self.child_now(a)
            if act == C('left'):
                res.append((self.setchild(a, kid).setmon(T((act, NONE, n))), v))
            else:
                res.append((self.setchild(a, NONE).setmon(T((C('none'), NONE, n))), v))
            b = a.assume(new, True)
            b = b.assume_eq(new, NONE, False) if b is not None else None
            b = b.assume_eq(new, KID, False) if b is not None else None
            if b is not None and not isinstance(v, Exc):
                res.append((b.setmon(T((C('entered'), NONE, n))), v))
        return res

    def after(self, eng, st, ctx, ev, tgt, args, kwargs, v, node):
        act, exc, n = self.get(st)
        if ev == 'child':
            h = isinstance(v, Exc) and v.kind[1] == self.child_cls
            if h:
                # a line handed over has tokens
                for q, val in eng.get_attr(st, v.val, 'token_list', ctx, node):
                    st = q.assume_eq(val, NONE, False) or q
            return st.setmon(T((C('left'), v.val if h else NONE, n)))
        if ev in ('match', 'hook') and exc == NONE:
            return st.setmon(T((C('maybe'), NONE, n)))
        return st

    def on_setattr(self, eng, st, ctx, obj, attr, val, node):
        if obj == R('self') and attr in self.child_attrs:
            act, exc, n = self.get(st)
            if act == C('entered') and val == NONE and st.known_truth(self.child_now(st)) is not False:
                eng.report('entered-context-runs', eng.loc(ctx, node), ctx.fi.qual,
                           "a context entered by a line handed over is dropped before it is run", st)
            return st.setmon(T((C('none') if val == NONE else act, exc, n)))
        return st


class Terminal(CliClient):
    """monitor: what the terminal is set to: (history size, bell, completer, key binding, history filter)"""
    KEYS = ('set_history_size', 'enable_bell', 'set_completer', 'parse_and_bind', 'set_prepare_history_entry')

    def __init__(self, repo, loopname):
        super().__init__(repo)
        self.loopname = loopname
        self.rl = S('terminal')
        self.n = 0
        self.loops = 0

    def get(self, st):
        return st.mon[1] if st.mon is not None else tuple([NONE] * (len(self.KEYS) + 1))

    def init_attr(self, eng, st, oid, cls, attr):
        if oid in ('self', 'parent') and attr == '_readline':
            return self.rl
        if oid == 'self' and attr in ('_parent', 'parent'):
            return R('parent')
        if oid == 'parent' and attr in ('_parent', 'parent'):
            return NONE
        return None

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        if tgt.kind == 'func' and tgt.fi is not None and tgt.fi.name == self.loopname and ctx.fi.name != self.loopname and \
                (tgt.recv == R('self') or args[:1] == (R('self'),) or True):
            # the loop of the context: does to the terminal what it likes, and ends in any way
            self.loops += 1
            st, s = eng.fresh(st, ctx, node, 'used')
            st = st.setmon(T(tuple([s] * len(self.KEYS)) + (C(1),)))
            out = eng.opaque(tgt, args, kwargs, st, ctx, node)
            return out
        if tgt.kind == 'meth' and tgt.recv == self.rl and tgt.name in self.KEYS:
            self.n += 1
            m = list(self.get(st))
            m[self.KEYS.index(tgt.name)] = args[0] if args else (list(kwargs.values()) or [NONE])[0]
            return eng.opaque(tgt, args, kwargs, st.setmon(T(m)), ctx, node)
        return None

    def may_raise(self, eng, st, ctx, tgt, node):
        if tgt.kind == 'func' and tgt.fi is not None and tgt.fi.name == self.loopname:
            return [USER, CANCEL, ('cls', self.repo.cls('ChildCliExitException'))]
        return super().may_raise(eng, st, ctx, tgt, node)

    def hook_raises(self, eng, st, ctx, tgt, node):
        return []


def loops(repo, res):
    for cls, name, args in (('NessaidCmd', 'context_loop', []), ('NessaidCmd', 'cmdloop', []),
                            ('NessaidCli', 'cmdloop', [S('p', 'grammarname')])):
        cl = Contexts(repo)
        eng, st = start(repo, cl, cls)
        fi = need_method(repo, cls, name)
        for s, v in eng.run_entry(fi, st, R('self'), args):
            act, exc, n = cl.get(s)
            res.count('outcomes')
            how = "after %s" % v.kind[1].split('.')[-1] if isinstance(v, Exc) else "on a normal exit"
            if n == C(0):
                eng.report('notified-once', fi.where, fi.qual, "the exit notification is not given " + how, s)
            if exc != NONE and (not isinstance(v, Exc) or v.kind[1] == cl.child_cls):
                eng.report('handed-over-line-matched', fi.where, fi.qual,
                           "the line handed over by a context is left unmatched " + how, s)
        for k, n in cl.hits.items():
            res.count('calls_' + k, n)
        res.absorb(eng)
    res.need('calls_child', 2, 'contexts run')
    res.need('calls_rematch', 2, 'matches of handed-over lines')
    res.need('calls_notified', 1, 'exit notifications')


def terminal(repo, res):
    fi = need_method(repo, 'NessaidCmd', 'context_loop')
    cl = Terminal(repo, 'cmdloop')
    eng, st = start(repo, cl, 'NessaidCmd')
    cid = need_class(repo, 'NessaidCmd')
    st = st.setobj('parent', Obj('inst', cid, {}))
    bk = need_class(repo, 'ParentBackup')
    saved = O('attr', cl.rl, '_enable_bell')
    fi0 = repo.method('ParentBackup', '__init__')
    if fi0 is None:
        raise Anchor("ParentBackup has no constructor")
    begun = []
    st = st.setobj('backup', Obj('inst', bk, {}))
    for s, v in eng.run_entry(fi0, st, R('backup'), [R('self'), cl.rl]):
        if not isinstance(v, Exc):
            begun.append(s)
    names = [a for a in backup_attrs(repo)]
    for s in begun:
        d = dict(s.heap['self'].data)
        for a in names:
            d[a] = R('backup')
        s = s.setobj('self', Obj('inst', cid, d))
        for q, v in eng.run_entry(fi, s, R('self'), []):
            res.count('outcomes')
            judge_terminal(cl, eng, res, fi, q, v, saved)
    res.count('terminal_settings', cl.n)
    res.count('loops_left', cl.loops)
    res.absorb(eng)
    res.need('terminal_settings', 4, 'terminal settings restored')
    res.need('loops_left', 1, 'loops run by context_loop')


def backup_attrs(repo):
    """Attributes of the interpreter holding the backup object."""
    import ast
    fi = need_method(repo, 'NessaidCli', '__init__')
    out = set()
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Assign) and any(isinstance(x, ast.Call) and getattr(x.func, 'id', getattr(x.func, 'attr', '')) == 'ParentBackup'
                                             for x in ast.walk(n.value)):
            for t in n.targets:
                if isinstance(t, ast.Attribute):
                    out.add(t.attr)
    if not out:
        raise Anchor("no attribute holds the ParentBackup object")
    return sorted(out)


def judge_terminal(cl, eng, res, fi, s, v, saved):
    m = cl.get(s)
    if m[-1] != C(1):
        return
    how = "after %s" % v.kind[1].split('.')[-1] if isinstance(v, Exc) else "on a normal exit"
    used = lambda x: x[0] == 's' and 'used' in str(x)
    hist, bell, comp, bind, filt = m[:5]
    for val, name in ((comp, 'completer'), (bind, 'completion key'), (hist, 'history size'), (bell, 'bell setting'), (filt, 'history filter')):
        if used(val):
            eng.report('terminal-restored', fi.where, fi.qual, "the parent's %s is not restored %s" % (name, how), s)
    if not used(comp):
        ok = comp[0] == 'b' and comp[1] == R('parent')
        if comp == NONE or comp[0] == 'b' and not ok:
            eng.report('terminal-restored', fi.where, fi.qual, "the completer installed is not the parent's (%s)" % how, s)
        elif not ok:
            res.count('undecided')
    if not used(hist) and hist != S('init', 'parent', '_history_size'):
        if is_c(hist) or hist[0] == 's' and hist[1:3] == ('init', 'self'):
            eng.report('terminal-restored', fi.where, fi.qual, "the history size restored is not the parent's (%s)" % how, s)
        else:
            res.count('undecided')
    if not used(bell) and bell != saved:
        if is_c(bell) and s.known_eq(bell, saved) is not True:
            eng.report('terminal-restored', fi.where, fi.qual, "the bell setting restored is not the saved one (%s)" % how, s)
        else:
            res.count('undecided')


def run(repo, res):
    res.rules = ['terminal-restored', 'notified-once', 'forgotten', 'handed-over-line-matched', 'entered-context-runs']
    res.explanation = ("Typestate dataflow: the routine that runs a context is taken over every way its loop can end and the last "
                       "value given to each terminal setting is compared with the parent's; the interpreter loops are taken to a "
                       "fixpoint tracking the context run, the line handed over and the number of exit notifications.")
    res.assumptions = ["setting up the terminal does not itself fail",
                       "the exit hook does not itself enter a context"]
    terminal(repo, res)
    loops(repo, res)
