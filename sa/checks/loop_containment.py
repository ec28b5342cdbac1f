"""C04: a failing line is reported and the loop carries on with the next line."""

from ..values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, mentions, show
from ..loopclient import LoopClient, USER
from ..cliclient import start, need_method, is_instance_call


def old_parse(v):
    if isinstance(v, tuple):
        if len(v) > 1 and v[0] == 's' and v[1] == 'old' and isinstance(v[2], tuple) and 'ret' in v[2]:
            return True
        return any(old_parse(x) for x in v if isinstance(x, (tuple, frozenset)))
    if isinstance(v, frozenset):
        return any(old_parse(x) for x in v)
    return False


class Loop(LoopClient):
    """monitor: (phase, exit requested?)
    phases: start, read, line, tokfail, failed, told"""

    def ph(self, st):
        return st.mon[1][0][2] if st.mon is not None else 'start'

    def setph(self, st, p):
        return st.setmon(T((C(p),)))

    def before(self, eng, st, ctx, ev, tgt, args, kwargs, node):
        p = self.ph(st)
        if ev == 'read':
            if p in ('failed', 'tokfail'):
                eng.report('failure-is-reported', eng.loc(ctx, node), ctx.fi.qual,
                           "the next line is read although the failure of the previous one was not reported", st)
            return self.setph(st, 'read')
        if ev == 'parse' and p != 'start':
            if p in ('failed', 'tokfail'):
                eng.report('failure-is-reported', eng.loc(ctx, node), ctx.fi.qual,
                           "the next line is taken up although the failure of the previous one was not reported", st)
            return self.setph(st, 'line')
        if ev == 'match' and p in ('line', 'tokfail', 'toktold'):
            toks = args[0] if args else kwargs.get('tok_list')
            if toks is not None:
                lo, hi = st.len_bounds(toks)
                stale = False
                if toks[0] == 'r' and toks[1] in st.heap:
                    stale = old_parse(st.heap[toks[1]].data)
                else:
                    stale = old_parse(toks)
                if stale:
                    eng.report('own-tokens', eng.loc(ctx, node), ctx.fi.qual,
                               "the tokens matched come from an earlier line", st)
                elif p in ('tokfail', 'toktold') and hi != 0:
                    eng.report('own-tokens', eng.loc(ctx, node), ctx.fi.qual,
                               "a token list is matched although this line could not be tokenized", st)
        return st

    def after(self, eng, st, ctx, ev, tgt, args, kwargs, v, node):
        p = self.ph(st)
        if ev == 'read':
            if isinstance(v, Exc):
                return self.setph(st, 'start')
            return self.setph(st, 'line')
        if ev == 'parse' and p in ('line', 'tokfail', 'toktold') and isinstance(v, Exc):
            return self.setph(st, 'tokfail')
        if ev in ('match', 'child') and isinstance(v, Exc) and v.kind == USER and \
                p in ('line', 'failed', 'told', 'tokfail', 'toktold', 'matched'):
            return self.setph(st, 'failed')
        if ev in ('match', 'child') and isinstance(v, Exc) and v.kind[1] == self.child_cls and p != 'start':
            return self.setph(st, 'handover')
        if ev == 'match' and not isinstance(v, Exc) and p not in ('start', 'tokfail', 'toktold'):
            return self.setph(st, 'matched')
        return st

    def other_call(self, eng, st, ctx, tgt, args, kwargs, node):
        p = self.ph(st)
        if is_instance_call(tgt, self.repo, 'StdStreamsHolder', 'error') or \
                tgt.kind == 'ext' and tgt.name.endswith(('print_exc', 'print_tb', 'builtins.print', 'logging.exception', 'logging.error')):
            self.hit('report')
            if p == 'failed':
                st = self.setph(st, 'told')
            elif p == 'tokfail':
                st = self.setph(st, 'toktold')
            return eng.opaque(tgt, args, kwargs, st, ctx, node)
        return None

    def on_branch(self, eng, st, ctx, node, val, truth):
        if truth:
            o = st.heap.get('self')
            if o is not None:
                for a in self.exit_attrs:
                    if o.data.get(a, S('init', 'self', a)) == val:
                        return self.setph(st, 'exit')
        return st


def run(repo, res):
    res.rules = ['loop-survives', 'failure-is-reported', 'own-tokens']
    res.explanation = ("Typestate dataflow over the interpreter loop: tokenizing, matching (which runs the user's "
                       "actions) and nested contexts may each raise; no such exception may leave the loop, each is "
                       "reported before the next line is read, and only the current line's tokens are matched.")
    res.assumptions = ["writing a diagnostic does not itself raise",
                       "errors of the terminal itself (reading) and of the start-up and interrupt hooks are outside the property"]
    for cls, name, args in (('NessaidCmd', 'cmdloop', []), ('NessaidCli', 'cmdloop', [S('p', 'grammarname')])):
        cl = Loop(repo)
        eng, st = start(repo, cl, cls)
        fi = need_method(repo, cls, name)
        out = eng.run_entry(fi, st, R('self'), args)
        for s, v in out:
            res.count('outcomes')
            p = cl.ph(s)
            if isinstance(v, Exc):
                if v.kind[1] == cl.child_cls:
                    continue
                if p in ('failed', 'tokfail', 'told', 'toktold') and repo.is_exc_subclass(v.kind[1], 'builtins.Exception'):
                    eng.report('loop-survives', fi.where, fi.qual,
                               "an error of one input line (%s) ends the loop" % v.kind[1].split('.')[-1], s)
            elif p not in ('exit',):
                eng.report('loop-survives', fi.where, fi.qual,
                           "the loop ends without an exit request (after: %s)" % p, s)
        for k, n in cl.hits.items():
            res.count('calls_' + k, n)
        res.absorb(eng)
    res.need('calls_match', 2, 'match calls in the loop')
    res.need('calls_parse', 2, 'tokenizer calls in the loop')
    res.need('calls_read', 2, 'line reads in the loop')
    res.need('outcomes', 2, 'loop outcomes')
