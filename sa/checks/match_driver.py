"""C01 trial matching runs nothing; C02 actions run for the one complete match, and success means they ran."""

import ast

from ..values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, ANY_EXC, show
from ..cliclient import CliClient, start, const, need_method, is_instance_call, is_ancestor
from ..result import Anchor

RUN = 'execute_success_sequence'
CALL = 'execute_binding_call'
ENTRY = {'exec_line', 'exec_args', 'execute_line', 'execute_args', 'run', 'cmdloop', 'context_loop'}
STEPS = ('get_token', 'match_token', 'complete_token', 'get_token_value', 'check_orderless_set_elements')


class Driver(CliClient):
    """The match driver; the token protocol is opaque, execution is an event."""
    merge_limit = 20
    unify = True
    loop_join = True
    mark_ops = frozenset(['complete', 'from'])
    boundary = frozenset([('CliInterface', n) for n in STEPS] + [('ParsingResult', 'set_next_tokens')])
    boundary_raises = {('CliInterface', 'get_token'): [ANY_EXC]}

    def __init__(self, repo, dry):
        super().__init__(repo)
        self.dry = dry
        self.ok = const(repo, 'tokens', 'MATCH_SUCCESS')
        self.runs = 0
        self.proven = 0
        self.unclear = 0
        self.busy = False

    def loop_key(self, st):
        return (st.mon, frozenset((k, n, v) for k, f in st.frames.items() for n, v in f.items() if v in (TRUE, FALSE)))

    def eoi(self, v):
        return v[0] == 's' and v[1] == 'glob' and 'ndOfInpu' in str(v[-1])

    def seq_of_next(self, st, v):
        """sequence whose last element's follower v is, or the sequence whose last element it is"""
        out = []
        if v[0] == 'o' and v[1] == 'item' and v[3] == C(-1):
            out.append(v[2])
        for a, t in st.facts.items():
            if t is True and a[0] == 'o' and a[1] == 'nextof' and a[2] == v:
                out.append(a[3])
        return out

    def on_branch(self, eng, st, ctx, node, val, truth):
        while val[0] == 'o' and val[1] == 'not':
            val, truth = val[2], not truth
        if val[0] == 'o' and truth and val[1] == '==':
            for x, y in ((val[2], val[3]), (val[3], val[2])):
                if self.eoi(y):
                    for s in self.seq_of_next(st, x):
                        st = st.setfact(O('complete', s), True)
        if val[0] == 'o' and truth and val[1] == 'in' and self.eoi(val[2]):
            c = val[3]
            if c[0] == 'o' and c[1] == 'nexts':
                st = st.setfact(O('complete', c[2]), True)
        return st

    def on_iter(self, eng, st, ctx, itv, elem, node):
        while itv[0] == 'o' and itv[1] in ('copy', 'list', 'set', 'tuple'):
            itv = itv[2]
        if itv[0] == 'o' and itv[1] == 'nexts':
            st = st.setfact(O('nextof', elem, itv[2]), True)
        return st

    def on_getitem(self, eng, st, ctx, obj, key, node):
        if self.busy:
            return None
        k = st.eqc(key) or key
        if k == C(-1) and (obj[0] == 's' or obj[0] == 'r' and obj[1] in st.heap and st.heap[obj[1]].kind == 'list'):
            return [(st, O('item', obj, k))]
        if obj[0] == 'r' and obj[1] in st.heap and st.heap[obj[1]].kind == 'list':
            self.busy = True
            try:
                out = eng.get_item(st, obj, key, ctx, node)
            finally:
                self.busy = False
            return [(a, v) if isinstance(v, Exc) else (a.setfact(O('from', v, obj), True), v) for a, v in out]
        return None

    def on_setitem(self, eng, st, ctx, obj, key, val, node):
        if obj == S('p', 'arglist') and self.dry:
            eng.report('trial-passes-arguments-out', eng.loc(ctx, node), ctx.fi.qual, "a trial match writes the caller's argument list", st)
        return st

    def on_mutate(self, eng, st, ctx, oid, how, args, node):
        return st

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        last = tgt.name.split('.')[-1]
        if last == 'next' and not args and tgt.recv is not None and tgt.recv[0] == 'o' and tgt.recv[1] == 'item':
            return [(st, O('nexts', tgt.recv[2]))]
        if last in (RUN, CALL) and tgt.kind in ('func', 'meth', 'sym'):
            self.runs += 1
            if self.dry:
                eng.report('trial-runs-actions', eng.loc(ctx, node), ctx.fi.qual, "actions run in a trial match", st)
            n = st.mon[2] if st.mon is not None else 0
            if n:
                eng.report('runs-once', eng.loc(ctx, node), ctx.fi.qual, "actions of one line run a second time", st)
            seq = args[0] if args else kwargs.get('matched_sequence')
            if last == RUN and seq is not None:
                self.judge(eng, st, ctx, seq, node)
            st = st.setmon(C(min(n + 1, 2)))
            return [(st, S('rootargs')), (st, Exc(ANY_EXC, None, node.lineno))]
        return None

    def judge(self, eng, st, ctx, seq, node):
        if self.dry:
            return
        froms = [a[3] for a, t in st.facts.items() if t is True and a[0] == 'o' and a[1] == 'from' and a[2] == seq]
        bounds = [st.len_bounds(l) for l in froms if l[0] == 'r' and l[1] in st.heap]
        if bounds and all(hi is None or hi > 1 for lo, hi in bounds):
            eng.report('only-match', eng.loc(ctx, node), ctx.fi.qual, "a sequence is run although others may have matched as well", st)
        elif bounds:
            self.proven += 1
        else:
            self.unclear += 1
        if st.facts.get(O('complete', seq)) is True:
            self.proven += 1
        elif seq[0] == 's' and seq[1] == '@' and 'ret' in seq[2:3] or not bounds:
            self.unclear += 1
        else:
            eng.report('complete-match', eng.loc(ctx, node), ctx.fi.qual,
                       "a sequence is run that was not found to end where the input may end", st)


def response(st, v):
    """result carried by a response value, None when not known"""
    o = st.heap.get(v[1]) if v[0] == 'r' else None
    return o.data.get('result') if o is not None and o.kind == 'inst' else None


def drive(repo, res, dry):
    cl = Driver(repo, dry)
    eng, st = start(repo, cl, 'CliInterface')
    fi = need_method(repo, 'CliInterface', 'match')
    outs = eng.run_entry(fi, st, R('self'), [S('p', 'tok_list')],
                         {'dry_run': TRUE if dry else FALSE, 'last_token_complete': S('p', 'last_token_complete'), 'arglist': S('p', 'arglist')})
    for s, v in outs:
        if isinstance(v, Exc):
            continue
        res.count('exits')
        r = response(s, v)
        n = s.mon[2] if s.mon is not None else 0
        if r is None:
            res.count('undecided')
            continue
        e = s.known_eq(r, cl.ok)
        if e is True and not n:
            eng.report('success-means-run', fi.where, fi.qual, "the response says success and no actions ran", s)
        elif n and e is False:
            eng.report('run-means-success', fi.where, fi.qual, "actions ran and the response says %s" % show(s.eqc(r) or r), s)
        elif e is None:
            res.count('undecided')
        else:
            res.count('exits_decided')
    res.absorb(eng)
    res.count('undecided', cl.unclear)
    return cl, eng


def run_c02(repo, res):
    res.rules = ['success-means-run', 'run-means-success', 'runs-once', 'only-match', 'complete-match']
    res.explanation = ("All paths of the match driver of a real match, loops to a fixpoint; for every call that runs actions, where the "
                       "sequence came from and whether it was found complete; for every exit, the response against whether actions ran.")
    res.assumptions = ["tokens and the grammar tree answer arbitrarily", "the end-of-input marker among a node's followers means the line may end there"]
    cl, eng = drive(repo, res, False)
    res.count('run_sites', cl.runs)
    res.count('proven_at_run', cl.proven)
    res.need('run_sites', 1, 'calls that run the actions of a match')
    res.need('exits_decided', 1, 'responses with a known result')


class Trial(CliClient):
    """Everything above the driver: which matches are asked for."""
    boundary_raises = {('CliInterface', 'match'): [ANY_EXC]}

    def __init__(self, repo, what):
        super().__init__(repo)
        self.what = what
        self.matches = 0

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        last = tgt.name.split('.')[-1]
        mine = tgt.fi is not None and tgt.fi.cls is not None and tgt.fi.cls.name in ('CliInterface', 'NessaidCli', 'NessaidCmd')
        anc = tgt.kind in ('meth', 'func') and tgt.recv is not None and is_ancestor(tgt.recv)
        if last == 'match' and (is_instance_call(tgt, self.repo, 'CliInterface', 'match') or anc):
            self.matches += 1
            fi = need_method(self.repo, 'CliInterface', 'match')
            d = dict(zip(fi.params[1:], args))
            d.update(kwargs)
            if '**' in d or any(a[0] == 'star' for a in args):
                return eng.opaque(tgt, args, kwargs, st, ctx, node)
            if st.known_truth(d.get('dry_run', FALSE)) is False:
                eng.report('trial-asks-for-trial', eng.loc(ctx, node), ctx.fi.qual, "%s asks for a real match" % self.what, st)
            return eng.opaque(tgt, args, kwargs, st, ctx, node)
        if last in (RUN, CALL) or last in ENTRY and (mine or anc):
            eng.report('trial-runs-actions', eng.loc(ctx, node), ctx.fi.qual, "%s calls %s" % (self.what, last), st)
            return eng.opaque(tgt, args, kwargs, st, ctx, node)
        return None

    def ext_may_raise(self, eng, st, ctx, tgt, node):
        if tgt.kind == 'meth' and tgt.name in ('parse',):
            return [ANY_EXC]
        return []


def reach(repo, res):
    """No routine of the token protocol, nor of the grammar tree, calls what runs actions."""
    from .await_discipline import Rule
    r = Rule(repo, res.__class__(res.prop, res.tier))
    roots = set()
    for c in repo.classes.values():
        names = {b.split(':')[-1].split('.')[-1] for b in repo.mro(c.cid)}
        if names & {'CliToken', 'TreeNode', 'ParsingResult', 'GrammarWalkTree'}:
            roots |= set(c.methods.values())
    ci = repo.classes[repo.cls('CliInterface')]
    roots |= {ci.methods[m] for m in STEPS + ('fix_sequences', 'append_matching_sequence') if m in ci.methods}
    if len(roots) < 20:
        raise Anchor("routines a trial match uses not found")
    from collections import deque
    came = {f: None for f in roots}
    todo = deque(sorted(roots))
    while todo:
        f = todo.popleft()
        fi = repo.funcs[f]
        for n in ast.walk(fi.node):
            if not isinstance(n, ast.Call):
                continue
            res.count('call_sites')
            name = n.func.attr if isinstance(n.func, ast.Attribute) else None
            if name in (RUN, CALL, 'execute_binding'):
                chain, x = [], f
                while x is not None:
                    chain.append(repo.funcs[x].qual)
                    x = came[x]
                res.violate('trial-runs-actions', '%s:%d' % (fi.module.path, n.lineno), fi.qual,
                            "%s is called by a routine a trial match uses" % name, list(reversed(chain)))
                continue
            own = isinstance(n.func, ast.Name) or isinstance(n.func.value, ast.Name) and fi.params and n.func.value.id == fi.params[0] or \
                isinstance(n.func.value, ast.Call) and isinstance(n.func.value.func, ast.Name) and n.func.value.func.id == 'super'
            if not own:
                continue
            for t in r.resolve(fi, n.func) or ():
                if t in repo.funcs and t not in came and repo.funcs[t].name != 'match':
                    came[t] = f
                    todo.append(t)
    res.count('routines_reached', len(came))


def run_c01(repo, res):
    res.rules = ['trial-runs-actions', 'trial-passes-arguments-out', 'trial-asks-for-trial', 'trial-succeeds']
    res.explanation = ("All paths of the match driver with the trial flag set, of the command class's match with the flag set, and of the completion "
                       "callback: no path reaches a routine that runs actions, asks for a real match, or writes the caller's argument list; and no routine "
                       "of the token protocol or grammar tree calls one.")
    res.assumptions = ["tokens that applications define do not run actions themselves"]
    cl, eng = drive(repo, res, True)
    res.need('exits', 1, 'responses of a trial match')
    n = 0
    for cls, name, args in (('NessaidCmd', 'match', True), ('NessaidCli', 'match', True), ('NessaidCmd', 'complete', False), ('NessaidCli', 'complete', False)):
        fi = need_method(repo, cls, name)
        if fi.cls.name == 'CliInterface':
            continue
        t = Trial(repo, 'completion' if name == 'complete' else 'a trial match')
        eng, st = start(repo, t, cls)
        if args:
            a, kw = [S('p', 'tok_list')], {'dry_run': TRUE, 'last_token_complete': S('p', 'ltc'), 'arglist': S('p', 'arglist')}
        else:
            a, kw = [S('p', p) for p in fi.params[1:]], {}
        outs = eng.run_entry(fi, st, R('self'), a, kw)
        res.count('exits', len(outs))
        res.absorb(eng)
        n += t.matches
    res.count('match_calls', n)
    res.need('match_calls', 2, 'matches asked for')
    reach(repo, res)
