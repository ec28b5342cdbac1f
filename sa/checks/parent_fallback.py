"""C06: decision table of the fallback to the parent context."""

import ast

from ..values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, ANY_EXC, show
from ..cliclient import CliClient, start, const, need_method, need_class, is_instance_call, is_ancestor
from ..result import Anchor

NOTHING = (NONE, NONE, NONE, NONE)
PARAMS = ('tok_list', 'dry_run', 'last_token_complete', 'arglist')


def different(st, val, want):
    """Is val definitely something else than the value want?"""
    if val is None or val == want:
        return False
    e = st.known_eq(val, want)
    if e is True:
        return False
    if e is False:
        return True
    if is_c(val):
        # a constant stands for the parameter only when the path says so
        t = st.known_truth(want)
        return not (val in (TRUE, FALSE) and t == (val == TRUE))
    if val[0] == 's' and val[1] == 'p':
        return True
    if val[0] == 'r' and val[1] in st.heap and st.heap[val[1]].kind == 'list':
        lo, hi = st.len_bounds(val)
        return hi == 0
    if val[0] == 'o' and val[1] in ('slice', 'not'):
        return True
    return False


def outcomes(st, v, results):
    """A response is an object, not None, and carries one of the results: one state for each."""
    st = st.assume_eq(v, NONE, False) or st
    st = st.assume(v, True) or st
    for name, val in results.items():
        s = st.assume_eq(O('attr', v, 'result'), val, True)
        if s is not None:
            yield name, s


class Fallback(CliClient):
    def __init__(self, repo, results):
        super().__init__(repo)
        self.results = results
        self.own = 0
        self.par = 0

    def bound(self, fi, args, kwargs):
        names = fi.params[1:]
        d = dict(zip(names, args))
        d.update(kwargs)
        return d

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        own, par, a0, b0 = st.mon[1] if st.mon is not None else NOTHING
        if is_instance_call(tgt, self.repo, 'CliInterface', 'match'):
            self.own += 1
            d = self.bound(tgt.fi, args, kwargs)
            for p in PARAMS:
                if different(st, d.get(p), S('p', p)):
                    eng.report('own-match-arguments', eng.loc(ctx, node), ctx.fi.qual,
                               "the context's own match gets another value for %s" % p, st)
                if p not in d and p != 'arglist' and st.known_truth(S('p', p)) is not False:
                    eng.report('own-match-arguments', eng.loc(ctx, node), ctx.fi.qual,
                               "the context's own match does not get %s" % p, st)
            out = eng.opaque(tgt, args, kwargs, st, ctx, node)
            return [x for a, v in out for x in ([(a, v)] if isinstance(v, Exc) else
                    [(s.setmon(T((v, par, C(n), b0))), v) for n, s in outcomes(a, v, self.results)])]
        if tgt.kind in ('meth', 'func') and tgt.name.split('.')[-1] == 'match' and tgt.recv is not None and is_ancestor(tgt.recv):
            self.par += 1
            fi = need_method(self.repo, 'CliInterface', 'match')
            d = self.bound(fi, args, kwargs)
            if st.known_truth(d.get('dry_run', FALSE)) is not True:
                eng.report('trial-only', eng.loc(ctx, node), ctx.fi.qual,
                           "the parent is consulted with a real match, which runs its actions", st)
            for p in PARAMS:
                if p != 'dry_run' and p in d and different(st, d.get(p), S('p', p)) or p in ('tok_list', 'last_token_complete') and p not in d:
                    eng.report('same-line', eng.loc(ctx, node), ctx.fi.qual,
                               "the parent is consulted with another %s" % p, st)
            out = eng.opaque(tgt, args, kwargs, st, ctx, node)
            return [x for a, v in out for x in ([(a, v)] if isinstance(v, Exc) else
                    [(s.setmon(T((own, v, a0, C(n)))), v) for n, s in outcomes(a, v, self.results)])]
        return None


def flag_attr(repo):
    fi = need_method(repo, 'NessaidCmd', '__init__')
    out = set()
    for n in ast.walk(fi.node):
        if isinstance(n, ast.Assign) and any(isinstance(x, ast.Name) and x.id == 'match_parent_grammar' for x in ast.walk(n.value)):
            for t in n.targets:
                if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == fi.params[0]:
                    out.add(t.attr)
    if not out:
        raise Anchor("the fallback setting is not stored")
    return sorted(out)


def run(repo, res):
    res.rules = ['table', 'trial-only', 'same-line', 'own-match-arguments', 'handed-over-line', 'parent-not-consulted']
    res.explanation = ("Dataflow over the match routine of the command class, case split over the result of the context, the result "
                       "of the parent, the fallback setting and trial or real matching; every feasible cell of the decision table "
                       "is compared with the required outcome.")
    res.assumptions = ["the two responses carry one of the four defined results"]
    k = {n: const(repo, 'tokens', 'MATCH_' + n) for n in ('SUCCESS', 'FAILURE', 'PARTIAL', 'AMBIGUOUS')}
    child = need_class(repo, 'ChildCliExitException')
    fi = need_method(repo, 'NessaidCmd', 'match')
    for on in (True, False):
        for dry in (True, False):
            cl = Fallback(repo, k)
            eng, st = start(repo, cl, 'NessaidCmd', {a: C(on) for a in flag_attr(repo)})
            st = st.assume(S('p', 'dry_run'), dry)
            # a context that falls back has a parent
            if on:
                st = st.assume(S('init', 'self', '_parent'), True)
            out = eng.run_entry(fi, st, R('self'), [], {p: S('p', p) for p in fi.params[1:] if p in PARAMS})
            for s, v in out:
                judge(cl, eng, res, fi, s, v, on, dry, k, child)
            res.count('own_matches', cl.own)
            res.count('parent_matches', cl.par)
            res.absorb(eng)
    res.need('cells', 10, 'cells of the decision table')
    res.need('own_matches', 2, "calls of the context's own match")
    res.need('parent_matches', 1, "calls of the parent's match")


def judge(cl, eng, res, fi, s, v, on, dry, k, child):
    own, par, a0, b0 = s.mon[1] if s.mon is not None else NOTHING
    if isinstance(v, Exc) and (v.kind[1] != child or own == NONE):
        return
    if own == NONE:
        eng.report('table', fi.where, fi.qual, "the context's own match is not tried", s)
        return
    a, b = a0[2], b0[2] or '-'
    res.count('cells')
    here = "context %s%s, %s, fallback %s" % (a.lower(), '' if b == '-' else ', parent ' + b.lower(),
                                             'trial' if dry else 'real', 'on' if on else 'off')
    if not on or a == 'SUCCESS':
        want = 'own'
        if par != NONE:
            eng.report('parent-not-consulted', fi.where, fi.qual,
                       "the parent is consulted although the context answers itself (%s)" % here, s)
            return
    elif b == '-':
        eng.report('table', fi.where, fi.qual, "the parent is not consulted (%s)" % here, s)
        return
    elif a == 'FAILURE':
        want = 'own' if b == 'FAILURE' else 'parent'
    else:
        want = 'parent' if b == 'SUCCESS' else 'own'
    if want == 'parent' and not dry:
        want = 'handover'
    got = 'handover' if isinstance(v, Exc) else 'own' if v == own else 'parent' if v == par else None
    if got is None and not is_c(v):
        res.count('undecided')
        return
    if got != want:
        eng.report('table', fi.where, fi.qual, "outcome is %s, must be %s (%s)" % (got or show(v), want, here), s)
    elif got == 'handover':
        ctx = eng.root_ctx(fi)
        for attr in ('token_list',) + PARAMS[1:]:
            p = 'tok_list' if attr == 'token_list' else attr
            for q, val in eng.get_attr(s, v.val, attr, ctx, fi.node):
                if not isinstance(val, Exc) and different(q, val, S('p', p)):
                    eng.report('handed-over-line', fi.where, fi.qual,
                               "the handed-over line carries another %s (%s)" % (attr, here), q)
