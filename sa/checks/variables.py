"""C22: variables of actions; C34: parameters of referenced rules."""

import itertools

from ..values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, show
from ..cliclient import CliClient, need_class, need_method
from ..drive import Drive, normal
from ..state import Obj, mk_eq
from .arguments import of_class

VARS = [S('p', 'var%d' % i) for i in range(4)]
NUMS = [S('p', 'num%d' % i) for i in range(2)]
VALS = [S('p', 'value%d' % i) for i in range(4)]
TOK = [S('p', 'token_value%d' % i) for i in range(2)]
RESULT = S('p', 'result')
IF = S('p', 'interface')
PART = [S('p', 'part%d' % i) for i in range(3)]


class Vars(CliClient):
    """Monitor: what the calls in actions were given, in order."""
    merge_limit = 200
    unroll = 9
    distinct = 80
    recursion = 7
    closed_objects = True
    max_depth = 30

    def is_opaque(self, eng, st, ctx, tgt):
        return False

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        if tgt.kind == 'meth' and tgt.name.split('.')[-1] == 'execute_binding_call' and tgt.recv == IF:
            return [(st.setmon((st.mon or ()) + (tuple(args),)), RESULT)]
        return None


class Scene:
    """A rule with parameters, entered with arguments, and one element of its body entered."""

    def __init__(self, repo, res):
        self.repo, self.res = repo, res
        self.fi = need_method(repo, 'ExecContext', 'execute_binding')
        for c in ('NamedVariable', 'TokenVariable', 'AssignmentStatement', 'BindingCall', 'BindingCode', 'TreeNode', 'NamedGrammar'):
            need_class(repo, c)

    def fresh(self):
        d = Drive(self.repo, Vars(self.repo), self.fi)
        st = d.start().setmon(())
        for v in VARS:
            st = of_class(self.repo, st, v, 'DollarVariable')
        for v in NUMS:
            st = of_class(self.repo, st, v, 'DollarNumber')
        for p in PART:
            st = st.setfact(O('isinst', p, need_class(self.repo, 'InputElement')), True)
        for vs, c in ((VARS, 'DollarNumber'), (NUMS, 'DollarVariable')):
            cid = need_class(self.repo, c)
            for v in vs:
                st = st.setfact(O('isinst', v, cid), False)
                st = st.assume(mk_eq(O('type', v), ('k', cid)), False) or st
        for a, b in itertools.combinations(VARS + NUMS, 2):
            st = st.assume(mk_eq(a, b), False)
        for v in VALS + TOK + [RESULT]:
            st = st.setfact(O('isinst', v, 'str'), False)
            for c in ('DollarVariable', 'DollarNumber', 'CliArgument', 'BindingCall', 'FunctionCall', 'NamedVariable', 'TokenVariable', 'BindingVariable'):
                cid = need_class(self.repo, c)
                st = st.setfact(O('isinst', v, cid), False)
                st = st.assume(mk_eq(O('type', v), ('k', cid)), False) or st
            st = st.assume(v, True) or st
        for a, b in itertools.combinations(VALS + TOK + [RESULT], 2):
            st = st.assume(mk_eq(a, b), False)
        return d, st

    def seq(self, d, st, items):
        st, r = d.eng.new_list(st, d.ctx, d.node(), items)
        return d.hold([(st, r)])[0]

    def steps(self, d, work, *ops):
        """Run operations one after another; each gives a new value that later ones can use."""
        for op in ops:
            work = [(s2, vals + [v]) for s, vals in work for s2, v in normal(op(s, vals))]
        return work

    def rule(self, d, st, name, params, defaults=()):
        """A NamedGrammar with these parameters"""
        ps = []
        work = [(st, [])]
        for i, p in enumerate(params):
            kw = {}
            if i < len(defaults) and defaults[i] is not None:
                kw = {'defvalue': defaults[i], 'has_def_value': TRUE}
            work = [(s2, ps + [v]) for s, ps in work for s2, v in normal(self.parameter(d, s, p, i, kw))]
        out = []
        for s, ps in work:
            s, l = self.seq(d, s, ps)
            out += normal(d.new(s, 'NamedGrammar', C(name), l, PART[0]))
        return out

    def parameter(self, d, st, p, i, kw):
        """A parameter is its name with a default; it is what the name is compared with."""
        q = S('p', 'param', p)
        st = of_class(self.repo, st, q, 'CliParameter')
        for v in VARS + [S('p', 'param', x) for x in VARS]:
            if v != q:
                st = st.assume(mk_eq(q, v), v in (p, S('p', 'param', p))) or st
        st = st.setobj(('ov', q), Obj('inst', None, {'has_def_value': kw.get('has_def_value', FALSE), 'defvalue': kw.get('defvalue', NONE), 'name': p}))
        return [(st, q)]

    def code(self, d, st, stmts):
        """[(lhs, rhs)] for assignments, ('call', args) for calls -> [(state, binding code)]"""
        work = [(st, [])]
        for lhs, rhs in stmts:
            if lhs == 'call':
                nxt = []
                for s, done in work:
                    s, l = self.seq(d, s, list(rhs))
                    nxt += [(s2, done + [v]) for s2, v in normal(d.new(s, 'BindingCall', C('f'), l))]
                work = nxt
            else:
                if rhs == 'g()':
                    nxt = []
                    for s, done in work:
                        s, l = self.seq(d, s, [])
                        for s2, c in normal(d.new(s, 'BindingCall', C('g'), l)):
                            nxt += [(s3, done + [v]) for s3, v in normal(d.new(s2, 'AssignmentStatement', lhs, c))]
                    work = nxt
                else:
                    work = [(s2, done + [v]) for s, done in work for s2, v in normal(d.new(s, 'AssignmentStatement', lhs, rhs))]
        out = []
        for s, done in work:
            s, l = self.seq(d, s, done)
            out += normal(d.new(s, 'BindingCode', l))
        return out

    def element(self, d, st, parent):
        out = []
        for s, e in normal(d.new(st, 'SequenceInputElement', T((PART[1], PART[2])))):
            out += normal(d.new(s, 'TreeNode', NONE, parent, C(0), e))
        return out


def given(args):
    return [a for a in args[2:]]


def run_script(sc, blocks, want, what, rule, args=(), params=(), after=None, tokens=False, defaults=()):
    """Execute the blocks of statements in the body of a rule; `want`: what the calls must have been given."""
    d, st = sc.fresh()
    work = []
    for s, g in sc.rule(d, st, 'rule', params, defaults):
        cl = []
        ws = [(s, [])]
        for a in args:
            ws = [(s2, l + [v]) for s1, l in ws for s2, v in normal(d.new(s1, 'CliArgument', a))]
        for s1, l in ws:
            s1, al = sc.seq(d, s1, l)
            for s2, ex in normal(d.new(s1, 'ExecContext', IF, g, al)):
                for s3, node in normal(d.new(s2, 'TreeNode', NONE, NONE, C(0), g)):
                    for s4, _ in normal(d.call(s3, ex, 'enter', node, S('p', 'tv'))):
                        for s5, child in sc.element(d, s4, node):
                            for s6, _ in normal(d.call(s5, ex, 'enter', child, S('p', 'tv'))):
                                work.append((s6, ex, child))
    if tokens:
        nxt = []
        for s, ex, child in work:
            ws = [s]
            for n, t in zip(NUMS, TOK):
                ws = [s3 for s1 in ws for s2, v in normal(d.new(s1, 'TokenVariable', n)) for s3, _ in
                      [(b, r2) for a, r in normal(d.call(s2, v, 'assign', t)) for b, r2 in normal(d.call(a, child, 'add_numbered_variable', v))]]
            nxt += [(s1, ex, child) for s1 in ws]
        work = nxt
    sc.res.count('scripts')
    done = []
    for s, ex, child in work:
        ws = [s]
        for block in blocks:
            nxt = []
            for s1 in ws:
                for s2, code in sc.code(d, s1, block):
                    for s3, r in d.call(s2, ex, 'execute_binding', T((code,))):
                        if isinstance(r, Exc):
                            d.eng.report(rule, sc.fi.where, sc.fi.qual, "%s fails" % what, s3)
                        else:
                            nxt.append(s3)
            ws = nxt
        done += [(s1, ex) for s1 in ws]
    for s, ex in done:
        judge(sc, d, s, [given(a) for a in s.mon if a and a[0] == C('f')], want, what, rule)
        if after is not None:
            for s2, v in normal(d.get(s, ex, 'root_arglist')):
                got = d.eng.iter_items(s2, v)
                if got is None:
                    sc.res.count('undecided')
                else:
                    judge(sc, d, s2, [got], [after], what + " and the end of the command", rule)
    sc.res.absorb(d.eng)
    return done


def judge(sc, d, s, got, want, what, rule):
    got = [[s.eqc(x) or x for x in g] for g in got]
    if got == want:
        sc.res.count('values_right')
    elif len(got) != len(want) or any(len(a) != len(b) for a, b in zip(got, want)):
        sc.res.count('undecided')
    else:
        for g, w in zip(got, want):
            for x, y in zip(g, w):
                if x != y:
                    if is_c(x) or x in VALS + TOK + VARS + NUMS + [RESULT] or x[0] == 'r' or x[0] == 'o' and x[1] in ('str', 'repr', 'not'):
                        d.eng.report(rule, sc.fi.where, sc.fi.qual, "after %s the value is %s instead of %s" % (what, 'an object' if x[0] == 'r' else show(x), show(y)), s)
                    else:
                        sc.res.count('undecided')


a, b, c, e = VARS
n1, n2 = NUMS
V, W, X, Y = VALS


def assignments(repo, res):
    sc = Scene(repo, res)
    call = lambda *x: ('call', x)       # noqa: E731
    one = [
        ([(a, V), call(a)], [[V]], "assigning a value"),
        ([(a, V), (a, W), call(a)], [[W]], "assigning twice"),
        ([(a, V), (b, W), call(a, b)], [[V, W]], "assigning two variables"),
        ([(a, V), (b, a), (a, W), call(a, b)], [[W, V]], "copying a variable and changing the original"),
        ([(a, V), (b, a), (b, W), call(a, b)], [[V, W]], "copying a variable and changing the copy"),
        ([(b, a), call(b)], [[NONE]], "copying a variable without a value"),
        ([call(a)], [[NONE]], "reading a variable without a value"),
        ([(a, V), (b, W), (c, a), (a, b), (b, c), call(a, b, c)], [[W, V, V]], "exchanging two variables"),
        ([(a, V), (a, a), call(a)], [[V]], "assigning a variable to itself"),
        ([(a, V), (b, a), (c, b), (a, W), (b, X), call(a, b, c)], [[W, X, V]], "copying a copy"),
        ([(a, 'g()'), call(a)], [[RESULT]], "assigning the result of a call"),
        ([(a, V), (a, C(0)), call(a)], [[C(0)]], "assigning zero"),
        ([(a, V), (a, C(False)), call(a)], [[C(False)]], "assigning False"),
        ([(a, V), (b, C(0)), (a, b), call(a)], [[C(0)]], "copying zero"),
        ([(a, V), (a, b), call(a)], [[NONE]], "assigning a variable without a value"),
    ]
    for stmts, want, what in one:
        run_script(sc, [stmts], want, what, 'assigned-value')
    for stmts, want, what in one[:6]:
        run_script(sc, [[x] for x in stmts], want, what + " in separate actions", 'assigned-value')
    tok = [
        ([(a, n1), call(a, n1, n2)], [[TOK[0], TOK[0], TOK[1]]], "copying the value of a token"),
        ([(a, n1), (a, V), call(a, n1)], [[V, TOK[0]]], "changing the copy of the value of a token"),
        ([(n1, V), call(n1, n2)], [[V, TOK[1]]], "assigning to the variable of a token"),
        ([(a, n1), (n1, V), call(a, n1)], [[TOK[0], V]], "copying the value of a token and assigning to its variable"),
        ([(a, n2), (b, a), (a, n1), call(a, b)], [[TOK[0], TOK[1]]], "copying the values of two tokens"),
    ]
    for stmts, want, what in tok:
        run_script(sc, [stmts], want, what, 'token-value', tokens=True)


def variable_objects(repo, res):
    """The objects that hold the values."""
    for cls, name in (('NamedVariable', a), ('TokenVariable', n1), ('BindingVariable', None)):
        fi = need_method(repo, cls, 'assign')
        sc = Scene(repo, res)
        for seq in ([], [V], [V, W], [V, NONE], [V, C(0)], [C(''), V], [V, C(False)]):
            d, st = sc.fresh()
            for s, v in normal(d.new(st, cls, *([name] if name else []))):
                ws = [s]
                for x in seq:
                    nxt = []
                    for s1 in ws:
                        for s2, r in d.call(s1, v, 'assign', x):
                            if isinstance(r, Exc):
                                d.eng.report('assigned-value', fi.where, fi.qual, "assigning %s fails" % show(x), s2)
                            else:
                                nxt.append(s2)
                    ws = nxt
                for s1 in ws:
                    for s2, got in d.get(s1, v, 'value'):
                        res.count('objects')
                        want = seq[-1] if seq else NONE
                        if isinstance(got, Exc):
                            d.eng.report('assigned-value', fi.where, fi.qual, "reading the variable fails", s2)
                        else:
                            sc2 = sc
                            judge(sc2, d, s2, [[got]], [[want]], "assigning %s to a %s" % (' then '.join(show(x) for x in seq) or 'nothing', cls), 'assigned-value')
            res.absorb(d.eng)


def parameters(repo, res):
    """Parameters of the rule that a command runs."""
    sc = Scene(repo, res)
    call = lambda *x: ('call', x)       # noqa: E731
    for n in (1, 2, 3):
        for k in range(n + 1):
            want = VALS[:k] + [NONE] * (n - k)
            run_script(sc, [[call(*VARS[:n])]], [want], "starting with %d of %d arguments" % (k, n), 'parameter-value', args=VALS[:k], params=VARS[:n], after=want)
    run_script(sc, [[call(a, b)]], [[NONE, Y]], "starting without arguments where one has a default", 'parameter-value', params=[a, b], after=[NONE, Y], defaults=[None, Y])
    run_script(sc, [[call(a, b)]], [[V, Y]], "starting with one argument where the other parameter has a default", 'parameter-value', args=[V], params=[a, b], after=[V, Y], defaults=[X, Y])
    run_script(sc, [[call(a)]], [[C(0)]], "starting without arguments where the default is zero", 'parameter-value', params=[a], after=[C(0)], defaults=[C(0)])
    run_script(sc, [[(a, W), call(a, b)]], [[W, NONE]], "assigning a parameter", 'parameter-value', args=[V], params=[a, b], after=[W, NONE])
    run_script(sc, [[(b, a), (a, W), call(a, b)]], [[W, V]], "copying a parameter", 'parameter-value', args=[V], params=[a, b], after=[W, V])
    run_script(sc, [[(c, a), (c, W), call(a, c)]], [[V, W]], "copying a parameter to another variable", 'parameter-value', args=[V], params=[a, b], after=[V, NONE])


def run(repo, res):
    res.rules = ['assigned-value: a variable gives back the value last assigned to it, and nothing before that; a copy keeps its value when the original changes',
                 'token-value: the value of a token can be copied to a variable and stays what it was',
                 'parameter-value: a parameter starts with its argument, or with nothing, and at the end of the command has the value last assigned']
    res.explanation = ('Actions made of assignments and calls are executed in an execution context built by the code itself, with variables and values of which nothing '
                       'is known except which are the same; what the calls in the actions are given is compared with what was assigned, on every path.')
    res.assumptions = ['Scripts of up to six statements and three variables; the values are not texts (whose escapes are converted when read) and not variables.']
    assignments(repo, res)
    variable_objects(repo, res)
    parameters(repo, res)
    res.need('scripts', 10, 'scripts of actions')
    res.need('values_right', 10, 'values compared')
