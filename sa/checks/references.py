"""C34: a referenced rule works on the variables passed to it and on nothing else of its caller."""

from ..values import C, S, T, NONE, Exc, show
from ..cliclient import need_method
from ..drive import normal
from .variables import Scene, judge, given, VARS, VALS, IF

TV = S('p', 'tv')
a, b, c, e = VARS
V, W, X, Y = VALS
D0 = S('p', 'default')


def call(*x):
    return ('call', x)


class Play:
    """Enters rules and elements the way a match does and runs actions in them."""

    def __init__(self, repo, res):
        self.repo, self.res = repo, res
        self.sc = Scene(repo, res)
        self.where = need_method(repo, 'ExecContext', 'enter')
        self.d, st = self.sc.fresh()
        for v in VALS:
            from ..state import mk_eq
            st = st.assume(mk_eq(v, D0), False)
        st = st.assume(D0, True) or st
        st = self.plain(st, D0)
        self.work = []          # [(state, {name: value})]
        d = self.d
        for s, g in self.sc.rule(d, st, 'main', []):
            s, l = self.sc.seq(d, s, [])
            for s2, ex in normal(d.new(s, 'ExecContext', IF, g, l)):
                for s3, node in normal(d.new(s2, 'TreeNode', NONE, NONE, C(0), g)):
                    self.work.append((s3, {'ex': ex, 'main': node}))
        self.stack = []
        self.enter('main')
        self.block('body', 'main')

    def plain(self, st, v):
        from ..values import O
        from ..state import mk_eq
        from ..cliclient import need_class
        st = st.setfact(O('isinst', v, 'str'), False)
        for c_ in ('DollarVariable', 'DollarNumber', 'CliArgument', 'BindingCall', 'FunctionCall', 'NamedVariable', 'TokenVariable', 'BindingVariable'):
            cid = need_class(self.repo, c_)
            st = st.setfact(O('isinst', v, cid), False)
            st = st.assume(mk_eq(O('type', v), ('k', cid)), False) or st
        return st

    def each(self, f):
        """f(state, names) -> [(state, names)]"""
        self.work = [r for s, n in self.work for r in f(s, n)]
        if len(self.work) > 16:
            # something the scene needs is not understood
            self.res.count('paths_given_up', len(self.work) - 16)
            self.work = self.work[:16]

    def op(self, name, f, what=None):
        """Keep the value of an operation under a name; an error is reported when `what` says which operation it is."""
        def one(s, n):
            out = []
            for s2, v in f(s, n):
                if isinstance(v, Exc):
                    if what:
                        self.d.eng.report('reference', self.where.where, self.where.qual, "%s fails" % what, s2)
                else:
                    m = dict(n)
                    m[name] = v
                    out.append((s2, m))
            return out
        self.each(one)

    def enter(self, node):
        self.stack.append(node)
        self.op('_', lambda s, n: self.d.call(s, n['ex'], 'enter', n[node], TV), "entering a rule")

    def leave(self):
        node = self.stack.pop()
        self.op('_', lambda s, n: self.d.call(s, n['ex'], 'exit', n[node]), "leaving a rule")

    def block(self, name, parent, pos=0):
        """Enter a sequence of two words below the parent."""
        self.op('w1', lambda s, n: self.d.new(s, 'ConstantInputElement', C('w1')))
        self.op('w2', lambda s, n: self.d.new(s, 'ConstantInputElement', C('w2')))
        self.op('seq', lambda s, n: self.d.new(s, 'SequenceInputElement', T((n['w1'], n['w2']))))
        self.op(name, lambda s, n: self.d.new(s, 'TreeNode', NONE, n[parent], C(pos), n['seq']))
        self.enter(name)

    def actions(self, *stmts):
        def one(s, n):
            out = []
            for s2, code in self.sc.code(self.d, s, stmts):
                for s3, r in self.d.call(s2, n['ex'], 'execute_binding', T((code,))):
                    if isinstance(r, Exc):
                        self.d.eng.report('reference', self.where.where, self.where.qual, "an action fails", s3)
                    else:
                        out.append((s3, n))
            return out
        self.each(one)

    def define(self, name, params, defaults=()):
        self.op(name, lambda s, n: self.sc.rule(self.d, s, name, params, defaults))

    def reference(self, rule, args, below, name, pos=0):
        """Enter a reference to the rule: its node, the rule's and its body's. args: values or (value, parameter name)"""
        def make(s, n):
            ws = [(s, [])]
            for x in args:
                v, kw = (x[0], {'param_name': x[1]}) if isinstance(x, list) else (x, {})
                ws = [(s2, l + [r]) for s1, l in ws for s2, r in normal(self.d.new(s1, 'CliArgument', v, **kw))]
            out = []
            for s1, l in ws:
                s1, al = self.sc.seq(self.d, s1, l)
                out += self.d.new(s1, 'GrammarRefElement', n[rule], al)
            return out
        self.op('ref', make, "referencing a rule")
        self.op(name + '.ref', lambda s, n: self.d.new(s, 'TreeNode', NONE, n[below], C(pos), n['ref']))
        self.enter(name + '.ref')
        self.op(name, lambda s, n: self.d.new(s, 'TreeNode', NONE, n[name + '.ref'], C(0), n[rule]))
        self.enter(name)
        self.block(name + '.body', name)

    def again(self, name):
        for node in (name + '.ref', name, name + '.body'):
            self.enter(node)

    def end(self, want, what):
        self.res.count('scripts')
        for s, n in self.work:
            judge(self.sc, self.d, s, [given(x) for x in s.mon if x and x[0] == C('f')], want, what, 'reference')
        self.res.absorb(self.d.eng)


def run(repo, res):
    res.rules = ['reference: inside a referenced rule a parameter has the value of its argument, its default or nothing; assigning to it changes the variable that was '
                 'passed, and nothing else of the caller']
    res.explanation = ('Rules, references and their bodies are entered and left through the execution context the way a match does it, with unknown variables and values; '
                       'actions inside and after the reference are executed and what their calls are given is compared.')
    res.assumptions = ['References one and two levels deep, with up to two parameters; a variable that is passed has been assigned before.']

    p = Play(repo, res)
    p.actions((a, X))
    p.define('inner', [b, c], [D0])
    p.reference('inner', [], 'body', 'in')
    p.actions(call(b, c), (b, V), (c, W), call(b, c, a))
    for _ in range(3):
        p.leave()
    p.actions(call(a, b, c))
    p.end([[D0, NONE], [V, W, NONE], [X, NONE, NONE]], "referencing a rule without arguments")

    p = Play(repo, res)
    p.actions((a, X))
    p.define('inner', [b, c], [D0])
    p.reference('inner', [V], 'body', 'in')
    p.actions(call(b, c), (b, W), call(b))
    for _ in range(3):
        p.leave()
    p.actions(call(a, b))
    p.end([[V, NONE], [W], [X, NONE]], "passing a value")

    p = Play(repo, res)
    p.actions((a, C(0)))
    p.define('inner', [b, c, e], [None, C(0)])
    p.reference('inner', [a, [C(False), e]], 'body', 'in')
    p.actions(call(b, c, e), (b, C(False)), call(b))
    for _ in range(3):
        p.leave()
    p.actions(call(a))
    p.end([[C(0), C(0), C(False)], [C(False)], [C(False)]], "passing zero and False")

    p = Play(repo, res)
    p.actions((a, V))
    p.define('inner', [b])
    p.reference('inner', [a], 'body', 'in')
    p.actions((c, X), call(b, c))
    for _ in range(3):
        p.leave()
    p.actions((a, W))
    p.again('in')
    p.actions(call(b, c))
    for _ in range(3):
        p.leave()
    p.end([[V, X], [W, NONE]], "entering a rule a second time")

    p = Play(repo, res)
    p.actions((a, V), call(a))
    p.leave()
    p.leave()
    p.enter('main')
    p.enter('body')
    p.actions(call(a))
    p.end([[V], [NONE]], "running a command a second time")

    p = Play(repo, res)
    p.actions((a, V))
    p.define('inner', [b])
    p.reference('inner', [a], 'body', 'in')
    p.actions(call(b), (b, W), call(b))
    for _ in range(3):
        p.leave()
    p.actions(call(a))
    p.end([[V], [W], [W]], "passing a variable the rule assigns to")

    p = Play(repo, res)
    p.actions((a, V), (c, X))
    p.define('inner', [a])
    p.reference('inner', [c], 'body', 'in')
    p.actions(call(a), (a, W), (e, Y))
    for _ in range(3):
        p.leave()
    p.actions(call(a, c, e))
    p.end([[X], [V, W, NONE]], "passing a variable to a parameter with the name of another one")

    p = Play(repo, res)
    p.actions((a, V))
    p.define('inner', [b])
    p.reference('inner', [a], 'body', 'in')
    p.actions((a, X), call(a, b))
    for _ in range(3):
        p.leave()
    p.actions(call(a))
    p.end([[X, V], [V]], "assigning a variable of the rule that has the name of one of its caller")

    p = Play(repo, res)
    p.actions((a, V), (b, W))
    p.define('inner', [a, b])
    p.reference('inner', [b, a], 'body', 'in')
    p.actions(call(a, b), (a, X))
    for _ in range(3):
        p.leave()
    p.actions(call(a, b))
    p.end([[W, V], [V, X]], "passing two variables the other way round")

    p = Play(repo, res)
    p.actions((a, V), (e, W))
    p.define('inner', [b, c])
    p.reference('inner', [[e, c], [a, b]], 'body', 'in')
    p.actions(call(b, c), (c, X))
    for _ in range(3):
        p.leave()
    p.actions(call(a, e))
    p.end([[V, W], [V, X]], "passing two variables by the names of the parameters")

    p = Play(repo, res)
    p.actions((a, V))
    p.define('innermost', [c])
    p.define('inner', [b])
    p.reference('inner', [a], 'body', 'in')
    p.actions((b, X))
    p.reference('innermost', [b], 'in.body', 'deep')
    p.actions(call(c), (c, W), call(c))
    for _ in range(3):
        p.leave()
    p.actions(call(b, c))
    for _ in range(3):
        p.leave()
    p.actions(call(a))
    p.end([[X], [W], [W, NONE], [W]], "passing a parameter on to another rule")

    p = Play(repo, res)
    p.actions((a, V), (e, X))
    p.define('inner', [b, c], [D0])
    p.reference('inner', [a], 'body', 'in')
    p.actions((b, W), (c, X))
    for _ in range(3):
        p.leave()
    p.reference('inner', [[e, c]], 'body', 'in2', 1)
    p.actions(call(b, c), (b, Y))
    for _ in range(3):
        p.leave()
    p.actions(call(a, e))
    p.end([[D0, X], [W, X]], "referencing a rule twice")

    p = Play(repo, res)
    p.define('inner', [b])
    p.actions((a, V))
    for i in range(2):
        p.reference('inner', [], 'body', 'in')
        p.actions(call(b), (b, W))
        for _ in range(3):
            p.leave()
    p.actions(call(a))
    p.end([[NONE], [NONE], [V]], "entering the same reference twice")
    res.need('scripts', 6, 'scripts of references')
    res.need('values_right', 6, 'values compared')
