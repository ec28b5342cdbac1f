"""C37: a declared token is an object of the class its declaration names, made with what the declaration gives."""

import ast
import itertools
import re
import time

from ..values import C, S, O, T, NONE, TRUE, is_c, Exc, ANY_EXC, show
from ..lexers import TokenClient
from ..cliclient import const, need_class, need_method
from ..drive import Drive, normal
from ..state import mk_eq
from ..productions import derivations, reduce_tree, action
from ..result import Anchor

PARSER = 'NessaidCliParser'
NAME = [C('alpha'), C('beta'), C('gamma')]
HELP = [S('p', 'help0'), S('p', 'help1')]
OWN = ('k', 'application.OwnToken')
OTHER = ('k', 'application.OtherToken')
VALUES = [([('INTEGER', C('12'))], C(12)), ([('QUOTED_STR', C('"some text"'))], C('some text')), ([('TRUE', C('True'))], C(True)),
          ([('NONE', C('None'))], NONE), ([('INTEGER', C('0'))], C(0)), ([('QUOTED_STR', C('""'))], C(''))]
KEYS = ['start', 'limit', 'kind']
TOLD = {'error', 'print', 'write', 'exception', 'warning', 'print_exc'}


class Tokens(TokenClient):
    merge_limit = 200
    unroll = 12
    distinct = 24
    recursion = 8
    max_depth = 30

    def __init__(self, repo):
        super().__init__(repo)
        self.own, self.base = (), ()
        self.failing = ()
        self.plain = None
        self.base_cid = need_class(repo, 'CliToken')
        self.known = set()
        self.results = [(const(repo, 'tokens', 'MATCH_SUCCESS'), 1), (const(repo, 'tokens', 'MATCH_PARTIAL'), 1), (const(repo, 'tokens', 'MATCH_PARTIAL'), 2)]

    def answers(self, result, n):
        self.outcomes = {
            'match_token': self.several(result),
            'get_token_value': self.several(S('p', 'value')),
            'complete_token': lambda *a: self.offer(*a, n),
            'set_next_tokens': self.several(NONE),
            'execute_success_sequence': lambda *a: self.offer(*a, 0, True),
            'error': self.several(NONE), 'print': self.several(NONE),
        }

    def offer(self, eng, st, ctx, args, kwargs, node, n, bare=False):
        st, l = eng.new_list(st, ctx, node, [S('p', 'offer%d' % i) for i in range(n)], tag='offer')
        return [(st, l if bare else T((C(n), l)))]

    driving = None          # class due of the objects made for the word
    word = None
    completable = True
    seen = 0

    def several(self, *values):
        def f(eng, st, ctx, args, kwargs, node):
            return [(st, v) for v in values]
        return f

    def is_opaque(self, eng, st, ctx, tgt):
        return False

    def token_class(self, cid):
        return cid.startswith('application.') or self.base_cid in self.repo.mro(cid)

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        last = tgt.name.split('.')[-1] if tgt.name else ''
        if tgt.kind in ('func', 'meth') and not args and not kwargs:
            given = {'get_token_classes': self.own, 'get_base_token_classes': self.base}.get(last)
            if given is not None and (tgt.fi is None or tgt.fi.cls is not None and tgt.fi.cls.name in self.known):
                st, l = eng.new_list(st, ctx, node, list(given), tag=last)
                return [(st, l)]
        if last in TOLD:
            return [(st.setmon(C((st.mon[2] if st.mon is not None else 0) % 1000 + 1000)), NONE)]
        if self.driving is not None and last == 'get_token' and args and 'ndOfInpu' in str(args[0]):
            return [(st, S('p', 'the end of the line'))]
        if self.driving is not None and tgt.kind in ('func', 'meth') and last in self.outcomes:
            return self.outcomes[last](eng, st, ctx, args, kwargs, node)
        if tgt.kind == 'class' and tgt.val is not None and self.token_class(tgt.val[1]):
            if self.driving is not None:
                if tgt.val != self.driving and not (tgt.val[1] == self.base_cid and self.word not in args):
                    self.wrong(tgt.val, st)
                self.seen += 1
                st, o = eng.alloc(st, ctx, node, 'inst', 'application.AnyToken', {'completable': C(self.completable), 'name': self.word})
                return [(st, o)]
            if tgt.val in self.failing:
                st = st.setmon(st.mon or C(0))
                return [(st, Exc(ANY_EXC, None, getattr(node, 'lineno', 0)))]
            made = O('made', tgt.val, T(args), T(T((C(k), v)) for k, v in sorted(kwargs.items())))
            return [(st.setmon(C((st.mon[2] if st.mon is not None else 0) + 1)), made)]
        if last == 'convert_to_python_string' and args and is_c(args[0]) and '\\' not in args[0][2]:
            return [(st, args[0])]
        return super().on_call(eng, st, ctx, tgt, args, kwargs, node)


def declared(units):
    """units: (name, class name or None, [(value index, key or None)])"""
    out = [('TOKEN', C('token'))]
    for i, (name, cls, args) in enumerate(units):
        out += ([('COMMA', C(','))] if i else []) + [('IDENTIFIER', name)]
        if cls is not None:
            out += [('IDENTIFIER', C(cls)), ('LPAREN', C('('))]
            for j, (v, k) in enumerate(args):
                out += ([('COMMA', C(','))] if j else []) + ([('IDENTIFIER', C(k)), ('ASSIGN', C('='))] if k else []) + VALUES[v][0]
            out += [('RPAREN', C(')'))]
    return out + [('SEMICOLON', C(';'))]


def written(toks):
    return ' '.join(str(v[2]) if is_c(v) else show(v) for k, v in toks)


def lists(tier):
    yield []
    for v in range(len(VALUES)):
        yield [(v, None)]
        yield [(v, 'start')]
    yield [(0, None), (1, None)]
    yield [(1, None), (0, None), (2, None)]
    yield [(0, None), (0, None)]
    yield [(0, None), (1, 'limit')]
    yield [(0, 'start'), (1, 'limit')]
    yield [(1, 'limit'), (0, 'start')]
    yield [(4, None), (3, 'limit'), (5, 'kind')]
    yield [(5, None), (4, None), (2, 'kind')]
    if tier == 'thorough':
        for a, b in itertools.product(range(len(VALUES)), repeat=2):
            yield [(a, None), (b, 'limit')]
            yield [(a, None), (b, None)]
            yield [(a, 'kind'), (b, 'limit')]


class Check:
    def __init__(self, repo, res):
        self.repo, self.res = repo, res
        self.fi = need_method(repo, 'CliInterface', 'get_token')
        self.cid = need_class(repo, PARSER)
        self.icid = need_class(repo, 'CliInterface')
        self.init = need_method(repo, 'CliInterface', '__init__')
        self.cl = Tokens(repo)
        self.d = Drive(repo, self.cl, self.fi, 4000000)
        self.plain = ('k', need_class(repo, 'CliToken'))

    def tell(self, rule, toks, msg, s):
        self.d.eng.report(rule, self.fi.where, self.fi.qual, "%s: %s" % (written(toks), msg), s)

    def spec(self, toks):
        ds = derivations(self.repo, PARSER, [k for k, v in toks], start='grammar_spec')
        if len(ds) != 1:
            self.res.count('undecided')
            return
        d = self.d
        for s, spec in normal(d.new(d.start(), 'GrammarSpecification')):
            s, me = d.eng.alloc(s, d.ctx, d.node(), 'inst', self.cid, {'_grammar_spec': spec})
            s = s.setvar('$script', 'me', me)
            for s2, v in reduce_tree(d, s, me, ds[0], [v for k, v in toks]):
                if isinstance(v, Exc) or s2.guess:
                    self.res.count('undecided')
                else:
                    yield s2, spec

    def interpreter(self, toks, cls=None):
        cid = cls or self.icid
        d = self.d
        for s, spec in self.spec(toks):
            s, cli = d.eng.alloc(s, d.ctx, d.node(), 'inst', cid, {})
            s = s.setvar('$script', 'cli', cli)
            for h in HELP:
                s = s.setfact(O('isinst', h, 'str'), True)
                s = s.assume(mk_eq(h, NONE), False) or s
                s = s.assume(h, True) or s
            s = s.assume(mk_eq(HELP[0], HELP[1]), False) or s
            for s2, v in d.func(s, self.init, cli, S('p', 'loop'), spec):
                if isinstance(v, Exc) or s2.guess:
                    self.res.count('undecided')
                    continue
                yield s2.setmon(C(0)), cli

    def setup(self, own=(), base=(), failing=(), known=('CliInterface',)):
        self.cl.own, self.cl.base, self.cl.failing, self.cl.known = own, base, failing, set(known)

    def made(self, s, v):
        """(class, positional, named) of a token value, None when not known"""
        if v[0] == 'o' and v[1] == 'made':
            return v[2], list(v[3][1]), {k[2]: x for k, x in (p[1] for p in v[4][1])}
        return None

    def get(self, s, cli, name, help=None):
        return self.d.call(s, cli, 'get_token', name, *([help] if help is not None else []))

    def expect(self, toks, cls, args, s, v, name, help, cli, rule='class'):
        """v is the token due"""
        self.res.count('tokens_judged')
        if s.guess:
            self.res.count('undecided')
            return False
        if isinstance(v, Exc):
            if v.kind == ANY_EXC or v.kind[0] == 'cls' and not v.kind[1].startswith('analysis.'):
                self.tell('failure-contained' if self.cl.failing else 'class', toks, "asking for the token %s raises" % name[2], s)
            else:
                self.res.count('undecided')
            return False
        m = self.made(s, v)
        if m is None:
            self.res.count('undecided')
            return False
        c, pos, kw = m
        if c != cls:
            self.tell(rule, toks, "%s is an object of %s, not of %s" % (name[2], c[1].split('.')[-1] + self.side(c), cls[1].split('.')[-1] + self.side(cls)), s)
            return False
        # the class decides how the name, the interpreter and the help are passed: by position or by name
        names = ['name']
        given = dict(kw)
        for n, x in zip(names, pos):
            if n in given:
                self.tell('arguments', toks, "%s is made with two values for %s" % (name[2], n), s)
                return False
            given[n] = x
        rest = pos[len(names):]
        want = {'name': name, 'cli': cli, 'helpstring': help or NONE}
        wpos = [VALUES[i][1] for i, k in args if k is None]
        for n, x in zip(names[1:], wpos):
            want[n] = x
        wrest = wpos[len(names) - 1:]
        for i, k in args:
            if k is not None:
                want[k] = VALUES[i][1]
        if given.get('helpstring') is None and want['helpstring'] == NONE:
            given['helpstring'] = NONE
        self.res.count('arguments_compared', len(want))
        for k in sorted(set(given) | set(want)):
            a, b = given.get(k), want.get(k)
            if a != b and not (a is not None and b is not None and s.known_eq(a, b) is True):
                if a is not None and b is not None and s.known_eq(a, b) is None and not is_c(a):
                    self.res.count('undecided')
                    continue
                self.tell('arguments', toks, "%s is made with %s=%s instead of %s" % (
                    name[2], k, 'nothing' if a is None else show(a), 'nothing' if b is None else show(b)), s)
                return False
        if rest != wrest:
            self.tell('arguments', toks, "%s is made with the positional values %s instead of %s" % (
                name[2], [show(x) for x in pos], [show(x) for x in [name] + wpos]), s)
            return False
        return True

    def side(self, c):
        return ' of the application' if c[1].startswith('application.') else ''

    def written_as(self, toks, rule, words, due, wrong, completable):
        """Matching a line makes objects of one class for the word"""
        cl, d = self.cl, self.d
        self.setup((OWN,))
        toks = toks + [('IDENTIFIER', C('rule')), ('COLON', C(':'))] + rule + [('SEMICOLON', C(';'))]
        for s, cli in self.interpreter(toks):
            for s1, _ in normal(d.call(s, cli, 'enter_grammar', C('rule'))):
                for dry, last, (result, n) in itertools.product((False, True), (False, True), cl.results):
                    cl.answers(result, n)
                    cl.driving, cl.word, cl.completable, cl.seen = due, NAME[0], completable, 0
                    cl.wrong = lambda c, st: None if st.guess else self.tell('text-stands-for-itself', toks, wrong, st)
                    try:
                        s2, l = d.eng.new_list(s1, d.ctx, d.node(), words, tag='line')
                        s2 = s2.setvar('$script', 'line', l)
                        for w in words:
                            s2 = s2.setfact(O('isinst', w, 'str'), True)
                            s2 = s2.assume(w, True) or s2
                        d.call(s2, cli, 'match', l, C(dry), C(last))
                    finally:
                        cl.driving = None
                    self.res.count('lines_matched')
                    self.res.count('objects_made_while_matching', cl.seen)

    def builtin(self):
        """What the package's own grammar declares works in applications that give their own classes"""
        cmd = need_class(self.repo, 'NessaidCmd')
        ci = self.repo.classes[cmd]
        doc = '\n'.join(x for x in [ast.get_docstring(ci.node)] + [ast.get_docstring(f) for f in ci.node.body
                                                                   if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef))] if x)
        for name, cls in re.findall(r'(?<!\S)token\s+([A-Za-z_][\w-]*)\s+([A-Za-z_]\w*)\s*\(', doc):
            cid = [c for c in self.repo.classes if c.split('.')[-1] == cls and self.cl.base_cid in self.repo.mro(c)]
            if len(cid) != 1:
                self.res.count('undecided')
                continue
            toks = declared([(C(name), cls, [])])
            for own in ((), (OTHER,), (('k', cid[0]), OTHER)):
                self.setup(own, None, (), ('CliInterface', 'NessaidCli', 'NessaidCmd'))
                for s, cli in self.interpreter(toks, cmd):
                    for s2, v in self.get(s, cli, C(name)):
                        self.res.count('built_in_declarations')
                        m = None if isinstance(v, Exc) else self.made(s2, v)
                        if m is None or s2.guess:
                            self.res.count('undecided')
                        elif m[0] != ('k', cid[0]):
                            self.tell('built-in-declarations', toks, "in an application whose get_token_classes gives %s, %s of the built-in commands is an object of %s"
                                      % ([c[1].split('.')[-1] for c in own], name, m[0][1].split('.')[-1]), s2)

    # scenarios
    def scenario(self, units, classes, own, base=(), failing=(), helps=(None, HELP[0])):
        """classes: name -> class due"""
        toks = declared(units)
        self.setup(own, base, failing)
        self.res.count('declarations')
        for s, cli in self.interpreter(toks):
            for (name, cls, args), h in itertools.product(units, helps):
                due = classes[name]
                for s2, v in self.get(s, cli, name, h):
                    good = self.expect(toks, due, [] if due == self.plain else args, s2, v, name, h, cli)
                    if good and failing and due == self.plain and s2.mon[2] < 1000:
                        self.tell('failure-reported', toks, "nothing is said when %s cannot be made" % name[2], s2)

    def again(self, units, own, ask=None):
        """The same token is made once; another help text makes another"""
        toks = declared(units)
        self.setup(own)
        for s, cli in self.interpreter(toks):
            for (name, cls, args) in ask or units:
                for h1, h2 in ((None, None), (HELP[0], HELP[0]), (None, HELP[0]), (HELP[0], HELP[1]), (HELP[1], None)):
                    for s1, v1 in normal(self.get(s, cli, name, h1)):
                        n = s1.mon[2]
                        for s2, v2 in self.get(s1, cli, name, h2):
                            if isinstance(v2, Exc):
                                continue
                            if s2.guess:
                                self.res.count('undecided')
                                continue
                            self.res.count('repeated_requests')
                            if h1 == h2 and (s2.mon[2] % 1000 != n % 1000 or v1 != v2):
                                self.tell('made-once', toks, "%s is made again when it is asked for again" % name[2], s2)
                            elif h1 != h2:
                                self.expect(toks, OWN if cls else self.plain, args, s2, v2, name, h2, cli, 'class')


def run(repo, res):
    res.rules = ['class', 'arguments', 'failure-contained', 'failure-reported', 'made-once', 'built-in-declarations', 'text-stands-for-itself']
    ck = Check(repo, res)
    P = ck.plain
    t0 = time.time()
    for args in lists(res.tier):
        ck.scenario([(NAME[0], 'OwnToken', args)], {NAME[0]: OWN}, (OWN,))
    ck.scenario([(NAME[0], 'OwnToken', [(0, None)]), (NAME[1], 'OtherToken', [(1, None), (0, 'limit')])], {NAME[0]: OWN, NAME[1]: OTHER}, (OTHER, OWN))
    ck.scenario([(NAME[0], 'OwnToken', [(0, None)]), (NAME[1], 'OwnToken', [(1, None)]), (NAME[2], None, [])],
                {NAME[0]: OWN, NAME[1]: OWN, NAME[2]: P}, (OWN,))
    # what the application gives goes before what the package has under the same name
    first = ('k', 'application.framework.OwnToken')
    ck.scenario([(NAME[0], 'OwnToken', [(0, None)])], {NAME[0]: OWN}, (OWN,), (first,))
    ck.scenario([(NAME[0], 'OwnToken', [(0, None)])], {NAME[0]: first}, (OTHER,), (first,))
    mine = ('k', 'application.CliToken')
    ck.scenario([(NAME[0], 'CliToken', [])], {NAME[0]: mine}, (mine,))
    ck.scenario([(NAME[0], None, [])], {NAME[0]: mine}, (mine,))
    # no such class, and a class that fails
    ck.scenario([(NAME[0], 'OwnToken', [(0, None)])], {NAME[0]: P}, (OTHER,))
    ck.scenario([(NAME[0], 'OwnToken', [(0, None)]), (NAME[1], 'OtherToken', [])], {NAME[0]: P, NAME[1]: OTHER}, (OTHER, OWN), (), (OWN,))
    ck.scenario([(NAME[0], 'CliToken', [])], {NAME[0]: P}, (mine,), (), (mine,))
    # a word that is not declared
    toks = declared([(NAME[0], 'OwnToken', [])])
    ck.setup((OWN,))
    for s, cli in ck.interpreter(toks):
        for h in (None, HELP[0]):
            for s2, v in ck.get(s, cli, NAME[1], h):
                ck.expect(toks, P, [], s2, v, NAME[1], h, cli)
    ck.again([(NAME[0], 'OwnToken', [(0, None), (1, 'limit')]), (NAME[1], 'OwnToken', [])], (OWN,))
    ck.again([(NAME[0], None, [])], (), [(NAME[0], None, []), (NAME[1], None, [])])
    ck.builtin()
    toks = declared([(NAME[0], 'OwnToken', [])])
    Q, I, COL = [('QUOTED_STR', C('"alpha"'))], [('IDENTIFIER', NAME[0])], [('COLON', C(':')), ('QUOTED_STR', C('"what it is"'))]
    for one, due, wrong in ((Q, P, 'the text "alpha" is taken for the token alpha'), (Q + COL, P, 'the text "alpha" is taken for the token alpha'),
                            (I, OWN, 'the token alpha is taken for a word'), (I + COL, OWN, 'the token alpha is taken for a word')):
        for rule in (one, one + one, one + [('OR', C('|'))] + one, [('LBRACE', C('{'))] + one + [('RBRACE', C('}'))] + one,
                     [('LBRACE', C('{'))] + one + [('RBRACE', C('}'))]):
            for n in (1, 2):
                for comp in (True, False) if n == 1 or res.tier == 'thorough' else (True,):
                    ck.written_as(toks, rule, [S('p', 'word%d' % i) for i in range(n)], due, wrong, comp)
    res.count('seconds', int(time.time() - t0))
    res.absorb(ck.d.eng)
    res.need('tokens_judged', 5, 'requests for declared tokens')
