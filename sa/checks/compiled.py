"""C36: a grammar is compiled into the structure that is written."""

import itertools
import time

from ..values import C, S, O, T, NONE, TRUE, is_c, Exc, show, mentions
from ..lexers import TokenClient
from ..cliclient import need_class, need_method
from ..drive import Drive, normal
from ..state import mk_eq
from ..productions import derivations, reduce_tree, action
from ..result import Anchor
from .repetition import Tree

PARSER, LEXER = 'NessaidCliParser', 'NessaidCliLexer'
BINDER = 'NessaidCliBindingParser'
WORDS = [S('p', 'word%d' % i) for i in range(7)]
RULES = [S('p', 'rule%d' % i) for i in range(2)]
TOKS = [S('p', 'token%d' % i) for i in range(3)]
CLASSES = [S('p', 'class%d' % i) for i in range(2)]
PARAMS = [S('p', 'param%d' % i) for i in range(3)]
NAMES = WORDS + RULES + TOKS + CLASSES
CODE = [S('p', 'code%d' % i) for i in range(8)]
KIND = (('AlternativeInputElement', 'alt'), ('OrderlessSetInputElement', 'set'), ('OptionalInputElement', 'opt'),
        ('SequenceInputElement', 'seq'))


class Compile(TokenClient):
    merge_limit = 200
    unroll = 12
    distinct = 24

    def is_opaque(self, eng, st, ctx, tgt):
        return False

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        last = tgt.name.split('.')[-1] if tgt.name else ''
        if last == 'parse' and len(args) == 1 and not kwargs and (
                tgt.kind in ('meth', 'sym') or tgt.fi is not None and tgt.fi.cls is not None and tgt.fi.cls.name == BINDER):
            return [(st, T((TRUE, O('code', args[0]))))]
        if last == 'convert_to_python_string' and args and is_c(args[0]) and '\\' not in args[0][2]:
            # C16 decides the conversion: without a backslash a text stands for itself
            return [(st, args[0])]
        return super().on_call(eng, st, ctx, tgt, args, kwargs, node)


# -- written grammars ----------------------------------------------------------
# A piece is (tokens [(kind, value)], structure); a structure is
# ['word', name, help] ['text', text, help] ['ref', rule, args] or [kind, parts, count], followed by actions before, after.

def word(i):
    return [('IDENTIFIER', WORDS[i])], ['word', WORDS[i], None, [], []]


def text(s, help=None):
    toks = [('QUOTED_STR', C('"%s"' % s))]
    if help is not None:
        toks += [('COLON', C(':')), ('QUOTED_STR', C('"%s"' % help))]
    return toks, ['text', C(s), help and C(help), [], []]


def copy(e):
    return e[:1] + [[copy(x) for x in e[1]] if isinstance(e[1], list) else e[1]] + [e[2], list(e[3]), list(e[4])]


def code(ks):
    """An action written in one piece, or in several"""
    toks, val = [('OPEN_BINDING', C('<<'))], None
    for j, k in enumerate(ks):
        toks.append(('BOUND_CONTENT' if j % 2 == 0 else 'ESCAPED_CHAR', CODE[k]))
    toks.append(('CLOSE_BINDING', C('>>')))
    return toks, ('code',) + tuple(CODE[k] for k in ks)


def acts(lists):
    toks, vals = [], []
    for ks in lists:
        t, v = code(ks)
        toks += t
        if ks:
            vals.append(v)
    return toks, vals


def after(p, *lists):
    t, e = p
    at, av = acts(lists)
    e = copy(e)
    e[4] = e[4] + av
    return t + at, e


def unit(pre, terms, kind='seq'):
    at, av = acts(pre)
    toks = list(at)
    for i, (t, e) in enumerate(terms):
        if i and kind == 'set':
            toks.append(('COMMA', C(',')))
        toks += t
    if len(terms) == 1:
        e = copy(terms[0][1])
    else:
        e = [kind, [copy(x[1]) for x in terms], 1, [], []]
    e[3] = av + e[3]
    return toks, e


def alt(units):
    if len(units) == 1:
        return units[0]
    toks = []
    for i, (t, e) in enumerate(units):
        toks += ([('OR', C('|'))] if i else []) + t
    return toks, ['alt', [copy(u[1]) for u in units], 1, [], []]


def paren(rule):
    return [('LPAREN', C('('))] + rule[0] + [('RPAREN', C(')'))], rule[1]


def opt(rule):
    e = copy(rule[1])
    return [('LBRACE', C('{'))] + rule[0] + [('RBRACE', C('}'))], ['opt', [e], 1, [], []]


def times(p, n):
    t, e = p
    return t + [('MULTIPLY', C('*')), ('INTEGER', C(str(n)))], e if n == 1 else ['seq', [copy(e)], n, [], []]


def norm(e):
    """Same form for what is the same: an optional sequence has the parts of the sequence."""
    if not isinstance(e[1], list):
        return (e[0], e[1], e[2], tuple(e[3]), tuple(e[4]))
    kind, parts, n, pre, post = e
    parts = [norm(x) for x in parts]
    if kind == 'opt' and len(parts) == 1 and parts[0][0] == 'seq' and parts[0][2] == 1:
        x = parts[0]
        parts, pre, post = list(x[1]), list(pre) + list(x[3]), list(x[4]) + list(post)
    if kind == 'seq' and len(parts) == 1 and n == 1:
        x = parts[0]
        return x[:3] + (tuple(pre) + x[3], x[4] + tuple(post))
    return (kind, tuple(parts), n, tuple(pre), tuple(post))


# -- compiled grammars -----------------------------------------------------------
class Unclear(Exception):
    pass


class Reader(Tree):
    def val(self, v, name):
        x = self.attr(v, name)
        if x is None:
            raise Unclear
        return self.st.eqc(x) or x

    def items(self, v):
        if v is None:
            raise Unclear
        if v[0] == 't':
            return list(v[1])
        if v == NONE:
            return []
        if v[0] == 'r' and self.st.heap[v[1]].kind in ('list', 'tuple'):
            segs = self.st.heap[v[1]].data[0]
            if all(s[0] == 'I' for s in segs):
                return [s[1] for s in segs]
        raise Unclear

    def string(self, v):
        """A text; instances of a subclass of str are their text."""
        if v[0] == 'r' and v[1] in self.st.heap and '$str' in self.st.heap[v[1]].data:
            v = self.st.heap[v[1]].data['$str']
        v = self.st.eqc(v) or v
        if not (is_c(v) or v[0] == 's' and v[1] == 'p'):
            raise Unclear
        return v

    def actions_of(self, v):
        out = []
        for n in ('pre_match_binding', 'post_match_binding'):
            out.append(tuple(self.code(x) for x in self.items(self.val(v, n))))
        return out

    def code(self, x):
        x = self.st.eqc(x) or x
        if x[0] != 'o' or x[1] != 'code':
            if x == NONE:
                return ('nothing',)
            raise Unclear
        return ('code',) + tuple(self.flat(x[2]))

    def flat(self, x):
        x = self.st.eqc(x) or x
        if x[0] == 'o' and x[1] in ('cat', 'add', '+'):
            out = []
            for y in x[2:]:
                out += self.flat(y)
            return out
        if is_c(x) and x[2] == '':
            return []
        if x in CODE:
            return [x]
        if is_c(x):
            return [x]
        raise Unclear

    def read(self, v, depth=0):
        if v is None or v[0] != 'r' or depth > 8 or not self.is_a(v, 'InputElement'):
            raise Unclear
        pre, post = self.actions_of(v)
        if self.is_a(v, 'InputElementCollection'):
            kind = next((k for c, k in KIND if self.is_a(v, c)), None)
            n = self.val(v, 'repeat_count')
            if kind is None or not is_c(n):
                raise Unclear
            e = [kind, [self.read(x, depth + 1) for x in self.items(self.attr(v, 'value'))], n[2], list(pre), list(post)]
            return [kind, e[1], n[2], list(pre), list(post)]
        if self.is_a(v, 'GrammarRefElement'):
            return ['ref', self.attr(v, 'value'), tuple(self.args(self.val(v, 'arg_list'))), list(pre), list(post)]
        if self.is_a(v, 'UnresolvedInputElement'):
            al = self.args(self.val(v, 'arg_list'))
            return ['word', self.string(self.val(v, 'value')), tuple(al) or None, list(pre), list(post)]
        if self.is_a(v, 'ConstantInputElement') or self.is_a(v, 'KeywordInputElement'):
            h = self.val(v, 'helpstring')
            if h != NONE:
                h = self.string(h)
            kind = 'text' if self.is_a(v, 'ConstantInputElement') else 'word'
            return [kind, self.string(self.val(v, 'value')), None if h == NONE else h, list(pre), list(post)]
        raise Unclear

    def args(self, l):
        out = []
        for a in self.items(l):
            v, n = self.val(a, 'value'), self.val(a, 'param_name')
            out.append((self.plain(v), None if n == NONE else self.plain(n)))
        return out

    def plain(self, v):
        v = self.st.eqc(v) or v
        if v[0] == 'r' and v[1] in self.st.heap and '$str' in self.st.heap[v[1]].data:
            v = self.st.heap[v[1]].data['$str']
            v = self.st.eqc(v) or v
        if is_c(v) or v[0] == 's':
            return v
        raise Unclear


def said(e):
    """An element in words"""
    if e[0] in ('word', 'text'):
        s = e[1][2] if is_c(e[1]) and e[0] == 'text' and isinstance(e[1][2], str) else show(e[1])
        s = '"%s"' % s if e[0] == 'text' else s
        if e[2] is not None and not isinstance(e[2], tuple):
            s += ':help'
        elif e[2]:
            s += '[..]'
    elif e[0] == 'ref':
        s = 'rule[%s]' % ','.join(show(x[0]) for x in e[2])
    else:
        sep = {'alt': ' | ', 'set': ' , '}.get(e[0], ' ')
        s = ('{%s}' if e[0] == 'opt' else '(%s)') % sep.join(said(x) for x in e[1])
        if e[2] != 1:
            s += '*%d' % e[2]
    return ''.join('<<%s>>' % acted(a) for a in e[3]) + s + ''.join('<<%s>>' % acted(a) for a in e[4])


def acted(a):
    return '+'.join(show(x) if not is_c(x) else repr(x[2]) for x in a[1:])


def written(toks):
    return ' '.join(show(v) if not is_c(v) else str(v[2]) for k, v in toks)


# -- which rules are tried -------------------------------------------------------
def pool():
    w = [word(i) for i in range(7)]
    q = text('lit')
    qh = text('lit', 'what it is')
    two = unit((), [w[0], w[1]])
    return [
        w[0], q, qh,
        paren(two), opt(unit((), [w[0]])), opt(two), opt(alt([w[0], w[1]])), opt(unit((), [w[0], w[1]], 'set')),
        paren(alt([w[0], w[1], w[2]])), paren(unit((), [w[0], w[1], w[2]], 'set')), paren(unit((), [w[0]])),
        times(w[0], 2), times(paren(two), 3), times(w[0], 1), opt(unit((), [times(paren(two), 2)])), opt(unit((), [paren(two)])),
        opt(unit((), [opt(two)])),
        paren(unit(([0],), [after(w[0], [1]), w[1]])), opt(unit(([0],), [after(w[0], [1]), after(w[1], [2])])),
        opt(unit(([0],), [after(w[0], [1])])), paren(unit(([0],), [w[0]])),
        opt(alt([unit(([0],), [w[0]]), unit(([1],), [after(w[1], [2])])])),
        paren(unit(([0],), [w[0], after(w[1], [1])], 'set')),
        times(paren(unit(([0],), [after(w[0], [1])])), 2), times(opt(unit(([0],), [w[0], w[1]])), 2),
        opt(unit((), [paren(unit(([0],), [w[0], after(w[1], [1])]))])),
        paren(unit((), [after(w[0], [1])])), paren(unit(([0],), [after(paren(two), [1])])), opt(unit((), [after(opt(two), [1])])),
        opt(unit(([0],), [after(paren(unit(([2],), [w[0], w[1]])), [1])])),
    ]


def shift(p, by):
    """The same piece with other names"""
    t, e = p
    m = {WORDS[i]: WORDS[(i + by) % len(WORDS)] for i in range(len(WORDS))}
    m.update({CODE[i]: CODE[(i + by) % len(CODE)] for i in range(len(CODE))})
    m[C('"lit"')] = C('"lit%d"' % by)
    m[C('lit')] = C('lit%d' % by)

    def ren(x):
        if isinstance(x, list):
            return [ren(y) for y in x]
        if isinstance(x, tuple):
            return m.get(x) or tuple(ren(y) for y in x)
        return x
    return [(k, m.get(v, v)) for k, v in t], ren(e)


def rules(tier):
    ps = pool()
    A, B = [6], [7]
    for p in ps:
        yield unit((), [p])
        yield unit((A,), [after(p, B)])
        yield unit((A, B), [p])
        yield unit((), [after(p, A, B)])
        yield unit((A,), [p, word(6)])
        yield unit((), [word(6), after(p, A)], 'set')
        yield alt([unit((A,), [word(6)]), unit((B,), [p])])
        yield alt([unit((A,), [p]), after(word(5), B), after(word(6), [5, 4])])
        yield alt([word(6), word(5), unit((A,), [after(p, B)]), word(4)])
        yield unit((A,), [word(6), word(5), after(p, B), word(4)], 'set')
        yield unit((), [opt(unit((A,), [after(p, B)]))])
    yield unit(([0, 1, 2],), [after(word(0), [3, 4], [5])])
    yield unit(((), [0]), [after(word(0), (), [1], ())])
    for n in (3, 4, 5):
        yield unit((), [word(i) for i in range(n)])
        yield unit((), [word(i) for i in range(n)], 'set')
        yield alt([word(i) for i in range(n)])
        yield unit((A,), [after(word(i), [i]) for i in range(n)])
        yield unit((A,), [after(word(i), [i]) for i in range(n)], 'set')
        yield alt([unit(([i],), [after(word(i), [i + 1])]) for i in range(n)])
    yield alt([unit((), [paren(alt([word(0), word(1)]))]), word(2)])
    yield alt([word(2), unit((), [paren(alt([word(0), word(1)]))])])
    some = ps if tier == 'thorough' else ps[:1] + ps[3:10:2] + ps[12:19:3]
    for p, r in itertools.product(some, repeat=2):
        r = shift(r, 3)
        yield unit((A,), [p, after(r, B)])
        if tier == 'thorough':
            yield unit((), [after(p, A), r], 'set')
            yield alt([p, unit((B,), [r])])


class Grammar:
    def __init__(self, repo, res):
        self.repo, self.res = repo, res
        self.cid = need_class(repo, PARSER)
        fi = need_method(repo, 'GrammarSpecification', 'add_grammar')
        self.d = Drive(repo, Compile(repo), fi)
        if fi is None:
            raise Anchor("add_grammar")

    def names(self, st, used):
        used = sorted(used)
        for n in used:
            st = st.setfact(O('isinst', n, 'str'), True)
            st = st.assume(mk_eq(O('type', n), ('k', 'builtins.str')), True) or st
            st = st.assume(n, True) or st
        for a, b in itertools.combinations(used, 2):
            st = st.assume(mk_eq(a, b), False) or st
        for n in used:
            st = st.assume(mk_eq(n, C('')), False) or st
        return st

    def start(self, toks):
        d = self.d
        st = self.names(d.start(), {v for k, v in toks if v in NAMES or v in CODE})
        out = []
        for s, spec in normal(d.new(st, 'GrammarSpecification')):
            s, me = d.eng.alloc(s, d.ctx, d.node(), 'inst', self.cid, {'_grammar_spec': spec})
            out.append((s.setvar('$script', 'me', me), me, spec))
        return out

    def parse(self, toks, top):
        trees = derivations(self.repo, PARSER, [k for k, v in toks], start=top)
        if len(trees) != 1:
            self.res.count('undecided')
            return None
        return trees[0]

    def tell(self, rule, fi, toks, msg, st):
        self.d.eng.report(rule, fi.where, fi.qual, "of %s: %s" % (written(toks), msg), st)

    def rule(self, toks, want):
        """A rule on its own"""
        tree = self.parse(toks, 'rule')
        if tree is None:
            return
        want = norm(want)
        for s, me, spec in self.start(toks):
            for s2, v in reduce_tree(self.d, s, me, tree, [v for k, v in toks]):
                self.compare(toks, tree, s2, v, want)

    def compare(self, toks, tree, s, v, want, rules=None):
        res = self.res
        if s.guess:
            res.count('undecided')
            return
        fi = tree[0]
        if isinstance(v, Exc):
            if v.kind[0] == 'cls' and not v.kind[1].startswith('analysis.'):
                self.tell('structure', fi, toks, "the grammar is rejected", s)
            return
        try:
            got = norm(Reader(self.d, s).read(v))
        except Unclear:
            res.count('undecided')
            return
        if rules:
            got = name_rules(got, rules)
        res.count('elements_compared')
        if got == want:
            return
        where = blame(tree, fi)
        self.tell(fault(got, want), where, toks, "compiled as %s" % said(got), s)


def name_rules(e, rules):
    if e[0] == 'ref':
        return (e[0], rules.get(e[1], e[1])) + e[2:]
    if isinstance(e[1], tuple) and e[0] in ('seq', 'alt', 'set', 'opt'):
        return (e[0], tuple(name_rules(x, rules) for x in e[1])) + e[2:]
    return e


def bare(e):
    if e[0] in ('seq', 'alt', 'set', 'opt'):
        return (e[0], tuple(bare(x) for x in e[1]), e[2])
    return e[:3]


def fault(got, want):
    return 'actions' if bare(got) == bare(want) else 'structure'


def blame(tree, fi):
    return fi


# -- whole grammars ---------------------------------------------------------------
VALUES = [([('INTEGER', C('12'))], C(12)), ([('QUOTED_STR', C('"some text"'))], C('some text')), ([('TRUE', C('True'))], C(True)),
          ([('NONE', C('None'))], NONE), ([('FALSE', C('False'))], C(False)), ([('DOLLAR_VAR_ID', PARAMS[2])], PARAMS[2])]
DEFAULTS = [None, ([('QUOTED_STR', C('"by default"'))], C('by default')), ([('INTEGER', C('0'))], C(0)), ([('QUOTED_STR', C('""'))], C(''))]


def listed(parts, sep=('COMMA', C(','))):
    out = []
    for i, p in enumerate(parts):
        out += ([sep] if i else []) + p
    return out


def arguments(args):
    """args: [(index of the value, name or None)] -> tokens, [(value, name)]"""
    toks, want = [], []
    for i, n in args:
        t, v = VALUES[i]
        toks.append(([('DOLLAR_VAR_ID', n), ('ASSIGN', C('='))] if n is not None else []) + t)
        want.append((v, n))
    return listed(toks), tuple(want)


def refer(i, args=None):
    """A reference to rule i"""
    t = [('IDENTIFIER', RULES[i])]
    want = ()
    if args is not None:
        at, want = arguments(args)
        t += [('LBRACKET', C('['))] + at + [('RBRACKET', C(']'))]
    return t, ['ref', RULES[i], want, [], []]


def unknown(i, args):
    """A word with arguments that is no rule so far"""
    at, want = arguments(args)
    return ([('IDENTIFIER', WORDS[i]), ('LBRACKET', C('['))] + at + [('RBRACKET', C(']'))], ['word', WORDS[i], want or None, [], []])


def token(i, help=None):
    t = [('IDENTIFIER', TOKS[i])]
    if help is not None:
        t += [('COLON', C(':')), ('QUOTED_STR', C('"%s"' % help))]
    return t, ['word', TOKS[i], help and C(help), [], []]


def parameters(defaults):
    toks, want = [], []
    for i, k in enumerate(defaults):
        d = DEFAULTS[k]
        toks.append([('DOLLAR_VAR_ID', PARAMS[i])] + ([('ASSIGN', C('='))] + d[0] if d else []))
        want.append((PARAMS[i], d and d[1]))
    return listed(toks), want


def named(i, rule, defaults=None):
    t = [('IDENTIFIER', RULES[i])]
    want = []
    if defaults is not None:
        at, want = parameters(defaults)
        t += [('LBRACKET', C('['))] + at + [('RBRACKET', C(']'))]
    return ('rule', RULES[i], t + [('COLON', C(':'))] + rule[0] + [('SEMICOLON', C(';'))], rule[1], want)


def declared(*units):
    """units: (token index, class index or None)"""
    toks, want = [], []
    for i, c in units:
        t = [('IDENTIFIER', TOKS[i])]
        if c is not None:
            t += [('IDENTIFIER', CLASSES[c]), ('LPAREN', C('(')), ('INTEGER', C('3')), ('RPAREN', C(')'))]
        toks.append(t)
        want.append((TOKS[i], CLASSES[c] if c is not None else C('CliToken')))
    return ('tokens', None, [('TOKEN', C('token'))] + listed(toks) + [('SEMICOLON', C(';'))], want, None)


def grammars(tier):
    w = [word(i) for i in range(7)]
    base = named(0, unit((), [w[0], w[1]]), [0, 0, 0])
    plain = named(0, unit((), [w[0], w[1]]))
    for args in ([], [(0, None)], [(1, None), (0, None)], [(2, None), (3, None), (4, None)], [(5, None), (1, None)], [(5, PARAMS[0])],
                 [(0, None), (1, PARAMS[1])], [(1, PARAMS[1]), (0, PARAMS[0])], [(0, PARAMS[2]), (3, PARAMS[0]), (1, PARAMS[1])]):
        yield [base, named(1, unit((), [w[2], refer(0, args), w[3]]))]
        yield [base, named(1, unit((), [after(refer(0, args), [1]), unknown(4, args)]))]
    yield [plain, named(1, unit((), [refer(0), w[2]]))]
    yield [plain, named(1, alt([refer(0), unit((), [paren(unit((), [refer(0), w[2]])), times(refer(0), 2)])]))]
    yield [plain, named(1, unit((), [opt(unit(([0],), [refer(0)])), refer(0)], 'set'))]
    for ds in ([0], [1], [0, 0], [0, 1], [1, 2], [2, 0, 3], [3, 2, 1]):
        yield [named(0, unit((), [w[0]]), ds), named(1, unit((), [refer(0, [])]))]
        yield [named(0, unit((), [w[0]])), named(1, unit((), [w[1]]), ds)]
    yield [named(0, unit((), [w[0]]), [])]
    for units in ([(0, None)], [(0, 0)], [(0, None), (1, 0)], [(1, 1), (0, None), (2, 0)], [(0, 0), (1, 0), (2, 1)]):
        n = len(units)
        yield [declared(*units), named(0, unit((), [token(i) for i in range(n)]))]
        yield [named(0, unit((), [w[0]])), declared(*units), named(1, unit((), [token(0, 'what it is'), w[1], token(n - 1)]))]
        others = [i for i in range(3) if i != units[0][0]]
        yield [declared(units[0]), declared(*zip(others, [c for _, c in units[:2]])),
               named(0, alt([token(units[0][0]), token(others[0]), token(units[0][0], 'another help')]))]


def all_codes(blocks):
    return {v for b in blocks for k, v in b[2] if v in NAMES or v in CODE or v in PARAMS}


class Whole(Grammar):
    def names(self, st, used):
        return super().names(st, used)

    def check(self, blocks):
        toks = [t for b in blocks for t in b[2]]
        tree = self.parse(toks, 'grammar_spec')
        if tree is None:
            return
        d = self.d
        st = self.names(d.start(), all_codes(blocks))
        for s, spec in normal(d.new(st, 'GrammarSpecification')):
            s, me = d.eng.alloc(s, d.ctx, d.node(), 'inst', self.cid, {'_grammar_spec': spec})
            s = s.setvar('$script', 'me', me)
            for s2, v in reduce_tree(d, s, me, tree, [v for k, v in toks]):
                self.judge(blocks, toks, tree, s2, v, spec)

    def judge(self, blocks, toks, tree, s, v, spec):
        res, d = self.res, self.d
        fi = tree[0]
        if s.guess or not isinstance(v, Exc) and v != spec and v[0] != 'r':
            res.count('undecided')
            return
        if isinstance(v, Exc):
            if v.kind[0] == 'cls' and not v.kind[1].startswith('analysis.'):
                self.tell('structure', fi, toks, "the grammar is rejected", s)
            return
        known = {}
        for kind, name, _, want, params in blocks:
            if kind == 'tokens':
                for t, c in want:
                    self.token(toks, s, v, t, c)
                continue
            got = normal(d.call(s, v, 'get_grammar', name))
            if len(got) != 1 or got[0][0].guess:
                res.count('undecided')
                continue
            s2, g = got[0]
            if g == NONE:
                self.tell('references', fi, toks, "the rule %s is not known afterwards" % show(name), s)
                continue
            known[g] = name
            r = Reader(d, s2)
            try:
                body = r.attr(g, 'value')
                if body is None:
                    raise Unclear
                body = name_rules(norm(r.read(body)), known)
                ps = []
                for p in r.items(r.val(g, 'param_list')):
                    has, dv = r.val(p, 'has_def_value'), r.val(p, 'defvalue')
                    if not is_c(has):
                        raise Unclear
                    ps.append((r.plain(p), r.plain(dv) if has[2] else None))
            except Unclear:
                res.count('undecided')
                continue
            res.count('rules_compared')
            w = norm(want)
            if body != w:
                self.tell('references' if refs(body) != refs(w) else fault(body, w), fi, toks,
                          "%s is compiled as %s" % (show(name), said(body)), s)
            if ps != list(params):
                self.tell('parameters', fi, toks, "the parameters of %s are %s" % (
                    show(name), ', '.join(show(a) + ('' if b is None else '=' + show(b)) for a, b in ps) or 'none'), s)

    def token(self, toks, s, spec, t, c):
        got = normal(self.d.call(s, spec, 'get_tokendef', t))
        if len(got) != 1 or got[0][0].guess:
            self.res.count('undecided')
            return
        s2, td = got[0]
        fi = need_method(self.repo, 'GrammarSpecification', 'get_tokendef')
        if td == NONE:
            self.tell('declared-tokens', fi, toks, "the token %s is not known afterwards" % show(t), s)
            return
        try:
            r = Reader(self.d, s2)
            cn = r.plain(r.val(td, 'classname'))
        except Unclear:
            self.res.count('undecided')
            return
        self.res.count('tokens_compared')
        if cn != c:
            self.tell('declared-tokens', fi, toks, "the class of %s is %s" % (show(t), show(cn)), s)


def refs(e):
    """Words and references in order, as they are resolved"""
    if e[0] in ('seq', 'alt', 'set', 'opt'):
        return tuple(x for p in e[1] for x in refs(p))
    return ((e[0], e[1], e[2] if e[0] == 'ref' or isinstance(e[2], tuple) else None),)


def run(repo, res):
    res.rules = ['structure', 'actions', 'references', 'declared-tokens', 'parameters']
    g = Grammar(repo, res)
    t0 = time.time()
    seen = set()
    n = 0
    for toks, want in rules(res.tier):
        key = tuple(toks)
        if key in seen:
            continue
        seen.add(key)
        n += 1
        g.rule(toks, want)
    res.count('rules_written', n)
    res.count('seconds', int(time.time() - t0))
    res.absorb(g.d.eng)
    w = Whole(repo, res)
    for blocks in grammars(res.tier):
        w.check(blocks)
        res.count('grammars_written')
    res.absorb(w.d.eng)
    res.need('rules_compared', 4, 'compiled rules of whole grammars')
    res.need('elements_compared', 20, 'compiled rules')
