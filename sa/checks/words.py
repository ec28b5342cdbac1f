"""C17: words, keywords and numbers of the grammar language and of actions are told apart exactly."""

import itertools

from ..values import C, S, O, NONE, is_c, Exc
from ..cliclient import CliClient, need_class
from ..drive import Drive
from ..lexers import Lexer, TokenClient, UNSURE, LEXEME
from ..productions import productions, derivations, reduce_tree
from ..result import Anchor
from ..terms import value, holds, Unknown

LANGUAGES = [('NessaidCliLexer', 'NessaidCliParser', ('import', 'token', 'True', 'False', 'None')),
             ('NessaidCliBindingLexer', 'NessaidCliBindingParser', ('call', 'True', 'False', 'None'))]
VALUES = {'True': True, 'False': False, 'None': None}
INTS = ('0', '7', '10', '42', '+5', '-5', '+0', '1000', '-90')
FLOATS = ('0.5', '.5', '3.14', '-2.50', '+.5', '10.0', '0.0', '-0.25', '12.034')
HEXES = ('0x0', '0x1f', '0XFF', '0xabc', '0x10', '0X9')
OPERATORS = ('(', ')', '{', '}', '[', ']', ':', ';', '|', '&', ',', '=', '*')
STRINGS = ('"a"', '""', '"a b"', '"a # b"', '"a // b"', '"/* b"', '"a\\"b"', '"a\\\\"', '"token"', '"b */"', '"\\n"', '"<<"')
SEPARATORS = (' ', '\t', '  ', '\n', '\r\n', '\n\n', ' # c\n', '#\n', ' // c\n', '//\n', ' /* c */ ', '/**/', '/* a\n b */', ' # "c\n', ' // it\'s "\n', '/* " */', '# /* c\n', '/* # */', '/*c*/',
              '/* ** */', '/* * / */', '# token x;\n', '/* a */ /* b */', '\\\n')


def words(keywords, tier):
    out = []
    for k in tuple(keywords) + ('token', 'import', 'call', 'True'):
        out += [k, k + 's', k + '1', k + '_x', k + '-x', k + '-', 'x' + k, '_' + k, 'x-' + k, 'x_' + k, k[:-1], k[1:], k + k, k.upper(), k.lower(), k.title(), k.swapcase(),
                k + 'X', k[0] + k, k + k[0], k + '-' + k, k[0]]
    letters = 'aTt0_-' if tier == 'quick' else 'aTtnF09_-x'
    for n in (1, 2, 3, 4):
        out += [''.join(w) for w in itertools.product(letters, repeat=n) if w[0] not in '0-9']
    seen = set()
    return [w for w in out if w and (w[0].isalpha() or w[0] == '_') and not (w in seen or seen.add(w))]


def numbers(tier):
    out = [(t, int(t)) for t in INTS] + [(t, float(t)) for t in FLOATS] + [(t, int(t, 16)) for t in HEXES]
    digits = '01359' if tier == 'quick' else '0123456789'
    for n in (1, 2, 3):
        for w in itertools.product(digits, repeat=n):
            t = ''.join(w)
            if n > 1 and t[0] == '0':
                continue
            out += [(s + t, int(s + t)) for s in ('', '+', '-')]
            out += [(s + t + '.' + f, float(s + t + '.' + f)) for s in ('', '-') for f in ('0', '5', '05', '10')]
    for h in itertools.product('09afAF', repeat=2):
        out += [(p + ''.join(h), int(''.join(h), 16)) for p in ('0x', '0X')]
    return out


def run(repo, res):
    res.rules = ['word: a word is one token, a keyword exactly when it is that keyword', 'keyword-use: what a keyword stands for is its value or its text',
                 'number: a number is one token with the value it denotes', 'sequence: lexemes next to each other are the same as on their own',
                 'separators: white space, line ends and comments separate words and are nothing else', 'variables: a name or number after $ is one token with its text']
    res.explanation = ('The lexical rules of both languages are read from the source in the order ply tries them, and the action of each rule is interpreted with an unknown lexeme. The tokens '
                       'they give for words around every keyword, for numbers in every notation, for comments and for all short sequences of lexemes are compared with the documented ones; '
                       'grammar actions that take a keyword or a number are interpreted for its value.')
    res.assumptions = ['ply takes, at a position, the first rule in its order that matches, functions by line first, then strings by decreasing length.']
    for lexer, parser, keywords in LANGUAGES:
        lx = Lexer(repo, lexer)
        if not lx.rules['INITIAL']:
            raise Anchor('no lexical rules in %s' % lexer)
        Language(repo, res, lx, parser, keywords).run()
    res.need('words', 50, 'words')


class Language:
    def __init__(self, repo, res, lx, parser, keywords):
        self.repo, self.res, self.lx, self.parser, self.keywords = repo, res, lx, parser, keywords
        fi = next(r.fi for r in lx.rules['INITIAL'] if r.fi)
        self.drv = Drive(repo, TokenClient(repo), fi)
        self.told = set()
        self.fi = fi
        self.cache = {}
        act = lx.act

        def cached(rule, text, r):
            k = (rule.name, text)
            if k not in self.cache:
                self.cache[k] = act(rule, text, r)
            return self.cache[k]
        lx.act = cached

    def tell(self, rule, text, fi=None, s=None):
        fi = fi or self.fi
        if (rule, fi.qual) in self.told:
            return
        self.told.add((rule, fi.qual))
        self.drv.eng.report(rule, fi.where, fi.qual if fi else self.lx.cls, text, s or self.drv.start())

    def scan(self, text):
        got, end = self.lx.scan(text, self.res)
        if end == 'unsure' or end == 'error' and self.odd:
            self.res.count('undecided')
            return None
        return [(t[0], t[1]) for t in got] + ([('error', None)] if end == 'error' else [])

    def run(self):
        lx, res = self.lx, self.res
        self.odd = bool(lx.odd)
        if lx.odd:
            res.count('rules-not-understood', len(lx.odd))
        base = self.scan('x9z')
        if base is None:
            return
        if len(base) != 1 or base[0][1] != 'x9z':
            self.tell('word', 'in %s the word x9z gives the tokens %s' % (lx.cls, shown(base)))
            return
        self.name = base[0][0]
        self.kinds = {}
        for w in words(self.keywords, res.tier):
            got = self.scan(w)
            if got is None:
                continue
            res.count('words')
            if len(got) != 1 or got[0][1] != w:
                self.tell('word', 'in %s the word %s gives the tokens %s' % (lx.cls, w, shown(got)))
                continue
            k = got[0][0]
            if w in self.keywords:
                if k == self.name:
                    self.tell('word', 'in %s the keyword %s is taken as a name' % (lx.cls, w))
                self.kinds[w] = k
            elif k != self.name:
                self.tell('word', 'in %s the name %s is taken as the keyword %s' % (lx.cls, w, k))
        if len(set(self.kinds.values())) < len(self.kinds):
            a, b = next((a, b) for a, b in itertools.combinations(self.kinds, 2) if self.kinds[a] == self.kinds[b])
            self.tell('word', 'in %s the keywords %s and %s are not told apart' % (lx.cls, a, b))
        self.numbers()
        self.uses()
        self.sequences()
        for r in lx.rules['INITIAL']:
            if getattr(r, 'drive', None) is not None:
                res.absorb(r.drive.eng)
        res.absorb(self.drv.eng)

    # numbers ------------------------------------------------------------------
    def numbers(self):
        results, res = {}, self.res
        for text, want in numbers(res.tier):
            got = self.scan(text)
            if got is None:
                continue
            res.count('numbers')
            if len(got) != 1 or got[0][1] != text:
                self.tell('number', 'in %s the number %s gives the tokens %s' % (self.lx.cls, text, shown(got)))
                continue
            kind = got[0][0]
            if kind not in results:
                results[kind] = self.value_of(kind)
            outs = results[kind]
            if outs is None:
                res.count('undecided')
                continue
            for fi, s, v in outs:
                h = holds(s, {LEXEME: text})
                if h is False:
                    continue
                if isinstance(v, Exc):
                    if h:
                        self.tell('number', 'the number %s cannot be converted' % text, fi, s)
                    continue
                try:
                    x = value(v, {LEXEME: text}, s)
                except Unknown:
                    # a conversion that fails for this text is a conversion error of the program as well
                    if fails(v, text):
                        self.tell('number', 'the number %s cannot be converted' % text, fi, s)
                    res.count('undecided')
                    continue
                res.count('values')
                if (x != want or type(x) is not type(want)) and h:
                    self.tell('number', 'in %s the number %s has the value %r instead of %r' % (self.parser, text, x, want), fi, s)

    def value_of(self, kind):
        """Results of the actions that take a number, with an unknown lexeme."""
        cid = need_class(self.repo, self.parser)
        tops = [h for h, r, fi in productions(self.repo, self.parser) if h == 'number'] or [h for h, r, fi in productions(self.repo, self.parser) if r == (kind,)]
        outs = []
        for top in dict.fromkeys(tops):
            trees = derivations(self.repo, self.parser, [kind], start=top)
            if len(trees) != 1:
                continue
            d = self.drv
            st = d.start().setfact(O('isinst', LEXEME, 'str'), True).setfact(O('truth', LEXEME), True)
            st, me = d.eng.alloc(st, d.ctx, d.node(), 'inst', cid, {})
            st = st.setvar('$script', 'me', me)
            for s, v in reduce_tree(d, st, me, trees[0], [LEXEME]):
                if not s.guess:
                    leaf = trees[0]
                    while not isinstance(leaf[1][0], int):
                        leaf = leaf[1][0]
                    outs.append((leaf[0], s, v))
        return outs or None

    # keywords -----------------------------------------------------------------
    def uses(self):
        cid = need_class(self.repo, self.parser)
        d = self.drv
        for w, kind in self.kinds.items():
            text = C(w)
            for h, r, fi in productions(self.repo, self.parser):
                if r != (kind,):
                    continue
                st, me = d.eng.alloc(d.start(), d.ctx, d.node(), 'inst', cid, {})
                st = st.setvar('$script', 'me', me)
                for s, v in reduce_tree(d, st, me, (fi, (0,)), [text]):
                    if s.guess or isinstance(v, Exc) or not is_c(v):
                        self.res.count('undecided-uses')
                        continue
                    self.res.count('keyword-uses')
                    ok = v == text or w in VALUES and v[2] is VALUES[w]
                    if not ok:
                        self.tell('keyword-use', 'in %s the word %s as %s stands for %r' % (self.parser, w, h, v[2]), fi, s)
            # as a value of its own
            if w in VALUES:
                for top in ('binding_object', 'argument', 'object', 'value'):
                    trees = derivations(self.repo, self.parser, [kind], start=top)
                    if len(trees) != 1:
                        continue
                    st, me = d.eng.alloc(d.start(), d.ctx, d.node(), 'inst', cid, {})
                    st = st.setvar('$script', 'me', me)
                    for s, v in reduce_tree(d, st, me, trees[0], [text]):
                        if s.guess or isinstance(v, Exc) or not is_c(v):
                            continue
                        self.res.count('keyword-uses')
                        if v[2] is not VALUES[w]:
                            self.tell('keyword-use', 'in %s the value %s is %r' % (self.parser, w, v[2]), trees[0][0], s)
        # a name stays what it is
        for h, r, fi in productions(self.repo, self.parser):
            if r == (self.name,):
                st, me = d.eng.alloc(d.start(), d.ctx, d.node(), 'inst', cid, {})
                st = st.setvar('$script', 'me', me).setfact(O('isinst', LEXEME, 'str'), True).setfact(O('truth', LEXEME), True)
                for s, v in reduce_tree(d, st, me, (fi, (0,)), [LEXEME]):
                    if s.guess or isinstance(v, Exc):
                        continue
                    if v[0] == 'r' and v[1] in s.heap and '$str' in s.heap[v[1]].data:
                        v = s.heap[v[1]].data['$str']
                    for w in ('name', 'tokens', 'True1', 'a-b'):
                        try:
                            x = value(v, {LEXEME: w}, s)
                        except Unknown:
                            self.res.count('undecided-uses')
                            continue
                        self.res.count('name-uses')
                        if isinstance(x, str) and x != w and holds(s, {LEXEME: w}):
                            self.tell('word', 'in %s the name %s becomes %s' % (self.parser, w, x), fi, s)

    # sequences ------------------------------------------------------------------
    def alone(self, text):
        if text not in self.single:
            self.single[text] = self.scan(text)
        return self.single[text]

    def sequences(self):
        self.single = {}
        res = self.res
        for op in OPERATORS + STRINGS + ('$1', '$20', '$x', '$token', '$_a1', '$True', '$x_y'):
            got = self.alone(op)
            if got is None:
                continue
            rule = 'variables' if op[0] == '$' else 'sequence'
            if len(got) != 1 or got[0][1] != op:
                self.tell(rule, 'in %s the text %s gives the tokens %s' % (self.lx.cls, op, shown(got)))
        ops = {}
        for op in OPERATORS + ('"a"', 'x9z', '5', '$1', '$x'):
            got = self.alone(op)
            if got and len(got) == 1:
                if got[0][0] in ops:
                    self.tell('sequence', 'in %s the texts %s and %s are not told apart' % (self.lx.cls, ops[got[0][0]], op))
                ops[got[0][0]] = op
        pool = ('x9z', self.keywords[0], 'True', '5', '-3', '1.5', '0x1f', '"a b"', '"a # b"', '$1', '$ab') + OPERATORS
        for seq in itertools.product(pool, repeat=2):
            self.one(seq, ' ', 'sequence')
            if seq[0] in OPERATORS or seq[1] in OPERATORS or seq[0][0] == '"' or seq[1][0] == '"':
                self.one(seq, '', 'sequence')
        few = ('x9z', self.keywords[0], '"a b"', '5', '(', ':', '$ab', ';')
        for sep in SEPARATORS:
            for seq in itertools.product(few, repeat=2):
                self.one(seq, sep, 'separators')
            for seq in itertools.product(('x9z', '"a"', ';'), repeat=3):
                self.one(seq, sep, 'separators')

    def one(self, seq, sep, rule):
        want = []
        for x in seq:
            a = self.alone(x)
            if a is None or len(a) != 1:
                return
            want += a
        text = sep.join(seq)
        got = self.scan(text)
        if got is None:
            return
        self.res.count(rule)
        if got != want:
            self.tell(rule, 'in %s the text %r gives the tokens %s instead of %s' % (self.lx.cls, text, shown(got), shown(want)))


def fails(v, text):
    if v[0] == 'o' and v[1] in ('int', 'float') and v[2] == LEXEME:
        try:
            (int if v[1] == 'int' else float)(text, *[x[2] for x in v[3:]])
        except ValueError:
            return True
        except Exception:
            return False
    return False


def shown(toks):
    return ' '.join('%s %r' % (k, v) if v is not None else 'error' for k, v in toks) or '(none)'
