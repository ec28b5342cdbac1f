"""C43: exactly the texts of the grammar language compile; every other text is refused with an error that names it."""

import itertools

from ..repo import Repo
from ..values import C, S, R, T, NONE, TRUE, FALSE, is_c, Exc, show
from ..lexers import TokenClient, Lexer
from ..cliclient import need_class, need_method
from ..drive import Drive
from ..productions import productions, derivations
from ..result import Anchor

PARSER, LEXER = 'NessaidCliParser', 'NessaidCliLexer'
BINDER, BLEXER = 'NessaidCliBindingParser', 'NessaidCliBindingLexer'
# errors that say something about the program, not about the text
INTERNAL = {'builtins.' + x for x in ('AttributeError', 'NameError', 'UnboundLocalError', 'TypeError', 'IndexError', 'KeyError', 'RecursionError',
                                      'LookupError', 'ZeroDivisionError', 'NotImplementedError', 'StopIteration', 'UnicodeError')}
WITNESS = '''
class SaToken:
    """a token of ply"""
    def __init__(self, type, value):
        self.type = type
        self.value = value
        self.lineno = 1
        self.lexpos = 0


class SaReduction:
    """what a grammar action is given"""
    def __init__(self, slice):
        self.slice = slice

    def __getitem__(self, n):
        return self.slice[n].value

    def __setitem__(self, n, value):
        self.slice[n].value = value

    def __len__(self):
        return len(self.slice)


class SaSyntax(Exception):
    pass
'''
# what ply's objects have besides
KNOWN = {'SaToken': {'lexer', 'endlineno', 'endlexpos'}, 'SaReduction': {'stack', 'lexer', 'parser', 'lineno', 'set_lineno', 'set_lexpos', 'linespan', 'lexpos', 'lexspan', 'error'}}
PLY = S('p', 'ply')
RESULT = S('p', 'what the text means')


class Refuse(TokenClient):
    merge_limit = 100
    closed_objects = True
    ply_gives = parser_gives = None

    def init_attr(self, eng, st, oid, cls, name):
        last = cls.split('.')[-1] if cls else ''
        if last in KNOWN and name not in KNOWN[last] and not name.startswith('__'):
            return Exc(('cls', 'builtins.AttributeError'), None, 0)
        f = getattr(super(), 'init_attr', None)
        return f(eng, st, oid, cls, name) if f else None

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        if self.parser_gives is not None:
            if tgt.kind == 'class' and tgt.val[1].split('.')[-1] == PARSER:
                return [(st, S('p', 'parser'))]
            if tgt.kind in ('meth', 'sym') and tgt.name and tgt.name.split('.')[-1] == 'parse':
                return [(st, v) for v in self.parser_gives]
        if self.ply_gives is not None and tgt.kind in ('meth', 'sym') and tgt.name and tgt.name.split('.')[-1] == 'parse' and tgt.recv == PLY:
            return [(st, v) for v in self.ply_gives]
        return super().on_call(eng, st, ctx, tgt, args, kwargs, node)


# -- the language, as its documentation has it ------------------------------------------
NAMES = ('IDENTIFIER', 'IMPORT', 'TOKEN', 'TRUE', 'FALSE', 'NONE')
BNAMES = ('IDENTIFIER', 'CALL', 'TRUE', 'FALSE', 'NONE')
BASIC = ('INTEGER', 'HEX_NUMBER', 'FLOAT', 'QUOTED_STR', 'TRUE', 'FALSE', 'NONE')
DOLLAR = ('DOLLAR_VAR_ID', 'DOLLAR_NUMBER_ID')
STRAY = {'LBRACKET', 'RBRACKET', 'OR', 'AND', 'COLON', 'LBRACE', 'RBRACE', 'MULTIPLY', 'ESCAPED_CHAR', 'QUOTED_STR'}


class No(Exception):
    pass


class Text:
    """Recursive descent; every choice is decided by the next tokens."""

    def __init__(self, kinds):
        self.k, self.i = list(kinds) + [None, None, None], 0

    def at(self, *kinds):
        return self.k[self.i] in kinds

    def eat(self, *kinds):
        if not self.at(*kinds):
            raise No
        self.i += 1

    def listed(self, one, end):
        """one, one, .. up to the end; may be empty"""
        if self.at(end):
            return
        one()
        while self.at('COMMA'):
            self.i += 1
            one()

    # grammars
    def grammar(self):
        while self.k[self.i] is not None:
            self.block()

    def block(self):
        if self.at('TOKEN') and self.k[self.i + 1] in NAMES:
            self.i += 1
            self.token_unit()
            while self.at('COMMA'):
                self.i += 1
                self.token_unit()
        else:
            self.eat(*NAMES)
            if self.at('LBRACKET'):
                self.i += 1
                self.listed(self.parameter, 'RBRACKET')
                self.eat('RBRACKET')
            self.eat('COLON')
            self.rule()
        self.eat('SEMICOLON')

    def token_unit(self):
        self.eat(*NAMES)
        if self.at(*NAMES):
            self.i += 1
            self.eat('LPAREN')
            self.listed(self.token_argument, 'RPAREN')
            self.eat('RPAREN')

    def token_argument(self):
        if self.at(*NAMES) and self.k[self.i + 1] == 'ASSIGN':
            self.i += 2
        self.eat(*BASIC)

    def parameter(self):
        self.eat('DOLLAR_VAR_ID')
        if self.at('ASSIGN'):
            self.i += 1
            self.eat('QUOTED_STR', 'DOLLAR_VAR_ID', 'INTEGER', 'HEX_NUMBER', 'FLOAT')

    def rule(self):
        self.unit()
        while self.at('OR'):
            self.i += 1
            self.unit()

    def actions(self):
        while self.at('OPEN_BINDING'):
            self.i += 1
            while self.at('BOUND_CONTENT', 'ESCAPED_CHAR'):
                self.i += 1
            self.eat('CLOSE_BINDING')

    def unit(self):
        self.actions()
        self.term()
        if self.at('COMMA'):
            while self.at('COMMA'):
                self.i += 1
                self.term()
        else:
            while not self.at('OR', 'RPAREN', 'RBRACE', 'SEMICOLON', 'COMMA', None):
                self.term()

    def term(self):
        if self.at('LPAREN', 'LBRACE'):
            end = 'RPAREN' if self.at('LPAREN') else 'RBRACE'
            self.i += 1
            self.rule()
            self.eat(end)
        elif self.at('QUOTED_STR'):
            self.i += 1
            self.help()
        else:
            self.eat(*NAMES)
            if self.at('LBRACKET'):
                self.i += 1
                self.listed(self.argument, 'RBRACKET')
                self.eat('RBRACKET')
            else:
                self.help()
        while self.at('MULTIPLY'):
            self.i += 1
            if self.at('LPAREN'):
                self.i += 1
                self.eat('INTEGER')
                if self.at('COLON'):
                    self.i += 1
                    self.eat('INTEGER')
                self.eat('RPAREN')
            else:
                self.eat('INTEGER')
        self.actions()

    def help(self):
        if self.at('COLON'):
            self.i += 1
            self.eat('QUOTED_STR')

    def argument(self):
        if self.at('DOLLAR_VAR_ID') and self.k[self.i + 1] == 'ASSIGN':
            self.i += 2
        self.eat(*(BASIC + DOLLAR))

    # actions
    def code(self):
        while self.k[self.i] is not None:
            if self.at('DOLLAR_VAR_ID'):
                self.i += 1
                self.eat('ASSIGN')
                self.operand()
            else:
                self.call()
            self.eat('SEMICOLON')

    def call(self):
        if self.at('CALL') and self.k[self.i + 1] != 'LPAREN':
            self.i += 1
        self.eat(*BNAMES)
        self.eat('LPAREN')
        self.listed(self.operand, 'RPAREN')
        self.eat('RPAREN')

    def operand(self):
        if self.at(*BNAMES) and (self.k[self.i + 1] == 'LPAREN' or self.at('CALL')):
            self.call()
        else:
            self.eat(*(BASIC + DOLLAR))


def belongs(kinds, code=False):
    t = Text(kinds)
    try:
        t.code() if code else t.grammar()
    except No:
        return False
    return t.k[t.i] is None


# -- texts: written ones, and one slip away from them --------------------------------------
SHORT = {':': 'COLON', ';': 'SEMICOLON', ',': 'COMMA', '|': 'OR', '&': 'AND', '(': 'LPAREN', ')': 'RPAREN', '{': 'LBRACE', '}': 'RBRACE', '[': 'LBRACKET',
         ']': 'RBRACKET', '*': 'MULTIPLY', '=': 'ASSIGN', '<<': 'OPEN_BINDING', '>>': 'CLOSE_BINDING', 'code': 'BOUND_CONTENT', 'esc': 'ESCAPED_CHAR',
         'a': 'IDENTIFIER', '"': 'QUOTED_STR', '1': 'INTEGER', '1.5': 'FLOAT', '0x1': 'HEX_NUMBER', '$a': 'DOLLAR_VAR_ID', '$1': 'DOLLAR_NUMBER_ID',
         'token': 'TOKEN', 'import': 'IMPORT', 'True': 'TRUE', 'False': 'FALSE', 'None': 'NONE', 'call': 'CALL'}
SPELT = {v: k for k, v in SHORT.items()}
SPELT['QUOTED_STR'] = '"a"'
GRAMMARS = ['', 'a : " ;', 'a : a " : " a : " ; a : a ;', 'token a , a a ( ) , a a ( " , a = 1 , 0x1 ) ;',
            'token a a ( True , a = None , 1.5 , False ) ; a : a ;', 'a [ ] : a [ ] ;', 'a [ $a , $a = " , $a = 1 ] : a ;', 'a [ $a = $a ] : a [ $a , $1 , $a = 1 , " ] ;',
            'a [ $a = 1.5 , $a = 0x1 ] : a [ True , $a = False , None ] " ;',
            'a : << code esc code >> a << >> << code >> a << esc >> ;', 'a : a | << code >> " a | ( a ) ;', 'a : a , a , { a | a } << code >> , a << code >> ;', 'a : a * 1 { a } * ( 1 ) ( a a ) * ( 1 : 1 ) ;',
            'a : ( ( a | a ) , a ) * 1 << code >> ;', 'a : a * 1 * 1 << code >> | { << code >> a , a << code >> } ;', 'a : True | import None False ; token : token ; token token ;',
            'a : << code >> << code >> ( a : " ) " : " ;', 'a : { { a } a } | a [ $1 ] * 1 << code >> , a ; a : a ;']
CODES = ['', '$a = $a ;', '$a = " ; $a = 1 ; $a = 0x1 ; $a = 1.5 ;', '$a = True ; $a = None ; a ( False ) ;', 'call a ( ) ; a ( ) ;', '$a = call a ( $1 ) ; $a = a ( $a , " ) ;',
         'call a ( a ( $1 ) , call a ( ) , 1 ) ;', '$a = $1 ; call True ( $a ) ; call ( ) ;']
PLACED = ('IDENTIFIER', 'QUOTED_STR', 'INTEGER', 'COLON', 'SEMICOLON', 'COMMA', 'OR', 'LPAREN', 'RPAREN', 'LBRACE', 'RBRACE', 'LBRACKET', 'RBRACKET', 'MULTIPLY',
          'ASSIGN', 'DOLLAR_VAR_ID', 'DOLLAR_NUMBER_ID', 'FLOAT', 'HEX_NUMBER', 'TOKEN', 'TRUE', 'AND', 'OPEN_BINDING', 'ESCAPED_CHAR')


def slips(kinds, extra):
    n = len(kinds)
    yield kinds
    for i in range(n):
        yield kinds[:i] + kinds[i + 1:]
        yield kinds[:i + 1] + kinds[i:]
        if i + 1 < n:
            yield kinds[:i] + [kinds[i + 1], kinds[i]] + kinds[i + 2:]
        yield kinds[:i]
        for m in (2, 3):
            yield kinds[:i + m] + kinds[i:]
            yield kinds[:i] + kinds[i + m:]
    for k in extra:
        for i in range(n + 1):
            yield kinds[:i] + [k] + kinds[i:]
            if i < n:
                yield kinds[:i] + [k] + kinds[i + 1:]


def read_so(kinds):
    """Can the lexer give these tokens?"""
    inside = last = None
    for k in kinds:
        if inside:
            if k not in ('BOUND_CONTENT', 'ESCAPED_CHAR', 'CLOSE_BINDING') or k == last == 'BOUND_CONTENT':
                return False
            inside = k != 'CLOSE_BINDING'
        elif k in ('BOUND_CONTENT', 'CLOSE_BINDING'):
            return False
        else:
            inside = k == 'OPEN_BINDING'
        last = k
    return True


def said(kinds):
    return ' '.join(SPELT.get(k, k) for k in kinds) or 'nothing'


class Check:
    def __init__(self, repo, res):
        self.repo, self.res = repo, res
        self.client = Refuse(repo)
        self.client.ply_gives = None
        self.d = Drive(repo, self.client, need_method(repo, 'GrammarSpecification', 'add_grammar'))
        self.cache = {}

    def tell(self, rule, fi, msg, st):
        self.d.eng.report(rule, fi.where, fi.qual, msg, st)

    def judge(self, fi, outs, what, silent=False):
        """Every outcome is an error that is no internal one -> True, False or None (not understood)"""
        verdict = True if outs else None
        for s, v in outs:
            if s.guess or isinstance(v, Exc) and v.kind[1].startswith('analysis.'):
                verdict = verdict and None
                continue
            if not isinstance(v, Exc):
                verdict = False
                if not silent:
                    self.tell('taken', fi, "%s is not refused" % what, s)
            elif v.kind[0] == 'cls' and v.kind[1] in INTERNAL:
                verdict = False
                if not silent:
                    self.tell('internal', fi, "%s ends with an internal error (%s) instead of an error about the text" % (what, v.kind[1].split('.')[-1]), s)
        self.res.count('outcomes_judged', len(outs))
        if verdict is None and not silent:
            self.res.count('undecided')
        return verdict

    def me(self, cls, lexer):
        d = self.d
        st = d.start()
        cid, lcid = need_class(self.repo, cls), need_class(self.repo, lexer)
        st, lx = d.eng.alloc(st, d.ctx, d.node(), 'inst', lcid, {'_lexer': S('p', 'plylexer'), '_lineno': C(1), '_size_till_last_newline': C(0),
                                                                  '_stdin': S('p', 'in'), '_stdout': S('p', 'out'), '_stderr': S('p', 'err')})
        s2, states = d.eng.new_list(st, d.ctx, d.node(), [])
        st = s2
        o = st.heap[lx[1]]
        st = st.setobj(lx[1], type(o)(o.kind, o.cls, dict(o.data, _lex_states=states)))
        data = {'_lexer': lx, '_parser': PLY, '_stdin': S('p', 'in'), '_stdout': S('p', 'out'), '_stderr': S('p', 'err'), '_filename': C('')}
        st, me = d.eng.alloc(st, d.ctx, d.node(), 'inst', cid, data)
        st = st.setvar('$script', 'me', me).setvar('$script', 'lx', lx)
        return st, me, lx

    def token(self, st, kind, value):
        return self.d.new(st, 'SaToken', C(kind), value)

    def text(self, st, name):
        v = S('p', name)
        from ..values import O
        from ..state import mk_eq
        st = st.setfact(O('isinst', v, 'str'), True)
        st = st.assume(mk_eq(O('type', v), ('k', 'builtins.str')), True) or st
        st = st.assume(v, True) or st
        return st, v

    # -- errors of the lexer and of the syntax
    def lexer_errors(self):
        for cls in (LEXER, BLEXER):
            lx = Lexer(self.repo, cls)
            states = ['INITIAL'] + list(lx.states)
            for s in states:
                self.res.count('lexer_states')
                if s not in lx.errorf:
                    own = [n for n in lx.odd if n.endswith('error')]
                    if not own and not lx.rules.get(s):
                        continue
                    self.res.count('undecided')
                    continue
                fi = lx.errorf[s]
                st, me, lxo = self.me(PARSER if cls == LEXER else BINDER, cls)
                st, v = self.text(st, 'rest')
                outs = []
                for s2, tok in self.token(st, 'error', v):
                    outs += self.d.func(s2, fi, lxo, tok) if not isinstance(tok, Exc) else []
                self.judge(fi, outs, "a character the lexer of %s does not know (state %s)" % ("actions" if cls == BLEXER else "grammars", s))

    def syntax_errors(self):
        for cls, lexer in ((PARSER, LEXER), (BINDER, BLEXER)):
            fi = need_method(self.repo, cls, 'p_error')
            st, me, _ = self.me(cls, lexer)
            what = "a misplaced token of %s" % ("an action" if cls == BINDER else "a grammar")
            s, v = self.text(st, 'lexeme')
            for s2, tok in self.token(s, 'IDENTIFIER', v):
                self.judge(fi, self.d.call(s2, me, 'p_error', tok), what)
            self.judge(fi, self.d.call(st, me, 'p_error', NONE), "the end of %s that is not finished" % ("an action" if cls == BINDER else "a grammar"))
            for h, r, f in productions(self.repo, cls):
                self.res.count('productions')
                if 'error' in r:
                    self.tell('recovers', f, "the rule %s : %s goes on after a syntax error" % (h, ' '.join(r)), st)

    # -- what becomes of the errors
    def passed_on(self):
        d = self.d
        boom = Exc(('cls', need_class(self.repo, 'SaSyntax')), None, 0)
        for cls, lexer in ((PARSER, LEXER),):
            fi = need_method(self.repo, cls, 'parse')
            self.client.ply_gives = [boom]
            st, me, _ = self.me(cls, lexer)
            self.judge(fi, d.call(st, me, 'parse', S('p', 'text')), "a text with a syntax error")
            self.client.ply_gives = [RESULT]
            for s, v in d.call(st, me, 'parse', S('p', 'text')):
                self.res.count('outcomes_judged')
                if not s.guess and not isinstance(v, Exc) and v != RESULT and is_c(v):
                    self.tell('lost', fi, "what the text means is not handed back", s)
                elif not s.guess and isinstance(v, Exc) and v.kind[0] == 'cls' and not v.kind[1].startswith('analysis.'):
                    self.tell('refused', fi, "a text of the language is refused (%s)" % v.kind[1].split('.')[-1], s)
        # the function users call
        fi = self.repo.func('compiler', 'compile_grammar')
        if fi is None:
            raise Anchor("compile_grammar not found")
        for gives in (boom, RESULT):
            self.client.parser_gives = [gives]
            st, text = self.text(d.start(), 'text')
            outs = d.func(st, fi, text)
            self.client.parser_gives = None
            if gives is boom:
                self.judge(fi, outs, "a text with a syntax error")
                continue
            for s, v in outs:
                self.res.count('outcomes_judged')
                if not s.guess and not isinstance(v, Exc) and v != RESULT and is_c(v):
                    self.tell('lost', fi, "what the text means is not handed back", s)
        # an action inside a grammar
        fi = need_method(self.repo, PARSER, 'compile_binding')
        st, me, _ = self.me(PARSER, LEXER)
        bst, b, _ = self.me(BINDER, BLEXER)
        bdata = bst.heap[b[1]].data
        cid, lcid = need_class(self.repo, BINDER), need_class(self.repo, BLEXER)
        lo = bst.heap[bdata['_lexer'][1]]
        st, bl = d.eng.alloc(st, d.ctx, d.node(), 'inst', lcid, {k: v for k, v in lo.data.items() if k != '_lex_states'})
        st, states = d.eng.new_list(st, d.ctx, d.node(), [])
        o = st.heap[bl[1]]
        st = st.setobj(bl[1], type(o)(o.kind, o.cls, dict(o.data, _lex_states=states)))
        st, b = d.eng.alloc(st, d.ctx, d.node(), 'inst', cid, dict(bdata, _lexer=bl))
        o = st.heap[me[1]]
        st = st.setobj(me[1], type(o)(o.kind, o.cls, dict(o.data, binding_parser=b, _binding_parser=b))).setvar('$script', 'b', b)
        st, code = self.text(st, 'code')
        for gives, what in ((boom, "an action with a syntax error"), (NONE, "an action that means nothing")):
            self.client.ply_gives = [gives]
            self.judge(fi, d.call(st, me, 'compile_binding', code), what)
        self.client.ply_gives = None

    # -- the language itself
    def reduction(self, st, rhs):
        d = self.d
        toks = []
        cur = [(st, [])]
        for i, k in enumerate(('head',) + tuple(rhs)):
            nxt = []
            for s, ts in cur:
                v = NONE
                if i:
                    s, v = self.text(s, 'part%d' % i)
                for s2, t in self.token(s, k, v):
                    if not isinstance(t, Exc):
                        nxt.append((s2, ts + [t]))
            cur = nxt
        for s, ts in cur:
            s, lst = d.eng.new_list(s, d.ctx, d.node(), ts)
            yield from d.new(s, 'SaReduction', lst)

    def refuses(self, cls, fi, rhs, silent=True):
        k = (fi.fid, rhs)
        if k not in self.cache:
            self.cache[k] = None
            st, me, _ = self.me(cls, LEXER if cls == PARSER else BLEXER)
            outs = []
            for s, t in self.reduction(st, rhs):
                if not isinstance(t, Exc):
                    outs += self.d.func(s, fi, me, t)
            self.cache[k] = (self.judge(fi, outs, "", True), outs)
        return self.cache[k]

    def nodes(self, tree, cls):
        """(function, symbols) of a derivation"""
        if isinstance(tree, int):
            return
        fi, ch = tree
        for h, r, f in self.prods[cls]:
            if f is fi and len(r) == len(ch):
                yield fi, r, tree
        for c in ch:
            yield from self.nodes(c, cls)

    def language(self, tier):
        self.prods = {c: productions(self.repo, c) for c in (PARSER, BINDER)}
        for cls, texts, code in ((PARSER, GRAMMARS, False), (BINDER, CODES, True)):
            seen = set()
            bad = {}
            for t in texts:
                kinds = [SHORT[x] for x in t.split()]
                if not belongs(kinds, code):
                    raise AssertionError(t)
                extra = [k for k in PLACED if not (code and k in STRAY | {'OPEN_BINDING', 'TOKEN'} and k != 'QUOTED_STR')] + (['CALL'] if code else [])
                if tier != 'thorough':
                    extra = extra[::3] if len(kinds) > 14 else extra
                for ks in slips(kinds, extra):
                    if tuple(ks) in seen:
                        continue
                    seen.add(tuple(ks))
                    if not code and not read_so(ks):
                        continue
                    self.one(cls, ks, code, bad)
            for (rule, fi), (n, ks) in sorted(bad.items(), key=lambda x: (x[0][0], x[0][1].where)):
                what = {'taken': "is not refused", 'refused': "is refused", 'internal': "ends with an internal error"}[rule]
                self.res.violate(rule, fi.where, fi.qual, "%s %s, though it %s a text of the language (and %d more)" % (
                    said(ks), what, "is" if rule == 'refused' else "is not", n - 1))

    def one(self, cls, ks, code, bad):
        res = self.res
        want = belongs(ks, code)
        if code and not want and self.stray(ks):
            res.count('stray_tokens_not_judged')
            return
        trees = derivations(self.repo, cls, ks)
        res.count('texts_compared')

        def add(rule, fi):
            n, k = bad.get((rule, fi), (0, ks))
            bad[(rule, fi)] = (n + 1, min(k, ks, key=len))
        top = need_method(self.repo, cls, 'parse')
        if want and not trees:
            add('refused', top)
        elif not want and trees:
            for tree in trees:
                verdicts = [self.refuses(cls, fi, r) for fi, r, _ in self.nodes(tree, cls) if self.suspect(fi)]
                if any(v[0] is True for v in verdicts if v):
                    continue
                intern = [(fi, o) for (fi, r, _), v in zip([x for x in self.nodes(tree, cls) if self.suspect(x[0])], verdicts) if v and v[0] is False
                          for o in v[1] if isinstance(o[1], Exc)]
                if any(v[0] is None for v in verdicts if v):
                    res.count('undecided')
                    return
                if intern:
                    add('internal', intern[0][0])
                else:
                    add('taken', self.blame(tree, top))
                return

    def suspect(self, fi):
        """Does the action end in an error for some text?"""
        return fi.name.startswith('p_unused') or any(x.__class__.__name__ == 'Raise' or getattr(getattr(x, 'func', None), 'attr', None) == 'p_error'
                                                     for x in __import__('ast').walk(fi.node))

    def blame(self, tree, top):
        return tree[0] if tree and not isinstance(tree, int) else top

    @staticmethod
    def stray(ks):
        """A statement that begins with a token actions skip"""
        start = True
        for k in ks:
            if start and k in STRAY:
                return True
            start = k == 'SEMICOLON'
        return False


def run(repo, res):
    res.rules = ['taken: a text outside the language is refused', 'refused: a text of the language is not', 'internal: the refusal is an error about the text, not an internal one',
                 'recovers: no rule goes on after a syntax error', 'lost: the result is handed back']
    res.explanation = ("The error handlers of both lexers (every state) and both parsers are followed for an unknown token and for the end of the text: all their paths have to end in an error that is not an "
                       "internal one; compile_grammar, parse and compile_binding are followed with a parser that fails. The rules of the grammar actions are read as a grammar, and its language is compared "
                       "with the one documented (a recogniser of its own) on well-formed texts and all texts one slip away from them; actions of rules that refuse are followed.")
    res.assumptions = ["ply accepts what the rules derive (its tables resolve the ambiguities without losing texts)", "texts are compared as token types; the lexer's rules are C30's and C16's",
                       "tokens that actions skip with a message (a stray bracket before a statement) are not judged"]
    rp = Repo(repo.root, {'sawitness': WITNESS})
    c = Check(rp, res)
    c.lexer_errors()
    c.syntax_errors()
    c.passed_on()
    c.language(res.tier)
    res.absorb(c.d.eng)
    res.need('outcomes_judged', 4, 'outcomes of texts that are refused')
    res.need('texts_compared', 100, 'texts of the language and around it')
