"""A ply lexer as data: its rules in the order ply tries them, and what each rule's action does with a token.

ply joins the rules of a state to one alternation: first the functions in the order of their lines, then the
plain strings, longest expression first; at a position the first alternative that matches is taken."""

import ast
import re
import re._parser as sre

from .values import C, S, NONE, is_c, Exc
from .cliclient import CliClient, need_class
from .drive import Drive
from .result import Anchor
from .terms import value, holds, Unknown

LEXEME = S('p', 'lexeme')
LEXPOS = S('p', 'lexpos')
UNSURE = object()


class Rule:
    def __init__(self, name, kind, regex, fi=None):
        self.name = name          # attribute of the class
        self.kind = kind          # token type
        self.text = regex
        self.regex = re.compile(regex, re.VERBOSE)
        self.fi = fi
        self.paths = None


class TokenClient(CliClient):
    """Classes of texts with marks keep the text they were made of."""
    merge_limit = 400
    items_limit = 40
    boundary = frozenset()
    boundary_raises = {}

    def is_opaque(self, eng, st, ctx, tgt):
        return False

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        if tgt.kind == 'class' and args and text_class(eng.repo, tgt.val[1]):
            st, ref = eng.alloc(st, ctx, node, 'inst', tgt.val[1], {'$str': eng.text_of(st, args[0])})
            m = eng.repo.find_member(tgt.val[1], '__init__')
            if m is None or m[0] != 'method':
                return [(st, ref)]
            st = st.setvar(ctx.frame, '$text', ref)
            return [(a, v if isinstance(v, Exc) else ref) for a, v in eng.invoke(('b', ref, m[1]), args, kwargs, st, ctx, node)]
        return None


def text_class(repo, cid):
    """Is it a class of texts (a subclass of str)?"""
    for c in repo.mro(cid):
        ci = repo.classes.get(c)
        if ci is not None and any(getattr(b, 'id', None) == 'str' for b in ci.node.bases):
            return True
    return False


def constant(repo, mod, node, cls=None, depth=0):
    """Value of a constant expression of a class body or module."""
    if depth > 6 or node is None:
        raise Unknown
    if isinstance(node, ast.Constant):
        return node.value
    if isinstance(node, (ast.Tuple, ast.List)):
        return tuple(constant(repo, mod, e, cls, depth + 1) for e in node.elts)
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.Add):
        return constant(repo, mod, node.left, cls, depth + 1) + constant(repo, mod, node.right, cls, depth + 1)
    if isinstance(node, ast.Dict) and all(k is not None for k in node.keys):
        return {constant(repo, mod, k, cls, depth + 1): constant(repo, mod, v, cls, depth + 1) for k, v in zip(node.keys, node.values)}
    if isinstance(node, ast.Name):
        if cls is not None:
            m = repo.find_member(cls, node.id)
            if m is not None and m[0] == 'attr':
                return constant(repo, m[1], m[2], cls, depth + 1)
        for st in mod.tree.body:
            if isinstance(st, ast.Assign) and any(isinstance(t, ast.Name) and t.id == node.id for t in st.targets):
                return constant(repo, mod, st.value, cls, depth + 1)
    if isinstance(node, ast.Attribute) and isinstance(node.value, ast.Name):
        for cid, ci in repo.classes.items():
            if ci.name == node.value.id:
                m = repo.find_member(cid, node.attr)
                if m is not None and m[0] == 'attr':
                    return constant(repo, m[1], m[2], cid, depth + 1)
                if m is not None and m[0] == 'method':
                    return repo.funcs[m[1]]
    raise Unknown


class Lexer:
    def __init__(self, repo, cls):
        self.repo = repo
        self.cls = cls
        self.cid = need_class(repo, cls)
        self.odd = []
        states = self.const('states', ())
        self.states = {n: k for n, k in states} if states else {}
        self.tokens = self.const('tokens', ())
        self.literals = self.const('literals', '')
        self.ignore, self.errorf, funcs, strings = {}, {}, {}, {}
        for name in sorted(self.names()):
            sts, kind = self.split(name)
            m = repo.find_member(self.cid, name)
            v = None
            try:
                if m[0] == 'method':
                    v = repo.funcs[m[1]]
                elif m[0] == 'attr':
                    v = constant(repo, m[1], m[2], self.cid)
            except Unknown:
                pass
            if v is None:
                self.odd.append(name)
                continue
            for s in sts:
                if isinstance(v, str):
                    if kind == 'ignore':
                        self.ignore[s] = v
                    else:
                        strings.setdefault(s, []).append((name, kind, v))
                elif kind == 'error':
                    self.errorf[s] = v
                elif kind != 'eof':
                    funcs.setdefault(s, []).append((name, kind, v))
        self.rules = {}
        for s in ['INITIAL'] + list(self.states):
            lst = []
            fs = sorted(funcs.get(s, []), key=lambda x: x[2].node.lineno if not x[2].node.decorator_list else x[2].node.decorator_list[0].lineno)
            for name, kind, fi in fs:
                doc = ast.get_docstring(fi.node, clean=False)
                for d in fi.node.decorator_list:
                    if isinstance(d, ast.Call) and getattr(d.func, 'id', getattr(d.func, 'attr', '')) == 'TOKEN' and d.args:
                        try:
                            doc = constant(repo, fi.module, d.args[0], self.cid)
                        except Unknown:
                            doc = None
                self.add(lst, name, kind, doc, fi)
            for name, kind, text in sorted(strings.get(s, []), key=lambda x: -len(x[2])):
                self.add(lst, name, kind, text, None)
            self.rules[s] = lst

    def add(self, lst, name, kind, text, fi):
        try:
            lst.append(Rule(name, kind, text, fi))
        except (re.error, TypeError):
            self.odd.append(name)

    def names(self):
        out = set()
        for c in self.repo.mro(self.cid):
            ci = self.repo.classes.get(c)
            if ci is not None:
                out |= {n for n in list(ci.methods) + list(ci.attrs) if n.startswith('t_')}
        return out

    def const(self, name, default):
        m = self.repo.find_member(self.cid, name)
        if m is None:
            return default
        try:
            return constant(self.repo, m[1], m[2], self.cid)
        except (Unknown, TypeError):
            self.odd.append(name)
            return default

    def split(self, name):
        parts = name.split('_')
        i = 1
        while i < len(parts) and (parts[i] in self.states or parts[i] in ('ANY', 'INITIAL')):
            i += 1
        sts = tuple(parts[1:i]) or ('INITIAL',)
        if 'ANY' in sts:
            sts = ('INITIAL',) + tuple(self.states)
        return sts, '_'.join(parts[i:])

    # -- actions -------------------------------------------------------------
    def token(self, d, st, kind):
        return d.eng.alloc(st, d.ctx, d.node(), 'inst', '$token', {'value': LEXEME, 'type': C(kind), 'lexpos': LEXPOS,
                                                                   'lineno': S('p', 'lineno'), 'lexer': S('p', 'lexer')})

    def summarise(self, rule, res):
        """[(State, verdict, token data)]: verdict is 'token', 'drop', 'raise' or UNSURE."""
        if rule.paths is not None:
            return rule.paths
        rule.drive = d = Drive(self.repo, TokenClient(self.repo), rule.fi)
        d.eng.exact = True
        st = d.start()
        st = st.setfact(('o', 'isinst', LEXEME, 'str'), True).setfact(('o', 'truth', LEXEME), True)
        st, tok = self.token(d, st, rule.kind)
        st = st.setvar('$script', 'tok', tok)
        st, me = d.eng.alloc(st, d.ctx, d.node(), 'inst', self.cid, {})
        st = st.setvar('$script', 'me', me)
        out = []
        for s, v in d.guard(lambda: d.eng.invoke(('b', me, rule.fi.fid), [tok], {}, st, d.ctx, d.node(), run=True)):
            if isinstance(v, Exc):
                out.append((s, 'raise', v))
            elif s.guess:
                out.append((s, UNSURE, None))
            elif v == NONE or is_c(v) and not v[2]:
                out.append((s, 'drop', None))
            elif v[0] == 'r' and v[1] in s.heap and s.heap[v[1]].cls == '$token':
                out.append((s, 'token', dict(s.heap[v[1]].data)))
            else:
                out.append((s, UNSURE, None))
        if d.eng.incomplete:
            out.append((st, UNSURE, None))
        rule.paths = out
        res.count('paths', len(out))
        return out

    def act(self, rule, text, res):
        """What becomes of a lexeme: ('token', type, value text, marks, State) | ('drop',) | ('raise',) | UNSURE"""
        if rule.fi is None:
            return ('drop',) if rule.kind.startswith('ignore_') else ('token', rule.kind, text, {}, None)
        got = []
        for s, verdict, data in self.summarise(rule, res):
            env = {LEXEME: text}
            h = holds(s, env)
            if h is False:
                continue
            if h is None or verdict is UNSURE:
                return UNSURE
            if verdict != 'token':
                got.append((verdict,))
                continue
            try:
                v, marks = data['value'], {}
                if v[0] == 'r' and v[1] in s.heap and s.heap[v[1]].kind == 'inst':
                    fields = s.heap[v[1]].data
                    for k, x in fields.items():
                        if k == '$str':
                            continue
                        try:
                            marks[k] = 'at' if x == LEXPOS else value(x, env, s)
                        except Unknown:
                            marks[k] = UNSURE
                    v = fields.get('$str', v)
                got.append(('token', value(data['type'], env, s), value(v, env, s), marks, s))
            except (Unknown, KeyError):
                return UNSURE
        if not got or any(g[:4] != got[0][:4] for g in got):
            return UNSURE
        return got[0]

    def scan(self, line, res, state='INITIAL'):
        """(tokens, ok): ok is 'end', 'error' (nothing matches), or 'unsure'; tokens are (type, value, marks, start, rule)."""
        pos, out = 0, []
        ign = self.ignore.get(state, '')
        while pos < len(line):
            if line[pos] in ign:
                pos += 1
                continue
            for r in self.rules[state]:
                m = r.regex.match(line, pos)
                if m:
                    break
            else:
                if line[pos] in self.literals:
                    out.append((line[pos], line[pos], {}, pos, None))
                    pos += 1
                    continue
                return out, 'error'
            if m.end() == pos:
                return out, 'unsure'
            a = self.act(r, m.group(), res)
            if a is UNSURE or a[0] == 'raise':
                return out, 'unsure' if a is UNSURE else 'error'
            if a[0] == 'token':
                out.append((a[1], a[2], a[3], pos, r))
            pos = m.end()
        return out, 'end'


def sets_of(text):
    """Character tests of an expression, as predicates."""
    out = []

    def walk(p):
        for op, av in p:
            n = str(op)
            if n == 'LITERAL' or n == 'NOT_LITERAL':
                out.append(chr(av))
            elif n == 'IN':
                for o, a in av:
                    if str(o) == 'LITERAL':
                        out.append(chr(a))
                    elif str(o) == 'RANGE':
                        out.append((chr(a[0]), chr(a[1])))
                    elif str(o) == 'CATEGORY':
                        out.append(('cat', str(a)))
            elif n == 'SUBPATTERN':
                walk(av[-1])
            elif n == 'BRANCH':
                for b in av[1]:
                    walk(b)
            elif n in ('MAX_REPEAT', 'MIN_REPEAT', 'POSSESSIVE_REPEAT'):
                walk(av[2])
            elif n in ('ASSERT', 'ASSERT_NOT'):
                walk(av[1])
    walk(sre.parse(text, re.VERBOSE))
    return out


CATS = {'CATEGORY_DIGIT': str.isdigit, 'CATEGORY_SPACE': str.isspace, 'CATEGORY_WORD': lambda c: c.isalnum() or c == '_'}


def classes(texts, extra=()):
    """One character for every class of characters the expressions (and the extra tests) tell apart."""
    tests = []
    for t in texts:
        for x in sets_of(t):
            if isinstance(x, str):
                tests.append(lambda c, x=x: c == x)
            elif x[0] == 'cat':
                f = CATS.get(x[1].replace('NOT_', ''))
                if f:
                    tests.append(f)
            else:
                tests.append(lambda c, x=x: x[0] <= c <= x[1])
    tests += list(extra)
    seen = {}
    for c in [chr(i) for i in range(0x21, 0x7f)] + [chr(i) for i in range(0x21)] + ['\x7f', '\xa0', 'é', '中', '\U0001f600']:
        seen.setdefault(tuple(bool(f(c)) for f in tests), c)
    return list(seen.values())
