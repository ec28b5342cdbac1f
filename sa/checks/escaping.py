"""C16: writing a text as input and reading it back give the same text."""

import itertools
import re

from ..values import C, S, O, R, T, NONE, TRUE, FALSE, is_c, Exc, show, mentions, subst
from ..cliclient import CliClient
from ..drive import Drive
from ..result import Anchor
from ..state import Obj, mk_eq
from ..terms import holds, value, Unknown

PIECES = 5
TEXT = S('p', 'text')
ODD = {'\n': 'n', '\0': '0', '\r': 'r', '\t': 't', '\b': 'b', '\v': 'v', '\a': 'a', '"': '"', '\\': '\\'}


class Pieces(CliClient):
    """Splitting an unknown text gives any number of unknown pieces, up to a bound; what is done to a piece stays a term."""
    merge_limit = 400
    items_limit = 40
    boundary = frozenset()
    boundary_raises = {}

    def is_opaque(self, eng, st, ctx, tgt):
        return False

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        last = tgt.name.split('.')[-1]
        if tgt.kind == 'class' and args and text_class(eng.repo, tgt.val[1]):
            st, ref = eng.alloc(st, ctx, node, 'inst', tgt.val[1], {'$str': args[0], **kwargs})
            return [(st, ref)]
        if tgt.kind == 'meth' and tgt.recv is not None and tgt.recv[0] in ('s', 'o') and not kwargs:
            if last in ('replace', 'strip', 'lstrip', 'rstrip', 'lower', 'upper', 'removeprefix', 'removesuffix') and all(is_c(a) for a in args):
                return [(st, O(last, tgt.recv, *args))]
            if last == 'split' and len(args) == 1 and is_c(args[0]):
                k = O('split', tgt.recv, args[0])
                outs = []
                for n in range(1, PIECES + 1):
                    a = st.setfact(O('pieces', k, C(n)), True)
                    a, l = eng.new_list(a, ctx, node, [S('p', 'piece', i, k) for i in range(n)])
                    outs.append((a, l))
                return outs
        return None


def text_class(repo, cid):
    """A class of texts that carry marks."""
    ci = repo.classes.get(cid)
    return ci is not None and any(getattr(b, 'id', None) == 'str' for b in ci.node.bases)


def kind_flag(d, st, flag, part):
    """The text read carries the marks of the tokenizer."""
    for name, t in (('quoted', flag), ('quote_incomplete', part)):
        st = st.setfact(O('truth', O('attr', TEXT, name)), t).setfact(O('hasattr', TEXT, C(name)), True)
        st = st.assume(mk_eq(O('attr', TEXT, name), C(t)), True) or st
    return st


def summary(repo, res, fi, marks):
    """[(State, result term, quoted?)] of a conversion."""
    d = Drive(repo, Pieces(repo), fi)
    d.eng.exact = True
    st = d.start()
    st = (st.assume(mk_eq(TEXT, NONE), False) or st).setfact(O('isinst', TEXT, 'str'), True)
    if marks is not None:
        st = kind_flag(d, st, *marks)
    outs = []
    args = [TEXT] + [NONE] * (len(fi.params) - 1 - len(fi.node.args.defaults))
    for s, v in d.func(st, fi, *args):
        if isinstance(v, Exc) or s.guess:
            res.count('undecided')
            continue
        q = None
        if v[0] == 'r' and v[1] in s.heap and s.heap[v[1]].kind == 'inst':
            o = s.heap[v[1]]
            q = o.data.get('quoted')
            q = q[2] if q is not None and is_c(q) else None
            v = s.heap[v[1]].data.get('$str', v)
        outs.append((s, v, bool(q)))
    res.count('paths', len(outs))
    return d, outs


CLI = S('p', 'cli')


class Remembering(Pieces):
    """What is handed to the shell's memory of converted texts."""

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        if tgt.recv is not None and tgt.recv != CLI and not mentions(tgt.recv, CLI):
            return super().on_call(eng, st, ctx, tgt, args, kwargs, node)
        if tgt.kind == 'meth' and len(args) == 2 and not kwargs:
            return [(st.setvar('$kept', 'pair', ('t', tuple(args))), NONE)]
        return super().on_call(eng, st, ctx, tgt, args, kwargs, node)


def keys_of(t, out):
    """Keys with which a result was looked up in something of the shell."""
    if isinstance(t, tuple):
        if t[:2] == ('o', 'item') and len(t) == 4 and mentions(t[2], CLI):
            out.add(t[3])
        elif t[:2] == ('o', 'call') and mentions(t[2], CLI) and len(t) > 3:
            out.add(t[3])


def remembered(repo, res, fi):
    """([(State, key)] looked up, [(State, key, text)] stored)"""
    d = Drive(repo, Remembering(repo), fi)
    st = d.start()
    st = (st.assume(mk_eq(TEXT, NONE), False) or st).setfact(O('isinst', TEXT, 'str'), True)
    st = (st.assume(mk_eq(CLI, NONE), False) or st).setfact(O('truth', CLI), True)
    for name in ('quoted', 'quote_incomplete'):
        st = st.setfact(O('hasattr', TEXT, C(name)), True)
    looked, kept = [], []
    for s, v in d.func(st, fi, TEXT, CLI):
        if isinstance(v, Exc) or s.guess:
            continue
        found = set()
        keys_of(v, found)
        looked += [(s, k) for k in found]
        p = s.frames.get('$kept', {}).get('pair') if not found else None
        if p is not None and p[0] == 't':
            kept.append((s, p[1][0], p[1][1]))
    res.count('keys', len(looked) + len(kept))
    return d, looked, kept


def one_value(items, env, what):
    got = set()
    for it in items:
        s = it[0]
        h = holds_but(s, env)
        if h is False:
            continue
        if h is None:
            return None
        try:
            got.add(what(it, s))
        except Unknown:
            return None
    return got.pop() if len(got) == 1 else None


def holds_but(s, env):
    """The conditions of a path, apart from those on the memory itself."""
    t = s.copy()
    t.facts = {a: v for a, v in s.facts.items() if not mentions(a, CLI)}
    return holds(t, Env(env, t))


class Env(dict):
    """Values of the parameters; pieces and their number follow from the text they are cut from."""

    def __init__(self, base, st):
        super().__init__(base)
        self.st = st

    def __contains__(self, t):
        return t[:3] == ('s', 'p', 'piece') or t[:2] == ('o', 'pieces') or dict.__contains__(self, t)

    def __getitem__(self, t):
        if dict.__contains__(self, t):
            return dict.__getitem__(self, t)
        of = t[4] if t[0] == 's' else t[2]
        parts = value(of[2], self, self.st).split(value(of[3], self, self.st))
        if t[0] == 'o':
            return len(parts) == t[3][2]
        if t[3] >= len(parts):
            raise Unknown
        return parts[t[3]]


def evaluate(t, env, s):
    return value(t, Env(env, s), s)


def convert(outs, env):
    """(text, quoted?, State) or None when not decided."""
    got = []
    for s, v, q in outs:
        h = holds(s, Env(env, s))
        if h is False:
            continue
        if h is None:
            return None
        try:
            got.append((evaluate(v, env, s), q, s))
        except Unknown:
            return None
    return got[0] if len({g[:2] for g in got}) == 1 else None


def reading_env(text, quoted, part):
    return {TEXT: text, O('attr', TEXT, 'quoted'): quoted, O('attr', TEXT, 'quote_incomplete'): part,
            O('truth', O('attr', TEXT, 'quoted')): quoted, O('truth', O('attr', TEXT, 'quote_incomplete')): part, O('hasattr', TEXT, C('quoted')): True,
            O('hasattr', TEXT, C('quote_incomplete')): True}


def texts(n):
    letters = sorted(set(ODD) | set(ODD.values()) | {' ', 'x', '-'})
    small = [c for c in letters if c in '\\"nx \n\t']
    for k in range(n):
        yield from (''.join(w) for w in itertools.product(letters, repeat=k))
    yield from (''.join(w) for w in itertools.product(small, repeat=n))


def word_rules(repo):
    """Regular expressions of the tokenizer's words, read from the source."""
    out = {}
    for name in ('TEXT', 'QUOTED_STR'):
        fi = repo.method('NessaidCliTokenizerLexer', 't_' + name)
        if fi is None:
            return None
        import ast
        doc = ast.get_docstring(fi.node, clean=False)
        try:
            out[name] = re.compile(doc, re.VERBOSE)
        except (re.error, TypeError):
            return None
    return out


def run(repo, res):
    res.rules = ['round-trip: reading back what writing gives yields the text', 'readable: what is written is one word of the tokenizer',
                 'escapes-read: every escape of a quoted text is read as the character it stands for',
                 'remembered: a remembered conversion is only used for a text it is right for']
    res.explanation = ('Both conversions are interpreted with an unknown text; every path gives its conditions and its result as a chain of replacements on the pieces the text is split '
                       'into. The two chains are composed and compared with the identity for every combination of up to three characters, two of which are arbitrary characters that '
                       'mean something to either conversion; a replacement looks at no more than two neighbouring characters, so longer texts add nothing new.')
    res.assumptions = ['Texts that begin or end with a quotation mark are taken as written in quotes already, as documented for words of a grammar.',
                       'Replacements are applied piece by piece in the order of the source.']
    write = repo.func('utils', 'convert_to_cli_string')
    read = repo.func('utils', 'convert_to_python_string')
    if write is None or read is None:
        raise Anchor('conversion functions not found')
    dw, wouts = summary(repo, res, write, None)
    dr, routs = summary(repo, res, read, (True, False))
    dp, pouts = summary(repo, res, read, (False, False))
    di, iouts = summary(repo, res, read, (True, True))
    rules = word_rules(repo)
    n = 3 if res.tier == 'quick' else 4
    for text in texts(n):
        if text[:1] == '"' or text[-1:] == '"':
            continue
        w = convert(wouts, {TEXT: text})
        if w is None:
            res.count('undecided')
            continue
        cli, quoted, s = w
        back = convert(routs if quoted else pouts, reading_env(cli, quoted, False))
        if back is None:
            res.count('undecided')
            continue
        res.count('texts')
        if back[0] != text:
            dw.eng.report('round-trip', write.where, write.qual, 'the text %r is written as %r%s, which reads as %r' % (text, cli, ' in quotes' if quoted else '', back[0]), s)
            break
        if rules and text and not rules['QUOTED_STR' if quoted else 'TEXT'].fullmatch(cli):
            dw.eng.report('readable', write.where, write.qual, 'the text %r is written as %r, which the tokenizer does not take as one word' % (text, cli), s)
            break
    for c, x in sorted(ODD.items()):
        for before, after in itertools.product(('', 'x', '\\\\', '\\"', '\\n'), repeat=2):
            inner = before + '\\' + x + after
            want = unescape(inner)
            for outs, d, cli, part in ((routs, dr, '"%s"' % inner, False), (iouts, di, '"' + inner, True)):
                got = convert(outs, reading_env(cli, True, part))
                if got is None:
                    res.count('undecided')
                    continue
                res.count('escapes')
                if got[0] != want:
                    d.eng.report('escapes-read', read.where, read.qual, 'the input %s reads as %r, not %r' % (cli, got[0], want), got[2])
    dm, looked, kept = remembered(repo, res, read)
    marks = {(True, False): routs, (False, False): pouts, (True, True): iouts}
    facts = []
    for text in ('a', '"a', '"a"', 'a\\n', '"a\\n', '"a\\n"', '"b"', '"a\\\\n"'):
        for m, outs in marks.items():
            env = reading_env(text, *m)
            want = convert(outs, env)
            key = one_value(looked, env, lambda it, s: evaluate(it[1], env, s))
            put = one_value(kept, env, lambda it, s: (evaluate(it[1], env, s), evaluate(it[2], env, s)))
            if want is None or key is None or put is None:
                res.count('undecided-keys')
                continue
            facts.append((text, m, want[0], key, put))
    res.count('remembered', len(facts))
    for a, b in itertools.product(facts, repeat=2):
        if a[3] == b[4][0] and a[2] != b[4][1]:
            dm.eng.report('remembered', read.where, read.qual, 'the text %s %s is answered with what was remembered for %s %s: %r instead of %r' % (
                a[0], word(a[1]), b[0], word(b[1]), b[4][1], a[2]), looked[0][0])
            break
    for d in (dw, dr, dp, di, dm):
        res.absorb(d.eng)
    res.need('texts', 1, 'texts')


def word(m):
    return {(True, False): '(in quotes)', (True, True): '(in quotes, not closed)'}.get(m, '(as is)')


def unescape(inner):
    back = {x: c for c, x in ODD.items()}
    out, i = '', 0
    while i < len(inner):
        if inner[i] == '\\':
            out += back[inner[i + 1]]
            i += 2
        else:
            out += inner[i]
            i += 1
    return out
