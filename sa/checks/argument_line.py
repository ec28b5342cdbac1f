"""C30: the line made from an argument list keeps the boundaries of the arguments."""

import itertools

from ..values import C, S, O, R, NONE, is_c, Exc, show
from ..cliclient import CliClient, keep, need_class, need_method
from ..drive import Drive
from ..state import Obj, mk_eq
from ..terms import compare

ARGS = [S('p', 'arg%d' % i) for i in range(3)]
TEXTS = ['word', 'two words', ' lead', 'trail ', 'a  b', '"quoted"', '"quoted words"', '-1', 'x=1,y', "it's so"]
FEW = ['word', 'two words', '"quoted words"', ' x ']


class Lines(CliClient):
    """The result of the routine is the line it hands to the one-shot execution."""
    merge_limit = 400
    items_limit = 32
    boundary = frozenset()
    boundary_raises = {}

    def is_opaque(self, eng, st, ctx, tgt):
        return False

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        last = tgt.name.split('.')[-1]
        if last in ('exec_line', 'execute_line'):
            line = args[0] if args else (kwargs or {}).get('line')
            if line is None:
                return None
            return [(st.setmon((st.mon or ()) + (line,)), S('p', 'status'))]
        return None


def split(line):
    """The tokens a line consists of: blanks separate, quotes keep together; None when a quote is left open."""
    out, cur, inside = [], None, False
    for c in line:
        if inside:
            cur += c
            if c == '"':
                inside = False
                out.append(cur)
                cur = None
        elif c == '"':
            if cur is not None:
                out.append(cur)
            cur, inside = c, True
        elif c == ' ':
            if cur is not None:
                out.append(cur)
                cur = None
        else:
            cur = (cur or '') + c
    if inside:
        return None
    return out + ([cur] if cur is not None else [])


def content(tok):
    return tok[1:-1] if len(tok) > 1 and tok[0] == tok[-1] == '"' else tok


def right(line, given):
    if not isinstance(line, str):
        return False
    toks = split(line)
    if toks is None or len(toks) != len(given):
        return False
    return all(content(t) == g if ' ' in g and not g.startswith('"') else t == g for t, g in zip(toks, given))


def run(repo, res):
    res.rules = ['one-token-each: on every path the line handed to the execution splits into exactly the arguments given, in order',
                 'executed-once: the line is handed to the execution once']
    res.explanation = ('The routine is interpreted with lists of up to three unknown arguments; every path gives a line as a term over the arguments, under conditions on them. The '
                       'summary is compared with the definition for every combination of kinds of argument: plain, with blanks inside, before or after, and already in quotes.')
    res.assumptions = ['Arguments that are blank, or contain quotes inside, backslashes, tabs or line ends are outside the property.']
    fi = need_method(repo, 'NessaidCmd', 'exec_args')
    cid = need_class(repo, 'NessaidCmd')
    for n in range(4):
        cl = Lines(repo)
        d = Drive(repo, cl, fi)
        d.eng.exact = True
        st = keep(d.start().setobj('self', Obj('inst', cid, {})).setmon(()), 'self')
        for a in ARGS[:n]:
            st = (st.assume(mk_eq(a, NONE), False) or st).setfact(O('isinst', a, 'str'), True)
        outs = []
        for s, v in d.call(st, R('self'), 'exec_args', *ARGS[:n]):
            if s.guess:
                res.count('undecided')
                continue
            if isinstance(v, Exc):
                continue
            res.count('paths')
            if len(s.mon) != 1:
                d.eng.report('executed-once', fi.where, fi.qual, 'a list of %d arguments is executed %s' % (n, 'never' if not s.mon else '%d times' % len(s.mon)), s)
                continue
            outs.append((s, s.mon[0]))
        texts = TEXTS if n < 3 else FEW
        domain = list(itertools.product(texts, repeat=n))
        diffs, stats = compare(outs, domain, lambda w: dict(zip(ARGS, w)), lambda w: w, right)
        res.count('argument_lists', stats['elements'] - stats['undecided'])
        res.count('undecided', stats['undecided'])
        for w, s, got, exp in diffs[:1]:
            d.eng.report('one-token-each', fi.where, fi.qual, 'the arguments %s are run as the line %r' % (list(w), got), s)
        res.absorb(d.eng)
    res.need('argument_lists', 2, 'argument lists')
