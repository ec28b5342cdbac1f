"""C11: bounded tokens give a value exactly for the input inside their bounds."""

import itertools
import re

from ..values import C, S, O, NONE, is_c, Exc, show
from ..cliclient import CliClient, const, need_method
from ..drive import Drive, normal
from ..state import mk_eq
from ..terms import compare, value, Unknown

A, B, TEXT = S('p', 'first_bound'), S('p', 'second_bound'), S('p', 'text')
NUM = ('int', 'float')
REJECT = object()


class Numbers(CliClient):
    """Reading a number fails or gives the number: both are remembered as a condition on the text."""
    merge_limit = 300
    items_limit = 32
    unroll = 12
    distinct = 12
    boundary = frozenset()
    boundary_raises = {}

    def is_opaque(self, eng, st, ctx, tgt):
        return False

    def on_call(self, eng, st, ctx, tgt, args, kwargs, node):
        name = tgt.name.split('.')[-1]
        if tgt.kind == 'ext' and name in NUM and len(args) == 1 and not kwargs:
            v = args[0]
            if v in (A, B):
                return [(st, v)]
            if is_c(v) or v[0] in ('r', 't', 'lin') or v[0] == 'o' and v[1] in NUM:
                return None
            f = O('fails', C(name), v)
            bad = st.assume(f, True)
            ok = st.assume(f, False)
            out = []
            if bad is not None:
                out.append((bad, Exc(('cls', 'builtins.ValueError'), None, getattr(node, 'lineno', 0))))
            if ok is not None:
                out.append((ok, O(name, v)))
            return out
        return None


class Token:
    """What is known about one kind of token: the texts tried and what each of them denotes."""

    def __init__(self, cls, bounds, texts, denotes, optional):
        self.cls, self.bounds, self.texts, self.denotes, self.optional = cls, bounds, texts, denotes, optional

    def size(self, x):
        return len(x) if isinstance(x, str) else x


def a_number(plain, conv):
    def denotes(text):
        return conv(text) if re.fullmatch(plain, text) else None
    return denotes


def loosely(conv):
    def f(text):
        try:
            return conv(text)
        except ValueError:
            return None
    return f


def quoted(text):
    if text.startswith('"'):
        text = text[1:]
        if text.endswith('"'):
            text = text[:-1]
    elif '"' in text:
        return None
    return text


INTS = ['0', '1', '2', '3', '4', '-0', '-1', '-2', '-3', '-4', '00', '03', '-02', '+1', '+9', ' 2', '1_0', '', '-', '+', '--1', '-x', 'x', '1x',
        '1.5', '2.0', '\u00b2', '\u00bd', '-\u00b2', '1 2', '9', '-9', '12', '-12', '"2"']
DECS = ['0', '1', '2', '3', '-1', '-2', '-3', '0.5', '-0.5', '1.5', '2.5', '-2.5', '3.25', '-3.25', '.5', '2.', '1e0', '1e9', '+1', 'inf', '-inf', '', '-',
        'x', '1.x', '1.2.3', '--1', '"1"', '9.75', '-9.75']
STRS = ['', 'a', 'ab', 'abc', 'abcd', 'abcde', '""', '"a"', '"ab"', '"abc"', '"abcd"', '"a b"', '"', '"a', '"ab', '"abc', '"abcd', '-', '12']

KINDS = [
    Token('RangedIntToken', (-3, -2, -1, 0, 1, 2, 3), INTS, a_number(r'-?[0-9]+', int), loosely(int)),
    Token('RangedDecimalToken', (-3.0, -2.5, -1.0, 0.0, 0.5, 2.0, 3.0), DECS, a_number(r'-?[0-9]+(\.[0-9]+)?', float), loosely(float)),
    Token('RangedStringToken', (0, 1, 2, 3, 4), STRS, quoted, quoted),
]


def scene(repo, kind):
    fi = need_method(repo, kind.cls, 'get_value')
    d = Drive(repo, Numbers(repo), fi)
    d.eng.exact = True
    st = d.start()
    for x in (A, B, TEXT):
        st = st.assume(mk_eq(x, NONE), False) or st
    st = st.setfact(O('isinst', TEXT, 'str'), True)
    num = 'float' if 'Decimal' in kind.cls else 'int'
    for x in (A, B):
        st = st.setfact(O('isinst', x, num), True)
    return d, st, fi


def run_kind(repo, res, kind):
    d, st, fi = scene(repo, kind)
    made = normal(d.new(st, kind.cls, C('name'), A, B))
    values, matches = [], []
    mfi = need_method(repo, kind.cls, 'match')
    for s, tok in made:
        values += [(s2, v) for s2, v in d.call(s, tok, 'get_value', TEXT)]
    res.count('value_paths', len(values))
    none = C('no value')
    outs = []
    for s, v in values:
        if not isinstance(v, Exc) and is_null(s, v):
            v = none
        outs.append((s, v))

    def want(w):
        a, b, text = w
        lo, hi = min(a, b), max(a, b)
        x = kind.denotes(text)
        inside = x is not None and lo <= kind.size(x) <= hi
        if x is not None:
            return (x,) if inside else ('no value',)
        y = kind.optional(text)
        return ('no value', y) if y is not None and lo <= kind.size(y) <= hi else ('no value',)

    domain = list(itertools.product(kind.bounds, kind.bounds, kind.texts))
    same = lambda got, exp: any(got == e and type(got) == type(e) for e in exp)
    diffs, stats = compare([o for o in outs if not o[0].guess], domain, env, want, same)
    res.count('inputs_decided', stats['elements'] - stats['undecided'])
    res.count('undecided', stats['undecided'])
    for (a, b, text), s, got, exp in diffs[:200]:
        d.eng.report('value-iff-in-bounds', fi.where, fi.qual,
                     "%s with bounds %s and %s: the value for the input %r is %s, not %s" % (kind.cls, a, b, text, word(got), ' or '.join(word(e) for e in exp)), s)
        break

    # whatever is inside the bounds is accepted
    fail = const(repo, 'tokens', 'MATCH_FAILURE')[2]
    d.eng.client.unroll = 0
    d.eng.client.merge_limit = 150
    for s, tok in made:
        matches += [(s2, v) for s2, v in d.call(s, tok, 'match', TEXT)]
    res.count('match_paths', len(matches))
    inside = [w for w in domain if kind.denotes(w[2]) is not None and 'no value' not in want(w)]
    accept = lambda got, exp: got != fail and not str(got).startswith('exception')
    diffs, stats = compare([o for o in matches if not o[0].guess], inside, env, lambda w: 'accepted', accept)
    res.count('matches_decided', stats['elements'] - stats['undecided'])
    res.count('undecided_matches', stats['undecided'])
    for (a, b, text), s, got, exp in diffs:
        d.eng.report('accepted-in-bounds', mfi.where, mfi.qual,
                     "%s with bounds %s and %s: the input %r is inside the bounds, matching it gives %s" % (kind.cls, a, b, text, got), s)
        break
    res.absorb(d.eng)


def word(x):
    return x if x == 'no value' or str(x).startswith('exception') else repr(x)


def env(w):
    return {A: w[0], B: w[1], TEXT: w[2]}


def is_null(s, v):
    """The value that stands for no value, as an object or by its name."""
    if v[0] == 's' and v[1:2] == ('glob',) and v[-1] == 'NullTokenValue':
        return True
    if v[0] == 'r' and v[1] in s.heap:
        o = s.heap[v[1]]
        return o.kind == 'inst' and str(o.cls).endswith('_NullTokenValue')
    return False


def run(repo, res):
    res.rules = ['value-iff-in-bounds: on every path of the value routine the result is the value of the text when it lies between the bounds and the no-value marker otherwise',
                 'accepted-in-bounds: no path of the matching routine refuses a text inside the bounds']
    res.explanation = ('The constructor, value and matching routines of the bounded tokens are interpreted once with unknown bounds and an unknown text; every path is '
                       'summarised by its conditions and its result over these unknowns. The summary is then compared with the definition of the property for every order '
                       'of bounds and number and every class of text (signs, zeros, leading zeros, non-numbers, quotes).')
    res.assumptions = ['Conditions that are not understood leave an input undecided.']
    for kind in KINDS:
        run_kind(repo, res, kind)
    res.need('inputs_decided', 200, 'inputs decided')
