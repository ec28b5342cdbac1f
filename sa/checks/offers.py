"""C45: a token with a fixed set of values offers, takes and gives exactly these."""

import itertools

from ..values import C, Exc
from ..cliclient import const, need_method
from ..drive import Drive, normal
from ..terms import value, Unknown
from .bounded_tokens import Numbers, is_null

NULL = '<no value>'


class Plain(Numbers):
    """Everything is known here: loops over the offers run to their end."""
    unroll = 80
    distinct = 80
    items_limit = 200
    merge_limit = 100


class Case:
    """One token: how it is made, the texts of its values, what each denotes, and the inputs tried."""

    def __init__(self, cls, args, values, texts, fold=False, limit=None, single=True):
        self.cls, self.args, self.values, self.texts = cls, args, values, texts
        self.fold, self.limit, self.single = fold, limit, single

    def begins(self, v, text):
        return v.lower().startswith(text.lower()) if self.fold else v.startswith(text)

    def same(self, v, text):
        return v.lower() == text.lower() if self.fold else v == text

    def remaining(self, text):
        return [v for v in self.values if self.begins(v, text)]

    def whole(self, text):
        return [v for v in self.values if self.same(v, text)]

    def show(self):
        return "%s(%s)" % (self.cls, ', '.join(repr(a) for a in self.args))


def prefixes(words, more=()):
    out = ['']
    for w in words:
        out += [w[:i] for i in range(1, len(w) + 1)]
    return list(dict.fromkeys(out + list(more)))


def words(cls, given, texts=None, args=None, more=()):
    vals = {w: w for w in given}
    return Case(cls, args if args is not None else ('name', list(given)), vals, texts or prefixes(vals, more))


def integers(lo, hi, limit, texts):
    return Case('RangedIntToken', ('name', lo, hi, limit), {str(i): i for i in range(min(lo, hi), max(lo, hi) + 1)}, texts, limit=limit, single=False)


def cases(tier):
    out = [words('CliToken', ['show'], args=('show',), more=['shown', 'x', 'Show', 'how']),
           words('AlternativeStringsToken', ['red', 'green', 'greenish', 'grey'], more=['greeny', 'x', 'Red', 'ed']),
           words('AlternativeStringsToken', ['one'], more=['oneone', 'x']),
           words('AlternativeStringsToken', ['a', 'ab', 'abc', 'b'], more=['abcd', 'c', 'ba'])]
    out.append(Case('BooleanToken', ('name',), {'True': True, 'False': False},
                    prefixes(['True', 'true', 'TRUE', 'False', 'false', 'fALSE'], ['Truex', 'x', 'rue', 'falsey', 'tf', '1', '0']), fold=True))
    few = [str(i) for i in (0, 1, 2, 3, 5, 6, 7, 9, 10, 11, 12, 15, 19, 20, 21, 29, 30, 95, 99, 100, 101, 105, 106, 110, 200, 1000)]
    few = ['', '-'] + few + ['-' + t for t in few if t != '0']
    ranges = [(0, 9), (0, 8), (0, 10), (5, 12), (-5, 5), (-12, -5), (1, 30), (95, 105), (-3, 0), (7, 7), (0, 0), (-1, -1), (10, 19), (9, 10), (12, 3), (99, 110), (1, 112), (95, 1002), (-112, -1), (-20, 905)]
    if tier == 'thorough':
        ranges += [(1, 60), (-30, -1), (-105, -95), (-7, 30), (8, 60), (100, 120), (95, 125), (-15, 15), (0, 1), (1, 1), (20, 5), (990, 1010)]
    limits = (3, 10, 70) if tier != 'thorough' else (1, 2, 3, 5, 9, 10, 11, 12, 20, 70)
    for (lo, hi), limit in itertools.product(ranges, limits):
        out.append(integers(lo, hi, limit, few))
    return out


def read(s, v):
    if isinstance(v, Exc):
        return 'exception ' + v.kind[1].split('.')[-1] if v.kind[0] == 'cls' else None
    if is_null(s, v):
        return NULL
    try:
        x = value(v, {}, s)
    except Unknown:
        return None
    return x


def judge_offers(case, text, got):
    """What is wrong with an answer of the completion routine, or None."""
    want = case.remaining(text)
    if not (isinstance(got, tuple) and len(got) == 2 and isinstance(got[1], (list, set, tuple))):
        return "the answer is %r" % (got,)
    n, offered = got
    offered = list(offered)
    if case.limit is not None and len(want) > min(case.limit, 10) and not offered:
        if n == -1 or n == len(want):
            return None
        return "it counts %s, but %d values begin so" % (n, len(want))
    if case.limit is not None and len(offered) > case.limit:
        return "it offers %d values, and at most %d are wanted" % (len(offered), case.limit)
    if any(not isinstance(x, str) for x in offered):
        return "it offers %r, which are not texts" % (offered[:5],)
    norm = (lambda x: x.lower()) if case.fold else (lambda x: x)
    if sorted(map(norm, offered)) != sorted(map(norm, want)):
        extra = [x for x in offered if norm(x) not in map(norm, want)]
        lost = [x for x in want if norm(x) not in map(norm, offered)]
        if extra:
            return "it offers %r, which is no value that begins so" % extra[0]
        if lost:
            return "it does not offer %r" % lost[0]
        return "it offers a value twice: %r" % (offered[:12],)
    if case.fold and any(not x.startswith(text) for x in offered):
        return "it offers %r, which changes what is typed" % (offered,)
    if n != len(want):
        return "it counts %s, but offers %d" % (n, len(want))
    return None


def judge_match(case, text, got, words_):
    fail, part, full = words_
    left, whole = case.remaining(text), case.whole(text)
    if got not in words_:
        return "the answer is %r" % (got,)
    if not left:
        return None if got == fail else "it gives %s, and no value begins so" % got
    if got == fail:
        return "it fails, though %r begins so" % left[0]
    if got == full and not whole and len(left) > 1:
        return "it is taken as complete, though %r and %r begin so" % (left[0], left[1])
    if got == part and whole and len(left) == 1:
        return "it is taken as unfinished, though it is the value"
    return None


def judge_value(case, text, got):
    left, whole = case.remaining(text), case.whole(text)
    if whole:
        want = case.values[whole[0]]
    elif len(left) == 1 and case.single:
        want = case.values[left[0]]
    elif len(left) == 1:
        return None
    else:
        want = NULL
    if got == want and type(got) == type(want):
        return None
    return "its value is %s, not %s" % (got if got == NULL else repr(got), want if want == NULL else repr(want))


def run_case(repo, res, case, outcomes):
    fi = need_method(repo, case.cls, 'complete')
    d = Drive(repo, Plain(repo), fi)
    d.eng.exact = True
    st = d.start()
    args = [make_tuple(a) if isinstance(a, list) else C(a) for a in case.args]
    for s, tok in normal(d.new(st, case.cls, *args)):
        for text in case.texts:
            for op in ('complete', 'match', 'get_value'):
                if op == 'get_value' and text == '':
                    continue
                answers = [(s2, v) for s2, v in d.call(s, tok, op, C(text))]
                res.count('answers')
                if not answers or s.guess or any(s2.guess for s2, _ in answers):
                    res.count('undecided')
                    continue
                verdicts = []
                for s2, v in answers:
                    x = read(s2, v)
                    if x is None:
                        verdicts.append(('?', None))
                    elif isinstance(x, str) and x.startswith('exception '):
                        verdicts.append(('bad', 'it ends with ' + x[10:]))
                    else:
                        w = judge_offers(case, text, x) if op == 'complete' else judge_match(case, text, x, outcomes) if op == 'match' else judge_value(case, text, x)
                        verdicts.append(('bad', w) if w else ('ok', None))
                kinds = {k for k, _ in verdicts}
                if kinds == {'bad'}:
                    rule = {'complete': 'offers', 'match': 'match', 'get_value': 'value'}[op]
                    mfi = need_method(repo, case.cls, op)
                    d.eng.report(rule, mfi.where, mfi.qual, "%s, input %r: %s" % (case.show(), text, verdicts[0][1]), answers[0][0])
                if kinds == {'ok'} or kinds == {'bad'}:
                    res.count('decided')
                else:
                    res.count('undecided')
    if d.eng.incomplete:
        res.count('undecided')
    res.absorb(d.eng)


def make_tuple(xs):
    return ('t', tuple(C(x) for x in xs))


def run(repo, res):
    res.rules = ['offers: the completion routine gives exactly the values that begin with the input, each once, and their number - or none when there are more than may be suggested',
                 'match: the match fails exactly when no value begins with the input, and is complete only for a value or when one remains',
                 'value: a value is given for each of its texts (and for the only one that remains), and none otherwise']
    res.explanation = ('The constructors and the completion, match and value routines of the tokens with a fixed set of values are evaluated by the abstract interpreter on a table of tokens and inputs '
                       '(every beginning of every value, inputs that go past a value, and neighbours of the ends of integer ranges with limits below, at and above the number of values); each answer is judged '
                       'against the set of values by the definition in the property.')
    res.assumptions = ['An answer the interpreter cannot determine leaves that input undecided.',
                       'Inputs are in the usual notation: no leading zeros and no negative zero. Tokens over the file system are not judged.']
    outcomes = tuple(const(repo, 'tokens', n)[2] for n in ('MATCH_FAILURE', 'MATCH_PARTIAL', 'MATCH_SUCCESS'))
    for case in cases(res.tier):
        run_case(repo, res, case, outcomes)
    res.need('decided', 300, 'answers decided')
